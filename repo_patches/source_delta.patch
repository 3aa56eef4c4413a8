From 8ff547aaca08fd23aec92429769a7ea6b1263f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 01/28] fix: evaluate the day-of-week field on the weekday, not
 on the minute

---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..0e21f45 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.weekday().number_from_sunday() as u8, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From ea885e6411dcf8d5c51f747482722a895f9f981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 02/28] fix: end a bounded cron iterator at its upper limit

---
 crond/src/cron_interval_iterator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..b6a7aab 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -41,8 +41,8 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
         Some(curr)
       }
       Some(end) => {
+        self.proceed_next();
         if end >= self.curr {
-          self.proceed_next();
           let curr: DateTime<Tz> = self.curr.clone();
           Some(curr)
         } else {
@@ -77,7 +77,10 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
   }
 
   fn proceed_next(&mut self) {
-    while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+    let end = self.end_value();
+    while end.as_ref().map_or(true, |end| *end >= self.curr)
+      && !self.cron_interval.cron_specification.is_satisfied_by(&self.curr)
+    {
       self.curr = self.next.clone();
       self.next = self.next.clone() + Duration::minutes(1);
     }
-- 
2.43.0


From 5f81137c18b7f85b230a793e391b4681d82cc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 03/28] fix: reject a cron step of zero instead of panicking
 during evaluation

---
 crond/src/cron_parser.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crond/src/cron_parser.rs b/crond/src/cron_parser.rs
index a024b7e..960f769 100644
--- a/crond/src/cron_parser.rs
+++ b/crond/src/cron_parser.rs
@@ -134,7 +134,27 @@ impl CronParser {
   pub fn parse<'a>(input: &str) -> Result<CronExpr, String> {
     let input = input.chars().collect::<Vec<_>>();
     let x = (instruction() - end()).parse(&input).to_result();
-    x.map_err(|e| e.to_string())
+    let expr = x.map_err(|e| e.to_string())?;
+    if has_zero_step(&expr) {
+      return Err("a step must not be zero".to_string());
+    }
+    Ok(expr)
+  }
+}
+
+fn has_zero_step(expr: &CronExpr) -> bool {
+  match expr {
+    PerExpr { option, .. } => **option == ValueExpr(0),
+    RangeExpr { per_option, .. } => **per_option == ValueExpr(0),
+    ListExpr(list) => list.iter().any(has_zero_step),
+    CronExpr::CronExpr {
+      mins,
+      hours,
+      days,
+      months,
+      day_of_weeks,
+    } => [mins, hours, days, months, day_of_weeks].iter().any(|e| has_zero_step(e)),
+    _ => false,
   }
 }
 
-- 
2.43.0


From d10f6b6a32a2e2f9e78801882d0870690e894c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 04/28] fix: let L stand for the last value in cron ranges and
 steps as well

---
 crond/src/cron_evaluator.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 0e21f45..ab1c551 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -64,6 +64,24 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
+      CronExpr::RangeExpr { from, to, per_option } if has_last_value(from, to, per_option) => self.visit(
+        env,
+        &CronExpr::RangeExpr {
+          from: resolve_last_value(env, from),
+          to: resolve_last_value(env, to),
+          per_option: resolve_last_value(env, per_option),
+        },
+      ),
+      CronExpr::PerExpr {
+        digit,
+        option: box CronExpr::LastValueExpr,
+      } => self.visit(
+        env,
+        &CronExpr::PerExpr {
+          digit: digit.clone(),
+          option: Box::from(CronExpr::ValueExpr(env.max)),
+        },
+      ),
       _ => false,
     }
   }
@@ -73,6 +91,17 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
   //}
 }
 
+fn has_last_value(from: &CronExpr, to: &CronExpr, per_option: &CronExpr) -> bool {
+  [from, to, per_option].contains(&&CronExpr::LastValueExpr)
+}
+
+fn resolve_last_value(env: &CronEnvironment, expr: &CronExpr) -> Box<CronExpr> {
+  match expr {
+    CronExpr::LastValueExpr => Box::from(CronExpr::ValueExpr(env.max)),
+    e => Box::from(e.clone()),
+  }
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
-- 
2.43.0


From 5f115ac43a86e3cf7758a09bad33c049a7533786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 05/28] fix: key the cache by the input and position and never
 borrow it while parsing

---
 .../parsers_impl/cache_parsers_impl.rs        | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..59bef02 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
+use std::rc::Rc;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -15,22 +15,22 @@ impl CacheParsers for ParsersImpl {
     I: Clone + 'a,
     A: Clone + Debug + 'a, {
     // FnvHashMapを使用してキャッシュを作成（キーは単純な文字列ではなくタプル）
-    let caches = RefCell::new(FnvHashMap::<(usize, usize, usize), ParseResult<'a, I, A>>::default());
+    let caches = RefCell::new(FnvHashMap::<(usize, usize, usize), Rc<ParseResult<'a, I, A>>>::default());
     let method = parser.method.clone();
     Parser::new(move |parser_state| {
-      // キーをタプルとして生成（文字列変換なし）
-      let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
-      );
+      // 結果は残りの入力とオフセットだけで決まる。入力は'aの間生存するため、アドレスと長さで一意に識別できる
+      let input = parser_state.input();
+      let key = (input.as_ptr() as usize, input.len(), parser_state.current_offset());
 
-      // キャッシュから結果を取得または計算
-      let parse_result = caches
-        .borrow_mut()
-        .entry(key)
-        .or_insert_with(|| method(parser_state))
-        .clone();
+      // 内側のパーサや値のcloneが同じキャッシュを再度参照してもよいように、借用したまま実行しない
+      let cached = caches.borrow().get(&key).cloned();
+      if let Some(parse_result) = cached {
+        return (*parse_result).clone();
+      }
+      let parse_result = method(parser_state);
+      let cached = Rc::new(parse_result.clone());
+      let previous = caches.borrow_mut().insert(key, cached);
+      drop(previous);
 
       parse_result
     })
-- 
2.43.0


From 7cbbd84edb3cba1a30c4f37b81095df678bd35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 06/28] fix: keep the excerpt of a parse error inside its input

---
 parser/src/core/parse_error.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..fcd025e 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -91,10 +91,10 @@ impl<'a, I> ParseError<'a, I> {
       ParseError::Incomplete => None,
       ParseError::Mismatch {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::excerpt(input, *offset, *length)),
       ParseError::Conversion {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::excerpt(input, *offset, *length)),
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
@@ -103,6 +103,13 @@ impl<'a, I> ParseError<'a, I> {
     }
   }
 
+  // `input` may be the rest of the input while `offset` counts from its beginning
+  fn excerpt(input: &'a [I], offset: usize, length: usize) -> &'a [I] {
+    let start = offset.min(input.len());
+    let end = offset.saturating_add(length).min(input.len());
+    &input[start..end]
+  }
+
   pub fn is_expect(&self) -> bool {
     match self {
       ParseError::Expect { .. } => true,
-- 
2.43.0


From a8dd8b4f2534a1430c551268eb632a9eea1b3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 07/28] fix: count characters, not bytes, in the length of a
 regex match

---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..67d84a1 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -94,7 +94,7 @@ impl ElementsParsers for ParsersImpl {
       if let Some(captures) = regex.captures(&str).as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From 5789b1096d1dad00a5a5c51f643c0c3e732a3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 08/28] fix: end take_while at the first element its predicate
 rejects

---
 parser/src/internal/parsers_impl/taken_parsers_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..15f3c60 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,6 +33,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -59,6 +61,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
-- 
2.43.0


From 1950cf85040bd07a5419972c10d14b5496b3c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 09/28] fix: report a configuration file that cannot be opened
 or read

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..238cf08 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -70,7 +70,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From 3f992af4fe90724d03eeaa66ffd0822320f4f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 10/28] fix: load an empty document as an empty configuration
 instead of panicking

---
 hocon/src/model.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 238cf08..617fcf6 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -95,14 +96,18 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
-    cur.resolve(None);
-    for cv in &config_values[1..] {
+    let mut resolved = config_values.iter().map(|cv| {
       let mut t = cv.clone();
       t.resolve(None);
-      cur.merge_with(t);
+      t
+    });
+    match resolved.next() {
+      Some(mut cur) => {
+        resolved.for_each(|t| cur.merge_with(t));
+        cur
+      }
+      None => ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
     }
-    cur
   }
 }
 
-- 
2.43.0


From cd3a4dc6b9ffeb7ffb3eeeccc3fdd2bcbb400eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 11/28] fix: do not print to standard output while resolving a
 configuration

---
 hocon/src/model/config_value.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..a7ff616 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -169,12 +169,9 @@ impl ConfigResolver for ConfigValue {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            println!("cv = {:?}", cv);
             cv.resolve(source);
-            println!("cv = {:?}", cv);
             match cv {
               ConfigValue::String(s) => {
-                println!("s = {}", s);
                 result.push_str(s);
               }
               _ => {}
@@ -336,7 +333,6 @@ impl ConfigValue {
   }
 
   pub fn prev_latest(&self) -> &Self {
-    println!("self = {:?}", self);
     match self {
       ConfigValue::Link(cv) => match &*(cv.prev) {
         ConfigValue::Link(prev_cv) => {
-- 
2.43.0


From 01f33372bb4dffc66514f415ce457b4b780bca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 12/28] fix: let a later value override an earlier one when
 configurations merge

---
 hocon/src/model/config_value.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index a7ff616..a6207da 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -78,13 +78,22 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Array(l), ConfigValue::Array(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
+      (l, ConfigValue::Link(r)) => {
+        for cv in ConfigValue::Link(r).to_vec() {
+          l.merge_with(cv);
+        }
+      }
       (l @ ConfigValue::Link(..), r) => {
-        let mut cv = l.get_value_link().unwrap().value.clone();
-        cv.merge_with(r);
-        l.push(cv);
+        let mut cv = l.latest().clone();
+        match (&cv, &r) {
+          (ConfigValue::Object(..), ConfigValue::Object(..)) | (ConfigValue::Array(..), ConfigValue::Array(..)) => {
+            cv.merge_with(r);
+            l.push(cv);
+          }
+          _ => l.push(r),
+        }
       }
-      (..) => {}
+      (l, r) => l.push(r),
     }
   }
 }
@@ -424,13 +433,6 @@ impl ConfigValue {
       _ => None,
     }
   }
-
-  fn get_value_link(&self) -> Option<&ConfigValueLink> {
-    match self {
-      ConfigValue::Link(cvl) => Some(&*cvl),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6e306f82fb45410e14b5a021f6a5c24540ea353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 13/28] fix: keep every field of an object that also has fields
 with a path as key

---
 hocon/src/model/config_value.rs | 59 +++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index a6207da..783df0e 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -132,36 +132,45 @@ impl ConfigResolver for ConfigValue {
           *cva = ConfigValue::Array(ConfigArrayValue::new(m));
         }
       }
+      (cvl @ ConfigValue::Link(..), None) => {
+        let mut cvs = cvl.to_vec().into_iter();
+        if let Some(mut head) = cvs.next() {
+          head.resolve(None);
+          for mut cv in cvs {
+            cv.resolve(None);
+            head.push(cv);
+          }
+          *cvl = head;
+        }
+      }
+      (ConfigValue::Array(cav), None) => {
+        for cv in &mut cav.0 {
+          cv.resolve(None);
+        }
+      }
       (ConfigValue::Object(cov), None) => {
-        let mut new_key_values = HashMap::new();
-        for (key, cv) in &cov.0 {
-          if key.contains(".") {
-            let mut keys = key.split(".").collect::<Vec<_>>();
-            keys.reverse();
-            let mut leaf_map = HashMap::new();
-            let mut mcv = cv.clone();
-            mcv.resolve(None);
-            leaf_map.insert(keys[0].to_string(), mcv);
-            let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
-            for key in &keys[1..(keys.len() - 1)] {
-              let mut node_map = HashMap::new();
-              node_map.insert(key.to_string(), new_object.clone());
-              new_object = ConfigValue::Object(ConfigObjectValue::new(node_map));
+        // The order of a map differs from process to process, that of the keys does not.
+        let mut key_values = cov.0.iter().collect::<Vec<_>>();
+        key_values.sort_by_key(|(key, _)| *key);
+        let mut new_key_values = HashMap::<String, ConfigValue>::new();
+        for (key, cv) in key_values {
+          let mut keys = key.split('.');
+          let first_key = keys.next().unwrap().to_string();
+          let mut value = cv.clone();
+          value.resolve(None);
+          for key in keys.rev() {
+            value = ConfigValue::Object(ConfigObjectValue::from((key.to_string(), value)));
+          }
+          match new_key_values.get_mut(&first_key) {
+            None => {
+              new_key_values.insert(first_key, value);
             }
-            let last_key = keys.last().unwrap().to_string();
-            match new_key_values.get_mut(&last_key) {
-              None => {
-                new_key_values.insert(last_key, new_object);
-              }
-              Some(entry) => {
-                entry.merge_with(new_object);
-              }
+            Some(entry) => {
+              entry.merge_with(value);
             }
           }
         }
-        if !new_key_values.is_empty() {
-          *cov = ConfigObjectValue::new(new_key_values);
-        }
+        *cov = ConfigObjectValue::new(new_key_values);
       }
       (cvo @ ConfigValue::Object(..), Some(..)) => {
         let ov = cvo.get_object_value().unwrap();
-- 
2.43.0


From d07396569ab255d8c075daddb6962f9bc8621009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 14/28] fix: read included files and fail the load if one of
 them fails or includes itself

---
 hocon/src/model.rs              | 57 ++++++++++++++++++++-------------
 hocon/src/model/config_value.rs | 49 +++++++++++++---------------
 2 files changed, 57 insertions(+), 49 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 617fcf6..8d4884f 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -41,7 +41,7 @@ pub trait ConfigMergeable {
 }
 
 pub trait ConfigResolver {
-  fn resolve(&mut self, source: Option<&Self>);
+  fn resolve(&mut self, source: Option<&Self>) -> Result<(), ConfigError>;
 }
 
 pub trait FileReader {
@@ -70,43 +70,54 @@ impl ConfigFactory {
   }
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
+    self.load_included_file(filename, &[])
+  }
+
+  pub(crate) fn load_included_file(&mut self, filename: &str, including: &[String]) -> Result<Config, ConfigError> {
+    if including.iter().any(|e| e == filename) {
+      return Err(ConfigError::ParseError(format!("The file includes itself: {}", filename)));
+    }
     let mut text = String::new();
     self.file_reader.read_to_string(filename, &mut text)?;
-    self.parse_from_string(&text)
+    let including = [including, &[filename.to_string()]].concat();
+    self.parse_included_string(&text, &including)
   }
 
   pub fn parse_from_string(&self, text: &str) -> Result<Config, ConfigError> {
-    hocon()
-      .parse(text.as_bytes())
-      .to_result()
-      .map(|config_values| Self::resolve_stage0(&config_values))
-      .map(|config_value| Self::resolve_stage1(&config_value))
-      .map(|config_value| Config::new(config_value))
-      .map_err(|pe| {
-        let msg = pe.to_string();
-        let input_string = pe.input_string();
-        ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
-      })
+    self.parse_included_string(text, &[])
   }
 
-  fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
+  fn parse_included_string(&self, text: &str, including: &[String]) -> Result<Config, ConfigError> {
+    let config_values = hocon().parse(text.as_bytes()).to_result().map_err(|pe| {
+      let msg = pe.to_string();
+      let input_string = pe.input_string();
+      ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
+    })?;
+    let config_value = Self::resolve_stage0(&config_values, including)?;
+    Self::resolve_stage1(&config_value).map(Config::new)
+  }
+
+  fn resolve_stage1(config_value: &ConfigValue) -> Result<ConfigValue, ConfigError> {
     let mut c = config_value.clone();
-    c.resolve(Some(&config_value));
-    c
+    c.resolve(Some(&config_value))?;
+    Ok(c)
   }
 
-  fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut resolved = config_values.iter().map(|cv| {
+  fn resolve_stage0(config_values: &Vec<ConfigValue>, including: &[String]) -> Result<ConfigValue, ConfigError> {
+    let mut resolved = vec![];
+    for cv in config_values {
       let mut t = cv.clone();
-      t.resolve(None);
-      t
-    });
+      t.resolve_include(including)?;
+      t.resolve(None)?;
+      resolved.push(t);
+    }
+    let mut resolved = resolved.into_iter();
     match resolved.next() {
       Some(mut cur) => {
         resolved.for_each(|t| cur.merge_with(t));
-        cur
+        Ok(cur)
       }
-      None => ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
+      None => Ok(ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))),
     }
   }
 }
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 783df0e..18ca094 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -12,7 +12,7 @@ use crate::model::config_include_value::ConfigIncludeValue;
 use crate::model::config_number_value::ConfigNumberValue;
 use crate::model::config_object_value::ConfigObjectValue;
 use crate::model::config_value_link::ConfigValueLink;
-use crate::model::{ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
+use crate::model::{ConfigError, ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
 use crate::parsers::key;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -99,23 +99,17 @@ impl ConfigMergeable for ConfigValue {
 }
 
 impl ConfigResolver for ConfigValue {
-  fn resolve(&mut self, source: Option<&Self>) {
+  fn resolve(&mut self, source: Option<&Self>) -> Result<(), ConfigError> {
     match (self, source) {
-      (cvi @ ConfigValue::Include(..), ..) => {
-        let mut config_factory = ConfigFactory::new();
-        let c = config_factory
-          .load_from_file(&cvi.get_include_value().unwrap().file_name)
-          .unwrap();
-        *cvi = c.to_config_value().clone();
-      }
+      (cvi @ ConfigValue::Include(..), ..) => cvi.resolve_include(&[])?,
       (cvl @ ConfigValue::Link(..), Some(..)) => {
         let cvs = cvl.to_vec();
         if !cvs.is_empty() {
           let mut head = cvs[0].clone();
-          head.resolve(source);
+          head.resolve(source)?;
           for e in &cvs[1..] {
             let mut ee = e.clone();
-            ee.resolve(source);
+            ee.resolve(source)?;
             head.push(ee.clone());
           }
           *cvl = head;
@@ -125,7 +119,7 @@ impl ConfigResolver for ConfigValue {
         let av = cva.get_array_value().unwrap();
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source);
+          cv.resolve(source)?;
           m.push(cv);
         }
         if !av.0.is_empty() {
@@ -135,9 +129,9 @@ impl ConfigResolver for ConfigValue {
       (cvl @ ConfigValue::Link(..), None) => {
         let mut cvs = cvl.to_vec().into_iter();
         if let Some(mut head) = cvs.next() {
-          head.resolve(None);
+          head.resolve(None)?;
           for mut cv in cvs {
-            cv.resolve(None);
+            cv.resolve(None)?;
             head.push(cv);
           }
           *cvl = head;
@@ -145,7 +139,7 @@ impl ConfigResolver for ConfigValue {
       }
       (ConfigValue::Array(cav), None) => {
         for cv in &mut cav.0 {
-          cv.resolve(None);
+          cv.resolve(None)?;
         }
       }
       (ConfigValue::Object(cov), None) => {
@@ -157,7 +151,7 @@ impl ConfigResolver for ConfigValue {
           let mut keys = key.split('.');
           let first_key = keys.next().unwrap().to_string();
           let mut value = cv.clone();
-          value.resolve(None);
+          value.resolve(None)?;
           for key in keys.rev() {
             value = ConfigValue::Object(ConfigObjectValue::from((key.to_string(), value)));
           }
@@ -176,7 +170,7 @@ impl ConfigResolver for ConfigValue {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
         for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source);
+          cv.resolve(source)?;
           key_values.insert(key, cv);
         }
         if !key_values.is_empty() {
@@ -187,7 +181,7 @@ impl ConfigResolver for ConfigValue {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            cv.resolve(source);
+            cv.resolve(source)?;
             match cv {
               ConfigValue::String(s) => {
                 result.push_str(s);
@@ -210,7 +204,7 @@ impl ConfigResolver for ConfigValue {
           .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
         match ref_value.as_mut() {
           Some(ref_value_mut) => {
-            ref_value_mut.resolve(source);
+            ref_value_mut.resolve(source)?;
           }
           _ => {}
         }
@@ -229,10 +223,20 @@ impl ConfigResolver for ConfigValue {
       }
       _ => {}
     }
+    Ok(())
   }
 }
 
 impl ConfigValue {
+  pub(crate) fn resolve_include(&mut self, including: &[String]) -> Result<(), ConfigError> {
+    if let ConfigValue::Include(civ) = self {
+      let file_name = civ.file_name.trim_matches('"');
+      let config = ConfigFactory::new().load_included_file(file_name, including)?;
+      *self = config.to_config_value().clone();
+    }
+    Ok(())
+  }
+
   pub fn of_reference(prev: Option<Rc<ConfigValue>>, path: String, missing: bool) -> Self {
     ConfigValue::Reference { prev, path, missing }
   }
@@ -422,13 +426,6 @@ impl ConfigValue {
     }
   }
 
-  fn get_include_value(&self) -> Option<&ConfigIncludeValue> {
-    match self {
-      ConfigValue::Include(civ) => Some(civ),
-      _ => None,
-    }
-  }
-
   fn get_object_value(&self) -> Option<&ConfigObjectValue> {
     match self {
       ConfigValue::Object(cov) => Some(cov),
-- 
2.43.0


From 32b9cfbb9816c9cfcbb6cd46386b4f183b93c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 15/28] fix: fail on a reference that cannot be resolved and
 fall back to the value before it

---
 hocon/src/model/config_value.rs | 107 ++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 40 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 18ca094..7677d98 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -100,27 +100,42 @@ impl ConfigMergeable for ConfigValue {
 
 impl ConfigResolver for ConfigValue {
   fn resolve(&mut self, source: Option<&Self>) -> Result<(), ConfigError> {
+    self.resolve_in(source, &mut vec![])
+  }
+}
+
+impl ConfigValue {
+  /// Resolves this value while the references to `paths` are being resolved.
+  fn resolve_in(&mut self, source: Option<&Self>, paths: &mut Vec<String>) -> Result<(), ConfigError> {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => cvi.resolve_include(&[])?,
       (cvl @ ConfigValue::Link(..), Some(..)) => {
-        let cvs = cvl.to_vec();
-        if !cvs.is_empty() {
-          let mut head = cvs[0].clone();
-          head.resolve(source)?;
-          for e in &cvs[1..] {
-            let mut ee = e.clone();
-            ee.resolve(source)?;
-            head.push(ee.clone());
+        let mut cvs = cvl.to_vec();
+        if let Some(mut last) = cvs.pop() {
+          last.resolve_in(source, paths)?;
+          let mut cvs = cvs.into_iter();
+          if let Some(mut head) = cvs.next() {
+            // The earlier values are overridden, it does not matter if they cannot be resolved.
+            let _ = head.resolve_in(source, paths);
+            for mut cv in cvs {
+              let _ = cv.resolve_in(source, paths);
+              head.push(cv);
+            }
+            head.push(last);
+            *cvl = head;
+          } else {
+            *cvl = last;
           }
-          *cvl = head;
         }
       }
       (cva @ ConfigValue::Array(..), Some(..)) => {
         let av = cva.get_array_value().unwrap();
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source)?;
-          m.push(cv);
+          cv.resolve_in(source, paths)?;
+          if !cv.is_unresolved() {
+            m.push(cv);
+          }
         }
         if !av.0.is_empty() {
           *cva = ConfigValue::Array(ConfigArrayValue::new(m));
@@ -168,20 +183,23 @@ impl ConfigResolver for ConfigValue {
       }
       (cvo @ ConfigValue::Object(..), Some(..)) => {
         let ov = cvo.get_object_value().unwrap();
+        let mut sorted_key_values = ov.0.iter().collect::<Vec<_>>();
+        sorted_key_values.sort_by_key(|(key, _)| *key);
         let mut key_values = HashMap::new();
-        for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source)?;
-          key_values.insert(key, cv);
-        }
-        if !key_values.is_empty() {
-          *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
+        for (key, cv) in sorted_key_values {
+          let mut cv = cv.clone();
+          cv.resolve_in(source, paths)?;
+          if !cv.is_unresolved() {
+            key_values.insert(key.clone(), cv);
+          }
         }
+        *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
       }
       (cvr @ ConfigValue::Enumeration { .. }, Some(_)) => match cvr {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            cv.resolve(source)?;
+            cv.resolve_in(source, paths)?;
             match cv {
               ConfigValue::String(s) => {
                 result.push_str(s);
@@ -189,36 +207,41 @@ impl ConfigResolver for ConfigValue {
               _ => {}
             }
           }
-          if result.is_empty() {
-            *cvr = prev.clone().unwrap().prev_latest().clone();
-          } else {
-            *cvr = ConfigValue::String(result);
-          }
+          *cvr = match prev {
+            Some(prev) if result.is_empty() => prev.latest().clone(),
+            _ => ConfigValue::String(result),
+          };
         }
         _ => {}
       },
       (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
-        let mut ref_value = src
-          .get_value(cvr.ref_name().unwrap())
-          .cloned()
-          .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
-        match ref_value.as_mut() {
-          Some(ref_value_mut) => {
-            ref_value_mut.resolve(source)?;
+        let path = cvr.ref_name().unwrap().clone();
+        let mut resolved = None;
+        if !paths.contains(&path) {
+          if let Some(mut cv) = src.get_value(&path).cloned() {
+            paths.push(path.clone());
+            let result = cv.resolve_in(source, paths);
+            paths.pop();
+            result?;
+            resolved = Some(cv).filter(|cv| !cv.is_unresolved());
           }
-          _ => {}
+          resolved = resolved.or_else(|| env::var(&path).ok().map(ConfigValue::String));
         }
-        if cvr.ref_missing().unwrap() {
-          if ref_value.is_some() {
-            *cvr = ref_value.unwrap();
-          } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
+        let optional = cvr.ref_missing().unwrap();
+        if resolved.is_none() && (optional || paths.contains(&path)) {
+          // A reference to the field itself looks back to the earlier value.
+          if let Some(prev) = cvr.ref_prev() {
+            let mut cv = prev.latest().clone();
+            cv.resolve_in(source, paths)?;
+            resolved = Some(cv).filter(|cv| !cv.is_unresolved());
           }
-        } else {
-          if ref_value.is_none() {
-            panic!("Cannot resolve the reference: {}", cvr.ref_name().unwrap())
+        }
+        match resolved {
+          Some(cv) => *cvr = cv,
+          None if optional => {}
+          None => {
+            return Err(ConfigError::ParseError(format!("Cannot resolve the reference: {}", path)));
           }
-          *cvr = ref_value.unwrap();
         }
       }
       _ => {}
@@ -237,6 +260,10 @@ impl ConfigValue {
     Ok(())
   }
 
+  fn is_unresolved(&self) -> bool {
+    matches!(self.latest(), ConfigValue::Reference { .. })
+  }
+
   pub fn of_reference(prev: Option<Rc<ConfigValue>>, path: String, missing: bool) -> Self {
     ConfigValue::Reference { prev, path, missing }
   }
-- 
2.43.0


From d7a97a9c4952a25106d5af23045f3327e52ffd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 16/28] fix: read signs and exponents of numbers and never
 panic on a number out of range

---
 hocon/src/parsers.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..9f5b1fe 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -3,6 +3,8 @@ use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
 use oni_comb_parser_rs::prelude::*;
+use rust_decimal::Decimal;
+use std::str::FromStr;
 
 fn comment<'a>() -> Parser<'a, u8, &'a [u8]> {
   let head = seq(b"//").collect().attempt() | elm_ref(b'#').collect();
@@ -75,21 +77,14 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
+  number().map_res(|(s, i, f, e)| {
+    let sign = if s.is_some() { "-" } else { "" };
+    let fraction = f.unwrap_or_default();
+    match e {
+      None => Decimal::from_str(&format!("{}{}{}", sign, i, fraction)),
+      Some(e) => Decimal::from_scientific(&format!("{}{}{}{}", sign, i, fraction, e)),
     }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
-      s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
-    }
-    _ => panic!("no match !!!"),
+    .map(ConfigNumberValue::new)
   })
 }
 
-- 
2.43.0


From e46490a81ed1a4c262ee275614e22b1d994b16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 17/28] fix: read a time unit as a whole word on the line of
 its number

---
 hocon/src/parsers.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 9f5b1fe..ba870da 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -40,36 +40,36 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), space_or_comment())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  number.map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
-  let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
+  let ns = (seq(b"nanoseconds").attempt()
     | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
+    | seq(b"nanos").attempt()
+    | seq(b"nano").attempt()
+    | seq(b"ns"))
   .map(|_| TimeUnit::Nanoseconds);
-  let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
+  let us = (seq(b"microseconds").attempt()
     | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
+    | seq(b"micros").attempt()
+    | seq(b"micro").attempt()
+    | seq(b"us"))
   .map(|_| TimeUnit::Microseconds);
-  let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
+  let ms = (seq(b"milliseconds").attempt()
     | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
+    | seq(b"millis").attempt()
+    | seq(b"milli").attempt()
+    | seq(b"ms"))
   .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
-
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  let s = (seq(b"seconds").attempt() | seq(b"second").attempt() | seq(b"s")).map(|_| TimeUnit::Seconds);
+  let m = (seq(b"minutes").attempt() | seq(b"minute").attempt() | seq(b"m")).map(|_| TimeUnit::Minutes);
+  let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
+  let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
+  let unit = ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d;
+
+  // A word on the next line or a longer one is not the unit of this number.
+  number_value() - elm_of(b" \t").of_many0() + unit - path_element().not()
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 6344ec74fabc8ed8353022c029e79f53e636a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 18/28] fix: keep leading spaces and comment signs of a quoted
 string

---
 hocon/src/parsers.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index ba870da..e53bee4 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -88,12 +88,14 @@ fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
   })
 }
 
-fn string_double_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'"').surround(space_or_comment(), space_or_comment())
-}
-
-fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'\'').surround(space_or_comment(), space_or_comment())
+// The space and the comment signs between the quotes belong to the string.
+fn quoted_string<'a, A>(quote: u8, string: Parser<'a, u8, A>) -> Parser<'a, u8, A>
+where
+  A: Clone + std::fmt::Debug + 'a, {
+  string.surround(
+    space_or_comment() * elm_ref(quote),
+    elm_ref(quote) - space_or_comment(),
+  )
 }
 
 fn string<'a>() -> Parser<'a, u8, String> {
@@ -122,8 +124,8 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .collect::<String>()
   });
   let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
+  let string_surround1 = quoted_string(b'"', string_surround());
+  let string_surround2 = quoted_string(b'\'', string_surround());
   (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
 }
 
@@ -153,8 +155,8 @@ fn string_zero<'a>() -> Parser<'a, u8, String> {
       .collect::<String>()
   });
   let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many0();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
+  let string_surround1 = quoted_string(b'"', string_surround());
+  let string_surround2 = quoted_string(b'\'', string_surround());
   (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
 }
 
-- 
2.43.0


From ffd07e2d40e82cf97d45cbe24c143e230abda67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 19/28] fix: hocon: white space may separate and follow
 includes

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index e53bee4..1d2670d 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -315,7 +315,7 @@ fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
       vec![ConfigValue::Object(ConfigObjectValue::new(map))]
     })
     .attempt()
-    | include_config_value().of_many1().attempt()
+    | (include_config_value() - space_or_comment()).of_many1().attempt()
     | (object_config_value().attempt() | array_config_value()).of_many0()
 }
 
-- 
2.43.0


From 750092a02cd455622aa830d9e7121b758a9267ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 20/28] fix: hocon: brackets and separators do not begin a key

---
 hocon/src/parsers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 1d2670d..f74e00f 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -185,8 +185,14 @@ pub fn key<'a>() -> Parser<'a, u8, String> {
   (path().attempt() | string()).surround(space_or_comment(), space_or_comment())
 }
 
+// The brackets and separators of a document are no keys: one that is not a path is quoted.
+fn property_key<'a>() -> Parser<'a, u8, String> {
+  let quoted = elm_ref_of(b"\"'").peek() * string();
+  (path().attempt() | quoted).surround(space_or_comment(), space_or_comment())
+}
+
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
+  property_key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
 }
 
 fn property_config_value<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From 96ee18de6e3c646a2a670d4da11af647a9311979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 21/28] fix: hocon: any space between comments

---
 hocon/src/parsers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index f74e00f..af81e83 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -17,7 +17,8 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  // Comments may follow each other with any space between them.
+  (comment().attempt().of_many0() + space()).discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 3090dd7569c3769666d5130de49f235fe33d2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 22/28] fix: right chains associate to the right

---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..d37a3ad 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x))
   }
 
   #[inline]
@@ -107,7 +107,9 @@ impl OperatorParsers for ParsersImpl {
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        Self::map(Self::chain_right1(p.clone(), op.clone()), move |y| {
+          f(default_value.clone(), y)
+        })
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From 42655072748b208a579cefb971ff27a77e122056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 23/28] fix: a repetition of at most zero items takes none

---
 parser/src/internal/parsers_impl/repeat_parsers_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..fdcb39d 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,7 +74,11 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      let first = match range.end() {
+        Bound::Included(&0) | Bound::Excluded(&0) | Bound::Excluded(&1) => None,
+        _ => Some((method)(parse_state)),
+      };
+      if let Some(ParseResult::Success { value, length }) = first {
         let mut current_parse_state = parse_state.advance_by(length);
         items.push(value);
         all_length += length;
-- 
2.43.0


From 78dc1a4d07a754b03d9b9c32ccc90de644895975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 24/28] fix: a value merged into a chain of values is not
 merged twice when the chain is merged again

---
 hocon/src/model/config_value.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 7677d98..d78a167 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -83,15 +83,9 @@ impl ConfigMergeable for ConfigValue {
           l.merge_with(cv);
         }
       }
-      (l @ ConfigValue::Link(..), r) => {
-        let mut cv = l.latest().clone();
-        match (&cv, &r) {
-          (ConfigValue::Object(..), ConfigValue::Object(..)) | (ConfigValue::Array(..), ConfigValue::Array(..)) => {
-            cv.merge_with(r);
-            l.push(cv);
-          }
-          _ => l.push(r),
-        }
+      (ConfigValue::Link(l), r) if l.value.merges_with(&r) => {
+        // The latest value becomes the merged one. A further value would be merged into it once more later.
+        Rc::make_mut(l).value.merge_with(r);
       }
       (l, r) => l.push(r),
     }
@@ -453,6 +447,13 @@ impl ConfigValue {
     }
   }
 
+  fn merges_with(&self, other: &Self) -> bool {
+    matches!(
+      (self, other),
+      (ConfigValue::Object(..), ConfigValue::Object(..)) | (ConfigValue::Array(..), ConfigValue::Array(..))
+    )
+  }
+
   fn get_object_value(&self) -> Option<&ConfigObjectValue> {
     match self {
       ConfigValue::Object(cov) => Some(cov),
-- 
2.43.0


From 453301214ef222580e12a5adf10bc0440a9ba061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 25/28] fix: a cron window keeps the fraction of a millisecond
 of its limits

---
 crond/src/cron_interval.rs          | 16 ++++++++--------
 crond/src/cron_interval_iterator.rs |  5 ++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/crond/src/cron_interval.rs b/crond/src/cron_interval.rs
index 14e45aa..c872587 100644
--- a/crond/src/cron_interval.rs
+++ b/crond/src/cron_interval.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 use std::rc::Rc;
 
-use chrono::{DateTime, TimeZone};
+use chrono::{DateTime, TimeZone, Utc};
 use intervals_rs::{Interval, LimitValue};
 
 use crate::cron_interval_iterator::CronIntervalIterator;
@@ -11,16 +11,16 @@ use crate::cron_specification::Specification;
 /// CROND日時の区間を表す構造体。
 #[derive(Clone)]
 pub struct CronInterval<Tz: TimeZone, S: Specification<DateTime<Tz>>> {
-  pub(crate) underlying: Interval<i64>,
+  pub(crate) underlying: Interval<DateTime<Utc>>,
   pub(crate) cron_specification: S,
   phantom: PhantomData<Tz>,
 }
 
 impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronInterval<Tz, S> {
-  fn convert_to_long_limit_value(value: LimitValue<DateTime<Tz>>) -> LimitValue<i64> {
+  fn convert_to_utc_limit_value(value: LimitValue<DateTime<Tz>>) -> LimitValue<DateTime<Utc>> {
     match value {
       LimitValue::Limitless => LimitValue::Limitless,
-      LimitValue::Limit(v) => LimitValue::Limit(v.timestamp_millis()),
+      LimitValue::Limit(v) => LimitValue::Limit(v.with_timezone(&Utc)),
     }
   }
 }
@@ -33,8 +33,8 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronInterval<Tz, S> {
     end_value: LimitValue<DateTime<Tz>>,
     cron_specification: S,
   ) -> Self {
-    let start = Self::convert_to_long_limit_value(start_value);
-    let end = Self::convert_to_long_limit_value(end_value);
+    let start = Self::convert_to_utc_limit_value(start_value);
+    let end = Self::convert_to_utc_limit_value(end_value);
     Self {
       underlying: Interval::closed(start, end),
       cron_specification,
@@ -45,8 +45,8 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronInterval<Tz, S> {
   /// Returns a CronIntervalIterator.<br/>
   /// CronIntervalIteratorを返す。
   pub fn iter(&self, timezone: Tz) -> CronIntervalIterator<Tz, S> {
-    let timestamp = self.underlying.as_lower_limit().as_value().unwrap();
-    let date_time = timezone.timestamp_millis_opt(*timestamp).unwrap();
+    let start = self.underlying.as_lower_limit().as_value().unwrap();
+    let date_time = start.with_timezone(&timezone);
     CronIntervalIterator::new(timezone, date_time.clone(), date_time, Rc::new(self.clone()))
   }
 }
diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index b6a7aab..732d01e 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -68,9 +68,8 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
 
   fn end_value(&self) -> Option<DateTime<Tz>> {
     if self.cron_interval.underlying.has_upper_limit() {
-      let timestamp = self.cron_interval.underlying.as_upper_limit().as_value().unwrap();
-      let date_time = self.timezone.timestamp_millis_opt(*timestamp).unwrap();
-      Some(date_time)
+      let end = self.cron_interval.underlying.as_upper_limit().as_value().unwrap();
+      Some(end.with_timezone(&self.timezone))
     } else {
       None
     }
-- 
2.43.0


From c478e6d54b4d806c815a53b908a7fb6e46aeba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:34 +0000
Subject: [PATCH 26/28] fix: keep the fraction of a duration and report one
 that is out of range

---
 hocon/src/model/config_duration_value.rs | 50 +++++++++++++-----------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..50700f8 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -4,6 +4,10 @@ use std::fmt::{Display, Formatter};
 use std::time::Duration;
 
 use anyhow::{bail, Result};
+use rust_decimal::prelude::ToPrimitive;
+use rust_decimal::Decimal;
+
+const NANOS_PER_SECOND: u32 = 1_000_000_000;
 
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
@@ -36,35 +40,35 @@ impl ConfigDurationValue {
     Self { value, unit }
   }
 
-  pub fn to_std_duration(&self) -> Result<Duration> {
-    let value = match self.clone().value.to_u64() {
-      Some(v) => v,
-      None => bail!("Occurred convert error: {:?}", self.value),
+  fn to_nanoseconds(&self) -> Result<i128> {
+    let unit = match self.unit {
+      TimeUnit::Nanoseconds => 1,
+      TimeUnit::Microseconds => 1_000,
+      TimeUnit::Milliseconds => 1_000_000,
+      TimeUnit::Seconds => NANOS_PER_SECOND as i64,
+      TimeUnit::Minutes => NANOS_PER_SECOND as i64 * 60,
+      TimeUnit::Hours => NANOS_PER_SECOND as i64 * 60 * 60,
+      TimeUnit::Days => NANOS_PER_SECOND as i64 * 60 * 60 * 24,
     };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
-      TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
-      TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
-      TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
+    let value = self.value.as_decimal().checked_mul(Decimal::from(unit));
+    match value.and_then(|v| v.to_i128()) {
+      Some(v) => Ok(v),
+      None => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 
+  pub fn to_std_duration(&self) -> Result<Duration> {
+    let value = u128::try_from(self.to_nanoseconds()?)?;
+    let seconds = u64::try_from(value / NANOS_PER_SECOND as u128)?;
+    Ok(Duration::new(seconds, (value % NANOS_PER_SECOND as u128) as u32))
+  }
+
   pub fn to_duration(&self) -> Result<chrono::Duration> {
-    let value = match self.clone().value.to_i64() {
-      Some(v) => v,
+    let value = self.to_nanoseconds()?;
+    let seconds = i64::try_from(value.div_euclid(NANOS_PER_SECOND as i128))?;
+    match chrono::Duration::new(seconds, value.rem_euclid(NANOS_PER_SECOND as i128) as u32) {
+      Some(v) => Ok(v),
       None => bail!("Occurred convert error: {:?}", self.value),
-    };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
-      TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
     }
   }
 }
-- 
2.43.0


From a1be5fa0209344dbc5d6c07698e3fc5ed6283b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 27/28] fix: a duration accessor answers None instead of
 panicking on a value it cannot convert

---
 hocon/src/model/config_value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index d78a167..529106b 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -302,11 +302,11 @@ impl ConfigValue {
   }
 
   pub fn as_duration(&self) -> Option<Duration> {
-    self.as_config_duration_value().map(|e| e.to_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_duration().ok())
   }
 
   pub fn as_std_duration(&self) -> Option<std::time::Duration> {
-    self.as_config_duration_value().map(|e| e.to_std_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_std_duration().ok())
   }
 
   pub fn as_config_array_value(&self) -> Option<&ConfigArrayValue> {
-- 
2.43.0


From 9b3bde097a7d8dd876dbed2a0254de638c48843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 28/28] fix: a regex parser matches only at its position

---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index 67d84a1..f6fb9bc 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -91,7 +91,11 @@ impl ElementsParsers for ParsersImpl {
       let input: &[char] = parse_state.input();
       log::debug!("regex: input = {:?}", input);
       let str = String::from_iter(input);
-      if let Some(captures) = regex.captures(&str).as_ref() {
+      // An alternative of the pattern without an anchor may match later in the input
+      let captures = regex
+        .captures(&str)
+        .filter(|captures| captures.get(0).map_or(false, |m| m.start() == 0));
+      if let Some(captures) = captures.as_ref() {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
           ParseResult::successful(str.to_string(), str.chars().count())
-- 
2.43.0

