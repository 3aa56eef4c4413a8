//! T01-T04: cron schedules under simulated time zones, crashes, clones, clock jumps and damaged schedule lines.
use crate::rng::{hash_str, mix, Rng};
use crate::runner::{RunOut, Scenario, Tier};
use crate::sched::{self, Switches};
use crate::sys::{world, TASK};
use crate::util::{begin, finish, sut_catch, Panic, Thrown};
use chrono::{DateTime, FixedOffset, LocalResult, NaiveDate, NaiveDateTime, Offset, TimeZone};
use intervals_rs::LimitValue;
use oni_comb_crond_rs::{CronInterval, CronIntervalIterator, CronSchedule, CronSpecification, Specification};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ------------------------------------------------------------------ the time-zone seam
thread_local! {
  static TZ_CALLS: Cell<u64> = const { Cell::new(0) };
  static TZ_BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
  /// Per task: queries left until its process dies; -1: none.
  static TZ_CRASH: Cell<[i64; 16]> = const { Cell::new([-1; 16]) };
}
fn set_crash(task: i32, n: u64) {
  TZ_CRASH.with(|c| {
    let mut a = c.get();
    a[task as usize % 16] = n as i64;
    c.set(a);
  });
}
fn clear_crash(task: i32) {
  TZ_CRASH.with(|c| {
    let mut a = c.get();
    a[task as usize % 16] = -1;
    c.set(a);
  });
}
fn crash_now() -> bool {
  let t = TASK.with(|t| t.get());
  if t < 0 {
    return false;
  }
  TZ_CRASH.with(|c| {
    let mut a = c.get();
    let x = &mut a[t as usize % 16];
    if *x < 0 {
      return false;
    }
    *x -= 1;
    let r = *x < 0;
    c.set(a);
    r
  })
}
fn tz_budget(minutes: u64) {
  TZ_BUDGET.with(|b| b.set(TZ_CALLS.with(|c| c.get()) + 200 * minutes + 20_000));
}
/// Offsets by UTC second: `base` before the first transition, then the offset of the last transition passed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TzPlan {
  base: i32,
  trans: Vec<(i64, i32)>,
}
impl TzPlan {
  fn sane(&self) -> TzPlan {
    let cl = |o: i32| o.clamp(-86_000, 86_000);
    let mut t: Vec<(i64, i32)> = self.trans.iter().map(|(a, o)| (*a, cl(*o))).collect();
    t.sort();
    TzPlan { base: cl(self.base), trans: t }
  }
  fn off(&self, utc_s: i64) -> i32 {
    self.trans.iter().rev().find(|(t, _)| *t <= utc_s).map(|x| x.1).unwrap_or(self.base)
  }
}
#[derive(Clone, Debug)]
pub struct SimTz(Rc<TzPlan>);
#[derive(Clone, Debug)]
pub struct SimOff(Rc<TzPlan>, i32);
impl Offset for SimOff {
  fn fix(&self) -> FixedOffset {
    FixedOffset::east_opt(self.1).unwrap()
  }
}
impl std::fmt::Display for SimOff {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.1)
  }
}
impl TimeZone for SimTz {
  type Offset = SimOff;
  fn from_offset(o: &SimOff) -> Self {
    SimTz(o.0.clone())
  }
  fn offset_from_local_date(&self, local: &NaiveDate) -> LocalResult<SimOff> {
    self.offset_from_local_datetime(&local.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_local_datetime(&self, local: &NaiveDateTime) -> LocalResult<SimOff> {
    let l = local.and_utc().timestamp();
    let mut c: Vec<i32> = vec![];
    for o in std::iter::once(self.0.base).chain(self.0.trans.iter().map(|t| t.1)) {
      if self.0.off(l - o as i64) == o && !c.contains(&o) {
        c.push(o);
      }
    }
    c.sort_by_key(|o| -*o);
    match c.len() {
      0 => LocalResult::None,
      1 => LocalResult::Single(SimOff(self.0.clone(), c[0])),
      _ => LocalResult::Ambiguous(SimOff(self.0.clone(), c[0]), SimOff(self.0.clone(), c[1])),
    }
  }
  fn offset_from_utc_date(&self, utc: &NaiveDate) -> SimOff {
    self.offset_from_utc_datetime(&utc.and_hms_opt(0, 0, 0).unwrap())
  }
  fn offset_from_utc_datetime(&self, utc: &NaiveDateTime) -> SimOff {
    let n = TZ_CALLS.with(|c| {
      c.set(c.get() + 1);
      c.get()
    });
    if n > TZ_BUDGET.with(|b| b.get()) {
      crate::runner::die_hang("more time-zone queries than any bounded walk over the window needs");
    }
    if crash_now() {
      std::panic::panic_any(Thrown(7));
    }
    sched::yield_point(sched::YK_CB);
    let u = utc.and_utc().timestamp();
    SimOff(self.0.clone(), self.0.off(u))
  }
}
fn at_ms(tz: &SimTz, ms: i64) -> Option<DateTime<SimTz>> {
  at(tz, ms, SUB.with(|s| s.get()))
}
fn at(tz: &SimTz, ms: i64, sub: u32) -> Option<DateTime<SimTz>> {
  let n = DateTime::from_timestamp_millis(ms)?.naive_utc() + chrono::Duration::nanoseconds(sub as i64);
  Some(tz.from_utc_datetime(&n))
}
thread_local! {
  /// What every instant of this run has beyond whole milliseconds, in nanoseconds, and what the window's limit has.
  static SUB: Cell<u32> = const { Cell::new(0) };
  static SUB_END: Cell<u32> = const { Cell::new(0) };
}
fn set_sub(start: u32, end: u32) {
  SUB.with(|s| s.set(start % 1_000_000));
  SUB_END.with(|s| s.set(end % 1_000_000));
}
fn gen_sub(r: &mut Rng) -> u32 {
  if r.chance(70) {
    0
  } else {
    *r.pick(&[1, 500_000, 999_999, 123_456])
  }
}
/// The millisecond of an instant; no instant of the run if it has lost what it had beyond.
fn stamp(t: DateTime<SimTz>) -> i64 {
  if t.timestamp_subsec_nanos() % 1_000_000 == SUB.with(|s| s.get()) {
    t.timestamp_millis()
  } else {
    i64::MIN + t.timestamp_subsec_nanos() as i64
  }
}

// ------------------------------------------------------------------ the schedule model
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
  V(u8),
  R(u8, u8, u8),
  L,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Field {
  Any,
  Per(u8),
  List(Vec<Item>),
}
const LO: [u8; 5] = [0, 0, 1, 1, 1];
const HI: [u8; 5] = [59, 23, 31, 12, 7];
const DOW: [&str; 7] = ["SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT"];

fn field_ok(f: &Field, v: u8) -> bool {
  match f {
    Field::Any => true,
    Field::Per(n) => *n != 0 && v % *n == 0,
    Field::List(l) => l.iter().any(|i| match i {
      Item::V(x) => *x == v,
      Item::R(a, b, s) => *a <= v && v <= *b && (*s == 0 || (v - *a) % *s == 0),
      Item::L => v == 7,
    }),
  }
}
fn sane_fields(fs: &[Field]) -> Option<Vec<Field>> {
  if fs.len() != 5 {
    return None;
  }
  fs.iter()
    .enumerate()
    .map(|(i, f)| {
      let cl = |v: u8| v.clamp(LO[i], HI[i]);
      Some(match f {
        Field::Any => Field::Any,
        Field::Per(n) => Field::Per((*n).clamp(1, HI[i])),
        Field::List(l) => {
          if l.is_empty() {
            return None;
          }
          Field::List(
            l.iter()
              .map(|x| match x {
                Item::V(v) => Item::V(cl(*v)),
                Item::R(a, b, s) => {
                  let (a, b) = (cl(*a), cl(*b));
                  Item::R(a.min(b), a.max(b), (*s).min(HI[i]))
                }
                Item::L if i == 4 => Item::L,
                Item::L => Item::V(HI[i]),
              })
              .collect(),
          )
        }
      })
    })
    .collect()
}
pub fn render(fs: &[Field], style: u64) -> String {
  let mut st = Rng::new(style);
  let mut num = |i: usize, v: u8| -> String {
    if i == 4 {
      return if style != 0 && st.chance(50) { DOW[(v - 1) as usize].to_string() } else { v.to_string() };
    }
    if style != 0 && v < 10 && st.chance(30) {
      format!("0{}", v)
    } else {
      v.to_string()
    }
  };
  fs.iter()
    .enumerate()
    .map(|(i, f)| match f {
      Field::Any => "*".into(),
      Field::Per(n) => format!("*/{}", num(i, *n)),
      Field::List(l) => l
        .iter()
        .map(|x| match x {
          Item::V(v) => num(i, *v),
          Item::R(a, b, 0) => format!("{}-{}", num(i, *a), num(i, *b)),
          Item::R(a, b, s) => format!("{}-{}/{}", num(i, *a), num(i, *b), num(i, *s)),
          Item::L => "L".into(),
        })
        .collect::<Vec<_>>()
        .join(","),
    })
    .collect::<Vec<_>>()
    .join(" ")
}
/// (minute, hour, day, month, weekday 1=Sunday) of a local second count, computed without chrono.
fn civil(local_s: i64) -> (u8, u8, u8, u8, u8) {
  let days = local_s.div_euclid(86_400);
  let sod = local_s.rem_euclid(86_400);
  let z = days + 719_468;
  let era = z.div_euclid(146_097);
  let doe = z.rem_euclid(146_097);
  let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let d = doy - (153 * mp + 2) / 5 + 1;
  let m = if mp < 10 { mp + 3 } else { mp - 9 };
  let _y = yoe + era * 400;
  let wd = (days + 4).rem_euclid(7) + 1;
  ((sod / 60 % 60) as u8, (sod / 3600) as u8, d as u8, m as u8, wd as u8)
}
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
  let y = if m <= 2 { y - 1 } else { y };
  let era = y.div_euclid(400);
  let yoe = y.rem_euclid(400);
  let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
  let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  era * 146_097 + doe - 719_468
}
fn satisfied(fs: &[Field], tz: &TzPlan, ms: i64) -> bool {
  let s = ms.div_euclid(1000);
  let (mi, h, d, mo, w) = civil(s + tz.off(s) as i64);
  field_ok(&fs[3], mo) && field_ok(&fs[2], d) && field_ok(&fs[4], w) && field_ok(&fs[1], h) && field_ok(&fs[0], mi)
}
/// All matching instants from `start` within `minutes`, at most `cap`.
fn model(fs: &[Field], tz: &TzPlan, start: i64, minutes: u64, end: Option<i64>, cap: usize) -> Vec<i64> {
  let mut v = vec![];
  for k in 0..minutes as i64 {
    let ms = start + k * 60_000;
    if end.map_or(false, |e| ms > e) || v.len() >= cap {
      break;
    }
    if satisfied(fs, tz, ms) {
      v.push(ms);
    }
  }
  v
}

// ------------------------------------------------------------------ generation
fn gen_field(r: &mut Rng, i: usize, dense: u32) -> Field {
  if r.chance(dense) {
    return Field::Any;
  }
  let v = |r: &mut Rng| r.range(LO[i] as i64, HI[i] as i64) as u8;
  if r.chance(25) {
    let n = if r.chance(70) { r.range(1, (HI[i] as i64).min(15)) } else { r.range(1, HI[i] as i64) };
    return Field::Per(n as u8);
  }
  let n = if r.chance(55) { 1 } else { 1 + r.usize(4) };
  let edge = |r: &mut Rng| match r.below(6) {
    0 => LO[i],
    1 => HI[i],
    2 if i == 2 => 28 + r.below(4) as u8,
    _ => r.range(LO[i] as i64, HI[i] as i64) as u8,
  };
  Field::List(
    (0..n)
      .map(|_| {
        if i == 4 && r.chance(15) {
          Item::L
        } else if r.chance(45) {
          Item::V(edge(r))
        } else {
          let (a, b) = (edge(r), v(r));
          let s = if r.chance(50) { r.range(1, ((HI[i] - LO[i]) as i64 / 2).max(1)) as u8 } else { 0 };
          Item::R(a.min(b), a.max(b), s)
        }
      })
      .collect(),
  )
}
pub fn gen_fields(r: &mut Rng) -> Vec<Field> {
  let style = r.below(6);
  (0..5)
    .map(|i| {
      let dense = match style {
        0 => 0,
        1 => 90,
        2 => {
          if i < 2 {
            20
          } else {
            80
          }
        }
        3 => {
          if i == 4 {
            0
          } else {
            75
          }
        }
        4 => {
          if i == 2 {
            0
          } else {
            70
          }
        }
        _ => 50,
      };
      gen_field(r, i, dense)
    })
    .collect()
}
fn gen_start(r: &mut Rng) -> i64 {
  let day = match r.below(10) {
    0 => days_from_civil(*r.pick(&[1904, 1996, 2000, 2016, 2020, 2024, 2096, 2104]), 2, 27 + r.range(0, 2)),
    1 => days_from_civil(*r.pick(&[1900, 2100, 2023, 2019, 1970]), 2, 27 + r.range(0, 1)),
    2 => days_from_civil(r.range(1950, 2120), 12, 30 + r.range(0, 1)),
    3 => days_from_civil(r.range(1950, 2120), r.range(1, 12), 28),
    4 => r.range(-2, 2),
    5 => r.range(-30_000, 60_000),
    6 => days_from_civil(*r.pick(&[1, 400, 1582, 9999, 12_000, -400]), r.range(1, 12), r.range(1, 28)),
    _ => r.range(18_000, 22_000),
  };
  let sod = if r.chance(40) { *r.pick(&[0, 86_399, 86_340, 3600, 7200, 43_200, 82_800, 60]) } else { r.range(0, 86_399) };
  let ms = if r.chance(60) { 0 } else { r.range(0, 999) };
  let sod = if r.chance(60) { sod / 60 * 60 } else { sod };
  day * 86_400_000 + sod * 1000 + ms
}
fn gen_tz(r: &mut Rng, start_ms: i64, horizon_min: i64) -> TzPlan {
  let off = |r: &mut Rng| -> i32 {
    match r.below(8) {
      0 => 0,
      1 => r.range(-14 * 60, 14 * 60) as i32 * 60,
      2 => 5 * 3600 + 1800,
      3 => -(3 * 3600 + 1800),
      4 => r.range(-50_000, 50_000) as i32,
      _ => r.range(-12, 14) as i32 * 3600,
    }
  };
  let base = off(r);
  let mut trans = vec![];
  if r.chance(80) {
    let mut cur = base;
    let mut t = start_ms.div_euclid(1000);
    let n = 1 + r.usize(5);
    let span = (horizon_min * 60 / n as i64).max(600);
    for _ in 0..n {
      let lo = if r.chance(20) { -3000 } else { 0 };
      t += r.range(lo, span);
      if r.chance(60) {
        t = t.div_euclid(60) * 60;
      }
      cur = match r.below(10) {
        0..=4 => cur + *r.pick(&[3600, -3600]),
        5 => cur + *r.pick(&[1800, -1800, 7200, -7200, 900]),
        6 => cur + *r.pick(&[86_400 - 3600, -82_800]),
        7 => cur + r.range(-120, 120) as i32,
        _ => off(r),
      };
      if cur.abs() > 86_000 {
        cur = off(r);
      }
      trans.push((t, cur));
    }
  }
  TzPlan { base, trans }
}

/// A user-written specification that delegates to the real one.
#[derive(Clone)]
struct Spy {
  inner: CronSpecification,
  evals: Rc<Cell<u64>>,
}
impl Specification<DateTime<SimTz>> for Spy {
  fn is_satisfied_by(&self, a: &DateTime<SimTz>) -> bool {
    sched::yield_point(sched::YK_CB);
    self.evals.set(self.evals.get() + 1);
    self.inner.is_satisfied_by(a)
  }
}
enum It {
  Plain(CronIntervalIterator<SimTz, CronSpecification>),
  Spy(CronIntervalIterator<SimTz, Spy>),
}
impl Clone for It {
  fn clone(&self) -> It {
    match self {
      It::Plain(i) => It::Plain(i.clone()),
      It::Spy(i) => It::Spy(i.clone()),
    }
  }
}
impl Iterator for It {
  type Item = DateTime<SimTz>;
  fn next(&mut self) -> Option<DateTime<SimTz>> {
    match self {
      It::Plain(i) => i.next(),
      It::Spy(i) => i.next(),
    }
  }
  fn nth(&mut self, n: usize) -> Option<DateTime<SimTz>> {
    match self {
      It::Plain(i) => i.nth(n),
      It::Spy(i) => i.nth(n),
    }
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    match self {
      It::Plain(i) => i.size_hint(),
      It::Spy(i) => i.size_hint(),
    }
  }
}
/// How the iterator is obtained: 0 upcoming, 1 interval + iter, 2 CronInterval::new with a parsed expression,
/// 3 the same with a user specification, 4 interval built in another zone.
fn make_iter(text: &str, tz: &SimTz, start: i64, end: Option<i64>, how: u8) -> Result<It, String> {
  let s = at_ms(tz, start).ok_or("range")?;
  if end.is_none() && how % 5 <= 1 {
    let sch = CronSchedule::<SimTz>::new(text)?;
    return Ok(It::Plain(if how % 5 == 0 {
      sch.upcoming(s)
    } else {
      let i = sch.cron_interval(s);
      drop(sch);
      i.iter(tz.clone())
    }));
  }
  let expr = oni_comb_crond_rs::CronParser::parse(text)?;
  let spec = CronSpecification::new(expr);
  let other = SimTz(Rc::new(TzPlan { base: 3600, trans: vec![] }));
  let z = if how % 5 == 4 { &other } else { tz };
  let lower = LimitValue::Limit(at_ms(z, start).ok_or("range")?);
  let upper = match end {
    Some(e) => LimitValue::Limit(at(z, e, SUB_END.with(|s| s.get())).ok_or("range")?),
    None => LimitValue::Limitless,
  };
  Ok(if how % 5 == 3 {
    It::Spy(CronInterval::new(lower, upper, Spy { inner: spec, evals: Default::default() }).iter(tz.clone()))
  } else {
    It::Plain(CronInterval::new(lower, upper, spec).iter(tz.clone()))
  })
}
fn p_detail(p: &Panic) -> String {
  match p {
    Panic::Own(m) => m.clone(),
    Panic::Thrown(n) => format!("thrown {}", n),
  }
}
fn shape(fs: &[Field], tz: &TzPlan) -> u64 {
  mix(hash_str(&render(fs, 0)) ^ hash_str(&format!("{:?}", tz)))
}
fn crossed(tz: &TzPlan, a: i64, b: i64) -> u64 {
  tz.trans.iter().filter(|(t, _)| *t * 1000 > a && *t * 1000 <= b).count() as u64
}
const MAX_MS: i64 = 300_000 * 31_556_952_000;

// ------------------------------------------------------------------ T01
#[derive(Clone, Debug, Serialize, Deserialize)]
struct T01 {
  tz: TzPlan,
  start: i64,
  fields: Vec<Field>,
  style: u64,
  minutes: u64,
  cap: usize,
  how: u8,
  skips: Vec<u8>,
  #[serde(default)]
  sub: u32,
  hash_seed: u64,
}
fn gen_t01(r: &mut Rng, tier: Tier) -> Value {
  let fields = gen_fields(r);
  let start = gen_start(r);
  let minutes = match r.below(100) {
    0 => {
      if tier == Tier::Thorough {
        4_400_000
      } else {
        1_600_000
      }
    }
    1..=9 => 540_000,
    10..=39 => 70_000,
    _ => 8_000,
  };
  let zone_span = if r.chance(60) { 3 * 1440 } else { minutes.min(500_000) as i64 };
  serde_json::to_value(T01 {
    tz: gen_tz(r, start, zone_span),
    start,
    fields,
    style: if r.chance(50) { 0 } else { r.next() % 1000 },
    minutes,
    cap: *r.pick(&[3, 20, 150, 1500]),
    how: r.below(5) as u8,
    skips: if r.chance(30) { (0..3).map(|_| r.below(5) as u8).collect() } else { vec![] },
    sub: gen_sub(r),
    hash_seed: r.next() % 1000,
  })
  .unwrap()
}
fn run_t01(v: &Value) -> RunOut {
  let mut out = RunOut::default();
  let Ok(p) = serde_json::from_value::<T01>(v.clone()) else { return out };
  let Some(fs) = sane_fields(&p.fields) else { return out };
  let tzp = p.tz.sane();
  if p.start.abs() > MAX_MS / 2 {
    return out;
  }
  set_sub(p.sub, 0);
  begin(p.hash_seed);
  let minutes = p.minutes.min(5_000_000);
  let want = model(&fs, &tzp, p.start, minutes, None, p.cap.min(5000));
  let text = render(&fs, p.style);
  let tz = SimTz(Rc::new(tzp.clone()));
  let last = want.last().copied().unwrap_or(p.start);
  out.sim_ms = (last - p.start) as u64;
  tz_budget(((last - p.start) / 60_000) as u64 + 2);
  out.nontrivial = want.len() > 1;
  let cr = crossed(&tzp, p.start, last);
  out.fault("tz:offset-change", cr);
  out.probe("instants", want.len() as u64);
  out.probe("minutes_walked", ((last - p.start) / 60_000) as u64);
  let mut it = match sut_catch(|| make_iter(&text, &tz, p.start, None, p.how)) {
    Ok(Ok(it)) => it,
    Ok(Err(e)) => {
      if e != "range" {
        out.violate("rejected", format!("{:?} is rejected: {}", text, e));
      }
      return out;
    }
    Err(e) => {
      out.violate("panic", format!("{:?}: {}", text, p_detail(&e)));
      return out;
    }
  };
  let mut i = 0;
  let mut k = 0;
  while i < want.len() {
    let skip = p.skips.get(k % p.skips.len().max(1)).copied().unwrap_or(0) as usize;
    k += 1;
    let step = skip.min(want.len() - 1 - i);
    let got = sut_catch(|| {
      let (lo, hi) = it.size_hint();
      let _ = (lo, hi);
      if step == 0 {
        it.next()
      } else {
        it.nth(step)
      }
    });
    i += step;
    match got {
      Ok(Some(t)) => {
        if stamp(t.clone()) != want[i] {
          out.violate(
            "wrong-instant",
            format!(
              "{:?} from {} in {:?}: instant {} should be {} but is {}",
              text,
              p.start,
              tzp,
              i,
              want[i],
              t.timestamp_millis()
            ),
          );
          break;
        }
        let off = t.offset().fix().local_minus_utc();
        if off != tzp.off(want[i].div_euclid(1000)) {
          out.violate("wrong-zone", format!("{:?}: instant {} carries offset {}", text, want[i], off));
          break;
        }
      }
      Ok(None) => {
        out.violate("ended", format!("{:?} from {}: ends before instant {} = {}", text, p.start, i, want[i]));
        break;
      }
      Err(e) => {
        out.violate("panic", format!("{:?}: {}", text, p_detail(&e)));
        break;
      }
    }
    i += 1;
  }
  out.observe(&format!("{:?}", want.len()));
  finish(&mut out, mix(shape(&fs, &tzp) ^ p.start as u64));
  out
}

// ------------------------------------------------------------------ T02
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
  Next(u8),
  /// Clone iterator `i % live`; the clone joins the live ones.
  Clone(u8),
  Swap(u8),
  Drop(u8),
  Nth(u8),
  /// Another iterator over the shared schedule (0), the shared specification (1) or the shared interval (2, 3),
  /// starting `n * SHIFTS[shift]` minutes away from where the current one stands, in a zone shifted by `tz` seconds.
  Open { how: u8, shift: u8, n: i8, tz: i32 },
  /// Ask the shared specification about an instant that far away.
  Eval { shift: u8, n: i8, tz: i32 },
}
/// Minutes; calendar cycles after which some of the calendar's numbers repeat and others do not.
const SHIFTS: [i64; 12] = [
  1,
  60,
  1440,
  7 * 1440,
  28 * 1440,
  30 * 1440,
  31 * 1440,
  365 * 1440,
  366 * 1440,
  1461 * 1440,
  28 * 1461 * 360,
  146_097 * 1440,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Daemon {
  start_min: u32,
  fires: u32,
  /// Crash at these numbers of time-zone queries of the daemon's successive incarnations.
  crashes: Vec<u16>,
  /// Crash right after recording instead, at these fire counts.
  crash_after: Vec<u16>,
  jumps: Vec<i32>,
  reuse: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct T02 {
  tz: TzPlan,
  start: i64,
  fields: Vec<Field>,
  style: u64,
  minutes: u64,
  how: u8,
  /// Tasks working on iterators over the one shared schedule.
  tasks: Vec<Vec<Op>>,
  daemons: Vec<Daemon>,
  switches: Switches,
  abandon: Vec<sched::Abandon>,
  #[serde(default)]
  sub: u32,
  hash_seed: u64,
}
pub fn gen_switches(r: &mut Rng, n: usize, max_gap: u64) -> Switches {
  (0..n).map(|_| (if r.chance(50) { r.below(4) as u32 } else { r.logn(max_gap) as u32 }, r.below(8) as u8)).collect()
}
fn gen_tz_shift(r: &mut Rng) -> i32 {
  if r.chance(60) {
    0
  } else {
    r.range(-26, 28) as i32 * 1800
  }
}
fn tz_shifted(t: &TzPlan, by: i32) -> TzPlan {
  TzPlan { base: t.base + by, trans: t.trans.iter().map(|(a, o)| (*a, o + by)).collect() }.sane()
}
fn gen_t02(r: &mut Rng, _t: Tier) -> Value {
  let fields = gen_fields(r);
  let start = gen_start(r);
  let minutes = *r.pick(&[3000, 10_000, 60_000]);
  let tasks = (0..r.usize(4))
    .map(|_| {
      (0..1 + r.usize(12))
        .map(|_| match r.below(15) {
          10 | 11 => {
            Op::Open { how: r.below(4) as u8, shift: r.below(12) as u8, n: r.range(-4, 4) as i8, tz: gen_tz_shift(r) }
          }
          12..=14 => Op::Eval { shift: r.below(12) as u8, n: r.range(-4, 4) as i8, tz: gen_tz_shift(r) },
          0..=4 => Op::Next(1 + r.below(6) as u8),
          5 | 6 => Op::Clone(r.below(4) as u8),
          7 => Op::Swap(r.below(4) as u8),
          8 => Op::Nth(r.below(5) as u8),
          _ => Op::Drop(r.below(4) as u8),
        })
        .collect()
    })
    .collect();
  let daemons = (0..1 + r.usize(2))
    .map(|_| Daemon {
      start_min: r.below(500) as u32,
      fires: 1 + r.below(40) as u32,
      crashes: (0..r.usize(5)).map(|_| r.logn(3000) as u16).collect(),
      crash_after: (0..r.usize(3)).map(|_| r.below(30) as u16).collect(),
      jumps: (0..r.usize(4)).map(|_| r.range(-100_000, 100_000) as i32).collect(),
      reuse: r.chance(40),
    })
    .collect();
  let sw = gen_switches(r, 60, 3000);
  let abandon = if r.chance(25) { vec![sched::Abandon { task: r.below(3) as u32, nth: r.logn(2000) as u32 }] } else { vec![] };
  serde_json::to_value(T02 {
    tz: gen_tz(r, start, 5000),
    start,
    fields,
    style: if r.chance(50) { 0 } else { r.next() % 1000 },
    minutes,
    how: r.below(5) as u8,
    tasks,
    daemons,
    switches: sw,
    abandon,
    sub: gen_sub(r),
    hash_seed: r.next() % 1000,
  })
  .unwrap()
}
fn run_t02(v: &Value) -> RunOut {
  let mut out = RunOut::default();
  let Ok(p) = serde_json::from_value::<T02>(v.clone()) else { return out };
  let Some(fs) = sane_fields(&p.fields) else { return out };
  let tzp = p.tz.sane();
  if p.start.abs() > MAX_MS / 2 || p.tasks.len() + p.daemons.len() == 0 {
    return out;
  }
  set_sub(p.sub, 0);
  begin(p.hash_seed);
  let minutes = p.minutes.min(100_000);
  let text = render(&fs, p.style);
  let want = Rc::new(model(&fs, &tzp, p.start, minutes, None, 2000));
  let tz = SimTz(Rc::new(tzp.clone()));
  TZ_BUDGET.with(|b| b.set(40_000_000));
  let viol: Rc<RefCell<Option<(String, String)>>> = Default::default();
  let stats: Rc<RefCell<[u64; 6]>> = Default::default();
  let base = match sut_catch(|| make_iter(&text, &tz, p.start, None, p.how)) {
    Ok(Ok(i)) => i,
    Ok(Err(e)) => {
      if e != "range" {
        out.violate("rejected", format!("{:?} is rejected: {}", text, e));
      }
      return out;
    }
    Err(e) => {
      out.violate("panic", p_detail(&e));
      return out;
    }
  };
  // What the tasks share: one schedule, one specification and one interval made from it.
  let shared = sut_catch(|| {
    let sch = CronSchedule::<SimTz>::new(&text)?;
    let spec = CronSpecification::new(oni_comb_crond_rs::CronParser::parse(&text)?);
    let s = at_ms(&tz, p.start).ok_or("range")?;
    let interval = CronInterval::new(LimitValue::Limit(s), LimitValue::Limitless, spec.clone());
    Ok::<_, String>((sch, spec, interval))
  });
  let shared = match shared {
    Ok(Ok(x)) => Rc::new(x),
    Ok(Err(e)) => {
      out.violate("rejected", format!("{:?} is rejected: {}", text, e));
      return out;
    }
    Err(e) => {
      out.violate("panic", p_detail(&e));
      return out;
    }
  };
  let mut tasks: Vec<Box<dyn FnOnce()>> = vec![];
  for ops in p.tasks.clone() {
    let (want, viol, stats, text) = (want.clone(), viol.clone(), stats.clone(), text.clone());
    let (shared, fs, tzp, start) = (shared.clone(), fs.clone(), tzp.clone(), p.start);
    let first = base.clone();
    tasks.push(Box::new(move || {
      let mut live: Vec<(It, usize, Rc<Vec<i64>>)> = vec![(first, 0, want)];
      let mut cur = 0;
      for op in ops {
        if viol.borrow().is_some() || live.is_empty() {
          return;
        }
        cur %= live.len();
        let n = match op {
          Op::Next(n) => n as usize,
          Op::Nth(_) => 1,
          Op::Clone(i) => {
            if live.len() < 6 {
              let i = i as usize % live.len();
              match sut_catch(|| live[i].0.clone()) {
                Ok(c) => {
                  let (pos, want) = (live[i].1, live[i].2.clone());
                  live.push((c, pos, want));
                  stats.borrow_mut()[1] += 1;
                }
                Err(e) => *viol.borrow_mut() = Some(("panic".into(), p_detail(&e))),
              }
            }
            0
          }
          Op::Swap(i) => {
            cur = i as usize;
            0
          }
          Op::Drop(i) => {
            let i = i as usize % live.len();
            if live.len() > 1 {
              live.remove(i);
              cur = 0;
            }
            0
          }
          Op::Open { how, shift, n, tz } => {
            let ztz = tz_shifted(&tzp, tz);
            let z = SimTz(Rc::new(ztz.clone()));
            let here = live[cur].1.checked_sub(1).and_then(|i| live[cur].2.get(i)).copied().unwrap_or(start);
            let from = if how % 4 >= 2 { start } else { here + n as i64 * SHIFTS[shift as usize % 12] * 60_000 };
            if from.abs() > MAX_MS / 2 || live.len() >= 6 {
              continue;
            }
            let want = model(&fs, &ztz, from, 3000, None, 12);
            let r = sut_catch(|| {
              let f = at_ms(&z, from)?;
              Some(It::Plain(match how % 4 {
                0 => shared.0.upcoming(f),
                1 => {
                  CronInterval::new(LimitValue::Limit(f), LimitValue::Limitless, shared.1.clone()).iter(z.clone())
                }
                _ => shared.2.iter(z.clone()),
              }))
            });
            match r {
              Ok(None) => continue,
              Ok(Some(it)) => {
                live.push((it, 0, Rc::new(want)));
                cur = live.len() - 1;
                stats.borrow_mut()[4] += 1;
                1
              }
              Err(e) => {
                *viol.borrow_mut() = Some(("panic".into(), p_detail(&e)));
                0
              }
            }
          }
          Op::Eval { shift, n, tz } => {
            let ztz = tz_shifted(&tzp, tz);
            let z = SimTz(Rc::new(ztz.clone()));
            let here = live[cur].1.checked_sub(1).and_then(|i| live[cur].2.get(i)).copied().unwrap_or(start);
            let at = here + n as i64 * SHIFTS[shift as usize % 12] * 60_000;
            if at.abs() > MAX_MS / 2 {
              continue;
            }
            let yes = satisfied(&fs, &ztz, at);
            match sut_catch(|| Some(shared.1.is_satisfied_by(&at_ms(&z, at)?))) {
              Ok(r) if r.is_none() || r == Some(yes) => stats.borrow_mut()[5] += 1,
              Ok(r) => {
                *viol.borrow_mut() = Some((
                  "specification".into(),
                  format!("{:?}: asked about {} the shared specification says {:?}", text, at, r),
                ));
              }
              Err(e) => *viol.borrow_mut() = Some(("panic".into(), p_detail(&e))),
            }
            0
          }
        };
        for _ in 0..n {
          let skip = if let Op::Nth(k) = op { k as usize } else { 0 };
          let want = live[cur].2.clone();
          let pos = live[cur].1 + skip;
          if pos >= want.len() {
            break;
          }
          let it = &mut live[cur].0;
          match sut_catch(|| if skip == 0 { it.next() } else { it.nth(skip) }) {
            Ok(Some(t)) if stamp(t.clone()) == want[pos] => {
              live[cur].1 = pos + 1;
              stats.borrow_mut()[0] += 1;
            }
            Ok(x) => {
              *viol.borrow_mut() = Some((
                "iterator".into(),
                format!(
                  "{:?}: instant {} of an iterator (cloned or shared) should be {}, is {:?}",
                  text,
                  pos,
                  want[pos],
                  x.map(|t| t.timestamp_millis())
                ),
              ));
              return;
            }
            Err(e) => {
              *viol.borrow_mut() = Some(("panic".into(), p_detail(&e)));
              return;
            }
          }
        }
      }
    }));
  }
  for d in p.daemons.clone() {
    let (viol, stats, text, tz, tzp, fs, how) =
      (viol.clone(), stats.clone(), text.clone(), tz.clone(), tzp.clone(), fs.clone(), p.how);
    let start = p.start + d.start_min as i64 * 60_000;
    tasks.push(Box::new(move || {
      let expected = model(&fs, &tzp, start, 60_000, None, d.fires as usize);
      // what survives a crash: the instants recorded
      let mut durable: Vec<i64> = vec![];
      let mut crashes = d.crashes.iter();
      let kept = match sut_catch(|| CronSchedule::<SimTz>::new(&text)) {
        Ok(Ok(s)) => s,
        _ => {
          *viol.borrow_mut() = Some(("rejected".into(), text.clone()));
          return;
        }
      };
      let mut incarnation = 0;
      let me = TASK.with(|t| t.get());
      while durable.len() < expected.len() && incarnation < 20 {
        incarnation += 1;
        let from = durable.last().map(|t| t + 60_000).unwrap_or(start);
        let crash = crashes.next().map(|n| *n as u64);
        if let Some(j) = d.jumps.get(incarnation - 1) {
          world().clock_ns += *j as i128 * 1_000_000_000;
          world().hit("clock:jump");
        }
        // the daemon's own crash points: its time-zone queries
        let r = {
          let reuse = d.reuse;
          sut_catch(|| {
            if reuse {
              at_ms(&tz, from).map(|s| It::Plain(kept.upcoming(s))).ok_or("range".to_string())
            } else {
              make_iter(&text, &tz, from, None, how)
            }
          })
        };
        let mut it = match r {
          Ok(Ok(i)) => i,
          Ok(Err(_)) => return,
          Err(e) => {
            *viol.borrow_mut() = Some(("panic".into(), p_detail(&e)));
            return;
          }
        };
        let mut fired_now = 0;
        loop {
          if durable.len() >= expected.len() {
            break;
          }
          // only the daemon's own queries count towards its crash point, so set it around the call
          let mut crash_in = None;
          if let Some(c) = crash {
            if fired_now as u64 >= c / 64 {
              crash_in = Some(c % 64);
            }
          }
          let r = sut_catch(|| {
            if let Some(c) = crash_in {
              set_crash(me, c);
            }
            it.next()
          });
          clear_crash(me);
          match r {
            Ok(Some(t)) => {
              let ms = stamp(t);
              world().clock_ns = ms as i128 * 1_000_000;
              durable.push(ms);
              fired_now += 1;
              stats.borrow_mut()[2] += 1;
              let i = durable.len() - 1;
              if ms != expected[i] {
                *viol.borrow_mut() = Some((
                  "daemon".into(),
                  format!("{:?} from {}: firing {} should be {}, is {} (incarnation {})", text, start, i, expected[i], ms, incarnation),
                ));
                return;
              }
              if d.crash_after.contains(&(durable.len() as u16)) && incarnation < 18 {
                stats.borrow_mut()[3] += 1;
                world().hit("crash:after-record");
                break;
              }
            }
            Ok(None) => {
              *viol.borrow_mut() = Some(("daemon".into(), format!("{:?}: an open schedule ended", text)));
              return;
            }
            Err(Panic::Thrown(7)) => {
              stats.borrow_mut()[3] += 1;
              world().hit("crash:mid-search");
              break;
            }
            Err(e) => {
              *viol.borrow_mut() = Some(("panic".into(), p_detail(&e)));
              return;
            }
          }
        }
      }
    }));
  }
  sched::run_coros(tasks, &p.switches, &p.abandon);
  TASK.with(|t| t.set(0));
  for a in sched::st().abandoned.iter().filter(|a| **a) {
    let _ = a;
    out.fault("crash:abandoned-iterator", 1);
  }
  if let Some((c, d)) = viol.borrow().clone() {
    out.violate(&c, d);
  }
  let s = stats.borrow().clone();
  out.probe("iterator_instants", s[0]);
  out.probe("clones", s[1]);
  out.probe("daemon_fires", s[2]);
  out.probe("daemon_crashes", s[3]);
  out.probe("other_iterators_over_the_schedule", s[4]);
  out.probe("direct_evaluations", s[5]);
  out.nontrivial = s[1] > 0 || s[3] > 0;
  out.sim_ms = want.last().map(|l| (l - p.start) as u64).unwrap_or(0);
  out.observe(&format!("{:?}", s));
  finish(&mut out, mix(shape(&fs, &tzp) ^ p.start as u64 ^ hash_str(&format!("{:?}{:?}", p.tasks, p.daemons))));
  out
}

// ------------------------------------------------------------------ T03
#[derive(Clone, Debug, Serialize, Deserialize)]
struct T03 {
  tz: TzPlan,
  start: i64,
  /// Window length in milliseconds.
  len_ms: u64,
  fields: Vec<Field>,
  style: u64,
  how: u8,
  ends: u8,
  clone_at: u16,
  skips: Vec<u8>,
  #[serde(default)]
  sub: u32,
  #[serde(default)]
  sub_end: u32,
  hash_seed: u64,
}
fn gen_t03(r: &mut Rng, tier: Tier) -> Value {
  let mut fields = gen_fields(r);
  if r.chance(20) {
    // nothing of the calendar can match
    fields[2] = Field::List(vec![Item::V(31)]);
    fields[3] = Field::List(vec![Item::V(*r.pick(&[2, 4, 6, 9, 11]))]);
  }
  let start = gen_start(r);
  let tz = gen_tz(r, start, 3000);
  let max_min = if tier == Tier::Thorough && r.chance(2) { 1_600_000 } else { 60_000 };
  let mut len_ms = match r.below(8) {
    0 => 0,
    1 => r.below(60_000),
    2 => r.below(200) * 60_000,
    3 => r.below(200) * 60_000 + r.below(60_000),
    _ => r.logn(max_min) * 60_000 + if r.chance(40) { r.below(60_000) } else { 0 },
  };
  if r.chance(35) {
    // an end right at, right before or right after a matching instant
    let m = model(&sane_fields(&fields).unwrap(), &tz.sane(), start, 6000, None, 12);
    if let Some(t) = m.last() {
      len_ms = ((t - start) + *r.pick(&[0, 0, -1, 1, 59_999, -59_999])).max(0) as u64;
    }
  }
  serde_json::to_value(T03 {
    tz,
    start,
    len_ms,
    fields,
    style: if r.chance(50) { 0 } else { r.next() % 1000 },
    how: r.below(5) as u8,
    ends: r.below(40) as u8,
    clone_at: r.logn(300) as u16 - 1,
    skips: if r.chance(25) { (0..3).map(|_| r.below(4) as u8).collect() } else { vec![] },
    sub: gen_sub(r),
    sub_end: gen_sub(r),
    hash_seed: r.next() % 1000,
  })
  .unwrap()
}
fn run_t03(v: &Value) -> RunOut {
  let mut out = RunOut::default();
  let Ok(p) = serde_json::from_value::<T03>(v.clone()) else { return out };
  let Some(fs) = sane_fields(&p.fields) else { return out };
  let tzp = p.tz.sane();
  if p.start.abs() > MAX_MS / 2 {
    return out;
  }
  set_sub(p.sub, p.sub_end);
  begin(p.hash_seed);
  let len = p.len_ms.min(2_000_000 * 60_000);
  // the last millisecond whose instant is not behind the limit
  let (s0, s1) = (p.sub % 1_000_000, p.sub_end % 1_000_000);
  let limit = p.start + len as i64;
  if len == 0 && s1 < s0 {
    return RunOut::default();
  }
  let end = if s0 <= s1 { limit } else { limit - 1 };
  let minutes = len / 60_000 + 1;
  let want = model(&fs, &tzp, p.start, minutes + 1, Some(end), usize::MAX);
  let text = render(&fs, p.style);
  let tz = SimTz(Rc::new(tzp.clone()));
  out.sim_ms = len;
  out.nontrivial = minutes > 2;
  out.fault("tz:offset-change", crossed(&tzp, p.start, end));
  tz_budget(minutes * 3 + 500);
  let mut it = match sut_catch(|| make_iter(&text, &tz, p.start, Some(limit), p.how)) {
    Ok(Ok(it)) => it,
    Ok(Err(e)) => {
      if e != "range" {
        out.violate("rejected", format!("{:?} is rejected: {}", text, e));
      }
      return out;
    }
    Err(e) => {
      out.violate("panic", format!("{:?}: {}", text, p_detail(&e)));
      return out;
    }
  };
  let mut clone: Option<(It, usize)> = None;
  let mut i = 0usize;
  let mut calls = 0usize;
  let check = |it: &mut It, i: usize, step: usize, out: &mut RunOut, who: &str| -> bool {
    let got = sut_catch(|| {
      let h = it.size_hint();
      (h, if step == 0 { it.next() } else { it.nth(step) })
    });
    let left = want.len().saturating_sub(i);
    let expect = want.get(i + step).copied();
    match got {
      Ok(((lo, hi), g)) => {
        let g = g.map(stamp);
        if g != expect {
          out.violate(
            match (g, expect) {
              (Some(_), None) => "beyond-end",
              (None, Some(_)) => "ended-early",
              _ => "wrong-instant",
            },
            format!("{} {:?} in [{}, {}] {:?}: instant {} should be {:?}, is {:?}", who, text, p.start, end, tzp, i, expect, g),
          );
          return false;
        }
        if lo > left || hi.map_or(false, |h| h < left) {
          out.violate("size-hint", format!("{:?}: size hint ({}, {:?}) with {} left", text, lo, hi, left));
          return false;
        }
        g.is_some()
      }
      Err(e) => {
        out.violate("panic", format!("{:?}: {}", text, p_detail(&e)));
        false
      }
    }
  };
  loop {
    if i == p.clone_at as usize && clone.is_none() {
      clone = sut_catch(|| it.clone()).ok().map(|c| (c, i));
    }
    let skip = p.skips.get(calls % p.skips.len().max(1)).copied().unwrap_or(0) as usize;
    calls += 1;
    if !check(&mut it, i, skip, &mut out, "") {
      i = want.len();
      break;
    }
    i += 1 + skip;
  }
  for _ in 0..p.ends {
    if out.violation.is_some() {
      break;
    }
    check(&mut it, i, 0, &mut out, "(after the end)");
  }
  if let (Some((mut c, mut j)), None) = (clone, &out.violation) {
    out.probe("clones", 1);
    while check(&mut c, j, 0, &mut out, "(clone)") {
      j += 1;
    }
  }
  out.probe("instants", want.len() as u64);
  out.probe("empty_windows", want.is_empty() as u64);
  out.probe("minutes_walked", minutes);
  finish(&mut out, mix(shape(&fs, &tzp) ^ p.start as u64 ^ mix(p.len_ms)));
  out
}

// ------------------------------------------------------------------ T04
/// An independent reader of the five-field language; None if the line is not of it.
fn read_line(s: &str) -> Option<Vec<Field>> {
  let parts: Vec<&str> = s.split(' ').collect();
  if parts.len() != 5 {
    return None;
  }
  parts.iter().enumerate().map(|(i, t)| read_field(i, t)).collect()
}
fn read_num(i: usize, s: &str) -> Option<u8> {
  if i == 4 {
    if let Some(k) = DOW.iter().position(|d| *d == s) {
      return Some(k as u8 + 1);
    }
    if s == "L" {
      return Some(7);
    }
    return if s.len() == 1 { s.parse().ok().filter(|n| (1..=7).contains(n)) } else { None };
  }
  if s.is_empty() || s.len() > 2 || !s.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  let n: u8 = s.parse().ok()?;
  if n < LO[i] || n > HI[i] {
    return None;
  }
  Some(n)
}
fn read_field(i: usize, s: &str) -> Option<Field> {
  if s == "*" {
    return Some(Field::Any);
  }
  if let Some(n) = s.strip_prefix("*/") {
    return read_num(i, n).filter(|n| *n > 0).map(Field::Per);
  }
  // a separator after the last item is tolerated
  let items: Option<Vec<Item>> = s
    .strip_suffix(',')
    .unwrap_or(s)
    .split(',')
    .map(|t| match t.split_once('-') {
      None => read_num(i, t).map(Item::V),
      Some((a, b)) => {
        let a = read_num(i, a)?;
        match b.split_once('/') {
          None => Some(Item::R(a, read_num(i, b)?, 0)),
          Some((b, s)) => {
            let s = read_num(i, s)?;
            if s == 0 {
              return None;
            }
            Some(Item::R(a, read_num(i, b)?, s))
          }
        }
      }
    })
    .collect();
  items.map(Field::List)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
  Cut(u16),
  Head(u16),
  Flip(u16, u8),
  Insert(u16, u8),
  Dup(u16, u8),
  Delete(u16),
  Zero(u16),
  ZeroTail(u16),
  SwapFields(u8, u8),
  Long(u16),
  Replace(u16, u16),
  Lower,
}
const ODD: [char; 24] = [
  '0', '1', '7', '9', '*', '/', '-', ',', ' ', 'L', '\0', '\t', '\n', 'A', 'S', '６', 'é', '-', '*', '/', '0', '2', '5', '\u{202e}',
];
fn damage(s: &str, ds: &[Damage]) -> String {
  let mut c: Vec<char> = s.chars().collect();
  for d in ds {
    let n = c.len().max(1);
    match d {
      Damage::Cut(k) => c.truncate(*k as usize % (n + 1)),
      Damage::Head(k) => {
        let k = (*k as usize % n).min(c.len());
        c.drain(..k);
      }
      Damage::Flip(k, b) => {
        if let Some(x) = c.get_mut(*k as usize % n) {
          *x = char::from_u32((*x as u32) ^ (1 << (b % 7))).unwrap_or('?');
        }
      }
      Damage::Insert(k, b) => {
        let k = (*k as usize % (n + 1)).min(c.len());
        c.insert(k, ODD[*b as usize % ODD.len()]);
      }
      Damage::Dup(k, l) => {
        let k = (*k as usize % n).min(c.len());
        let e = (k + *l as usize % 8).min(c.len());
        let part: Vec<char> = c[k..e].to_vec();
        c.splice(k..k, part);
      }
      Damage::Delete(k) => {
        if !c.is_empty() {
          c.remove(*k as usize % n);
        }
      }
      Damage::Zero(k) => {
        // a digit run becomes zero
        let dig: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_digit()).collect();
        if !dig.is_empty() {
          c[dig[*k as usize % dig.len()]] = '0';
        }
      }
      Damage::ZeroTail(k) => {
        let k = *k as usize % n;
        for x in c.iter_mut().skip(k) {
          *x = '\0';
        }
      }
      Damage::SwapFields(a, b) => {
        let s: String = c.iter().collect();
        let mut f: Vec<&str> = s.split(' ').collect();
        let m = f.len();
        f.swap(*a as usize % m, *b as usize % m);
        c = f.join(" ").chars().collect();
      }
      Damage::Long(k) => {
        let s: String = c.iter().collect();
        let mut f: Vec<String> = s.split(' ').map(|x| x.to_string()).collect();
        let m = f.len();
        let i = *k as usize % m;
        let part = format!(",{}", f[i].clone());
        if part.len() < 200 {
          f[i].push_str(&part.repeat(*k as usize % 1500));
        }
        c = f.join(" ").chars().collect();
      }
      Damage::Replace(k, b) => {
        if let Some(x) = c.get_mut(*k as usize % n) {
          *x = ODD[*b as usize % ODD.len()];
        }
      }
      Damage::Lower => {
        for x in c.iter_mut() {
          *x = x.to_ascii_lowercase();
        }
      }
    }
  }
  c.into_iter().collect()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct T04 {
  tz: TzPlan,
  start: i64,
  fields: Vec<Field>,
  style: u64,
  /// Successive versions of the line, each the intact line with these damages.
  reloads: Vec<Vec<Damage>>,
  minutes: u64,
  how: u8,
  hash_seed: u64,
  /// The first damaged line is read so many times.
  #[serde(default)]
  storm: u16,
}
fn gen_t04(r: &mut Rng, _t: Tier) -> Value {
  let start = gen_start(r);
  let k = |r: &mut Rng| r.below(60) as u16;
  let reloads = (0..1 + r.usize(8))
    .map(|_| {
      (0..if r.chance(10) { 0 } else { 1 + r.usize(2) })
        .map(|_| match r.below(14) {
          0 | 1 => Damage::Cut(k(r)),
          2 => Damage::Head(k(r)),
          3 => Damage::Flip(k(r), r.below(7) as u8),
          4 => Damage::Insert(k(r), r.below(24) as u8),
          5 => Damage::Dup(k(r), r.below(8) as u8),
          6 => Damage::Delete(k(r)),
          7 | 8 => Damage::Zero(k(r)),
          9 => Damage::ZeroTail(k(r)),
          10 => Damage::SwapFields(r.below(5) as u8, r.below(5) as u8),
          11 if r.chance(20) => Damage::Long(r.next() as u16),
          12 if r.chance(40) => Damage::Lower,
          _ => Damage::Replace(k(r), r.below(24) as u16),
        })
        .collect()
    })
    .collect();
  serde_json::to_value(T04 {
    tz: gen_tz(r, start, 2000),
    start,
    fields: gen_fields(r),
    style: if r.chance(40) { 0 } else { r.next() % 1000 },
    reloads,
    minutes: *r.pick(&[1500, 3000, 12_000]),
    how: r.below(5) as u8,
    hash_seed: r.next() % 1000,
    storm: if r.chance(2) { 300 } else { 0 },
  })
  .unwrap()
}
fn run_t04(v: &Value) -> RunOut {
  let mut out = RunOut::default();
  let Ok(p) = serde_json::from_value::<T04>(v.clone()) else { return out };
  let Some(fs) = sane_fields(&p.fields) else { return out };
  let tzp = p.tz.sane();
  if p.start.abs() > MAX_MS / 2 {
    return out;
  }
  begin(p.hash_seed);
  let text = render(&fs, p.style);
  let tz = SimTz(Rc::new(tzp.clone()));
  let minutes = p.minutes.min(50_000);
  let end = p.start + minutes as i64 * 60_000;
  TZ_BUDGET.with(|b| b.set(40_000_000));
  let running = model(&fs, &tzp, p.start, minutes, None, 300);
  let mut run_it = match sut_catch(|| make_iter(&text, &tz, p.start, None, p.how)) {
    Ok(Ok(i)) => i,
    Ok(Err(e)) => {
      if e != "range" {
        out.violate("rejected", format!("intact line {:?}: {}", text, e));
      }
      return out;
    }
    Err(e) => {
      out.violate("panic", p_detail(&e));
      return out;
    }
  };
  let mut at = 0;
  let (mut acc, mut rej) = (0u64, 0u64);
  let mut storm = p.storm.min(500);
  for ds in p.reloads.iter().take(12) {
    let line = damage(&text, ds);
    for d in ds {
      let n = format!("{:?}", d);
      out.fault(&format!("line:{}", n.split('(').next().unwrap()), 1);
    }
    let refd = read_line(&line);
    if storm > 0 && !ds.is_empty() && refd.is_none() && line.len() < 200 {
      for _ in 0..storm {
        if let Err(e) = sut_catch(|| make_iter(&line, &tz, p.start, Some(end), p.how).map(|_| ())) {
          out.violate("panic", format!("reading {:?}: {}", line, p_detail(&e)));
          break;
        }
      }
      storm = 0;
      out.fault("line:storm", 1);
    }
    let res = sut_catch(|| make_iter(&line, &tz, p.start, Some(end), p.how));
    match res {
      Err(e) => {
        out.violate("panic", format!("reading {:?}: {}", line, p_detail(&e)));
        break;
      }
      Ok(Err(e)) => {
        rej += 1;
        out.observe(&e);
        if ds.is_empty() && e != "range" {
          out.violate("rejected", format!("intact line {:?}: {}", text, e));
          break;
        }
      }
      Ok(Ok(mut it)) => {
        acc += 1;
        match refd {
          None => {
            // not a line of the language: accepted text must at least evaluate without panicking
            if let Err(e) = sut_catch(|| it.by_ref().take(200).count()) {
              out.violate("time-bomb", format!("{:?} is accepted, then evaluation panics: {}", line, p_detail(&e)));
              break;
            }
            out.violate("accepted-garbage", format!("{:?} is not a schedule but is accepted", line));
            break;
          }
          Some(f) => {
            let want = model(&f, &tzp, p.start, minutes + 1, Some(end), 200);
            let n = want.len();
            match sut_catch(|| it.by_ref().take(n + if n < 200 { 1 } else { 0 }).map(|t| t.timestamp_millis()).collect::<Vec<_>>()) {
              Err(e) => {
                out.violate("time-bomb", format!("{:?} is accepted, then evaluation panics: {}", line, p_detail(&e)));
                break;
              }
              Ok(got) if got != want => {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(n));
                out.violate(
                  "wrong-instant",
                  format!("{:?} from {} {:?}: instant {} should be {:?}, is {:?}", line, p.start, tzp, i, want.get(i), got.get(i)),
                );
                break;
              }
              Ok(_) => {}
            }
          }
        }
      }
    }
    // the schedule already running
    for _ in 0..3 {
      if at < running.len() {
        match sut_catch(|| run_it.next()) {
          Ok(Some(t)) if t.timestamp_millis() == running[at] => at += 1,
          x => {
            out.violate("running", format!("{:?}: running schedule disturbed at {}: {:?}", text, at, x.map(|o| o.map(|t| t.timestamp_millis()))));
            break;
          }
        }
      }
    }
    if out.violation.is_some() {
      break;
    }
  }
  out.probe("accepted", acc);
  out.probe("rejected", rej);
  out.nontrivial = rej + acc > 0;
  out.sim_ms = minutes * 60_000;
  finish(&mut out, mix(shape(&fs, &tzp) ^ hash_str(&format!("{:?}", p.reloads))));
  out
}

const REAL: &[&str] = &[
  "crond: CronSchedule, CronParser, CronInterval, CronIntervalIterator, CronSpecification, CronEvaluator (with its chrono and intervals-rs dependencies)",
  "parser: every combinator the cron grammar uses",
];
const STUB: &[&str] = &[
  "time zone: simulated chrono TimeZone with seeded offset transitions",
  "system clock: simulated",
  "the scheduling daemon and its durable record: harness model",
];
const ASSUME: &[&str] = &["chrono's calendar arithmetic on UTC instants is correct (independently recomputed by the model)"];
pub fn scenarios() -> Vec<Scenario> {
  vec![
    Scenario {
      id: "T01",
      gen: gen_t01,
      run: run_t01,
      runs_quick: 72_000,
      rule: "a run counts if the schedule matched at least two minutes of its walk",
      real: REAL,
      stub: STUB,
      assumptions: ASSUME,
    },
    Scenario {
      id: "T02",
      gen: gen_t02,
      run: run_t02,
      runs_quick: 50_000,
      rule: "a run counts if an iterator was cloned or a daemon crashed",
      real: REAL,
      stub: STUB,
      assumptions: ASSUME,
    },
    Scenario {
      id: "T03",
      gen: gen_t03,
      run: run_t03,
      runs_quick: 72_000,
      rule: "a run counts if its window spans more than two minutes",
      real: REAL,
      stub: STUB,
      assumptions: ASSUME,
    },
    Scenario {
      id: "T04",
      gen: gen_t04,
      run: run_t04,
      runs_quick: 72_000,
      rule: "a run counts if at least one damaged line was read",
      real: REAL,
      stub: STUB,
      assumptions: ASSUME,
    },
  ]
}
