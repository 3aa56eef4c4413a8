#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
PI="parser/src/internal/parsers_impl/"
HM="hocon/src/model/"
# ---------------------------------------------------------------- parser library
p("P01","A shared parser gives every caller the result of a fresh one",
  "However callers interleave, nest, clone and reuse one parser value on the same or on different inputs, every parse returns exactly the value, consumed length, error and commit status that a freshly built copy of that parser returns for that caller's input alone. Earlier, unfinished, failed and abandoned parses leave no trace in later ones.",
  ["schedules","histories","programs"],
  "All grammars built from the combinators, all sets of callers sharing (clones of) them, all interleavings of their parses at the points where user code runs, all histories of earlier parses.",
  "The tests build a new parser for every assertion and run it once, on one thread, to completion; none reuses a parser value, none nests or interleaves two parses of the same value, so any state carried from one parse to another is invisible to them.",
  ["parser/src/core/parser.rs",PI+"cache_parsers_impl.rs",PI+"lazy_parsers_impl.rs",PI+"operator_parsers_impl.rs",PI+"repeat_parsers_impl.rs",PI+"skip_parser_impl.rs","parser/src/internal/parsers_impl.rs"],
  [("parse state is passed by value, results are returned, closures are Fn","parser/src/core/parser.rs: Parser::new; parser/src/core/parse_state.rs"),("memo table keyed per input and position",PI+"cache_parsers_impl.rs: cache")],
  ["Parser::parse / Parser::run results (value, length, error text, committed status)"],
  [("memo table","results already computed by a cached parser, shared by all clones of it",PI+"cache_parsers_impl.rs")])
p("P02","Memoising a parser never changes what it parses",
  "Wrapping any sub-parser, self-referential ones included, in the cache combinator never changes the result of any parse: at every position, of every input, in every history and interleaving of parses, the cached grammar answers exactly like the uncached one and never panics where that one does not. Within one parse a cached parser evaluates its inner parser at most once per position.",
  ["programs","schedules","histories","inputs"],
  "All grammars, all subsets of their nodes that are wrapped in cache, all inputs (several sharing memory included), all histories and interleavings of parses over the same cached parser values.",
  "The only cache test calls a parser once; it can tell neither a stale entry (needs the same cached value at two positions or on two inputs) nor a re-entrancy failure (needs recursion through the cached parser) from correct behaviour.",
  [PI+"cache_parsers_impl.rs","parser/src/core/parse_state.rs","parser/src/internal/parser_impl/cache_parser_impl.rs"],
  [("memo lookup and insert",PI+"cache_parsers_impl.rs: cache")],
  ["parse results of a grammar and of its cached variant","calls of user callbacks below a cached node"],
  [("memo table","results already computed",PI+"cache_parsers_impl.rs")])
p("P03","A panicking callback leaves the parser fully usable",
  "If user code called during a parse (a mapping, predicate, conversion, continuation or lazy constructor) panics at any point and the caller catches it, every later parse with the same parser value or its clones, and every parse that was suspended at that moment, returns exactly what it would have returned had the panicking parse never been started. No callback value is dropped twice and none is leaked.",
  ["crash_points","histories","schedules","programs"],
  "All grammars, all points (k-th callback call) at which a callback panics, all later and concurrent parses of the same value.",
  "No test panics inside a callback and continues; the crash points are every callback call of every parse.",
  [PI+"cache_parsers_impl.rs",PI+"operator_parsers_impl.rs",PI+"repeat_parsers_impl.rs",PI+"conversion_parsers_impl.rs","parser/src/internal/parsers_impl.rs"],
  [("no borrow or half-written state is held across user code","all parsers_impl files")],
  ["results of parses after a caught panic","live-value count of callback results"])
p("P04","A failing callback backtracks exactly as the grammar says",
  "When a user conversion reports an error or a user predicate says no, at whatever point of a parse, the parse continues exactly as the documented rules of ordered choice, attempt, option, lookahead, negation and repetition prescribe: nothing consumed or produced by the failed branch shows in the result, and alternatives are tried in order, each only after an uncommitted failure of the one before it. The error finally reported can always be rendered and its excerpt lies inside the input.",
  ["fault_sequences","programs","inputs"],
  "All grammars, all sets of callback calls that report failure, all inputs, including inputs cut off at any element.",
  "Each combinator test checks one combinator on one or two inputs with callbacks that never fail; the interaction of a failure at the k-th callback with the nest of combinators around it is never exercised.",
  [PI+"operator_parsers_impl.rs",PI+"repeat_parsers_impl.rs",PI+"conversion_parsers_impl.rs",PI+"peek_parsers_impl.rs",PI+"skip_parser_impl.rs",PI+"taken_parsers_impl.rs",PI+"elements_parsers_impl.rs","parser/src/internal/parsers_impl.rs","parser/src/core/parse_error.rs","parser/src/core/parse_result.rs"],
  [("committed status","parser/src/core/committed_status.rs; parse_result.rs: with_uncommitted, add_commit"),("relative consumed lengths","parser/src/core/parse_state.rs: advance_by")],
  ["value, length, error and commit status of a parse against a reference interpreter of the grammar"])
p("P05","Logging observes a parse and never influences it",
  "Turning logging on or off, changing its level in the middle of a parse, or a log sink that is slow, itself parses, or panics never changes any parse result. While a level is enabled, each logging point of that level emits exactly one record for each time the parser it wraps is evaluated, in evaluation order, carrying that evaluation's outcome, and no record when disabled.",
  ["schedules","fault_sequences","configurations","programs"],
  "All grammars with logging points, all sequences of level changes at log calls and callbacks, all sink behaviours.",
  "Tests run with one logger at one level and look at the parse result only.",
  [PI+"logging_parsers_impl.rs","parser/src/extension/parser/logging_parser.rs",PI+"elements_parsers_impl.rs"],
  [("log after evaluation, return the evaluated result unchanged",PI+"logging_parsers_impl.rs: log_map")],
  ["records received by the installed log sink","parse results"])
# ---------------------------------------------------------------- hocon loader
p("H01","Loading a file yields the whole document or an error",
  "Whatever the file system does during a load (missing file, denied or exhausted handles, a read error after any number of bytes), the load returns either the configuration of the complete file content or an error of the matching kind: not-found when the file cannot be opened, read error when reading it fails or its bytes are not text. It never returns a configuration built from part of a file, and never panics.",
  ["fault_sequences","inputs"],
  "All sequences of open/stat/read failures placed at any call of a load, for all documents and file sizes.",
  "The file tests load four tiny files that exist and are readable; no test injects an I/O failure, and partial reads need one.",
  ["hocon/src/model.rs",HM+"config_value.rs"],
  [("file reader maps I/O failures to errors and the factory returns them","hocon/src/model.rs: DefaultFileReader, ConfigFactory::load_from_file")],
  ["result of ConfigFactory::load_from_file"])
p("H02","Benign I/O behaviour never shows in a loaded configuration",
  "Short reads of any size, interrupted calls, files that report a wrong or zero size, slow calls and other tasks running in between never change what a load returns: every value of the document, and nothing else, is found at its path.",
  ["schedules","fault_sequences","inputs"],
  "All chunkings and interruptions of the reads, all interleavings with other loads at I/O calls, all documents in the supported subset.",
  "A test on a real disk always sees one full read; a document never arrives in pieces.",
  ["hocon/src/model.rs","hocon/src/parsers.rs",HM+"config_value.rs",HM+"config_object_value.rs"],
  [("read until end of file, retry interruptions","hocon/src/model.rs: DefaultFileReader"),("document to value tree","hocon/src/parsers.rs; hocon/src/model/config_value.rs: resolve")],
  ["Config::get_value / has_path for every path of the document"])
p("H03","A load sees one committed version of a file, never a mixture",
  "While a writer replaces a file by atomic rename any number of times, and may crash between writing the replacement and renaming it, every load returns exactly one version that was in place at some moment between the call and its return, or an error if reading it failed, in every interleaving of their I/O calls. Loads that do not overlap never go back to an older version.",
  ["schedules","crash_points","histories"],
  "All interleavings of loads with atomic replacements at every I/O call, all writer crash points.",
  "No test modifies a file while it is being loaded.",
  ["hocon/src/model.rs"],
  [("one open per load, all bytes read from that handle","hocon/src/model.rs: DefaultFileReader")],
  ["history of load invocations and results against the history of renames"])
p("H04","An include contributes its whole file or fails the load",
  "A document made of file includes loads as the merge, in order, of the included documents, each read completely as it was at the moment of the load. If any included file, at any depth, is missing, unreadable, fails while being read, is malformed or includes itself, the load as a whole returns an error instead of a configuration, a panic or endless work.",
  ["fault_sequences","schedules","configurations"],
  "All include graphs (chains, diamonds, cycles), all I/O faults at any call on any file of the graph, all interleaved replacements of included files.",
  "No test loads a file with an include; only the text of the include directive is parsed.",
  [HM+"config_value.rs",HM+"config_include_value.rs","hocon/src/parsers.rs","hocon/src/model.rs"],
  [("include resolution before merging",HM+"config_value.rs: resolve (Include); hocon/src/model.rs: resolve_stage0")],
  ["result of ConfigFactory::load_from_file on the root file"])
p("H05","A torn or corrupted file never crashes the loading process",
  "If a file is torn by a crash of its writer (cut at any byte, a tail of zeroes, blocks of old content) or damaged by flipped bytes, loading it returns a configuration or an error, and error messages can be rendered; it never panics, aborts, overflows the stack or loops.",
  ["crash_points","fault_sequences","inputs"],
  "All documents of the supported subset, all torn-write and bit-rot images of them.",
  "Tests load well-formed files only; the images a crash leaves behind are unbounded in number.",
  ["hocon/src/model.rs","hocon/src/parsers.rs",HM+"config_value.rs",HM+"config_number_value.rs","parser/src/core/parse_error.rs"],
  [("errors are values all the way up","hocon/src/model.rs: parse_from_string; parser/src/core/parse_error.rs: input")],
  ["outcome (Ok, Err, panic, abort, hang) of load_from_file"])
p("H06","A loaded configuration is an isolated snapshot",
  "Once a load has returned, no later change of files or environment and no later, failed or concurrent load, by the same factory or another one, changes what that configuration answers; and every load, also by a factory used before, reflects the file as it is now, even if its size and modification time are unchanged.",
  ["histories","schedules","fault_sequences"],
  "All histories of file rewrites, environment changes, loads and queries by several factories and tasks.",
  "Every test creates one factory, loads once and asks at once.",
  ["hocon/src/model.rs",HM+"config_value.rs"],
  [("values are owned, the factory keeps no result","hocon/src/model.rs: ConfigFactory, Config")],
  ["answers of Config::get_value over time"],
  [("file_reader","the only field of a factory","hocon/src/model.rs")])
p("H07","Environment substitutions take the value at load time or fall back",
  "A substitution naming no configuration path takes the value the environment variable has during the load. If it is unset, an optional substitution that follows an earlier value of the same field leaves that value, and a mandatory one makes the load fail with an error; a substitution never takes the value of another variable, of another load or of another moment.",
  ["histories","schedules","configurations"],
  "All documents with substitutions, all environments, all histories and interleavings of environment changes and loads.",
  "Four tests set one variable each, and one expects a panic; no test changes the environment between or during loads.",
  [HM+"config_value.rs","hocon/src/parsers.rs"],
  [("lookup in the document, then in the environment, then the previous value",HM+"config_value.rs: resolve (Reference)")],
  ["Config::get_value of substituted fields, result of the load"])
p("H08","The same document means the same configuration in every process",
  "Parsing the same text in the same environment gives the same answer for every path, and the same error, in every process and every repetition, whatever seed the process's hash tables draw.",
  ["configurations","histories","inputs"],
  "All documents (keys written dotted, nested and mixed), all hash seeds, all processes.",
  "A test runs in one process with one random seed and compares with a constant; an outcome that depends on the seed shows up as a rare flake at most.",
  [HM+"config_value.rs",HM+"config_object_value.rs","hocon/src/parsers.rs"],
  [("order of merging fields kept in hash maps",HM+"config_value.rs: resolve (Object, None); config_object_value.rs: merge_with")],
  ["Config::get_value / has_path for all paths, across processes"])
p("H09","A load leaves no trace outside its result",
  "A load opens only the named file and its includes, for reading only; when it returns, by success or error, every file handle it opened is closed exactly once. It writes nothing to standard output, standard error or any file, and does not change the environment.",
  ["fault_sequences","histories","inputs"],
  "All loads under all I/O faults, with any state of the standard streams.",
  "Tests do not count handles or capture the streams, and never fail a read.",
  ["hocon/src/model.rs",HM+"config_value.rs"],
  [("handles are owned by the reader call","hocon/src/model.rs: DefaultFileReader"),("resolution is silent",HM+"config_value.rs: resolve, prev_latest")],
  ["system calls made during a load"])
# ---------------------------------------------------------------- cron
p("T01","A cron iterator yields exactly the matching minutes, in order",
  "From any start instant and in any time zone, through gaps and repeated hours when its offset changes, an iterator yields in strictly increasing order exactly one instant for each minute, counted from the start, whose local wall-clock time satisfies all five fields, and no other instant. A field is satisfied by `*`, a listed value, a value inside a range, on a range's step counted from its first value, or a multiple of `*/n`; weekdays count from Sunday=1 to Saturday=7 and `L` is the last one.",
  ["configurations","histories","schedules","inputs"],
  "All schedules, start instants, time zones with arbitrary offset transitions, and interleavings of several iterators.",
  "One test takes five values of one schedule in UTC; weekday fields, month ends, leap years and offset changes are never evaluated.",
  ["crond/src/cron_evaluator.rs","crond/src/cron_interval_iterator.rs","crond/src/cron_interval.rs","crond/src/cron_parser.rs","crond/src/lib.rs"],
  [("advance minute by minute and test the local time","crond/src/cron_interval_iterator.rs: next, proceed_next; crond/src/cron_evaluator.rs: eval")],
  ["instants returned by CronSchedule::upcoming"])
p("T02","A restarted or cloned schedule continues exactly where it was",
  "A scheduler that crashes at any point and resumes from the minute after the last instant it durably recorded fires every matching minute exactly once, in order, as if it had never crashed. A cloned iterator continues from the clone point independently of the original, and any number of iterators over one schedule never influence each other.",
  ["crash_points","histories","schedules"],
  "All crash and restart points, clone points, clock jumps while down, and interleavings of iterators.",
  "No test clones an iterator, restarts one, or runs two at a time.",
  ["crond/src/cron_interval_iterator.rs","crond/src/cron_interval.rs","crond/src/cron_schedule.rs"],
  [("iteration state is the current and next instant only","crond/src/cron_interval_iterator.rs")],
  ["log of fired instants against the model's"],
  [("curr, next","position of an iterator","crond/src/cron_interval_iterator.rs")])
p("T03","A bounded cron window ends: nothing outside it, nothing missing",
  "An iterator over a window with an upper limit yields exactly the matching minutes from the start to the limit inclusive, then reports the end, and keeps reporting it. It does so after a bounded amount of work even if no minute of the window matches.",
  ["configurations","histories","inputs"],
  "All schedules including ones that never match, all windows (empty, one instant, ending inside a minute, ending in a repeated hour), all time zones.",
  "No test creates a window with an upper limit.",
  ["crond/src/cron_interval_iterator.rs","crond/src/cron_interval.rs"],
  [("limit checked against each candidate","crond/src/cron_interval_iterator.rs: next, proceed_next")],
  ["instants and end-of-iteration of CronInterval::iter"])
p("T04","A damaged schedule line is rejected or usable, never a time bomb",
  "When a running scheduler reloads a schedule line that was cut, corrupted or mistyped, the line is either rejected with an error or becomes a schedule whose evaluation never panics and fires as that line says; the schedules already running are unaffected either way.",
  ["fault_sequences","histories","inputs"],
  "All single and multiple corruptions of schedule lines, at any moment of a running scheduler.",
  "Tests parse valid lines, and only parse them: what an accepted odd line does later, when evaluated, is not looked at.",
  ["crond/src/cron_parser.rs","crond/src/cron_evaluator.rs","crond/src/cron_schedule.rs"],
  [("grammar ranges bound every value","crond/src/cron_parser.rs"),("evaluation is total on accepted schedules","crond/src/cron_evaluator.rs: visit")],
  ["CronSchedule::new result, behaviour of upcoming() afterwards"])
# ---------------------------------------------------------------- cross-cutting
p("X01","Threads parsing at the same time never influence each other",
  "When several threads load configurations, parse URIs, parse and evaluate cron schedules and run their own parsers at the same time, preempted at arbitrary points, every operation returns exactly what it returns when run alone, and none deadlocks. A panic or error in one thread changes nothing in another.",
  ["schedules","fault_sequences","histories"],
  "All interleavings of the threads' operations at memory allocations, system calls, lock waits, log calls and callbacks, with panics at any of these callbacks.",
  "Tests run each operation alone; the runner's own parallelism is not controlled and each test checks only its own constants.",
  ["parser/src/core/parser.rs","hocon/src/model.rs",HM+"config_value.rs","uri/src/models/uri.rs","crond/src/cron_schedule.rs"],
  [("no global mutable state; parsers are built per call","hocon/src/model.rs: parse_from_string; uri/src/models/uri.rs: parse; crond/src/cron_parser.rs: parse")],
  ["per-thread operation results against the same operation run alone"])
# ---------------------------------------------------------------- pure functions (not simulation targets)
def pure(id,title,st,text,why,files,mech,obs):
    p(id,title,st,["inputs"],text,why,files,mech,obs)
pure("U01","A parsed URI prints back as the text it was parsed from",
  "For every URI accepted by the parser, printing the parsed value gives the same URI again and the accessors return its parts as RFC 3986 divides them. Text that is not a URI as a whole is rejected.",
  "All URI texts.","Tests sample a generator and a handful of literals.",
  ["uri/src/models/uri.rs","uri/src/parsers/uri_parsers.rs"],[("grammar and Display","uri/src")],["Uri::parse, Display"])
pure("G01","Sequence, choice and mapping obey their algebraic laws",
  "Sequencing and ordered choice are associative, mapping respects composition, flat mapping obeys the monad laws, and an always-failing parser is neutral for choice.",
  "All parsers and inputs.","Tests check single examples.",
  ["parser/src/internal/parsers_impl.rs",PI+"operator_parsers_impl.rs"],[("combinator definitions","parser/src/internal")],["Parser::parse"])
pure("G02","Repetition honours its bounds and operator chains their associativity",
  "A repetition returns between its lower and upper bound of items or fails; a left or right chain folds its operands with the stated associativity.",
  "All bounds, element and separator parsers, inputs.","Tests check single examples.",
  [PI+"repeat_parsers_impl.rs",PI+"operator_parsers_impl.rs"],[("repeat_sep, chain_left1, chain_right1","parser/src/internal")],["Parser::parse"])
pure("G03","Element and string primitives accept exactly their character classes",
  "Every element, set, range, tag and pattern primitive accepts exactly the elements of its class, for bytes and characters alike.",
  "All elements.","Tests check a few elements per class.",
  [PI+"element_parsers_impl.rs",PI+"elements_parsers_impl.rs","parser/src/core/element.rs"],[("Element trait","parser/src/core/element.rs")],["Parser::parse"])
pure("C01","The cron grammar accepts exactly the five-field language",
  "A text is accepted as a schedule exactly if it consists of five fields of the documented grammar within their numeric ranges.",
  "All texts.","Tests sample each field parser.",
  ["crond/src/cron_parser.rs"],[("instruction()","crond/src/cron_parser.rs")],["CronParser::parse"])
pure("K01","Documents merge and override as HOCON prescribes",
  "Duplicate keys, dotted and nested keys, object merges, array concatenation, string concatenation and substitutions combine as the HOCON specification prescribes.",
  "All documents.","Tests check single examples.",
  ["hocon/src/parsers.rs",HM+"config_value.rs"],[("merge_with, push, resolve",HM)],["Config::get_value"])
pure("K02","Numbers and durations convert without loss or fail",
  "A number or duration value converts to each numeric or duration type exactly, or reports that it cannot.",
  "All numbers, units and target types.","Tests check single examples.",
  [HM+"config_number_value.rs",HM+"config_duration_value.rs"],[("to_* conversions",HM)],["conversion results"])
pure("L01","Toy programs evaluate as the language defines",
  "A program of the toy language evaluates to the value its operator, scoping and control rules define, or is reported as an error.",
  "All programs.","Tests run a few programs.",
  ["toys/src/main.rs"],[("interpreter","toys/src")],["interpreter result"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
