//! C10: instrumentation as a function of (source, filename, options), decided by
//! exhausting histories of requests in one process and schedules of concurrent
//! requests. `purity <quick|thorough>` prints the report as JSON.
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};
use swc_core::common::comments::{Comment, Comments, SingleThreadedComments};
use swc_core::common::errors::SourceMapper;
use swc_core::common::{sync::Lrc, BytePos, FileName, Globals, Loc, Mark, SourceMap, Span, GLOBALS};
use swc_core::ecma::ast::*;
use swc_core::ecma::transforms::base::{fixer::fixer, hygiene::hygiene, resolver};
use swc_core::ecma::visit::visit_mut_pass;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};
use swccov_mc::*;

#[derive(Clone)]
struct Req {
    id: &'static str,
    src: &'static str,
    name: &'static str,
    opts: serde_json::Value,
    mode: Mode,
    lang: Lang,
}
fn reqs() -> Vec<Req> {
    let r = |id, src, name, opts, mode| Req { id, src, name, opts, mode, lang: Lang::Js };
    let full = "import 'x';\nfunction f(a = 1) { if (a && b) { return () => a; } switch (a) { case 1: break; } }\nclass K { m() { return 1; } static s = f || 2; }\nexport default f;";
    vec![
        r("full", full, "/p/f.js", json!({}), Mode::Module),
        r("logic", full, "/p/f.js", json!({"reportLogic": true}), Mode::Module),
        r("other name", full, "/p/g.js", json!({}), Mode::Module),
        r("other content", "a || b ? c() : d(x => x);", "/p/f.js", json!({}), Mode::Module),
        r("ignored methods", full, "/p/f.js", json!({"ignoreClassMethods": ["m", "f"]}), Mode::Module),
        r("hints", "/* istanbul ignore next */ function f() { a(); }\n/* istanbul ignore if */ if (a) b(); else c();\nb(); /* istanbul ignore next */", "/p/h.js", json!({}), Mode::Module),
        r("script", "\"use strict\";\nvar a = 1;\nfunction f() { with (a) b(); }", "/p/s.js", json!({}), Mode::Script),
        r("variable and map", "for (const x of y) x ? a : b;", "/p/f.js", json!({"coverageVariable": "__v__", "inputSourceMap": {"version": 3, "sources": ["q"], "names": [], "mappings": "AAAA"}}), Mode::Module),
        r("ignored file", "/* istanbul ignore file */ a();", "/p/f.js", json!({}), Mode::Module),
        r("same name as script", full2(), "/p/f.js", json!({"reportLogic": true}), Mode::Script),
        r("does not parse", "a(;", "/p/f.js", json!({}), Mode::Module),
        Req { id: "ts", src: "enum E { A = 1 }\nfunction f(a?: number): void { a ?? b; }\nabstract class Q { abstract m(): void; x: number = 1; }", name: "/p/t.ts", opts: json!({}), mode: Mode::Module, lang: Lang::Ts },
    ]
}
fn full2() -> &'static str {
    "var o = { m() { return a && (b || c); } }; o.m(); label: while (x) { if (y) continue label; }"
}

/// A compiler session: what swc shares between the files it compiles.
struct Session {
    globals: Globals,
    cm: Lrc<SourceMap>,
}
impl Session {
    fn new() -> Self {
        Session { globals: Globals::new(), cm: Default::default() }
    }
}

struct Parsed {
    program: Program,
    comments: SingleThreadedComments,
}
fn start(s: &Session, r: &Req) -> Result<Parsed, String> {
    let comments = SingleThreadedComments::default();
    let mut program = parse(&s.cm, &comments, r.name, r.src, r.mode, r.lang).map_err(|_| "parse".to_string())?;
    program.mutate(resolver(Mark::new(), Mark::new(), r.lang == Lang::Ts));
    Ok(Parsed { program, comments })
}
fn opts(r: &Req) -> InstrumentOptions {
    let mut v = r.opts.clone();
    v["debugInitialCoverageComment"] = true.into();
    serde_json::from_value(v).unwrap()
}
/// A prepared request: the visitor exists, nothing was visited.
fn create(s: &Session, r: &Req) -> Result<Box<dyn FnOnce(&Session) -> String>, String> {
    let p = start(s, r)?;
    let visitor = create_coverage_instrumentation_visitor(s.cm.clone(), p.comments.clone(), opts(r), r.name.to_string());
    Ok(Box::new(move |s: &Session| finish(s, p, |program| program.mutate(visit_mut_pass(visitor)))))
}
fn finish(s: &Session, mut p: Parsed, visit: impl FnOnce(&mut Program)) -> String {
    visit(&mut p.program);
    let comment = debug_comment(&p.comments);
    p.program.mutate(hygiene());
    p.program.mutate(fixer(Some(&p.comments)));
    format!("{}\u{1}{}", emit(&s.cm, None, &p.program), comment.unwrap_or_default())
}
fn run(s: &Session, r: &Req) -> String {
    GLOBALS.set(&s.globals, || {
        catch(|| match create(s, r) {
            Ok(f) => Ok(f(s)),
            Err(e) => Ok(e),
        })
        .unwrap_or_else(|e| format!("panic {}", e))
    })
}

fn diff(want: &str, got: &str) -> String {
    let n = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(30)..(n + 60).min(s.len())]).to_string();
    format!("expected ..{:?}.. got ..{:?}..", cut(want), cut(got))
}

// ---- children: each history runs in a process forked from one that has not
// instrumented anything yet.
fn forked(f: impl FnOnce(&mut dyn std::io::Write)) -> Vec<u8> {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut w)));
            drop(w);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        r.read_to_end(&mut out).unwrap();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if st != 0 {
            out.extend_from_slice(format!("\n{}\n", json!({"died": st})).as_bytes());
        }
        out
    }
}

#[derive(Default)]
struct Tally {
    histories: u64,
    requests: u64,
    schedules: u64,
    points: u64,
    switches: u64,
    names: u64,
    orders: u64,
    max_points: usize,
    violations: Vec<serde_json::Value>,
    seen: HashMap<String, u32>,
}
impl Tally {
    fn bad(&mut self, key: &str, detail: String, replay: String) {
        let n = self.seen.entry(format!("{}{}", key, detail)).or_insert(0);
        *n += 1;
        if *n <= 2 && self.violations.len() < 50 {
            self.violations.push(json!({"key": key, "detail": detail, "replay": replay}));
        }
    }
}

/// All histories up to `depth` in one process each (fork at every node: the
/// process state is the state of the exploration).
fn histories(rs: &[Req], want: &[String], depth: usize, shared: bool, first: usize, w: &mut dyn std::io::Write) {
    fn node(rs: &[Req], want: &[String], left: usize, s: Option<&Session>, trail: &mut Vec<usize>, i: usize, w: &mut dyn std::io::Write) {
        // in a fresh child of the parent node
        trail.push(i);
        let own;
        let s = match s {
            Some(s) => s,
            None => {
                own = Session::new();
                &own
            }
        };
        let got = run(s, &rs[i]);
        let ok = got == want[i];
        let ids: Vec<_> = trail.iter().map(|&k| rs[k].id).collect();
        if ok {
            writeln!(w, "{}", json!({"n": 1})).unwrap();
        } else {
            writeln!(w, "{}", json!({"n": 1, "bad": diff(&want[i], &got), "at": rs[i].id, "trail": ids})).unwrap();
        }
        if ok && left > 1 {
            for k in 0..rs.len() {
                let out = forked(|w| node(rs, want, left - 1, Some(s).filter(|_| SHARED.with(|x| x.get())), trail, k, w));
                w.write_all(&out).unwrap();
            }
        }
        trail.pop();
    }
    thread_local!(static SHARED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    SHARED.with(|x| x.set(shared));
    let s = Session::new();
    node(rs, want, depth, if shared { Some(&s) } else { None }, &mut vec![], first, w);
}

// ---- controlled scheduler
struct Sched {
    m: Mutex<St>,
    cv: Condvar,
}
struct St {
    cur: usize,
    live: Vec<bool>,
    prefix: Vec<usize>,
    choices: Vec<usize>,
    arity: Vec<usize>,
    points: usize,
    switches: u64,
    budget: usize,
    used: usize,
}
thread_local!(static ME: std::cell::RefCell<Option<(Arc<Sched>, usize)>> = const { std::cell::RefCell::new(None) });
/// A scheduling point: the running request may be preempted here.
fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.decide(i, false);
    }
}
impl Sched {
    fn decide(self: &Arc<Self>, me: usize, ended: bool) {
        let mut st = self.m.lock().unwrap();
        st.points += 1;
        if ended {
            st.live[me] = false;
        }
        let n = st.live.len();
        // candidates: the running thread first (if it can go on), then the others
        let mut cand = vec![];
        if !ended {
            cand.push(me);
        }
        if ended || st.used < st.budget {
            cand.extend((0..n).filter(|&k| k != me && st.live[k]));
        }
        if cand.is_empty() {
            self.cv.notify_all();
            return;
        }
        let d = st.choices.len();
        let c = if d < st.prefix.len() { st.prefix[d] } else { 0 };
        st.choices.push(c);
        st.arity.push(cand.len());
        let to = cand[c];
        if to != me {
            st.switches += 1;
            if !ended {
                st.used += 1;
            }
            st.cur = to;
            self.cv.notify_all();
            if !ended {
                while st.cur != me {
                    st = self.cv.wait(st).unwrap();
                }
            }
        }
    }
    fn wait_turn(self: &Arc<Self>, me: usize) {
        let mut st = self.m.lock().unwrap();
        while st.cur != me {
            st = self.cv.wait(st).unwrap();
        }
    }
}

#[derive(Clone)]
struct Probed(SingleThreadedComments);
macro_rules! fwd { ($($f:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => { $(fn $f(&self, $($a: $t),*) $(-> $r)? { point(); self.0.$f($($a),*) })* } }
impl Comments for Probed {
    fwd! {
        add_leading(pos: BytePos, cmt: Comment);
        add_leading_comments(pos: BytePos, c: Vec<Comment>);
        has_leading(pos: BytePos) -> bool;
        move_leading(from: BytePos, to: BytePos);
        take_leading(pos: BytePos) -> Option<Vec<Comment>>;
        get_leading(pos: BytePos) -> Option<Vec<Comment>>;
        add_trailing(pos: BytePos, cmt: Comment);
        add_trailing_comments(pos: BytePos, c: Vec<Comment>);
        has_trailing(pos: BytePos) -> bool;
        move_trailing(from: BytePos, to: BytePos);
        take_trailing(pos: BytePos) -> Option<Vec<Comment>>;
        get_trailing(pos: BytePos) -> Option<Vec<Comment>>;
        add_pure_comment(pos: BytePos);
    }
}
struct Map(Lrc<SourceMap>);
impl SourceMapper for Map {
    fwd! {
        lookup_char_pos(pos: BytePos) -> Loc;
        span_to_lines(sp: Span) -> swc_core::common::source_map::FileLinesResult;
        span_to_string(sp: Span) -> String;
        span_to_filename(sp: Span) -> Lrc<FileName>;
        merge_spans(a: Span, b: Span) -> Option<Span>;
        call_span_if_macro(sp: Span) -> Span;
        doctest_offset_line(line: usize) -> usize;
        span_to_snippet(sp: Span) -> Result<String, Box<swc_core::common::source_map::SpanSnippetError>>;
    }
}

fn concurrent(shared: &Arc<Session>, r: &Req) -> String {
    let body = |s: &Session| {
        GLOBALS.set(&s.globals, || {
            catch(|| {
                let p = match start(s, r) {
                    Ok(p) => p,
                    Err(e) => return Ok(e),
                };
                point();
                let visitor = create_coverage_instrumentation_visitor(Arc::new(Map(s.cm.clone())), Probed(p.comments.clone()), opts(r), r.name.to_string());
                point();
                Ok(finish(s, p, |program| {
                    program.mutate(visit_mut_pass(visitor));
                    point();
                }))
            })
            .unwrap_or_else(|e| format!("panic {}", e))
        })
    };
    body(shared)
}

/// Every schedule of the given requests with at most `budget` preemptions.
fn schedules(rs: &[Req], want: &[String], who: &[usize], budget: usize, t: &mut Tally) {
    let mut prefix: Vec<usize> = vec![];
    loop {
        let s = Arc::new(Sched {
            m: Mutex::new(St { cur: 0, live: vec![true; who.len()], prefix: prefix.clone(), choices: vec![], arity: vec![], points: 0, switches: 0, budget, used: 0 }),
            cv: Condvar::new(),
        });
        let session = Arc::new(Session::new());
        let handles: Vec<_> = who
            .iter()
            .enumerate()
            .map(|(k, &i)| {
                let (s, session, r) = (s.clone(), session.clone(), rs[i].clone());
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        s.wait_turn(k);
                        ME.with(|m| *m.borrow_mut() = Some((s.clone(), k)));
                        let out = concurrent(&session, &r);
                        ME.with(|m| *m.borrow_mut() = None);
                        s.decide(k, true);
                        out
                    })
                    .unwrap()
            })
            .collect();
        let outs: Vec<String> = handles.into_iter().map(|h| h.join().unwrap_or_else(|_| "thread ended".into())).collect();
        let st = s.m.lock().unwrap();
        t.schedules += 1;
        t.points += st.points as u64;
        t.switches += st.switches;
        t.max_points = t.max_points.max(st.points);
        for (k, &i) in who.iter().enumerate() {
            if outs[k] != want[i] {
                t.bad("schedule", format!("request '{}' next to {:?} gives another output: {}", rs[i].id, who.iter().map(|&x| rs[x].id).collect::<Vec<_>>(), diff(&want[i], &outs[k])), format!("requests {:?} choices {:?}", who.iter().map(|&x| rs[x].id).collect::<Vec<_>>(), st.choices));
            }
        }
        let (mut choices, arity) = (st.choices.clone(), st.arity.clone());
        drop(st);
        if t.violations.len() >= 40 {
            return;
        }
        // next schedule in depth-first order
        let mut i = choices.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if choices[i] + 1 < arity[i] {
                choices.truncate(i + 1);
                choices[i] += 1;
                prefix = choices;
                break;
            }
        }
    }
}
/// All orders of creating and running the visitors of several requests.
fn orders(rs: &[Req], want: &[String], who: &[usize], t: &mut Tally) {
    // step k < n: create k; the second occurrence of k: run k
    fn go(n: usize, done: &mut Vec<u8>, seq: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if seq.len() == 2 * n {
            out.push(seq.clone());
            return;
        }
        for k in 0..n {
            if done[k] < 2 {
                done[k] += 1;
                seq.push(k);
                go(n, done, seq, out);
                seq.pop();
                done[k] -= 1;
            }
        }
    }
    let mut all = vec![];
    go(who.len(), &mut vec![0; who.len()], &mut vec![], &mut all);
    for seq in all {
        let s = Session::new();
        let mut made: Vec<Option<_>> = who.iter().map(|_| None).collect();
        t.orders += 1;
        for &k in &seq {
            let i = who[k];
            GLOBALS.set(&s.globals, || match made[k].take() {
                None => made[k] = Some(catch(|| Ok(create(&s, &rs[i])))),
                Some(f) => {
                    t.requests += 1;
                    let got = match f {
                        Ok(Ok(f)) => catch(|| Ok(f(&s))).unwrap_or_else(|e| format!("panic {}", e)),
                        Ok(Err(e)) => e,
                        Err(e) => format!("panic {}", e),
                    };
                    if got != want[i] {
                        t.bad("order", format!("request '{}' gives another output: {}", rs[i].id, diff(&want[i], &got)), format!("requests {:?} order {:?}", who.iter().map(|&x| rs[x].id).collect::<Vec<_>>(), seq));
                    }
                }
            });
        }
    }
}

/// The name of the counter function of every file name over an alphabet.
fn names(depth: usize, t: &mut Tally) {
    let al = ["a", "b", "A", "/", "\\", ".", "..", "js", "ts", "-", "_", "0", "1", " ", ":", "C", "?", "#", "\u{e9}", "e\u{301}", "\u{6f22}", "\u{1f600}", "src", "test", "\n"];
    let mut layer = vec![String::new()];
    let mut seen: HashMap<String, String> = HashMap::new();
    let one = |name: &str, src: &str, logic: bool| -> String {
        let o = instrument(src, name, InstrumentOptions { report_logic: logic, ..Default::default() }, Mode::Script, false).map(|o| o.code).unwrap_or_default();
        let at = o.find("function cov_").map(|i| i + 9).unwrap_or(0);
        o[at..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
    };
    for _ in 0..depth {
        let mut next = vec![];
        for p in &layer {
            for a in al {
                next.push(format!("{}{}", p, a));
            }
        }
        for n in &next {
            let f = one(n, "a", false);
            t.names += 1;
            if f.is_empty() {
                t.bad("name", format!("no counter function for the file name {:?}", n), n.clone());
            }
            if let Some(o) = seen.insert(f.clone(), n.clone()) {
                if &o != n {
                    t.bad("name", format!("the files {:?} and {:?} share the counter function {}", o, n, f), n.clone());
                }
            }
        }
        layer = next;
    }
}

/// The answer to every request of a process that does nothing else.
fn pristine(rs: &[Req]) -> Vec<String> {
    rs.iter()
        .map(|r| {
            let b = forked(|w| w.write_all(run(&Session::new(), r).as_bytes()).unwrap());
            String::from_utf8(b).unwrap()
        })
        .collect()
}

/// `purity group [[requests], preemptions]`: the schedules of one group.
fn group(arg: &str) {
    let (who, budget): (Vec<usize>, usize) = serde_json::from_str(arg).unwrap();
    let rs = reqs();
    let want = pristine(&rs);
    let mut t = Tally::default();
    schedules(&rs, &want, &who, budget, &mut t);
    println!("{}", json!({"schedules": t.schedules, "points": t.points, "switches": t.switches, "max_points": t.max_points, "violations": t.violations}));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().nth(1).as_deref() == Some("group") {
        return group(&std::env::args().nth(2).unwrap());
    }
    let thorough = std::env::args().nth(1).as_deref() == Some("thorough");
    let rs = reqs();
    let want = pristine(&rs);
    let mut t = Tally::default();
    for (r, w) in rs.iter().zip(&want) {
        if w.starts_with("panic") || w.contains("\"died\"") {
            t.bad("request", format!("request '{}': {}", r.id, w), r.src.into());
        }
    }
    // histories: one worker process per first request and session kind
    let depth = if thorough { 4 } else { 3 };
    let jobs: Vec<(usize, bool)> = (0..rs.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    for chunk in jobs.chunks(8) {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut kids = vec![];
        for &(i, shared) in chunk {
            unsafe {
                let mut fds = [0i32; 2];
                assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
                let pid = libc::fork();
                if pid == 0 {
                    libc::close(fds[0]);
                    let mut w = std::fs::File::from_raw_fd(fds[1]);
                    histories(&rs, &want, depth, shared, i, &mut w);
                    drop(w);
                    libc::_exit(0);
                }
                libc::close(fds[1]);
                kids.push((pid, fds[0], shared));
            }
        }
        // drain concurrently: pipes are small
        let readers: Vec<_> = kids
            .into_iter()
            .map(|(pid, fd, shared)| {
                std::thread::spawn(move || {
                    let mut s = String::new();
                    unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s).unwrap();
                    let mut st = 0;
                    unsafe { libc::waitpid(pid, &mut st, 0) };
                    (s, shared, st)
                })
            })
            .collect();
        for r in readers {
            let (s, shared, st) = r.join().unwrap();
            if st != 0 {
                t.bad("history", format!("history worker died ({})", st), String::new());
            }
            for l in s.lines().filter(|l| !l.is_empty()) {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                if v["n"] == 1 {
                    t.histories += 1;
                    t.requests += 1;
                }
                if let Some(b) = v["bad"].as_str() {
                    t.bad("history", format!("request '{}' after others gives another output: {}", v["at"].as_str().unwrap(), b), format!("{} session, requests {}", if shared { "one" } else { "separate" }, v["trail"]));
                }
                if !v["died"].is_null() {
                    t.bad("history", format!("a process died ({})", v["died"]), String::new());
                }
            }
        }
    }
    // creation and run orders
    for a in 0..rs.len() {
        for b in 0..rs.len() {
            orders(&rs, &want, &[a, b], &mut t);
        }
    }
    let trip: Vec<usize> = if thorough { (0..rs.len()).collect() } else { vec![0, 2, 5, 9] };
    for &a in &trip {
        for &b in &trip {
            for &c in &trip {
                if a != b || b != c {
                    orders(&rs, &want, &[a, b, c], &mut t);
                }
            }
        }
    }
    // schedules, in parallel worker threads of this process would disturb each
    // other: one forked process per group of requests
    let mut groups: Vec<(Vec<usize>, usize)> = vec![];
    for a in 0..rs.len() {
        for b in a..rs.len() {
            groups.push((vec![a, b], 1));
        }
    }
    let small = [3usize, 5, 7, 9, 8];
    for &a in &small {
        for &b in &small {
            if a <= b {
                groups.push((vec![a, b], 2));
            }
        }
    }
    for (a, b, c) in [(3, 5, 7), (3, 3, 3), (5, 8, 9), (7, 9, 10)] {
        groups.push((vec![a, b, c], 1));
    }
    if thorough {
        for a in 0..rs.len() {
            for b in a..rs.len() {
                groups.push((vec![a, b], 2));
            }
        }
        for a in 0..rs.len() {
            for b in a..rs.len() {
                for c in b..rs.len() {
                    groups.push((vec![a, b, c], 1));
                }
            }
        }
        for (a, b, c) in [(3, 5, 7), (3, 3, 3), (5, 8, 9)] {
            groups.push((vec![a, b, c], 2));
        }
    }
    let queue = Arc::new(Mutex::new(groups.into_iter()));
    let exe = std::env::current_exe().unwrap();
    let out = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..8)
        .map(|_| {
            let (queue, out, exe) = (queue.clone(), out.clone(), exe.clone());
            std::thread::spawn(move || loop {
                let g = queue.lock().unwrap().next();
                let Some(g) = g else { return };
                let o = std::process::Command::new(&exe).arg("group").arg(serde_json::to_string(&g).unwrap()).output().unwrap();
                out.lock().unwrap().push((g, o));
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    for ((who, _), o) in out.lock().unwrap().iter() {
        match serde_json::from_slice::<serde_json::Value>(&o.stdout) {
            Ok(v) => {
                t.schedules += v["schedules"].as_u64().unwrap();
                t.points += v["points"].as_u64().unwrap();
                t.switches += v["switches"].as_u64().unwrap();
                t.max_points = t.max_points.max(v["max_points"].as_u64().unwrap() as usize);
                for x in v["violations"].as_array().unwrap() {
                    t.bad(x["key"].as_str().unwrap(), x["detail"].as_str().unwrap().into(), x["replay"].as_str().unwrap().into());
                }
            }
            Err(_) => t.bad("schedule", format!("requests {:?}: process died ({})", who, o.status), String::new()),
        }
    }
    names(if thorough { 4 } else { 3 }, &mut t);
    println!(
        "{}",
        json!({
            "states": t.histories + t.schedules + t.orders + t.names, "transitions": t.requests + t.points,
            "traces_validated_against_impl": t.histories + t.schedules + t.orders,
            "info": {"histories": t.histories, "history_depth": depth, "requests": rs.iter().map(|r| r.id).collect::<Vec<_>>(), "schedules": t.schedules, "scheduling_points": t.points, "longest_schedule": t.max_points, "switches": t.switches, "create_run_orders": t.orders, "file_names": t.names},
            "samples": rs.iter().take(3).map(|r| json!({"id": r.id, "src": r.src, "file": r.name})).collect::<Vec<_>>(),
            "violations": t.violations,
        })
    );
}
