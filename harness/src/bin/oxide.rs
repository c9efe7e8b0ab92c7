//! Explicit-state exploration of istanbul-oxide (C15-C19).
//!
//! Every explored operation runs on the real `FileCoverage` / `CoverageMap` /
//! `CoverageSummary` and, in lock step, on a reference model kept here that
//! knows nothing about ids, keys or JSON: a coverage is an ordered list of
//! located items with counts. A state is a pair (implementation, model) and the
//! check is that the implementation's whole observable content is the one the
//! model predicts.
//!
//! usage: oxide <C15|C16|C17|C18|C19> <quick|thorough>; prints one JSON object.
use indexmap::IndexMap;
use istanbul_oxide::types::{Branch, Function};
use istanbul_oxide::verif_hooks::*;
use istanbul_oxide::{BranchType, CoverageMap, FileCoverage, Range, SourceMap};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R4 = (u32, u32, u32, u32);

fn rng(r: R4) -> Range {
    Range::new(r.0, r.1, r.2, r.3)
}
fn unr(r: &Range) -> R4 {
    (r.start.line, r.start.column, r.end.line, r.end.column)
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq)]
struct MBranch {
    ty: BranchType,
    /// index into the arms' locations; identity of a branch is (loc, first arm)
    loc: Option<R4>,
    line: Option<u32>,
    arms: Vec<R4>,
    hits: Vec<u32>,
    truth: Option<Vec<u32>>,
}
impl MBranch {
    fn id(&self) -> (Option<R4>, Option<R4>) {
        (self.loc, self.arms.first().copied())
    }
}

#[derive(Clone, Debug, PartialEq)]
struct MFn {
    name: String,
    decl: R4,
    loc: R4,
    line: u32,
    hits: u32,
}

/// A file's coverage as the properties see it.
#[derive(Clone, Debug, PartialEq, Default)]
struct M {
    all: bool,
    path: String,
    s: Vec<(R4, u32)>,
    f: Vec<MFn>,
    b: Vec<MBranch>,
    /// truth table present
    bt: bool,
    map: Option<u8>,
}

impl M {
    /// a location listed twice has a single count, the one listed last
    fn settle(&self) -> M {
        let mut o = M { s: vec![], f: vec![], b: vec![], ..self.clone() };
        for (r, h) in &self.s {
            match o.s.iter_mut().find(|x| x.0 == *r) {
                Some(x) => x.1 = *h,
                None => o.s.push((*r, *h)),
            }
        }
        for f in &self.f {
            match o.f.iter_mut().find(|x| x.loc == f.loc) {
                Some(x) => *x = f.clone(),
                None => o.f.push(f.clone()),
            }
        }
        for b in &self.b {
            match o.b.iter_mut().find(|x| x.id() == b.id()) {
                Some(x) => *x = b.clone(),
                None => o.b.push(b.clone()),
            }
        }
        o
    }

    fn merge(&mut self, other: &M) {
        if other.all {
            return;
        }
        if self.all {
            *self = other.clone();
            return;
        }
        let mut a = self.settle();
        let b = other.settle();
        for (r, h) in b.s {
            match a.s.iter_mut().find(|x| x.0 == r) {
                Some(x) => x.1 = x.1.saturating_add(h),
                None => a.s.push((r, h)),
            }
        }
        for f in b.f {
            match a.f.iter_mut().find(|x| x.loc == f.loc) {
                Some(x) => x.hits = x.hits.saturating_add(f.hits),
                None => a.f.push(f),
            }
        }
        for x in b.b {
            match a.b.iter_mut().find(|y| y.id() == x.id()) {
                Some(y) => {
                    add(&mut y.hits, &x.hits);
                    y.truth = match (y.truth.take(), x.truth) {
                        (Some(mut p), Some(q)) => {
                            add(&mut p, &q);
                            Some(p)
                        }
                        (p, q) => p.or(q),
                    };
                }
                None => a.b.push(x),
            }
        }
        a.bt = a.bt || b.bt;
        *self = a;
    }

    fn reset(&mut self) {
        for x in &mut self.s {
            x.1 = 0;
        }
        for x in &mut self.f {
            x.hits = 0;
        }
        for x in &mut self.b {
            x.hits.iter_mut().for_each(|h| *h = 0);
            if let Some(t) = &mut x.truth {
                t.iter_mut().for_each(|h| *h = 0);
            }
        }
    }
}
fn add(p: &mut Vec<u32>, q: &[u32]) {
    for (i, h) in q.iter().enumerate() {
        if i < p.len() {
            p[i] = p[i].saturating_add(*h);
        } else {
            p.push(*h);
        }
    }
}

/// How ids are given to the items of an input.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ids {
    Seq,
    Rev,
    Gap,
}
const IDS: [Ids; 3] = [Ids::Seq, Ids::Rev, Ids::Gap];
fn idof(ids: Ids, i: usize, n: usize) -> u32 {
    match ids {
        Ids::Seq => i as u32,
        Ids::Rev => (n - 1 - i) as u32,
        Ids::Gap => [7, 3, 12, 1, 30, 2].get(i).copied().unwrap_or(40 + (i as u32 ^ 5)),
    }
}

fn source_map(k: u8) -> SourceMap {
    match k {
        0 => SourceMap { sources: vec![Some("a\"b\\c\n\u{1F600}.js".into())], names: vec!["n".into()], mappings: "AAAA".into(), ..Default::default() },
        _ => SourceMap {
            version: 3,
            file: Some("f".into()),
            source_root: Some("".into()),
            sources: vec![Some("a".into()), None],
            sources_content: Some(vec![None, Some("x\u{2028}</script>".into())]),
            names: vec![],
            mappings: "".into(),
        },
    }
}

/// Build the implementation's object for a model state.
fn build(m: &M, ids: Ids) -> FileCoverage {
    let mut c = FileCoverage::empty(m.path.clone(), m.bt);
    c.all = m.all;
    for (i, (r, h)) in m.s.iter().enumerate() {
        let id = idof(ids, i, m.s.len());
        c.statement_map.insert(id, rng(*r));
        c.s.insert(id, *h);
    }
    for (i, f) in m.f.iter().enumerate() {
        let id = idof(ids, i, m.f.len());
        c.fn_map.insert(id, Function { name: f.name.clone(), decl: rng(f.decl), loc: rng(f.loc), line: f.line });
        c.f.insert(id, f.hits);
    }
    for (i, b) in m.b.iter().enumerate() {
        let id = idof(ids, i, m.b.len());
        c.branch_map.insert(
            id,
            Branch { loc: b.loc.map(rng), branch_type: b.ty, locations: b.arms.iter().map(|r| rng(*r)).collect(), line: b.line },
        );
        c.b.insert(id, b.hits.clone());
        if let (Some(t), Some(bt)) = (&b.truth, &mut c.b_t) {
            bt.insert(id, t.clone());
        }
    }
    c.input_source_map = m.map.map(source_map);
    c
}

/// Compare everything observable in `c` with the model. `order`: whether ids are
/// required to be consecutive in listing order (they are after a merge).
fn diff(c: &FileCoverage, m: &M, consecutive: bool) -> Option<String> {
    macro_rules! need {
        ($c:expr, $($a:tt)*) => { if !$c { return Some(format!($($a)*)); } };
    }
    need!(c.all == m.all, "all: {} expected {}", c.all, m.all);
    need!(c.path == m.path, "path {:?} expected {:?}", c.path, m.path);
    need!(c.input_source_map == m.map.map(source_map), "input source map changed");
    let keys = |k: Vec<u32>| -> Vec<u32> {
        let mut k = k;
        k.sort();
        k
    };
    let sk = keys(c.s.keys().copied().collect());
    need!(sk == keys(c.statement_map.keys().copied().collect()), "s and statementMap have different ids");
    need!(sk.len() == m.s.len(), "{} statements, expected {}", sk.len(), m.s.len());
    if consecutive {
        need!(sk == (0..sk.len() as u32).collect::<Vec<_>>(), "statement ids {:?} are not consecutive", sk);
    }
    let mut want: BTreeMap<R4, Vec<u32>> = Default::default();
    for (r, h) in &m.s {
        want.entry(*r).or_default().push(*h);
    }
    let mut got: BTreeMap<R4, Vec<u32>> = Default::default();
    for (id, h) in &c.s {
        got.entry(unr(&c.statement_map[id])).or_default().push(*h);
    }
    for v in want.values_mut().chain(got.values_mut()) {
        v.sort();
    }
    need!(got == want, "statements {:?} expected {:?}", got, want);

    let fk = keys(c.f.keys().copied().collect());
    need!(fk == keys(c.fn_map.keys().copied().collect()), "f and fnMap have different ids");
    if consecutive {
        need!(fk == (0..fk.len() as u32).collect::<Vec<_>>(), "function ids {:?} are not consecutive", fk);
    }
    let mut gf: Vec<_> = c.f.iter().map(|(id, h)| { let f = &c.fn_map[id]; (unr(&f.loc), unr(&f.decl), f.name.clone(), f.line, *h) }).collect();
    let mut wf: Vec<_> = m.f.iter().map(|f| (f.loc, f.decl, f.name.clone(), f.line, f.hits)).collect();
    gf.sort();
    wf.sort();
    need!(gf == wf, "functions {:?} expected {:?}", gf, wf);

    let bk = keys(c.b.keys().copied().collect());
    need!(bk == keys(c.branch_map.keys().copied().collect()), "b and branchMap have different ids");
    if consecutive {
        need!(bk == (0..bk.len() as u32).collect::<Vec<_>>(), "branch ids {:?} are not consecutive", bk);
    }
    need!(c.b_t.is_some() == m.bt, "truth table present: {} expected {}", c.b_t.is_some(), m.bt);
    if let Some(bt) = &c.b_t {
        for id in bt.keys() {
            need!(c.branch_map.contains_key(id), "truth counter {} of no branch", id);
        }
    }
    let mut gb: Vec<_> = c
        .b
        .iter()
        .map(|(id, h)| {
            let b = &c.branch_map[id];
            (
                b.loc.as_ref().map(unr),
                b.locations.iter().map(unr).collect::<Vec<_>>(),
                b.branch_type.to_string(),
                b.line,
                h.clone(),
                c.b_t.as_ref().and_then(|t| t.get(id)).cloned(),
            )
        })
        .collect();
    let mut wb: Vec<_> = m.b.iter().map(|b| (b.loc, b.arms.clone(), b.ty.to_string(), b.line, b.hits.clone(), b.truth.clone())).collect();
    gb.sort();
    wb.sort();
    need!(gb == wb, "branches {:?} expected {:?}", gb, wb);
    None
}

// ---------------------------------------------------------------- driver

struct Out {
    states: u64,
    transitions: u64,
    compared: u64,
    info: BTreeMap<String, u64>,
    samples: Vec<Value>,
    viol: BTreeMap<String, (String, Value)>,
}
impl Out {
    fn new() -> Out {
        Out { states: 0, transitions: 0, compared: 0, info: Default::default(), samples: vec![], viol: Default::default() }
    }
    fn absorb(&mut self, p: Out) {
        self.states += p.states;
        self.transitions += p.transitions;
        for (k, v) in p.info {
            *self.info.entry(k).or_default() += v;
        }
        for (k, v) in p.viol {
            self.viol.entry(k).or_insert(v);
        }
    }
    fn v(&mut self, key: &str, detail: String, replay: Value) {
        if self.viol.len() < 20 {
            self.viol.entry(key.to_string()).or_insert((detail, replay));
        }
    }
    fn n(&mut self, k: &str) {
        *self.info.entry(k.into()).or_default() += 1;
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

fn js(c: &FileCoverage) -> Value {
    serde_json::to_value(c).unwrap_or(Value::Null)
}

// ------------------------------------------------------------ input pools

/// Statement locations: same start, same line, and ranges whose numbers
/// concatenate to the same digits.
const SL: [R4; 6] = [(1, 11, 2, 3), (11, 1, 2, 3), (1, 1, 12, 3), (1, 11, 2, 30), (2, 0, 2, 9), (1, 11, 3, 3)];

/// All ordered selections (without repetition) of at most k of n.
fn selections(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut cur = out.clone();
    for _ in 0..k {
        let mut next = vec![];
        for v in &cur {
            for i in 0..n {
                if !v.contains(&i) {
                    let mut w: Vec<usize> = v.clone();
                    w.push(i);
                    next.push(w);
                }
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}
/// All k-tuples over the values.
fn tuples<T: Clone>(vals: &[T], k: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        out = out
            .iter()
            .flat_map(|v: &Vec<T>| {
                vals.iter().map(move |x| {
                    let mut w = v.clone();
                    w.push(x.clone());
                    w
                })
            })
            .collect();
    }
    out
}

fn stmt_pool(locs: usize, k: usize, counts: &[u32], dup: bool) -> Vec<M> {
    let mut out = vec![];
    for sel in selections(locs, k) {
        for cs in tuples(counts, sel.len()) {
            let s: Vec<(R4, u32)> = sel.iter().zip(&cs).map(|(i, c)| (SL[*i], *c)).collect();
            out.push(M { path: "f".into(), s, ..Default::default() });
        }
    }
    if dup {
        for a in 0..2 {
            for cs in tuples(counts, 3) {
                for o in [[a, a, 1 - a], [a, 1 - a, a], [1 - a, a, a]] {
                    let s = o.iter().zip(&cs).map(|(i, c)| (SL[*i], *c)).collect();
                    out.push(M { path: "f".into(), s, ..Default::default() });
                }
            }
        }
    }
    out
}

fn mfn(i: usize, name: &str, hits: u32) -> MFn {
    // bodies SL[0], SL[1], SL[3]; declarations of the first and the third coincide
    let (loc, decl) = [(SL[0], (1, 0, 1, 5)), (SL[1], (11, 0, 11, 1)), (SL[3], (1, 0, 1, 5))][i];
    MFn { name: name.into(), decl, loc, line: loc.0, hits }
}

fn fn_pool(counts: &[u32], k: usize) -> Vec<M> {
    let mut out = vec![];
    for sel in selections(3, k) {
        for cs in tuples(counts, sel.len()) {
            for alt in [false, true] {
                let f: Vec<MFn> = sel.iter().zip(&cs).map(|(i, c)| mfn(*i, if alt { "g" } else { "f" }, *c)).collect();
                out.push(M { path: "f".into(), f, ..Default::default() });
            }
        }
    }
    out
}

/// The branch kinds of the pool. The last two share their first arm with
/// another branch (an if whose first arm is ignored and the if in its else).
fn mbranch(i: usize, hits: Vec<u32>, truth: Option<Vec<u32>>) -> MBranch {
    let (ty, loc, arms): (BranchType, R4, Vec<R4>) = match i {
        0 => (BranchType::BinaryExpr, (1, 0, 1, 9), vec![(1, 0, 1, 2), (1, 4, 1, 9), (1, 6, 1, 9)]),
        1 => (BranchType::If, (1, 0, 2, 9), vec![(1, 0, 2, 9), (2, 1, 2, 9), (2, 2, 2, 9)]),
        2 => (BranchType::If, (0, 10, 2, 9), vec![(1, 0, 2, 9), (2, 5, 2, 9), (2, 6, 2, 9)]),
        3 => (BranchType::BinaryExpr, (3, 0, 3, 9), vec![(3, 0, 3, 1), (3, 4, 3, 9), (3, 6, 3, 9)]),
        // a switch without cases, as Istanbul lists it
        4 => return MBranch { ty: BranchType::Switch, loc: Some((5, 0, 5, 9)), line: Some(5), arms: vec![], hits: vec![], truth },
        _ => return MBranch { ty: BranchType::Switch, loc: Some((1, 0, 1, 9)), line: Some(1), arms: vec![], hits: vec![], truth },
    };
    MBranch { ty, loc: Some(loc), line: Some(loc.0), arms: arms[..hits.len().max(1).min(3)].to_vec(), hits, truth }
}

fn branch_variants(i: usize, counts: &[u32], lens: &[usize], bt: bool) -> Vec<MBranch> {
    if i >= 4 {
        return vec![mbranch(i, vec![], None)];
    }
    let mut out = vec![];
    for n in lens {
        for hs in tuples(counts, *n) {
            let truths: Vec<Option<Vec<u32>>> = if !bt {
                vec![None]
            } else if i == 0 || i == 3 {
                let mut t: Vec<Option<Vec<u32>>> = tuples(&counts[..2], *n).into_iter().map(Some).collect();
                t.push(None);
                t
            } else {
                vec![None]
            };
            for t in truths {
                out.push(mbranch(i, hs.clone(), t));
            }
        }
    }
    out
}

fn branch_pool(counts: &[u32], lens: &[usize], kinds: &[usize], k: usize) -> Vec<M> {
    let mut out = vec![];
    for bt in [false, true] {
        let vars: Vec<Vec<MBranch>> = kinds.iter().map(|i| branch_variants(*i, counts, lens, bt)).collect();
        for sel in selections(kinds.len(), k) {
            let mut acc: Vec<Vec<MBranch>> = vec![vec![]];
            for i in &sel {
                acc = acc
                    .iter()
                    .flat_map(|v| {
                        vars[*i].iter().map(move |x| {
                            let mut w = v.clone();
                            w.push(x.clone());
                            w
                        })
                    })
                    .collect();
            }
            for b in acc {
                out.push(M { path: "f".into(), b, bt, ..Default::default() });
            }
        }
    }
    out
}

/// Small whole-file coverages: every combination of the components.
fn whole_pool(path: &str, rich: bool) -> Vec<M> {
    let ss: Vec<Vec<(R4, u32)>> = if rich {
        vec![vec![], vec![(SL[0], 0)], vec![(SL[1], 2), (SL[0], 1)], vec![(SL[4], 3), (SL[4], 3)]]
    } else {
        vec![vec![], vec![(SL[0], 0)], vec![(SL[1], 2), (SL[0], 1)]]
    };
    let fs: Vec<Vec<MFn>> = vec![vec![], vec![mfn(0, "f", 1)], vec![mfn(1, "g", 0), mfn(0, "f", 2)]];
    let bs: Vec<(Vec<MBranch>, bool)> = vec![
        (vec![], false),
        (vec![], true),
        (vec![mbranch(1, vec![1, 0], None)], false),
        (vec![mbranch(1, vec![0, 2], None), mbranch(0, vec![1, 1], Some(vec![0, 1]))], true),
        (vec![mbranch(2, vec![4], None), mbranch(0, vec![2, 0, 1], None)], false),
        (vec![mbranch(2, vec![4], None), mbranch(1, vec![1, 1], None), mbranch(3, vec![2, 0], Some(vec![1, 0]))], true),
        (vec![mbranch(4, vec![], None), mbranch(0, vec![1, 0], None)], false),
    ];
    let mut out = vec![];
    for s in &ss {
        for f in &fs {
            for (b, bt) in &bs {
                out.push(M { path: path.into(), s: s.clone(), f: f.clone(), b: b.clone(), bt: *bt, ..Default::default() });
            }
        }
    }
    out
}

// Files of every size: item `i` is the same wherever it occurs.
const SIZES: [usize; 30] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 255, 256, 257, 1000];
fn big_count(pat: usize, i: usize, n: usize) -> u32 {
    match pat {
        0 => 0,
        1 => 1 + i as u32,
        2 => (i + 1 == n) as u32,
        3 => (i == 0) as u32,
        4 => (i + 1 != n) as u32,
        _ => (i % 2) as u32 * 1000,
    }
}
/// The items `from .. from + n`, listed forwards or backwards.
fn big(n: usize, from: usize, pat: usize, back: bool, kinds: u8) -> M {
    let mut m = M { path: "f".into(), bt: kinds & 8 != 0, ..Default::default() };
    for k in 0..n {
        let j = if back { n - 1 - k } else { k };
        let i = from + j;
        let h = big_count(pat, j, n);
        let u = i as u32;
        if kinds & 1 != 0 {
            m.s.push(((u / 3 + 1, u % 3 * 10, u / 3 + 1 + u % 2, u % 3 * 10 + 8), h));
        }
        if kinds & 2 != 0 {
            let loc = (u + 1, 11, u + 2, 1);
            m.f.push(MFn { name: format!("f{}", i % 7), decl: (u + 1, 0, u + 1, 5), loc, line: u + 1, hits: h });
        }
        if kinds & 4 != 0 {
            let arms = 1 + i % 5;
            let l = u / 2 + 1;
            let ty = [BranchType::BinaryExpr, BranchType::If, BranchType::CondExpr, BranchType::Switch, BranchType::DefaultArg][i % 5];
            m.b.push(MBranch {
                ty,
                loc: Some((l, u % 2 * 100, l, u % 2 * 100 + 90)),
                line: Some(l),
                arms: (0..arms as u32).map(|a| (l, u % 2 * 100 + a * 9, l, u % 2 * 100 + a * 9 + 7)).collect(),
                hits: (0..arms).map(|a| if a % 2 == 0 { h } else { 0 }).collect(),
                truth: (kinds & 8 != 0 && i % 5 == 0).then(|| vec![h / 2; arms]),
            });
        }
    }
    m
}
/// One branch with `n` arms.
fn wide(n: usize, pat: usize, truth: bool) -> M {
    let arms: Vec<R4> = (0..n.max(1) as u32).map(|a| (1 + a / 4, a, 1 + a / 4, a + 1)).collect();
    let hits: Vec<u32> = (0..n).map(|a| big_count(pat, a, n)).collect();
    M {
        path: "f".into(),
        bt: truth,
        b: vec![MBranch { ty: if truth { BranchType::BinaryExpr } else { BranchType::Switch }, loc: Some((1, 0, 300, 0)), line: Some(1), arms, truth: truth.then(|| hits.iter().map(|h| h / 2).collect()), hits }],
        ..Default::default()
    }
}
fn sized(max: usize) -> Vec<M> {
    let mut out = vec![];
    for n in SIZES.iter().filter(|n| **n <= max) {
        for pat in 0..6 {
            for kinds in [1u8, 2, 4, 12, 15, 7] {
                out.push(big(*n, 0, pat, pat % 2 == 1, kinds));
            }
            if *n > 0 {
                out.push(wide(*n, pat, false));
                out.push(wide(*n, pat, true));
            }
        }
    }
    out
}

// ------------------------------------------------------------ C15

fn pairwise(o: &mut Out, what: &str, left: &[M], right: &[M], ids: &[(Ids, Ids)]) {
    let parts: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = left
            .chunks(left.len().div_ceil(8).max(1))
            .map(|l| {
                sc.spawn(move || {
                    let mut o = Out::new();
                    pairs(&mut o, what, l, right, ids);
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts {
        o.absorb(p);
    }
    o.states += (left.len() * right.len()) as u64;
}
fn pairs(o: &mut Out, what: &str, left: &[M], right: &[M], ids: &[(Ids, Ids)]) {
    for a in left {
        let settled = a.settle();
        for b in right {
            let mut want = if a.all { a.clone() } else { settled.clone() };
            want.merge(b);
            if b.all {
                want = a.clone();
            }
            for (ia, ib) in ids {
                o.transitions += 1;
                let mut x = build(a, *ia);
                let y = build(b, *ib);
                let y0 = y.clone();
                let replay = || json!({"merge": [js(&build(a, *ia)), js(&y0)]});
                match guard(|| x.merge(&y)) {
                    Err(e) => o.v(&format!("{} panic", what), format!("merge panicked: {}", e), replay()),
                    Ok(()) => {
                        let normal = !(a.all || b.all);
                        if let Some(d) = diff(&x, &want, normal) {
                            o.v(&format!("{} merge", what), d, replay());
                        }
                        if y != y0 {
                            o.v(&format!("{} argument changed", what), "merge changed its argument".into(), replay());
                        }
                    }
                }
            }
        }
    }
    *o.info.entry(what.into()).or_default() += (left.len() * right.len() * ids.len()) as u64;
}

fn c15(o: &mut Out, thorough: bool) {
    let all9: Vec<(Ids, Ids)> = IDS.iter().flat_map(|a| IDS.iter().map(move |b| (*a, *b))).collect();
    let some = [(Ids::Seq, Ids::Rev), (Ids::Gap, Ids::Seq)];
    let p = stmt_pool(4, if thorough { 3 } else { 2 }, &[0, 1, 5], true);
    let q = stmt_pool(6, 2, &[0, 3], true);
    pairwise(o, "statements", &p, &q, &all9);
    pairwise(o, "statements", &q, &p, &some);
    let p = fn_pool(&[0, 1, 4], if thorough { 3 } else { 2 });
    pairwise(o, "functions", &p, &p, if thorough { &all9 } else { &some });
    let one = branch_pool(&[0, 1, 3], &[1, 2], &[0, 1, 2], 1);
    let two = branch_pool(&[0, 2], &[1, 2], &[0, 1, 2, 3], 2);
    pairwise(o, "branches", &one, &two, &some);
    pairwise(o, "branches", &two, &one, &all9);
    let three = branch_pool(&[0, 2], &[3], &[0, 1], 1);
    pairwise(o, "branches", &three, &one, &some);
    pairwise(o, "branches", &one, &three, &some);
    // branches without arms, next to others
    let none = branch_pool(&[0, 2], &[1, 2], &[4, 1, 5, 0], if thorough { 3 } else { 2 });
    pairwise(o, "no arms", &none, &none, &some);
    // counts at the upper end
    let top = [1u32, u32::MAX - 1, u32::MAX];
    let p = stmt_pool(2, 2, &top, false);
    pairwise(o, "largest counts", &p, &p, &some);
    let p = fn_pool(&top, 1);
    pairwise(o, "largest counts", &p, &p, &some);
    let p = branch_pool(&top, &[1, 2], &[0, 1], 1);
    pairwise(o, "largest counts", &p, &p, &some);
    if thorough {
        pairwise(o, "branches", &two, &two, &some);
    }
    let mut w = whole_pool("f", true);
    for k in 0..2u8 {
        w.push(M { map: Some(k), ..w[40].clone() });
    }
    let ph: Vec<M> = w.iter().step_by(7).map(|m| M { all: true, ..m.clone() }).collect();
    w.extend(ph);
    pairwise(o, "whole files", &w, &w, if thorough { &all9 } else { &some });

    // every pair of sizes, overlapping, disjoint and nested
    let max = if thorough { 300 } else { 70 };
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= max).collect();
    for n in &sizes {
        let left: Vec<M> = [1u8, 2, 12, 15].iter().map(|k| big(*n, 0, 1, false, *k)).collect();
        let mut right = vec![];
        for m in &sizes {
            let mut from = vec![0, *n, n / 2, n.saturating_sub(1)];
            from.dedup();
            for f in from {
                right.push(big(*m, f, 5, true, 15));
                right.push(big(*m, f, 1, false, 7));
            }
        }
        pairwise(o, "sizes", &left, &right, &some);
        let wl: Vec<M> = vec![wide((*n).max(1), 1, true), wide((*n).max(1), 3, false)];
        let wr: Vec<M> = sizes.iter().filter(|m| **m > 0).flat_map(|m| [wide(*m, 1, true), wide(*m, 2, false)]).collect();
        pairwise(o, "arms", &wl[..1], &wr.iter().step_by(2).cloned().collect::<Vec<_>>(), &some);
        pairwise(o, "arms", &wl[1..], &wr.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>(), &some);
    }
    let l = vec![big(1000, 0, 1, false, 15)];
    let r = vec![big(1000, 500, 1, true, 15), big(1, 999, 1, true, 15), big(1000, 0, 1, true, 7)];
    pairwise(o, "sizes", &l, &r, &all9);
    pairwise(o, "sizes", &r, &l, &all9);

    // histories: every sequence of merges up to the depth, from every start, in
    // lock step with the model; ids come from earlier merges. The same bag of
    // inputs must give the same coverage in whichever order it is merged.
    let pool: Vec<M> = history_pool();
    let depth = if thorough { 5 } else { 4 };
    let mut seen: HashSet<String> = Default::default();
    let mut q: VecDeque<(FileCoverage, M, Vec<usize>)> = VecDeque::new();
    for start in 0..pool.len() {
        q.push_back((build(&pool[start], Ids::Gap), pool[start].clone(), vec![start]));
    }
    let mut bags: HashMap<Vec<usize>, M> = Default::default();
    while let Some((c, m, h)) = q.pop_front() {
        if h.len() > depth {
            continue;
        }
        for i in 0..pool.len() {
            let mut c2 = c.clone();
            let mut m2 = m.clone();
            o.transitions += 1;
            o.n("histories");
            let mut h2 = h.clone();
            h2.push(i);
            let arg = build(&pool[i], IDS[h2.len() % 3]);
            if let Err(e) = guard(|| c2.merge(&arg)) {
                o.v("history panic", e, json!({"history": h2.iter().map(|i| js(&build(&pool[*i], Ids::Seq))).collect::<Vec<_>>()}));
                continue;
            }
            m2.merge(&pool[i]);
            if let Some(d) = diff(&c2, &m2, !m2.all && h2.iter().filter(|i| !pool[**i].all).count() > 1) {
                o.v("history", format!("after {:?}: {}", h2, d), json!({"history": h2.iter().map(|i| js(&build(&pool[*i], Ids::Seq))).collect::<Vec<_>>()}));
                continue;
            }
            // order independence, up to which metadata and listing comes first
            let mut bag: Vec<usize> = h2.iter().copied().filter(|i| !pool[*i].all).collect();
            bag.sort();
            let can = canon(&m2.settle());
            if let Some(e) = bags.get(&bag) {
                if *e != can && bag.len() > 1 {
                    o.v("merge order", format!("history {:?} differs from another order", h2), json!({"history": h2}));
                }
            } else {
                bags.insert(bag, can);
            }
            if seen.insert(format!("{}|{}", h2.len(), js(&c2))) {
                o.states += 1;
                q.push_back((c2, m2, h2));
            }
        }
    }
    o.info.insert("history depth".into(), depth as u64);
}

/// Inputs of the merge histories: overlapping locations, ids differing, with
/// and without truth counters, a placeholder.
fn history_pool() -> Vec<M> {
    vec![
        M { path: "f".into(), s: vec![(SL[0], 1), (SL[1], 0)], f: vec![mfn(0, "f", 1)], b: vec![mbranch(0, vec![1, 0], Some(vec![1, 0]))], bt: true, ..Default::default() },
        M { path: "f".into(), s: vec![(SL[1], 2), (SL[4], 1)], f: vec![mfn(1, "g", 1), mfn(0, "f", 0)], b: vec![mbranch(1, vec![0, 1], None), mbranch(0, vec![0, 3], Some(vec![0, 2]))], bt: true, ..Default::default() },
        M { path: "f".into(), s: vec![(SL[2], 0)], b: vec![mbranch(3, vec![1, 1], None), mbranch(2, vec![5], None)], ..Default::default() },
        M { path: "f".into(), f: vec![mfn(2, "h", 7)], b: vec![mbranch(2, vec![1], None), mbranch(1, vec![2, 2], None)], bt: true, ..Default::default() },
        M { all: true, path: "f".into(), s: vec![(SL[0], 9), (SL[3], 9)], b: vec![mbranch(0, vec![9, 9], None)], ..Default::default() },
    ]
}
fn canon(m: &M) -> M {
    let mut m = m.clone();
    m.s.sort();
    m.f.sort_by_key(|f| f.loc);
    m.b.sort_by_key(|b| b.id());
    m
}

// ------------------------------------------------------------ C16

#[derive(Clone, Default)]
struct MM {
    files: Vec<M>,
}
impl MM {
    fn add(&mut self, m: &M) {
        match self.files.iter_mut().find(|x| x.path == m.path) {
            Some(x) => x.merge(m),
            None => self.files.push(m.clone()),
        }
    }
}

fn floor_pct(covered: u32, total: u32) -> u32 {
    // hundredths of a percent, rounded down
    if total == 0 {
        10000
    } else {
        (covered as u64 * 10000 / total as u64) as u32
    }
}
fn pct_is(p: f32, hundredths: u32) -> bool {
    // the closest representable number to the two-decimal value
    p == (hundredths as f64 / 100.0) as f32
}

/// lines, statements, functions, branches, truth of one file
fn mtotals(m: &M) -> ([(u32, u32); 4], Option<(u32, u32)>) {
    let mut lines: BTreeMap<u32, u32> = Default::default();
    for (r, h) in &m.s {
        let e = lines.entry(r.0).or_default();
        *e = (*e).max(*h);
    }
    let hit = |it: Vec<u32>| (it.len() as u32, it.iter().filter(|h| **h > 0).count() as u32);
    let t = [
        hit(lines.values().copied().collect()),
        hit(m.s.iter().map(|x| x.1).collect()),
        hit(m.f.iter().map(|x| x.hits).collect()),
        hit(m.b.iter().flat_map(|x| x.hits.clone()).collect()),
    ];
    let bt = m.bt.then(|| hit(m.b.iter().flat_map(|x| x.truth.clone().unwrap_or_default()).collect()));
    (t, bt)
}

fn summary_diff(s: &CoverageSummary, want: [(u32, u32); 4], bt: Option<(u32, u32)>, files: usize, is_map: bool) -> Option<String> {
    let (l, st, f, b, t) = summary_parts(s);
    for (name, got, (total, covered)) in [("lines", l, want[0]), ("statements", st, want[1]), ("functions", f, want[2]), ("branches", b, want[3])] {
        if (got.total, got.covered, got.skipped) != (total, covered, 0) {
            return Some(format!("{}: total {} covered {} skipped {}, expected total {} covered {}", name, got.total, got.covered, got.skipped, total, covered));
        }
        match got.pct {
            CoveragePercentage::Value(p) if pct_is(p, floor_pct(covered, total)) => {}
            CoveragePercentage::Unknown if files == 0 => {}
            p => return Some(format!("{}: {:?} of {}/{}", name, p, covered, total)),
        }
    }
    match (t, bt) {
        (None, None) => None,
        (Some(g), Some((total, covered))) => {
            if (g.total, g.covered, g.skipped) != (total, covered, 0) {
                return Some(format!("truth: total {} covered {}, expected total {} covered {}", g.total, g.covered, total, covered));
            }
            match g.pct {
                CoveragePercentage::Value(p) if pct_is(p, floor_pct(covered, total)) => None,
                p => Some(format!("truth: {:?} of {}/{}", p, covered, total)),
            }
        }
        // a map without any truth table reports an empty, unknown one
        (Some(g), None) if is_map && g.total == 0 && g.covered == 0 => None,
        (g, w) => Some(format!("truth totals {:?}, expected {:?}", g, w)),
    }
}

fn map_diff(c: &CoverageMap, m: &MM) -> Option<String> {
    let files: Vec<String> = c.get_files().into_iter().cloned().collect();
    let want: Vec<String> = m.files.iter().map(|x| x.path.clone()).collect();
    if files != want {
        return Some(format!("files {:?} expected {:?}", files, want));
    }
    for p in PATHS.iter().chain(["", "nope", "/p/a.j", "p/a.js"].iter()) {
        match (c.get_coverage_for_file(p), m.files.iter().find(|x| x.path == *p)) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                if let Some(d) = diff(g, w, false) {
                    return Some(format!("{:?}: {}", p, d));
                }
            }
            (g, w) => return Some(format!("lookup of {:?}: {} expected {}", p, g.is_some(), w.is_some())),
        }
    }
    let mut t = [(0, 0); 4];
    let mut bt: Option<(u32, u32)> = None;
    for f in &m.files {
        let (x, y) = mtotals(f);
        for i in 0..4 {
            t[i].0 += x[i].0;
            t[i].1 += x[i].1;
        }
        if let Some(y) = y {
            let e = bt.get_or_insert((0, 0));
            e.0 += y.0;
            e.1 += y.1;
        }
    }
    summary_diff(&c.get_coverage_summary(), t, bt, m.files.len(), true).map(|d| format!("summary: {}", d))
}

const PATHS: [&str; 4] = ["/p/a.js", "/p/a.jsx", "", "\\p\\a.js"];

#[derive(Clone)]
enum Op {
    Add(usize),
    Merge(Vec<usize>),
    /// keep exactly the files whose path index bit is set
    Keep(u8),
    /// keep the files with some hit statement
    KeepHit,
    SelfMerge,
    FromIter(Vec<usize>),
}
fn opname(op: &Op, pool: &[M]) -> String {
    let n = |i: &usize| format!("{}#{}", pool[*i].path, i);
    match op {
        Op::Add(i) => format!("add {}", n(i)),
        Op::Merge(v) => format!("merge [{}]", v.iter().map(n).collect::<Vec<_>>().join(", ")),
        Op::Keep(k) => format!("filter by path, mask {:b}", k),
        Op::KeepHit => "filter files with a hit".into(),
        Op::SelfMerge => "merge with a copy of itself".into(),
        Op::FromIter(v) => format!("from_iter [{}]", v.iter().map(n).collect::<Vec<_>>().join(", ")),
    }
}

fn c16(o: &mut Out, thorough: bool) {
    let hp = history_pool();
    let mut pool: Vec<M> = vec![];
    let npaths = if thorough { 4 } else { 3 };
    for p in &PATHS[..npaths] {
        for k in [0usize, 1, 4] {
            pool.push(M { path: p.to_string(), ..hp[k].clone() });
        }
    }
    pool.push(M { path: PATHS[0].into(), ..Default::default() });
    let n = pool.len();
    let mut ops: Vec<Op> = (0..n).map(Op::Add).collect();
    for v in [vec![], vec![0, 3], vec![4, 1], vec![6, 0, 3], vec![2, 5], vec![0, 1, 3], vec![8, 2]] {
        ops.push(Op::Merge(v));
    }
    for k in 0..(1u8 << npaths) {
        ops.push(Op::Keep(k));
    }
    ops.push(Op::KeepHit);
    ops.push(Op::SelfMerge);
    for v in [vec![], vec![0, 0, 3], vec![5, 4, 0], vec![2, 1]] {
        ops.push(Op::FromIter(v));
    }
    let depth = if thorough { 5 } else { 4 };
    let objs: Vec<FileCoverage> = pool.iter().enumerate().map(|(i, m)| build(m, IDS[i % 3])).collect();
    let orig = objs.clone();
    let mkmap = |v: &[usize]| {
        let mut m = CoverageMap::new();
        for i in v {
            m.add_coverage_for_file(&objs[*i]);
        }
        m
    };
    let mut seen: HashSet<String> = Default::default();
    let fp = |c: &CoverageMap| -> String {
        c.get_files().iter().map(|p| format!("{}={};", p, js(c.get_coverage_for_file(p).unwrap()))).collect()
    };
    // counts grow without bound along the history; the exploration is bounded by depth
    let mut frontier: Vec<(CoverageMap, MM, Vec<usize>)> = vec![(CoverageMap::new(), MM::default(), vec![])];
    if map_diff(&CoverageMap::default(), &MM::default()).is_some() {
        o.v("default", "the default map is not empty".into(), json!({}));
    }
    for _ in 0..depth {
        let mut next = vec![];
        for (c, m, h) in &frontier {
            for (oi, op) in ops.iter().enumerate() {
                o.transitions += 1;
                let mut c2 = c.clone();
                let mut m2 = m.clone();
                let mut h2 = h.clone();
                h2.push(oi);
                let replay = |d: &str| json!({"operations": h2.iter().map(|i| opname(&ops[*i], &pool)).collect::<Vec<_>>(), "files": pool.iter().map(|m| js(&build(m, Ids::Seq))).collect::<Vec<_>>(), "detail": d});
                let before = o.viol.len();
                let r = guard(|| -> Option<String> {
                    match op {
                        Op::Add(i) => {
                            c2.add_coverage_for_file(&objs[*i]);
                            m2.add(&pool[*i]);
                        }
                        Op::Merge(v) => {
                            let other = mkmap(v);
                            let mut om = MM::default();
                            for i in v {
                                om.add(&pool[*i]);
                            }
                            let copy = fp(&other);
                            c2.merge(&other);
                            for f in &om.files {
                                m2.add(f);
                            }
                            if fp(&other) != copy {
                                return Some("merge changed its argument".into());
                            }
                        }
                        Op::Keep(k) => {
                            let keep: Vec<&str> = (0..npaths).filter(|i| k >> i & 1 == 1).map(|i| PATHS[i]).collect();
                            let asked = std::cell::RefCell::new(vec![]);
                            c2.filter(|f| {
                                asked.borrow_mut().push(f.path.clone());
                                keep.contains(&f.path.as_str())
                            });
                            let want: Vec<String> = m2.files.iter().map(|f| f.path.clone()).collect();
                            let mut got = asked.borrow().clone();
                            let mut w = want.clone();
                            got.sort();
                            got.dedup();
                            w.sort();
                            if got != w {
                                return Some(format!("the predicate saw {:?}, the map had {:?}", got, w));
                            }
                            m2.files.retain(|f| keep.contains(&f.path.as_str()));
                        }
                        Op::KeepHit => {
                            c2.filter(|f| f.s.values().any(|h| *h > 0));
                            m2.files.retain(|f| f.s.iter().any(|x| x.1 > 0));
                        }
                        Op::SelfMerge => {
                            let other = c2.clone();
                            c2.merge(&other);
                            let om = m2.clone();
                            for f in &om.files {
                                m2.add(f);
                            }
                        }
                        Op::FromIter(v) => {
                            c2 = CoverageMap::from_iter(v.iter().map(|i| &objs[*i]));
                            m2 = MM::default();
                            for i in v {
                                m2.add(&pool[*i]);
                            }
                        }
                    }
                    map_diff(&c2, &m2)
                });
                match r {
                    Err(e) => o.v("panic", format!("{}: {}", opname(op, &pool), e), replay(&e)),
                    Ok(Some(d)) => o.v(&format!("map after {}", opname(op, &pool)), d.clone(), replay(&d)),
                    Ok(None) => {}
                }
                if objs != orig {
                    o.v("input changed", format!("{} changed an input", opname(op, &pool)), replay("input changed"));
                    return;
                }
                if o.viol.len() == before && seen.insert(fp(&c2)) {
                    o.states += 1;
                    next.push((c2, m2, h2));
                }
            }
        }
        frontier = next;
        o.info.insert(format!("states at depth {}", o.info.len() + 1), frontier.len() as u64);
        if o.viol.len() >= 5 {
            break;
        }
    }
    o.info.insert("operations".into(), ops.len() as u64);

    // one path, every pair of files (and every one twice, in front and behind):
    // added one by one, and merged as maps
    let whole = whole_pool(PATHS[0], true);
    let wo: Vec<FileCoverage> = whole.iter().enumerate().map(|(i, m)| build(m, IDS[i % 3])).collect();
    let more: Vec<usize> = if thorough { (0..whole.len()).collect() } else { vec![] };
    for i in 0..whole.len() {
        for j in 0..whole.len() {
            let mut hist = vec![vec![i, j], vec![i, i, j], vec![i, j, j], vec![i, j, i]];
            hist.extend(more.iter().map(|k| vec![i, j, *k]));
            for h in hist {
                o.transitions += 1;
                o.states += 1;
                o.n("histories of one path");
                let r = guard(|| {
                    let (mut a, mut m, mut b) = (CoverageMap::new(), MM::default(), CoverageMap::new());
                    for k in &h {
                        a.add_coverage_for_file(&wo[*k]);
                        m.add(&whole[*k]);
                        b.merge(&CoverageMap::from_iter([&wo[*k]]));
                    }
                    map_diff(&a, &m).or_else(|| map_diff(&b, &m).map(|d| format!("merged: {}", d)))
                });
                let replay = json!({"files": h.iter().map(|k| js(&wo[*k])).collect::<Vec<_>>()});
                match r {
                    Err(e) => o.v("one path panic", e, replay),
                    Ok(Some(d)) => o.v("one path", format!("{:?} added: {}", h, d.chars().take(300).collect::<String>()), replay),
                    Ok(None) => {}
                }
            }
        }
    }

    // maps of many files: added in one order, merged from two overlapping
    // maps, filtered down to every single file and to all but it
    for n in if thorough { vec![5usize, 17, 33, 65, 129, 257] } else { vec![5, 17, 33, 70] } {
        let file = |i: usize, pat: usize| M { path: format!("/p/{}.js", i * 7 % n), ..big(1 + i % 4, 0, pat, false, if i % 2 == 0 { 15 } else { 7 }) };
        let ms: Vec<M> = (0..n).map(|i| file(i, i % 6)).collect();
        let objs: Vec<FileCoverage> = ms.iter().map(|m| build(m, Ids::Gap)).collect();
        let of = |r: std::ops::Range<usize>| {
            let mut c = CoverageMap::new();
            let mut m = MM::default();
            for i in r {
                c.add_coverage_for_file(&objs[i]);
                m.add(&ms[i]);
            }
            (c, m)
        };
        for cut in 0..=n {
            for over in [0usize, 1, 3] {
                o.transitions += 1;
                o.states += 1;
                o.n("maps of many files");
                let r = guard(|| {
                    let (mut a, mut am) = of(0..cut);
                    let (b, bm) = of(cut.saturating_sub(over)..n);
                    a.merge(&b);
                    for f in &bm.files {
                        am.add(f);
                    }
                    if let Some(d) = map_diff(&a, &am) {
                        return Some(d);
                    }
                    if over == 0 && cut < n {
                        for all_but in [false, true] {
                            let (mut k, mut km) = (a.clone(), am.clone());
                            let p = format!("/p/{}.js", cut);
                            k.filter(|f| (f.path == p) != all_but);
                            km.files.retain(|f| (f.path == p) != all_but);
                            if let Some(d) = map_diff(&k, &km) {
                                return Some(format!("filtered to {}{}: {}", if all_but { "all but " } else { "" }, p, d));
                            }
                        }
                    }
                    None
                });
                let replay = json!({"files": n, "merged at": cut, "overlap": over});
                match r {
                    Err(e) => o.v("many files panic", e, replay),
                    Ok(Some(d)) => o.v("many files", format!("{} files merged at {} overlap {}: {}", n, cut, over, d.chars().take(300).collect::<String>()), replay),
                    Ok(None) => {}
                }
            }
        }
    }
}

// ------------------------------------------------------------ C17

fn line_diff(c: &FileCoverage, m: &M) -> Option<String> {
    let mut want: BTreeMap<u32, u32> = Default::default();
    for (r, h) in &m.s {
        let e = want.entry(r.0).or_default();
        *e = (*e).max(*h);
    }
    let lc = c.get_line_coverage();
    let got: BTreeMap<u32, u32> = lc.iter().map(|(k, v)| (*k, *v)).collect();
    if got != want || lc.len() != want.len() {
        return Some(format!("line coverage {:?} expected {:?}", got, want));
    }
    let mut un = c.get_uncovered_lines();
    un.sort();
    let wun: Vec<u32> = want.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    if un != wun {
        return Some(format!("uncovered lines {:?} expected {:?}", un, wun));
    }
    let mut wb: BTreeMap<u32, (u32, u32)> = Default::default();
    for b in &m.b {
        let e = wb.entry(b.line.unwrap_or_else(|| b.loc.unwrap().0)).or_default();
        e.0 += b.hits.iter().filter(|h| **h > 0).count() as u32;
        e.1 += b.hits.len() as u32;
    }
    let gb = c.get_branch_coverage_by_line();
    if gb.len() != wb.len() {
        return Some(format!("branch lines {:?} expected {:?}", gb.keys().collect::<Vec<_>>(), wb.keys().collect::<Vec<_>>()));
    }
    for (line, (cov, tot)) in &wb {
        match gb.get(line).map(|x| x.parts()) {
            None => return Some(format!("no branch coverage for line {}", line)),
            Some((gc, gt, p)) => {
                let exact = if *tot == 0 { 100.0 } else { *cov as f64 / *tot as f64 * 100.0 };
                if (gc, gt) != (*cov, *tot) || (p as f64 - exact).abs() > 1e-4 || (p == 100.0) != (cov == tot) {
                    return Some(format!("line {}: {}/{} {}%, expected {}/{} {}%", line, gc, gt, p, cov, tot, exact));
                }
            }
        }
    }
    let (t, bt) = mtotals(m);
    summary_diff(&c.to_summary(), t, bt, 1, false).map(|d| format!("summary: {}", d))
}

fn c17(o: &mut Out, thorough: bool) {
    // statements: every assignment of start lines and counts
    let lines = [1u32, 2, 10];
    for n in 0..=(if thorough { 5 } else { 4 }) {
        for ls in tuples(&lines, n) {
            for cs in tuples(&[0u32, 1, 4294967295], n) {
                for ids in IDS {
                    let m = M { path: "f".into(), s: ls.iter().zip(&cs).enumerate().map(|(i, (l, c))| ((*l, i as u32, *l + (i as u32 % 2), 50), *c)).collect(), ..Default::default() };
                    run17(o, "statements", &m, ids);
                }
            }
        }
    }
    // functions
    for n in 0..=3 {
        for cs in tuples(&[0u32, 1, 2], n) {
            let m = M { path: "f".into(), f: cs.iter().enumerate().map(|(i, c)| mfn(i, "f", *c)).collect(), ..Default::default() };
            run17(o, "functions", &m, Ids::Gap);
        }
    }
    // branches: lines, which of line / loc is present, arms, counts, truth
    let mut one: Vec<MBranch> = vec![];
    for line in [3u32, 4] {
        for how in 0..3 {
            for n in 0..=(if thorough { 3 } else { 2 }) {
                for hs in tuples(&[0u32, 2], n) {
                    for truth in [None, Some(hs.iter().map(|h| h / 2).collect::<Vec<_>>())] {
                        one.push(MBranch {
                            ty: BranchType::BinaryExpr,
                            loc: (how != 1).then_some((line, 0, line + 1, 5)),
                            line: (how != 0).then_some(line),
                            arms: (0..n as u32).map(|i| (line, i, line, i + 1)).collect(),
                            hits: hs.clone(),
                            truth,
                        });
                    }
                }
            }
        }
    }
    for n in 0..=(if thorough { 3 } else { 2 }) {
        let mut idx = vec![0usize; n];
        loop {
            for bt in [false, true] {
                let b: Vec<MBranch> = idx.iter().map(|i| { let mut x = one[*i].clone(); if !bt { x.truth = None; } x }).collect();
                if bt || idx.iter().all(|i| one[*i].truth.is_none()) {
                    run17(o, "branches", &M { path: "f".into(), b, bt, ..Default::default() }, if n == 2 { Ids::Rev } else { Ids::Gap });
                }
            }
            let mut k = 0;
            while k < n {
                idx[k] += if thorough && n == 3 { 2 } else { 1 };
                if idx[k] < one.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == n {
                break;
            }
        }
    }
    // whole files
    for m in whole_pool("f", true) {
        for ids in IDS {
            run17(o, "whole files", &m, ids);
        }
    }
    for m in sized(if thorough { 1000 } else { 300 }) {
        run17(o, "sizes", &m, Ids::Gap);
    }
    // percentages: every covered <= total up to the bound, and around it for large totals
    let bound = if thorough { 30000 } else { 10000 };
    let mut big: Vec<(u32, u32)> = vec![];
    for t in [99999u32, 100000, 100001, 999999, 16777216, 16777217, 33554433, 4294967295] {
        for d in 0..50 {
            big.push((t - d, t));
            big.push((d, t));
            big.push((t / 2 + d, t));
            big.push(((t as u64 * 9999 / 10000) as u32 + d / 2, t));
            big.push(((t as u64 * 9999 / 10000) as u32 - d / 2, t));
        }
    }
    for t in 0..=bound {
        for c in 0..=t {
            pct17(o, c, t);
        }
    }
    for (c, t) in big {
        if c <= t {
            pct17(o, c, t);
        }
    }
    o.info.insert("percentages up to total".into(), bound as u64);
}
fn pct17(o: &mut Out, c: u32, t: u32) {
    o.transitions += 1;
    match guard(|| percent(c, t)) {
        Err(e) => o.v("percent panic", format!("percent({}, {}): {}", c, t, e), json!({"covered": c, "total": t})),
        Ok(p) => {
            if !pct_is(p, floor_pct(c, t)) || ((p == 100.0) != (c == t)) {
                o.v("percent", format!("percent({}, {}) = {}, expected {}", c, t, p, floor_pct(c, t) as f64 / 100.0), json!({"covered": c, "total": t}));
            }
        }
    }
}
fn run17(o: &mut Out, what: &str, m: &M, ids: Ids) {
    o.transitions += 1;
    o.states += 1;
    o.n(what);
    let c = build(m, ids);
    let c0 = c.clone();
    match guard(|| line_diff(&c, m)) {
        Err(e) => o.v(&format!("{} panic", what), e, js(&c0)),
        Ok(Some(d)) => o.v(what, d, js(&c0)),
        Ok(None) => {}
    }
    if c != c0 {
        o.v("changed", "a query changed the coverage".into(), js(&c0));
    }
}

// ------------------------------------------------------------ C18

fn jr(r: R4) -> Value {
    json!({"start": {"line": r.0, "column": r.1}, "end": {"line": r.2, "column": r.3}})
}
/// The JSON Istanbul's format prescribes, written down independently.
fn expected_json(m: &M, ids: Ids) -> Value {
    let mut sm = json!({});
    let mut s = json!({});
    for (i, (r, h)) in m.s.iter().enumerate() {
        let id = idof(ids, i, m.s.len()).to_string();
        sm[&id] = jr(*r);
        s[&id] = json!(h);
    }
    let mut fm = json!({});
    let mut f = json!({});
    for (i, x) in m.f.iter().enumerate() {
        let id = idof(ids, i, m.f.len()).to_string();
        fm[&id] = json!({"name": x.name, "decl": jr(x.decl), "loc": jr(x.loc), "line": x.line});
        f[&id] = json!(x.hits);
    }
    let mut bm = json!({});
    let mut b = json!({});
    let mut bt = json!({});
    for (i, x) in m.b.iter().enumerate() {
        let id = idof(ids, i, m.b.len()).to_string();
        let ty = match x.ty {
            BranchType::BinaryExpr => "binary-expr",
            BranchType::DefaultArg => "default-arg",
            BranchType::If => "if",
            BranchType::Switch => "switch",
            BranchType::CondExpr => "cond-expr",
        };
        bm[&id] = json!({"type": ty, "locations": x.arms.iter().map(|r| jr(*r)).collect::<Vec<_>>()});
        if let Some(l) = x.loc {
            bm[&id]["loc"] = jr(l);
        }
        if let Some(l) = x.line {
            bm[&id]["line"] = json!(l);
        }
        b[&id] = json!(x.hits);
        if let Some(t) = &x.truth {
            bt[&id] = json!(t);
        }
    }
    let mut v = json!({"path": m.path, "statementMap": sm, "fnMap": fm, "branchMap": bm, "s": s, "f": f, "b": b});
    if m.bt {
        v["bT"] = bt;
    }
    if m.all {
        v["all"] = json!(true);
    }
    if let Some(k) = m.map {
        v["inputSourceMap"] = match k {
            0 => json!({"version": 3, "sources": ["a\"b\\c\n\u{1F600}.js"], "names": ["n"], "mappings": "AAAA"}),
            _ => json!({"version": 3, "file": "f", "sourceRoot": "", "sources": ["a", null], "sourcesContent": [null, "x\u{2028}</script>"], "names": [], "mappings": ""}),
        };
    }
    v
}
/// What may differ between equivalent forms: an explicit false `all`, a null
/// `line` or `loc` of a branch.
fn norm_json(v: &Value) -> Value {
    let mut v = v.clone();
    if v.get("all") == Some(&Value::Bool(false)) {
        v.as_object_mut().unwrap().remove("all");
    }
    if let Some(Value::Object(b)) = v.get_mut("branchMap") {
        for x in b.values_mut() {
            if let Some(x) = x.as_object_mut() {
                x.retain(|k, v| !((k == "line" || k == "loc") && v.is_null()));
            }
        }
    }
    v
}

fn c18(o: &mut Out, thorough: bool) {
    let mut ms: Vec<M> = vec![];
    for p in ["f", "", "/a \"b\\c\u{7}\u{2028}\u{1F600}'.js"] {
        ms.extend(whole_pool(p, true));
    }
    ms.extend(stmt_pool(3, 3, &[0, 4294967295], false));
    ms.extend(fn_pool(&[0, 7], 3));
    ms.extend(branch_pool(&[0, 2], &[1, 2], &[0, 1, 3, 4], if thorough { 3 } else { 2 }));
    for ty in [BranchType::BinaryExpr, BranchType::DefaultArg, BranchType::If, BranchType::Switch, BranchType::CondExpr] {
        for how in 0..3 {
            let mut b = mbranch(0, vec![1, 0], None);
            b.ty = ty;
            if how == 1 {
                b.loc = None;
            }
            if how == 2 {
                b.line = None;
            }
            ms.push(M { path: "f".into(), b: vec![b], ..Default::default() });
        }
    }
    ms.extend(sized(if thorough { 300 } else { 101 }));
    let base = ms.clone();
    for m in base.iter().step_by(if thorough { 1 } else { 5 }) {
        ms.push(M { map: Some(0), ..m.clone() });
        ms.push(M { map: Some(1), all: true, ..m.clone() });
    }
    for name in ["(anonymous_0)", "", "a\"b\\", "\u{1F600}\u{0}\n", "constructor", "__proto__"] {
        ms.push(M { path: "f".into(), f: vec![mfn(0, name, 3)], ..Default::default() });
    }
    for m in &ms {
        for ids in IDS {
            o.states += 1;
            o.transitions += 2;
            let c = build(m, ids);
            let want = expected_json(m, ids);
            let got = match guard(|| serde_json::to_string(&c)) {
                Ok(Ok(s)) => s,
                e => {
                    o.v("serialise", format!("{:?}", e.map(|_| "serde error")), want.clone());
                    continue;
                }
            };
            let gv: Value = match serde_json::from_str(&got) {
                Ok(v) => v,
                Err(e) => {
                    o.v("not json", e.to_string(), json!({"json": got}));
                    continue;
                }
            };
            if norm_json(&gv) != want {
                o.v("format", format!("serialised {} expected {}", norm_json(&gv), want), want.clone());
            }
            read_back(o, "round trip", &got, &c, m);
            // Istanbul's writer leaves the optional keys out
            read_back(o, "istanbul's form", &want.to_string(), &c, m);
            // extra keys anywhere
            let mut x = want.clone();
            x["_coverageSchema"] = json!("1a1c01bbd47fc00a2c39e90264f33305004495a9");
            x["hash"] = json!("abc");
            x["unknown"] = json!({"a": [1, null]});
            for (table, keys) in [("fnMap", &["zz", "meta"][..]), ("branchMap", &["zz"][..]), ("statementMap", &["skip"][..])] {
                if let Some(Value::Object(t)) = x.get_mut(table) {
                    for v in t.values_mut() {
                        for k in keys {
                            v[*k] = json!([{"line": "no"}]);
                        }
                    }
                }
            }
            if m.map.is_some() {
                x["inputSourceMap"]["x_google_ignoreList"] = json!([0]);
            }
            o.transitions += 1;
            read_back(o, "extra keys", &x.to_string(), &c, m);
            // explicit nulls for what is absent
            let mut x = want.clone();
            if !m.bt {
                x["bT"] = Value::Null;
            }
            if m.map.is_none() {
                x["inputSourceMap"] = Value::Null;
            }
            x["all"] = json!(m.all);
            o.transitions += 1;
            read_back(o, "explicit nulls", &x.to_string(), &c, m);
            // keys in another order
            let mut rev = serde_json::Map::new();
            for (k, v) in want.as_object().unwrap().iter().rev() {
                rev.insert(k.clone(), v.clone());
            }
            let s = format!("{{{}}}", want.as_object().unwrap().iter().rev().map(|(k, v)| format!("{}:{}", json!(k), v)).collect::<Vec<_>>().join(","));
            let _ = rev;
            o.transitions += 1;
            read_back(o, "key order", &s, &c, m);
        }
    }
    // counters of a run are not limited to 32 bits, the largest stands for them
    for n in [4294967295u64, 4294967296, 4294967297, 8589934592, 9007199254740991] {
        for m in [whole_pool("f", true).remove(21), M { bt: true, b: vec![mbranch(0, vec![1, 0], Some(vec![1, 0]))], s: vec![(SL[0], 1), (SL[1], 0)], f: vec![mfn(0, "f", 1)], ..Default::default() }] {
            for (table, at) in [("s", ""), ("f", ""), ("b", "/1"), ("b", "/0"), ("bT", "/0")] {
                let mut v = expected_json(&m, Ids::Seq);
                let key = v.get(table).and_then(|t| t.as_object()).and_then(|t| t.keys().next().cloned());
                let Some(key) = key else { continue };
                let ptr = format!("/{}/{}{}", table, key, at);
                if v.pointer(&ptr).is_none() { continue; }
                *v.pointer_mut(&ptr).unwrap() = json!(n.min(u32::MAX as u64));
                let want: FileCoverage = match guard(|| serde_json::from_value(v.clone())) { Ok(Ok(c)) => c, _ => continue };
                *v.pointer_mut(&ptr).unwrap() = json!(n);
                o.transitions += 1;
                o.n("large counts");
                let m2 = lift(&want);
                read_back(o, "large counts", &v.to_string(), &want, &m2);
            }
        }
    }
    // partial locations written by Istanbul
    let t = r#"{"path":"f","statementMap":{"0":{"start":{"line":1,"column":0},"end":{"line":1,"column":null}}},"fnMap":{"0":{"name":"g","decl":{"start":{"line":1,"column":0},"end":{"line":1,"column":1}},"loc":{"start":{"line":1,"column":2},"end":{"line":1,"column":null}}}},"branchMap":{"0":{"loc":{"start":{"line":1,"column":0},"end":{"line":1,"column":8}},"type":"if","locations":[{"start":{"line":1,"column":0},"end":{"line":1,"column":8}},{"start":{},"end":{}}],"line":1}},"s":{"0":3},"f":{"0":2},"b":{"0":[1,2]}}"#;
    o.transitions += 1;
    match guard(|| serde_json::from_str::<FileCoverage>(t)) {
        Ok(Ok(c)) => {
            if c.s[&0] != 3 || c.f[&0] != 2 || c.b[&0] != vec![1, 2] || c.branch_map[&0].locations.len() != 2 || c.statement_map[&0].end.column == 0 || c.fn_map[&0].loc.start.column != 2 {
                o.v("partial locations", "partial locations change the rest".into(), serde_json::from_str(t).unwrap());
            }
        }
        e => o.v("partial locations", format!("not accepted: {:?}", e.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))), serde_json::from_str(t).unwrap()),
    }
    // data given on stdin: what Istanbul and instrumented runs left behind
    let mut n = 0u64;
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        n += 1;
        o.transitions += 1;
        let v: Value = serde_json::from_str(&line).unwrap();
        let (from, data) = (v["from"].as_str().unwrap().to_string(), v["data"].clone());
        match guard(|| serde_json::from_str::<FileCoverage>(&data.to_string())) {
            Ok(Ok(c)) => {
                let back = norm_json(&js(&c));
                let mut want = data.clone();
                // additional keys carry no coverage
                let known = ["path", "all", "statementMap", "fnMap", "branchMap", "s", "f", "b", "bT", "inputSourceMap"];
                want.as_object_mut().unwrap().retain(|k, _| known.contains(&k.as_str()));
                if let Some(Value::Object(m)) = want.get_mut("inputSourceMap") {
                    let known = ["version", "file", "sourceRoot", "sources", "sourcesContent", "names", "mappings"];
                    m.retain(|k, v| known.contains(&k.as_str()) && !v.is_null());
                }
                if let Some(Value::Object(t)) = want.get_mut("fnMap") {
                    for f in t.values_mut() {
                        f.as_object_mut().unwrap().entry("line").or_insert(json!(0));
                    }
                }
                fill_partial(&mut want);
                if back != norm_json(&want) {
                    o.v(&format!("data of {}", from), format!("read as {} instead of {}", back, want), data.clone());
                }
                let again: Result<FileCoverage, _> = serde_json::from_value(js(&c));
                if again.map(|a| a == c).unwrap_or(false) == false {
                    o.v(&format!("data of {}, twice", from), "does not read back equal".into(), data);
                }
            }
            e => o.v(&format!("data of {}", from), format!("not accepted: {:?}", e.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))), data),
        }
    }
    o.info.insert("files of Istanbul and of instrumented runs".into(), n);
}
fn fill_partial(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for k in ["start", "end"] {
                if let Some(Value::Object(l)) = m.get_mut(k) {
                    l.entry("line").or_insert(json!(0));
                    l.entry("column").or_insert(json!(0));
                    if l["column"].is_null() {
                        l["column"] = json!(u32::MAX); // the end of the line
                    }
                }
            }
            m.values_mut().for_each(fill_partial)
        }
        Value::Array(a) => a.iter_mut().for_each(fill_partial),
        _ => {}
    }
}
fn read_back(o: &mut Out, what: &str, text: &str, c: &FileCoverage, m: &M) {
    match guard(|| serde_json::from_str::<FileCoverage>(text)) {
        Ok(Ok(d)) => {
            if d != *c {
                o.v(what, "reading it back gives something else".into(), json!({"json": text}));
            } else if let Some(e) = diff(&d, m, false) {
                o.v(what, e, json!({"json": text}));
            }
        }
        e => o.v(what, format!("not accepted: {:?}", e.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))), json!({"json": text})),
    }
}

// ------------------------------------------------------------ C19

/// Every count of a file's JSON set to zero.
fn zero_counts(v: &mut Value) {
    fn z(v: &mut Value) {
        match v {
            Value::Number(_) => *v = json!(0),
            Value::Array(a) => a.iter_mut().for_each(z),
            Value::Object(m) => m.values_mut().for_each(z),
            _ => {}
        }
    }
    for k in ["s", "f", "b", "bT"] {
        if let Some(t) = v.get_mut(k) {
            z(t);
        }
    }
}

/// The file with its tables made to disagree, one way at a time and two ways at once.
fn ragged(v: &Value) -> Vec<Value> {
    let ways: Vec<fn(&mut Value)> = vec![
        |v| each(v, &["b"], |x| x.as_array_mut().unwrap().push(json!(4))),
        |v| each(v, &["b"], |x| drop(x.as_array_mut().unwrap().pop())),
        |v| each(v, &["b"], |x| x.as_array_mut().unwrap().clear()),
        |v| each(v, &["bT"], |x| x.as_array_mut().unwrap().push(json!(4))),
        |v| each(v, &["bT"], |x| drop(x.as_array_mut().unwrap().pop())),
        |v| each(v, &["branchMap"], |x| x["locations"].as_array_mut().unwrap().clear()),
        |v| each(v, &["branchMap"], |x| {
            let l = x["locations"][0].clone();
            x["locations"].as_array_mut().unwrap().push(l)
        }),
        |v| v["s"]["77"] = json!(5),
        |v| v["f"]["77"] = json!(5),
        |v| v["b"]["77"] = json!([5, 6]),
        |v| {
            if v["bT"].is_object() {
                v["bT"]["77"] = json!([5, 6])
            }
        },
        |v| v["statementMap"] = json!({}),
        |v| v["fnMap"] = json!({}),
        |v| v["branchMap"] = json!({}),
        |v| v["s"] = json!({}),
        |v| v["b"] = json!({}),
        |v| v["all"] = json!(true),
    ];
    let mut out = vec![];
    for (i, a) in ways.iter().enumerate() {
        let mut x = v.clone();
        a(&mut x);
        out.push(x.clone());
        for b in &ways[i + 1..] {
            let mut y = x.clone();
            b(&mut y);
            out.push(y);
        }
    }
    out.sort_by_key(|v| v.to_string());
    out.dedup();
    out
}
fn each(v: &mut Value, tables: &[&str], f: fn(&mut Value)) {
    for t in tables {
        if let Some(Value::Object(m)) = v.get_mut(*t) {
            m.values_mut().for_each(f);
        }
    }
}

fn c19(o: &mut Out, thorough: bool) {
    // histories over {merge x, reset, JSON round trip} in lock step with the model
    let pool = history_pool();
    let mut starts: Vec<M> = whole_pool("f", true);
    starts.extend(pool.iter().cloned());
    starts.extend(branch_pool(&[0, 3], &[1, 2], &[0, 1, 3, 4], 2));
    starts.push(M { map: Some(1), ..starts[30].clone() });
    starts.extend(sized(if thorough { 1000 } else { 257 }).into_iter().filter(|m| m.s.len() + m.f.len() + m.b.len() > 0));
    for m in &starts {
        for ids in IDS {
            o.states += 1;
            o.transitions += 2;
            let mut c = build(m, ids);
            let replay = js(&c);
            let mut z = m.clone();
            z.reset();
            let fresh = build(&z, ids);
            if let Err(e) = guard(|| c.reset_hits()) {
                o.v("panic", e, replay);
                continue;
            }
            if let Some(d) = diff(&c, &z, false) {
                o.v("reset", d, replay.clone());
            }
            if c != fresh || js(&c) != js(&fresh) {
                o.v("reset", "a reset file differs from a fresh one".into(), replay.clone());
            }
            let once = c.clone();
            let _ = guard(|| c.reset_hits());
            if c != once {
                o.v("idempotent", "a second reset changes something".into(), replay.clone());
            }
            // merging into the reset file is merging into the fresh one
            for p in &pool {
                o.transitions += 1;
                let arg = build(p, Ids::Seq);
                let mut a = once.clone();
                let mut b = fresh.clone();
                let mut w = z.clone();
                w.merge(p);
                if guard(|| {
                    a.merge(&arg);
                    b.merge(&arg);
                })
                .is_err()
                {
                    o.v("merge panic", "merge into a reset file panicked".into(), replay.clone());
                } else if a != b {
                    o.v("merge", "merging into a reset file differs from merging into a fresh one".into(), replay.clone());
                } else if let Some(d) = diff(&a, &w, false) {
                    o.v("merge", d, replay.clone());
                }
            }
        }
    }
    // files whose tables do not agree with each other: counts without an entry, entries
    // without a count, more or fewer counts than locations; resetting zeroes the counts
    // there are and leaves everything else alone
    let stride = if thorough { 1 } else { 7 };
    for m in starts.iter().filter(|m| m.s.len() + m.f.len() + m.b.len() > 0 && m.s.len() + m.b.len() < 20).step_by(stride) {
        let whole = js(&build(m, Ids::Seq));
        for v in ragged(&whole) {
            o.states += 1;
            o.transitions += 1;
            let mut c: FileCoverage = match guard(|| serde_json::from_value(v.clone())) {
                Ok(Ok(c)) => c,
                _ => continue, // what is accepted is C18's
            };
            let mut want = js(&c);
            zero_counts(&mut want);
            if let Err(e) = guard(|| c.reset_hits()) {
                o.v("panic", e, v.clone());
            } else if js(&c) != want {
                o.v("reset of disagreeing tables", format!("{} instead of {}", js(&c), want), v.clone());
            }
            // the merge of two such files, reset
            for p in &pool {
                o.transitions += 1;
                let mut c: FileCoverage = serde_json::from_value(v.clone()).unwrap();
                let arg = build(p, Ids::Seq);
                if guard(|| c.merge(&arg)).is_err() {
                    continue;
                }
                let mut want = js(&c);
                zero_counts(&mut want);
                if let Err(e) = guard(|| c.reset_hits()) {
                    o.v("panic", e, v.clone());
                } else if js(&c) != want {
                    o.v("reset of disagreeing tables, merged", format!("{} instead of {}", js(&c), want), v.clone());
                }
            }
        }
    }
    let depth = if thorough { 6 } else { 5 };
    let mut seen: HashSet<String> = Default::default();
    let mut q: VecDeque<(FileCoverage, M, Vec<usize>)> = pool.iter().enumerate().map(|(i, m)| (build(m, Ids::Gap), m.clone(), vec![i])).collect();
    while let Some((c, m, h)) = q.pop_front() {
        if h.len() > depth {
            continue;
        }
        for op in 0..pool.len() + 2 {
            o.transitions += 1;
            let mut c2 = c.clone();
            let mut m2 = m.clone();
            let mut h2 = h.clone();
            h2.push(op);
            let r = guard(|| {
                if op < pool.len() {
                    c2.merge(&build(&pool[op], IDS[h2.len() % 3]));
                } else if op == pool.len() {
                    c2.reset_hits();
                } else {
                    c2 = serde_json::from_str(&serde_json::to_string(&c2).unwrap()).unwrap();
                }
            });
            if op < pool.len() {
                m2.merge(&pool[op]);
            } else if op == pool.len() {
                m2.reset();
            }
            let replay = || json!({"start": h2[0], "operations": h2[1..].iter().map(|i| if *i < pool.len() { format!("merge #{}", i) } else if *i == pool.len() { "reset".into() } else { "json".into() }).collect::<Vec<String>>(), "inputs": pool.iter().map(|m| js(&build(m, Ids::Seq))).collect::<Vec<_>>()});
            if let Err(e) = r {
                o.v("history panic", e, replay());
                continue;
            }
            if let Some(d) = diff(&c2, &m2, false) {
                o.v("history", d, replay());
                continue;
            }
            if seen.insert(format!("{}|{}", h2.len(), js(&c2))) {
                o.states += 1;
                q.push_back((c2, m2, h2));
            }
        }
        if o.viol.len() > 5 {
            break;
        }
    }
    o.info.insert("history depth".into(), depth as u64);
}

// Data of Istanbul's instrumenter and of instrumented runs (one per line of the
// standard input), as inputs of the other properties.
fn lift(c: &FileCoverage) -> M {
    M {
        all: c.all,
        path: c.path.clone(),
        s: c.s.iter().map(|(k, h)| (unr(&c.statement_map[k]), *h)).collect(),
        f: c.f.iter().map(|(k, h)| { let f = &c.fn_map[k]; MFn { name: f.name.clone(), decl: unr(&f.decl), loc: unr(&f.loc), line: f.line, hits: *h } }).collect(),
        b: c.b.iter().map(|(k, h)| { let b = &c.branch_map[k]; MBranch { ty: b.branch_type, loc: b.loc.as_ref().map(unr), line: b.line, arms: b.locations.iter().map(unr).collect(), hits: h.clone(), truth: c.b_t.as_ref().and_then(|t| t.get(k)).cloned() } }).collect(),
        bt: c.b_t.is_some(),
        map: None,
    }
}
fn real(o: &mut Out, id: &str, thorough: bool) {
    let mut pool: Vec<FileCoverage> = vec![];
    let mut seen: HashSet<String> = Default::default();
    for line in std::io::stdin().lines() {
        let Ok(v) = serde_json::from_str::<Value>(&line.unwrap()) else { continue };
        let Ok(mut c) = serde_json::from_value::<FileCoverage>(v["data"].clone()) else { continue }; // judged by C18
        c.input_source_map = None;
        c.path = "r".into();
        if seen.insert(js(&c).to_string()) {
            pool.push(c);
        }
    }
    for (i, c) in pool.iter().enumerate() {
        o.n("files of Istanbul and of instrumented runs");
        let Ok(m) = guard(|| lift(c)) else { continue }; // tables that disagree: judged by C06
        match id {
            "C15" => {
                // itself, its neighbours, and files further away
                let far = [0usize, 1, 2, 3, 7, 50];
                for d in if thorough { &far[..] } else { &far[..4] } {
                    let y = &pool[(i + d) % pool.len()];
                    let mut x = c.clone();
                    let mut want = m.clone();
                    let Ok(n) = guard(|| lift(y)) else { continue };
                    want.merge(&n);
                    o.transitions += 1;
                    match guard(|| x.merge(y)) {
                        Err(e) => o.v("real data panic", format!("merge panicked: {}", e), json!({"merge": [js(c), js(y)]})),
                        Ok(()) => {
                            if let Some(d) = diff(&x, &want, true) {
                                o.v("real data", d, json!({"merge": [js(c), js(y)]}));
                            }
                        }
                    }
                }
            }
            "C17" => {
                o.transitions += 1;
                match guard(|| line_diff(c, &m)) {
                    Err(e) => o.v("real data panic", e, js(c)),
                    Ok(Some(d)) => o.v("real data", d, js(c)),
                    Ok(None) => {}
                }
            }
            _ => {
                o.transitions += 1;
                let mut x = c.clone();
                let mut want = m.clone();
                want.reset();
                match guard(|| x.reset_hits()) {
                    Err(e) => o.v("real data panic", e, js(c)),
                    Ok(()) => {
                        if let Some(d) = diff(&x, &want, false) {
                            o.v("real data", d, js(c));
                        }
                    }
                }
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = Out::new();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    match a[1].as_str() {
        "C15" => c15(&mut o, thorough),
        "C16" => c16(&mut o, thorough),
        "C17" => c17(&mut o, thorough),
        "C18" => c18(&mut o, thorough),
        "C19" => c19(&mut o, thorough),
        x => panic!("{}", x),
    }
    if matches!(a[1].as_str(), "C15" | "C17" | "C19") {
        real(&mut o, &a[1], thorough);
    }
    o.compared += o.transitions;
    let _: IndexMap<u8, u8> = Default::default();
    println!(
        "{}",
        json!({"states": o.states, "transitions": o.transitions, "traces_validated_against_impl": o.compared, "info": o.info, "samples": o.samples,
            "violations": o.viol.iter().map(|(k, (d, r))| json!({"key": k, "detail": d, "replay": r})).collect::<Vec<_>>()})
    );
}
