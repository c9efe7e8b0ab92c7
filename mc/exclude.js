'use strict';
// C14: every name x every exclude pattern of a small language of paths, and
// lists of patterns, through the plugin's entry point.
const path = require('node:path');
const os = require('node:os');
const { Svc } = require('./svc.js');
const PLUG = process.env.PLUGSVC || path.join(__dirname, '../harness/target/debug/plugsvc');

// ---- reference: names
// forward slashes; a drive prefix is no part of the path
const norm = (p) => p.replace(/^[A-Za-z]:/, '').replace(/\\/g, '/');

// ---- reference: globs (the documented language of wax, without repetitions and flags)
// null: not a glob
const MANY = { any: true };
function parseGlob(s) {
  // tokens: string (literal), '/', {one}, {many}, {tree, root}, {cls, neg}, {alt: [tokens]}
  const toks = [];
  let i = 0;
  const seq = (stop) => {
    const out = [];
    const start = i;
    while (i < s.length && !(stop && stop.includes(s[i]))) {
      const c = s[i];
      if (c === '*' || c === '$') {
        if (s[i + 1] === '*' && c === '*') {
          // a tree is a whole component
          const before = i === start ? (start === 0 || stop) : s[i - 1] === '/';
          const after = i + 2 === s.length || s[i + 2] === '/' || (stop && stop.includes(s[i + 2]));
          if (!before || !after) return null;
          let root = false;
          if (out.length && out[out.length - 1].sep) { out.pop(); root = out.length === 0; }
          i += 2;
          if (s[i] === '/') i++;
          out.push({ tree: true, root });
          continue;
        }
        out.push({ many: true }); i++;
      } else if (c === '?') { out.push({ one: true }); i++; } else if (c === '/') { out.push({ sep: true }); i++; } else if (c === '[') {
        let j = i + 1;
        const neg = s[j] === '!';
        if (neg) j++;
        const set = [];
        while (j < s.length && s[j] !== ']') {
          if (s[j] === '[' || s[j] === '-') return null;
          if (s[j + 1] === '-' ) { if (j + 2 >= s.length || s[j + 2] === ']') return null; set.push([s[j], s[j + 2]]); j += 3; } else { set.push([s[j], s[j]]); j++; }
        }
        if (j >= s.length || !set.length) return null;
        i = j + 1;
        out.push({ cls: set, neg });
      } else if (c === '{') {
        const alts = [];
        i++;
        for (;;) {
          const a = seq(',}');
          if (a === null || !a.length) return null;
          alts.push(a);
          if (i >= s.length) return null;
          if (s[i++] === '}') break;
        }
        out.push({ alt: alts });
      } else if (']},'.includes(c) && !stop) return null;
      else if (']'.includes(c)) return null;
      else { out.push({ lit: c }); i++; }
    }
    return out;
  };
  const t = seq(null);
  if (t === null || i < s.length) return null;
  const edge = (x) => x && (x.sep || x.tree);
  for (let k = 0; k + 1 < t.length; k++) {
    if (edge(t[k]) && edge(t[k + 1])) return null; // empty components, neighbouring trees
    if (t[k].many && t[k + 1].many) return null;
  }
  // neighbours through alternatives
  for (let k = 0; k < t.length; k++) if (t[k].alt) {
    const l = t[k - 1], r = t[k + 1];
    for (const a of t[k].alt) {
      if (a.some((x) => x.alt)) return null;
      if (a.length === 1 && (a[0].tree || (a[0].many && ((l && !l.sep && !l.tree && l.many) || (r && r.many))))) return null;
      if ((edge(a[0]) && (edge(l) || !l)) || (edge(a[a.length - 1]) && edge(r))) return null;
      if ((a[0].many && l && l.many) || (a[a.length - 1].many && r && r.many)) return null;
      for (let q = 0; q + 1 < a.length; q++) if ((edge(a[q]) && edge(a[q + 1])) || (a[q].many && a[q + 1].many)) return null;
    }
  }
  return t;
}
// loose: wax 0.6 lets a rooted leading tree end inside a component (`/**/a`
// matches "/ba") and lets a lone `/**` match relative names. Names on which the
// documented and this reading differ are not judged.
function matchGlob(toks, s, loose) {
  const go = (t, i, k) => { // k: continuation on the position
    if (!t.length) return k(i);
    const [x, ...rest] = t;
    const next = (j) => go(rest, j, k);
    if (x.lit !== undefined) return s[i] === x.lit && next(i + 1);
    if (x.sep) return s[i] === '/' && next(i + 1);
    if (x.one) return i < s.length && s[i] !== '/' && next(i + 1);
    if (x.many) { for (let j = i; ; j++) { if (next(j)) return true; if (j >= s.length || s[j] === '/') return false; } }
    if (x.cls) { if (i >= s.length || s[i] === '/') return false; const hit = x.cls.some(([a, b]) => a <= s[i] && s[i] <= b); return hit !== x.neg && next(i + 1); }
    if (x.alt) return x.alt.some((a) => go(a, i, next));
    if (x.tree) {
      const first = t === toks, last = !rest.length;
      if (first && last && (!x.root || loose)) return k(s.length); // everything
      if (first) {
        if (x.root) { if (s[i] !== '/') return false; if (last) return k(s.length); for (let j = i; j < s.length; j++) if ((loose || s[j] === '/') && next(j + 1)) return true; return false; }
        if (next(i) || (s[i] === '/' && next(i + 1))) return true;
        for (let j = i; j < s.length; j++) if (s[j] === '/' && next(j + 1)) return true;
        return false;
      }
      if (last) return i === s.length || s[i] === '/' ? k(s.length) : false;
      if (s[i] !== '/') return false;
      for (let j = i; j < s.length; j++) if (s[j] === '/' && next(j + 1)) return true;
      return false;
    }
    throw new Error('token');
  };
  return go(toks, 0, (i) => i === s.length);
}
const memo = new Map();
const glob = (p) => { const n = norm(p); if (!memo.has(n)) memo.set(n, parseGlob(n)); return memo.get(n); };
function excluded(name, list) {
  const gs = list.map(glob);
  if (gs.some((g) => g === null)) return false;
  const n = norm(name);
  const a = gs.some((g) => matchGlob(g, n, false)), b = gs.some((g) => matchGlob(g, n, true));
  return a === b ? a : null;
}

// ---- enumeration
// every sequence of up to n segments, every choice of separators, every prefix
function* paths(segs, n, seps, prefixes, lengths) {
  const rec = function* (s, k) {
    if (k && (!lengths || lengths.includes(k))) yield s;
    if (k === n) return;
    for (const x of segs) for (const p of k ? seps : ['']) yield* rec(s + p + x, k + 1);
  };
  for (const p of prefixes) for (const s of rec('', 0)) yield p + s;
}
const BOTH = ['/', '\\'];
const PRE = ['', '/', '\\', 'C:/', 'C:\\', 'c:/', './', '.\\', '../', '..\\'];
const NAMES = ['a', 'b.js', 'a.js', '.a', 'A.js', '*', 'a b', '\u6f22.js'];
const PATS = ['a', '*', '**', '*.js', 'a*', '?', '?.js', '{a,b.js}', '[ab].js', '[!a].js', '[a-c]*', '$.js', '*a*', '{*.js,.a}', '..', 'a.{js,ts}', '\u6f22.*'];
const BAD = ['a**', '**a', '***', 'a//b', '{a', 'a}', '[a', '[]', '**/**', '*$', '{a,**}', '*{a,*b}', 'a,b'];
const cfg = (list) => JSON.stringify({ unstableExclude: list });

function* work(tier) { // groups { what, names, lists }
  const deep = tier === 'thorough';
  const S = (x) => [...new Set(x)];
  yield { what: 'every separator and prefix, up to two components', names: S(paths(['a', 'b.js', 'a.js'], 2, BOTH, PRE)), lists: S(paths(['a', '*', '**', '*.js', '?.js', '{a,b.js}'], 2, BOTH, PRE)).map((p) => [p]) };
  yield { what: 'every component pair, forward', names: S(paths(NAMES, 2, ['/'], ['', '/'])), lists: S(paths(PATS, 2, ['/'], ['', '/'])).map((p) => [p]) };
  yield { what: 'three components', names: S(paths(['a', 'b.js', 'a.js'], deep ? 4 : 3, ['/'], ['', '/', 'C:\\'], deep ? undefined : [3])), lists: S(paths(['a', '*', '**', '*.js', 'a*'], 3, deep ? BOTH : ['/'], ['', '/', 'D:/'], [3])).map((p) => [p]) };
  if (deep) yield { what: 'three components, every separator', names: S(paths(['a', 'a.js'], 3, BOTH, PRE, [3])), lists: S(paths(['a', '*', '**', '*.js'], 3, BOTH, ['', '/', '\\', 'C:\\', 'C:/'], [3])).map((p) => [p]) };
  if (deep) yield { what: 'four components in patterns', names: S(paths(['a', 'a.js'], 4, ['/'], ['', '/'])), lists: S(paths(['a', '*', '**', '*.js'], 4, ['/'], ['', '/'], [4])).map((p) => [p]) };
  // lists
  const some = ['a', '**/a.js', 'a\\*.js', '/a/**', 'C:\\a\\*', '*', '{b.js,a}', '?.js', 'x', ...BAD];
  const names = ['a', 'a.js', 'a/b.js', '\\a\\b.js', 'C:/a/a.js', 'C:\\a\\b.js', 'x', '\u6f22', 'a\\a.js'];
  const ls = [[]];
  for (const a of some) { ls.push([a]); for (const b of some) { ls.push([a, b]); if (deep) for (const c of some) ls.push([a, b, c]); } }
  for (const b of BAD) for (const p of b === 'a//b' ? ['', '/', 'a/'] : ['', '/', 'C:\\', 'a/', 'a\\']) { ls.push([p + b]); ls.push(['**', p + b]); }
  yield { what: 'lists of patterns, invalid ones included', names, lists: ls };
}

exports.run = async ({ tier }) => {
  const N = Math.max(1, Math.min(8, os.cpus().length));
  const info = {}, violations = [], samples = [];
  let pairs = 0, hits = 0, unjudged = 0, parts = 0, broken = null;
  const jobs = [];
  for (const g of work(tier)) {
    info[g.what] = { names: g.names.length, lists: g.lists.length };
    const size = Math.max(1, Math.floor(4000 / g.names.length));
    for (let i = 0; i < g.lists.length; i += size) jobs.push({ g, lists: g.lists.slice(i, i + size) });
  }
  const src = '0;';
  let at = 0;
  const worker = async () => {
    const svc = new Svc({ bin: PLUG });
    while (at < jobs.length) {
      const part = jobs.slice(at, at += 4);
      const rs = await svc.batch(part.map((j) => ({ src, script: true, real: 'f.js', many: j.lists.flatMap((l) => j.g.names.map((n) => [n, cfg(l)])) })));
      part.forEach((j, x) => {
        const got = rs[x].many;
        parts++;
        if (!got || got.length !== j.lists.length * j.g.names.length) { violations.push({ key: 'crash', detail: `the plugin ends the process: ${rs[x].err}`, replay: { names: j.g.names, lists: j.lists } }); return; }
        let k = 0;
        for (const l of j.lists) for (const n of j.g.names) {
          const e = excluded(n, l), want = e ? 'x' : 'i';
          const is = got[k++];
          if (e === null) { unjudged++; if (is !== 'E') continue; }
          pairs++; if (want === 'x') hits++;
          if (is !== want && violations.length < 2000) violations.push({ key: JSON.stringify([n, l]), detail: `file ${JSON.stringify(n)}, unstableExclude ${JSON.stringify(l)}: expected ${want === 'x' ? 'untouched' : 'instrumented'}, is ${{ x: 'untouched', i: 'instrumented', E: 'a failure' }[is]}`, replay: { filename: n, config: cfg(l), src } });
        }
      });
    }
    svc.close();
  };
  await Promise.all(Array.from({ length: N }, worker));
  if (!hits) broken = 'nothing is excluded';
  violations.sort((a, b) => a.detail.length - b.detail.length);
  samples.push({ names: info, excluded: hits });
  return { states: pairs, transitions: pairs, traces_validated_against_impl: pairs, info: { pairs, excluded: hits, not_judged: unjudged, groups: info }, samples, violations, broken };
};
exports.excluded = excluded;
exports.work = work;
if (require.main === module) exports.run({ tier: process.argv[2] || 'quick' }).then((r) => { console.log(r.info, r.broken, r.violations.length); for (const v of r.violations.slice(0, +process.argv[3] || 30)) console.log(v.detail); });
