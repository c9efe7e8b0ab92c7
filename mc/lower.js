'use strict';
// C21: the instrumented program compiled for older targets (and to CommonJS)
// against the plain program compiled the same way, and its counts against those
// of the instrumented program that was not compiled further.
const env = require('./env.js');
const R = require('./ref.js');
const acorn = require('./vendor/acorn.js');
const { demodule } = require('./module.js');
const g = require('./gen.js');
const { leafTree, asStmt } = require('./corpus.js');
const ts = require('./ts.js');
const rare = require('./rare.js');
const FILE = '/p/f.js';
const TARGETS = { quick: [5, 2016, 2019, 2021], thorough: [5, 2015, 2016, 2017, 2018, 2019, 2020, 2021, 2022] };
const eq = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const VARIANTS = [{ debugInitialCoverageComment: true }, { debugInitialCoverageComment: true, reportLogic: true }];

function* programs(tier) {
  const targets = TARGETS[tier] || TARGETS.quick;
  const mk = (src, script, req) => ({ src, script: !!script, targets, req, scriptKind: script });
  const fam = function* (ts_, wrap, script, core) {
    for (const t of ts_) {
      yield mk(g.render(wrap(leafTree(t))), script);
      const hs = g.holes(t);
      for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { core })) {
        const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f);
        yield mk(g.render(wrap({ t, kids })), script);
      }
    }
  };
  const id = (x) => x, inFn = (x) => ({ t: { k: 'S', s: '(function () { $C })();' }, kids: [x] }), inLoop = (x) => ({ t: { k: 'S', s: 'for (const x of it(@)) { $L }' }, kids: [x] });
  const core = tier !== 'thorough';
  yield* fam(g.S, id, false, core);
  yield* fam(g.E, asStmt, false, core);
  yield* fam(g.MODULE, id, false, core);
  for (const t of g.S.concat(g.SLOPPY)) yield mk(g.render(leafTree(t)), true);
  for (const t of g.SF) yield mk(g.render(inFn(leafTree(t))), false);
  for (const t of g.SL) yield mk(g.render(inLoop(leafTree(t))), false);
  for (const t of g.S) yield mk(g.render(inLoop(leafTree(t))), false); // loop bodies become functions
  for (const t of ts.T.concat(ts.GEN)) for (const strip of ['before', 'after']) yield mk(ts.textOf(g.render(leafTree(t))), false, { ts: true, strip });
  for (const t of ts.JSX) yield mk(ts.textOf(g.render(leafTree(t))), false, { jsx: true });
  for (const x of suspended(tier)) yield mk(x, false);
  // (two constructs that the compiler itself gets wrong left out: super in
  // object methods, nested defaults of an exported array pattern)
  const rareM = rare.M.filter((s) => !/super\.m\(\) \|\| \$E/.test(s) && !/^export const \[.*\{ b: b% = .* = \{\}\]/.test(s));
  for (const s of rareM) yield mk(g.render(leafTree({ k: 'S', s })), false);
  for (const s of rare.SCRIPT) yield mk(g.render(leafTree({ k: 'S', s })), true);
  if (tier === 'thorough') for (const s of rareM.filter((x) => !/\bimport\b|\bexport\b|^\s*await\b|^#!/.test(x))) yield mk(g.render({ t: { k: 'S', s: 'for (const x_ of it(@)) {\n$S\n}' }, kids: [leafTree({ k: 'S', s })] }), false);
  // names the emitted code introduces, used by the program as well
  for (const n of ['global', 'path', 'hash', 'gcv', 'coverage', 'coverageData', 'actualCoverage', '_temp', 'exports', 'Function']) for (const s of ['let N = c(1); log(N); { let N = c(2); log(() => N); }', 'for (let N of it(1)) { log(() => N); c(2) && log(N); }', 'function N() { return c(1); } log(N());', 'class N { m() { return c(1); } } log(new N().m());', '((N) => { log(N, c(2)); })(c(1));', 'export const N = c(1); log(N);', 'export function N() { return c(1); } log(N());', '(async function N() { await p(1); log(typeof N); })();', 'try { throw c(1); } catch (N) { log(N); }']) yield mk(s.replace(/\bN\b/g, n), false);
}
// The effects of a program suspended: every c(n) outside the functions of the
// text becomes an await (or a yield answered by what it yielded).
function suspend(text, how) {
  let ast;
  try { ast = R.parse(text, { module: false }); } catch { return; }
  const at = [];
  (function walk(n) {
    if (!n || typeof n.type !== 'string') return;
    if (/Function|^Class|MethodDefinition|StaticBlock/.test(n.type)) return;
    if (n.type === 'CallExpression' && n.callee.name === 'c' && n.arguments.length === 1 && n.arguments[0].type === 'Literal') { at.push(n); return; }
    for (const k of Object.keys(n)) { const x = n[k]; if (Array.isArray(x)) x.forEach(walk); else if (x && typeof x === 'object') walk(x); }
  })(ast);
  if (!at.length) return;
  let out = text;
  for (const n of at.sort((a, b) => b.start - a.start)) { const a = text.slice(n.arguments[0].start, n.arguments[0].end); out = out.slice(0, n.start) + (how === 'await' ? `(await p(${a}))` : `(yield c(${a}))`) + out.slice(n.end); }
  out = how === 'await' ? `(async () => { ${out} })().then(log, log);` : `{ const g = (function* () { ${out} })(); for (let r = g.next(); !r.done; r = g.next(r.value)); }`;
  try { R.parse(out, { module: true }); } catch { return; }
  return out;
}
function* suspended(tier) {
  const hows = tier === 'thorough' ? ['await', 'yield'] : ['await'];
  const one = function* (tree, wrap) {
    const text = g.render(wrap(tree));
    for (const h of hows) { const x = suspend(text, h); if (x) yield x; }
  };
  for (const [list, wrap] of [[g.E, asStmt], [g.S, (x) => x]]) for (const t of list) {
    yield* one(leafTree(t), wrap);
    const hs = g.holes(t);
    for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { core: tier !== 'thorough' })) {
      const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f);
      yield* one({ t, kids }, wrap);
    }
  }
}
// the grid family (mc/grid.js), its quick set in either tier
function* gridded(tier) {
  for (const p of require('./grid.js').grid('quick')) if (!/^export (var|let|const) [[{].*[xq]: .* = c\(\d+\).* = \{\}/.test(p.src)) yield { ...p, scriptKind: p.script, targets: tier === 'thorough' ? TARGETS.thorough : [5, 2017] };
}
const request = (p) => ({ src: p.src, script: !!p.script, plain: true, filename: FILE, variants: VARIANTS, ...(p.req || {}), targets: p.targets });

function prepare(code, script) {
  if (script) return env.compile(code);
  const d = demodule(code, R.parse(code, { module: true }));
  const fn = env.compile(d.code, { strict: true, asyncBody: d.tla });
  return function () { return fn.call(undefined); }; // modules have no this
}
const run = (fn, choices, lim) => { globalThis.exports = {}; delete globalThis.__coverage__; const t = env.run(fn, choices.slice(), lim); const c = (globalThis.__coverage__ || {})[FILE]; return { t, c: c ? JSON.stringify([c.s, c.f, c.b, c.bT]) : '' }; };
const fits = (code, t) => { try { acorn.parse(code, { ecmaVersion: +t, sourceType: 'script' }); return null; } catch (e) { return e.message; } };
const at = (a, b) => { let i = 0; while (i < a.length && i < b.length && a[i] === b[i]) i++; return `expected [${a.slice(Math.max(0, i - 1), i + 3).join(' ')}] got [${b.slice(Math.max(0, i - 1), i + 3).join(' ')}] at event ${i}`; };

function judge(prog, resp, want, limits) {
  const v = [];
  const stats = { runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0, outcomes: 0 };
  const add = (detail, choices) => v.push({ prop: 'C21', detail, choices });
  env.env_.loud = false;
  if (resp.plain_err) return { skip: 'swc parser: ' + resp.plain_err };
  let plain;
  try { plain = prepare(resp.plain, prog.script); } catch (e) { return { skip: 'plain code does not compile: ' + e.message }; }
  const base = [], low = [];
  for (const [i, o] of resp.outs.entries()) {
    if (o.err) { add(`${o.err}`); continue; }
    try { base[i] = prepare(o.code, prog.script); } catch (e) { add('instrumented code does not compile: ' + e.message); }
  }
  if (v.length) return { v, stats };
  for (const [t, r] of Object.entries(resp.lowered || {})) {
    // no baseline where the compiler fails without instrumentation
    if (r.plain_err) continue;
    let p;
    try { p = env.compile(r.plain); } catch { continue; }
    let old;
    for (const [i, o] of r.outs.entries()) {
      const name = `target ${t}${i ? ' reportLogic' : ''}`;
      if (o.err) { add(`${name}: ${o.err}`); continue; }
      let fn;
      try { fn = env.compile(o.code); } catch (e) { add(`${name}: compiled code does not compile: ${e.message}`); continue; }
      // an engine of the target that reads the compiled original reads this too
      if (old === undefined) old = fits(r.plain, t) === null;
      const why = old ? fits(o.code, t) : null;
      if (why) { add(`${name}: syntax beyond the target: ${why}`); continue; }
      low.push({ name, i, p, fn });
    }
  }
  if (v.length) return { v, stats };
  if (!low.length) return { skip: 'compiler fails without instrumentation' };
  const outcomes = new Set();
  const x = env.explore(plain, limits, (choices, trace) => {
    if (v.length > 3) return;
    stats.runs++;
    outcomes.add(trace.join(' '));
    const lim = { depth: 0, throws: limits.throws };
    const b = base.map((fn) => run(fn, choices, lim));
    let pt = new Map();
    for (const l of low) {
      if (!pt.has(l.p)) pt.set(l.p, run(l.p, choices, lim).t);
      const t = pt.get(l.p);
      const r = run(l.fn, choices, lim);
      if (!eq(trace, b[l.i].t)) continue; // judged by C01
      // (where the compiler changes what the original shows, such as the name of a
      // class, the original's own behaviour is as good)
      if (!eq(t, r.t) && !eq(trace, r.t)) { add(`${l.name}: ${at(t, r.t)}`, choices); continue; }
      // the compiler itself may change what can be observed, e.g. the turns of promises
      if (!eq(t, trace)) continue;
      stats.hitEntries++;
      if (r.c !== b[l.i].c) add(`${l.name}: counts ${r.c}, without compilation ${b[l.i].c}`, choices);
    }
  });
  stats.nodes = x.nodes; stats.edges = x.edges; if (x.capped) stats.capped = 1;
  stats.outcomes = outcomes.size;
  return { v, stats };
}
module.exports = { judge, request, programs, gridded };
