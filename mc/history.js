'use strict';
// C11: every history of loading, calling and reloading instrumented files up to
// a bound, on the real emitted code in lock step with a model of the shared
// coverage variable. What a step must add to the counts comes from the reference
// instrumentation (ref.js) of the same file, run next to it.
const vm = require('node:vm');
const os = require('node:os');
const { fork } = require('node:child_process');
const { isDeepStrictEqual } = require('node:util');
const R = require('./ref.js');
const { implEntries, refEntries, pair } = require('./pairing.js');

// ---- files. A file leaves its entry point in globalThis.$$<slot>.
const put = (slot, s, params = 'arg') => `globalThis.$$${slot} = function (${params}) { ${s} };`;
const F = (id, slot, name, src, opts = {}) => ({ id, slot, name, src, opts });
const A1 = put('a', 'if (arg) { return arg && c(1); } else c(2);');
const MAIN = [
  F('a1', 'a', '/p/a.js', A1),
  F('a2', 'a', '/p/a.js', put('a', 'c(3); for (const x of [arg, arg]) c(4); return x => x;') + ' c(9);'),
  F('aL', 'a', '/p/a.js', A1, { reportLogic: true }),
  F('b1', 'b', '/p/b.js', put('b', 'switch (arg) { case 0: c(1); case 1: c(2); }')),
  F('c1', 'c', '/p/a.js', put('c', 'arg ? c(1) : c(2);'), { coverageVariable: '__other__' }),
  F('d1', 'd', '/p/\u00e9 "d".js', put('d', 'return (async (q = c(1)) => { c(2); await wait(); c(3); if (arg) c(4); })();'), { coverageVariable: 'a.b-c' }),
  F('k1', 'k', 'constructor', put('k', 'return arg || c(1);')),
];

function api(pending) {
  let n = new Map();
  const turn = (k) => { const x = n.get(k) || 0; n.set(k, x + 1); return x; };
  const a = {
    // truthy, then falsy, ... : loops end
    c: (id) => (turn('c' + id) % 2 === 0 ? id + 1 : 0),
    n: (id) => (turn('n' + id) % 2 ? undefined : Object.assign(() => id, { x: id })),
    o: (id) => (turn('o' + id) % 2 ? {} : { q: id, p: id + 1, x: id + 2 }),
    it: (id) => [[undefined, id], [], [id]][turn('i' + id) % 3],
    v: (id) => turn('v' + id) % 2, u: (id) => turn('u' + id) % 2,
    log: (x) => x, tag: (s, ...x) => (x.length ? x[0] : 0),
    p: (id) => (turn('p' + id) % 2 ? Promise.reject(new Error('P')) : Promise.resolve(id + 1)),
    wait: () => new Promise((r) => pending.push(r)),
  };
  return { a, reset: () => { n = new Map(); } };
}
const API = Object.keys(api([]).a);
process.on('unhandledRejection', () => {});
const drain = eval('(function(){ %PerformMicrotaskCheckpoint(); })');

async function prepare(files, svc) {
  const rs = await svc.batch(files.map((f) => ({ src: f.src, script: true, filename: f.name, opts: { debugInitialCoverageComment: true, ...f.opts } })));
  return files.map((f0, i) => {
    const f = { ...f0 };
    if (rs[i].err) { f.bad = rs[i].err; return f; }
    f.code = rs[i].code;
    f.cov = JSON.parse(rs[i].cov);
    f.gcv = f.opts.coverageVariable || '__coverage__';
    try {
      f.run = vm.runInThisContext(`(function (${API}) { ${f.code}\n})`);
      const ref = R.analyse(f.src, { module: false });
      f.ref = vm.runInThisContext(`(function ($s, $f, $b, $t, ${API}) { ${ref.code.replaceAll('globalThis.$$', 'globalThis.$R')}\n})`);
      const ie = implEntries(f.cov), re = refEntries(ref);
      f.arms = ref.B.map((b) => b.locations.length);
      f.pairs = { s: pair(ie.S, re.S), f: pair(ie.F, re.F), b: pair(ie.B, re.B) };
      for (const p of Object.values(f.pairs)) if (p.diff.length) f.bad = p.diff[0]; // other properties decide these
    } catch (e) { f.bad = 'does not compile: ' + e.message; }
    return f;
  });
}

// ---- one execution of a history
const G = globalThis;
class World {
  constructor() {
    this.before = new Set(Reflect.ownKeys(G));
    this.vars = new Map(); // coverage variable -> { obj?, names: Map(name -> entry), foreign }
    this.real = new Map(); this.refs = new Map(); // slot -> entry points, newest last
    this.pa = []; this.pb = [];
    this.A = api(this.pa); this.B = api(this.pb);
    this.findings = [];
    this.step = '';
  }
  done() { for (const k of Reflect.ownKeys(G)) if (!this.before.has(k)) delete G[k]; }
}
function tables() {
  const r = { s: {}, f: {}, b: {}, t: {} };
  const two = (t, i, j, n) => { (t[i] ||= [])[j] = (t[i][j] || 0) + n; };
  return {
    r,
    $s: (i) => { r.s[i] = (r.s[i] || 0) + 1; }, $f: (i) => { r.f[i] = (r.f[i] || 0) + 1; }, $b: (i, j) => two(r.b, i, j, 1),
    $t: (i, j, v) => { two(r.t, i, j, v && (Array.isArray(v) ? v.length > 0 : Object.getPrototypeOf(v) === Object.prototype ? Object.keys(v).length > 0 : true) ? 1 : 0); return v; },
  };
}
const NOBASE = { s: {}, f: {}, b: {}, bT: {} };
function model(w, gcv) { let m = w.vars.get(gcv); if (!m) w.vars.set(gcv, (m = { names: new Map(), foreign: new Map() })); return m; }

function load(w, files, run) {
  // model first: what is there already
  const was = files.map((f) => (G[f.gcv] ? G[f.gcv][f.name] : undefined));
  w.A.reset(); w.B.reset();
  try { run(w); } catch (e) { w.fail(`loading throws ${e}`); return; }
  for (const f of files) {
    const m = model(w, f.gcv);
    let e = m.names.get(f.name);
    if (e && e.content === f.cov) {
      // identical content: the counts go on
      const now = G[f.gcv] && G[f.gcv][f.name];
      if (now !== was[files.indexOf(f)]) { w.findings.push(`loading ${f.name} again with identical content discards its counts`); e = null; }
    } else e = null;
    if (!e) m.names.set(f.name, (e = { f, content: f.cov, base: NOBASE, t: tables() }));
    m.foreign.delete(f.name);
    w.A.reset(); w.B.reset();
    const { $s, $f, $b, $t } = e.t;
    f.ref($s, $f, $b, $t, ...API.map((k) => w.B.a[k]));
    push(w.real, f.slot, G['$$' + f.slot]); push(w.refs, f.slot, G['$R' + f.slot]);
  }
}
const push = (m, k, x) => { if (!x) return; const a = m.get(k); if (a) a.push(x); else m.set(k, [x]); };
function call(w, slot, back, arg) {
  const a = w.real.get(slot), b = w.refs.get(slot);
  if (!a || a.length <= back) return false;
  w.A.reset(); w.B.reset();
  let x, y;
  try { x = a[a.length - 1 - back](arg); } catch (e) { x = 'threw ' + (e && e.name); }
  try { y = b[b.length - 1 - back](arg); } catch (e) { y = 'threw ' + (e && e.name); }
  for (const p of [x, y]) if (p && typeof p.then === 'function') p.then(() => {}, () => {});
  if (typeof x !== typeof y || (typeof x === 'string' && x !== y)) w.fail(`call answers ${String(x)} instead of ${String(y)}`);
  return true;
}
function tick(w) {
  if (!w.pa.length && !w.ticks) return false;
  for (const r of w.pa.splice(0)) r();
  for (const r of w.pb.splice(0)) r();
  drain();
  return true;
}

function expectedEntry(e, got) {
  const f = e.f, r = e.t.r;
  const out = [];
  const cmp = (kind, groups, a, b) => { for (const g of groups) { const x = g.impl.map(a).map(String), y = g.ref.map(b).map(String); if (x.length > 1) { x.sort(); y.sort(); } if (x.join('|') !== y.join('|')) out.push(`${kind} ${g.key} counted ${x}, expected ${y}`); } };
  const base = e.base;
  const one = (t) => (i) => (got[t][i] - (base[t][i] || 0));
  const many = (t) => (i) => got[t][i].map((x, j) => x - ((base[t][i] || [])[j] || 0)).join(' ');
  const arms = (t) => (i) => Array.from({ length: f.arms[i] }, (_, j) => (t[i] || [])[j] || 0).join(' ');
  cmp('statement', f.pairs.s.groups, one('s'), (i) => r.s[i] || 0);
  cmp('function', f.pairs.f.groups, one('f'), (i) => r.f[i] || 0);
  cmp('branch', f.pairs.b.groups, many('b'), arms(r.b));
  if (f.cov.bT) cmp('truth', f.pairs.b.groups.filter((g) => g.logic), many('bT'), arms(r.t));
  return out;
}
const zero = (x) => { const o = {}; for (const k of Object.keys(x || {})) o[k] = Array.isArray(x[k]) ? x[k].map(() => 0) : 0; return o; };
// as in Istanbul, logic reporting parks the operand at hand in the object
const bare = (e) => { const o = {}; for (const k of Object.keys(e)) if (k !== 'hash' && k !== '_coverageSchema' && !(e.bT && /^cov_\d+_temp$/.test(k))) o[k] = ['s', 'f', 'b', 'bT'].includes(k) ? zero(e[k]) : e[k]; return o; };

// Compares the whole shared state with the model.
function compare(w) {
  const v = [];
  const globals = Reflect.ownKeys(G).filter((k) => !w.before.has(k) && !/^\$[$R]/.test(String(k)));
  const want = [...w.vars.keys()];
  if (globals.map(String).sort().join('|') !== want.slice().sort().join('|')) v.push(`globals ${globals.map(String)} instead of ${want}`);
  for (const [gcv, m] of w.vars) {
    const o = G[gcv];
    if (!o) { v.push(`${gcv} is ${o}`); continue; }
    if (m.obj && o !== m.obj) v.push(`${gcv} is another object`);
    const keys = Object.keys(o).sort().join('|'), wk = [...m.names.keys(), ...m.foreign.keys()].sort().join('|');
    if (keys !== wk) { v.push(`${gcv} has ${keys} instead of ${wk}`); continue; }
    for (const [k, x] of m.foreign) if (o[k] !== x.obj || !isDeepStrictEqual(o[k], x.copy)) v.push(`${gcv}[${k}] was changed`);
    for (const [name, e] of m.names) {
      const got = o[name];
      if (!isDeepStrictEqual(bare(got), bare(e.content))) { v.push(`${gcv}[${name}] holds ${JSON.stringify(got)}`); continue; }
      for (const d of expectedEntry(e, got)) v.push(`${gcv}[${name}]: ${d}`);
    }
  }
  return v;
}

// ---- histories
// what the shared variable holds before anything runs
const clone = (x) => JSON.parse(JSON.stringify(x));
function pres(files, hash) {
  const foreign = (w, gcv, o) => { G[gcv] = o; const m = model(w, gcv); m.obj = o; for (const k of Object.keys(o)) m.foreign.set(k, { obj: o[k], copy: o[k] && clone(o[k]) }); };
  const a1 = files.find((f) => f.id === 'a1') || files[0];
  const counted = () => { const e = { ...clone(a1.cov), _coverageSchema: '11020577277169172593', hash: hash.get(a1.id) }; for (const k of Object.keys(e.s)) e.s[k] = 5; for (const k of Object.keys(e.f)) e.f[k] = 7; for (const k of Object.keys(e.b)) e.b[k] = e.b[k].map(() => 3); return e; };
  return [
    ['nothing', () => {}],
    ['an empty object', (w) => foreign(w, '__coverage__', {})],
    ['entries of other files', (w) => foreign(w, '__coverage__', { '/x.js': { path: '/x.js', s: { 0: 4 }, hash: '1' }, '/p/b.jsx': { s: {} } })],
    ['another tool\'s entry of the file', (w) => foreign(w, '__coverage__', { [a1.name]: { path: a1.name, s: { 0: 4 }, f: {}, b: {}, hash: '1' } })],
    ['an older entry of the file', (w) => foreign(w, '__coverage__', { [a1.name]: { ...counted(), hash: '12345' } })],
    ['falsy', (w) => { G.__coverage__ = 0; w.vars.set('__coverage__', { names: new Map(), foreign: new Map(), lazy: 0 }); }],
    ['an entry of the same content', (w) => {
      const e = counted();
      const o = { [a1.name]: e };
      G.__coverage__ = o;
      const m = model(w, '__coverage__'); m.obj = o;
      const base = clone({ s: e.s, f: e.f, b: e.b, bT: e.bT || {} });
      m.names.set(a1.name, { f: a1, content: a1.cov, base, t: tables() });
    }],
  ];
}

// Depth-first over all histories; every prefix is checked when it is the history.
function explore(ops, preList, depth, shard, shards, label, report) {
  const st = { histories: 0, steps: 0, states: new Set() };
  const execute = (pre, h) => {
    const w = new World();
    let bad = null;
    w.fail = (x) => { bad ||= x; };
    w.ticks = h.ticks;
    try {
      Object.assign(G, w.A.a);
      preList[pre][1](w);
      for (const k of API) w.before.add(k);
      for (let i = 0; i < h.length; i++) {
        const last = i === h.length - 1;
        w.findings.length = 0;
        if (ops[h[i]].do(w) === false) return 'n/a';
        st.steps++;
        if (!last) continue;
        st.histories++;
        const text = `${label}${preList[pre][0]}; ${h.map((x) => ops[x].id).join('; ')}`;
        const m = w.vars.get('__coverage__');
        if (m && m.lazy !== undefined && m.names.size === 0) { if (G.__coverage__ !== 0) bad ||= '__coverage__ was changed'; } else for (const d of compare(w)) { bad ||= d; }
        for (const f of w.findings) report({ key: 'reload', detail: f, replay: text });
        if (bad) report({ key: 'history', detail: bad, replay: text });
        let sig = '';
        for (const [g, m2] of w.vars) for (const [n, e] of m2.names) sig += g + n + JSON.stringify(e.t.r);
        st.states.add(sig);
      }
    } finally { for (const k of API) delete G[k]; w.done(); drain(); }
    return bad ? 'bad' : 'ok';
  };
  let idx = 0;
  const dfs = (pre, h) => {
    for (let i = 0; i < ops.length; i++) {
      if (h.length === 1 && idx++ % shards !== shard) continue;
      h.push(i);
      const r = execute(pre, h);
      if (r === 'ok' && h.length < depth) dfs(pre, h);
      h.pop();
    }
  };
  for (let p = 0; p < preList.length; p++) dfs(p, []);
  return st;
}

function opsFor(files, { args = [0, 1], old = true, bundle = [] } = {}) {
  const ops = [];
  for (const f of files) ops.push({ id: 'load ' + f.id, do: (w) => load(w, [f], (x) => f.run.call(undefined, ...API.map((k) => x.A.a[k]))) });
  for (const b of bundle) {
    const fs = b.map((i) => files.find((f) => f.id === i));
    const run = vm.runInThisContext(`(function (${API}) { ${fs.map((f) => f.code).join('\n')}\n})`);
    ops.push({ id: 'load in one scope ' + b.join('+'), do: (w) => load(w, fs, (x) => run.call(undefined, ...API.map((k) => x.A.a[k]))) });
  }
  for (const s of new Set(files.map((f) => f.slot))) {
    for (const a of args) ops.push({ id: `call ${s}(${a})`, do: (w) => call(w, s, 0, a) });
    if (old && files.filter((f) => f.slot === s).length > 1) ops.push({ id: `call the previous ${s}(1)`, do: (w) => call(w, s, 1, 1) });
  }
  ops.push({ id: 'tick', do: tick });
  return ops;
}
const hashes = (files) => {
  const m = new Map();
  for (const f of files) {
    const w = new World();
    try { Object.assign(G, w.A.a); for (const k of API) w.before.add(k); f.run.call(undefined, ...API.map((k) => w.A.a[k])); m.set(f.id, G[f.gcv][f.name].hash); } catch { /* judged in the histories */ } finally { for (const k of API) delete G[k]; w.done(); }
  }
  return m;
};

async function shardRun({ tier, shard, shards }) {
  const { Svc } = require('./svc.js');
  const g = require('./gen.js');
  const { leafTree, asStmt } = require('./corpus.js');
  const svc = new Svc();
  const deep = tier === 'thorough';
  const info = { histories: 0, steps: 0, states: 0, templates: 0, templates_left_out: 0 };
  const seen = new Map();
  const report = (v) => { const k = v.key + v.detail.replace(/\d+/g, '#'); const n = (seen.get(k) || 0) + 1; seen.set(k, n); if (n <= 3) process.send({ violation: v }); else if (v.key === 'reload') info.reloads = (info.reloads || 0) + 1; };
  const add = (st) => { info.histories += st.histories; info.steps += st.steps; info.states += st.states.size; };

  const main = await prepare(MAIN, svc);
  for (const f of main) if (f.bad) { process.send({ violation: { key: 'file', detail: `${f.id}: ${f.bad}`, replay: f.src } }); process.send({ done: info }, () => process.disconnect()); svc.close(); return; }
  const ops = opsFor(main, { bundle: [['a1', 'b1'], ['b1', 'k1']] });
  add(explore(ops, pres(main, hashes(main)), deep ? 5 : 4, shard, shards, 'before: ', report));

  // every construct of the grammar in a file next to another file
  let i = 0;
  const list = [...g.S, ...g.E, ...g.SF, ...g.SLOPPY];
  const B = MAIN.find((f) => f.id === 'b1');
  for (const t of list) {
    if (i++ % shards !== shard) continue;
    for (const reportLogic of [false, true]) {
      const s = t.k === 'E' ? g.render(asStmt(leafTree(t))) : g.render(leafTree(t));
      const fs = await prepare([F('t', 'a', '/p/t.js', put('a', s) + ' c(77);', { reportLogic }), F('u', 'a', '/p/t.js', put('a', 'c(78); ' + s), { reportLogic }), B], svc);
      if (fs.some((f) => f.bad)) { info.templates_left_out++; continue; }
      info.templates++;
      const o = opsFor(fs, { args: [1] });
      const tickOp = o.find((x) => x.id === 'tick');
      tickOp.do = (w) => { w.ticks = true; return tick(w); };
      add(explore(o, pres(fs, new Map()).slice(0, 1), deep ? 5 : 4, 0, 1, `construct ${JSON.stringify(s)}; before: `, report));
    }
  }
  // files with next to nothing in them
  for (const src of ['', ' ', '// comment', '"use strict"', '"use strict"; "b"', ';', '{}', 'var a_;', 'function q_() {}', 'class Q_ {}', 'c(79);', '"use strict"; c(79);', 'debugger', '0']) for (const reportLogic of [false, true]) {
    if (i++ % shards !== shard) continue;
    const fs = await prepare([F('t', 'e', '/p/t.js', src, { reportLogic }), F('u', 'e', '/p/t.js', src + '\nc(78);', { reportLogic }), B], svc);
    const bad = fs.find((f) => f.bad);
    if (bad) { process.send({ violation: { key: 'file', detail: `${JSON.stringify(bad.src)}: ${bad.bad}`, replay: bad.src } }); continue; }
    info.templates++;
    add(explore(opsFor(fs, { args: [1] }), pres(fs, new Map()), deep ? 5 : 4, 0, 1, `file ${JSON.stringify(src)}; before: `, report));
  }
  svc.close();
  process.send({ done: info }, () => process.disconnect());
}

exports.run = ({ tier }) => new Promise((resolve) => {
  const shards = Math.min(8, os.cpus().length);
  const out = { states: 0, transitions: 0, traces_validated_against_impl: 0, info: {}, samples: [], violations: [] };
  let left = shards;
  for (let s = 0; s < shards; s++) {
    const k = fork(__filename, ['shard'], { execArgv: ['--allow-natives-syntax', '--stack-size=4000', '--max-old-space-size=3000'], stdio: ['ignore', 'inherit', 'inherit', 'ipc'] });
    let ok = false;
    k.on('message', (m) => {
      if (m.violation) out.violations.push(m.violation);
      if (m.done) { ok = true; for (const [x, n] of Object.entries(m.done)) out.info[x] = (out.info[x] || 0) + n; }
    });
    k.on('exit', (c, sig) => {
      if (!ok) out.broken = `history worker ended (${c} ${sig})`;
      if (--left) return;
      out.states = out.info.states; out.transitions = out.info.steps; out.traces_validated_against_impl = out.info.histories;
      out.samples = [{ files: MAIN.map((f) => ({ id: f.id, name: f.name, opts: f.opts, src: f.src })) }];
      if (!out.info.templates && !out.violations.length) out.broken ||= 'no construct explored';
      resolve(out);
    });
    k.send({ tier, shard: s, shards });
  }
});
if (process.argv[2] === 'shard') process.on('disconnect', () => process.exit(0));
if (process.argv[2] === 'shard') process.once('message', (m) => shardRun(m).catch((e) => { console.error(e); process.exit(2); }));
else if (require.main === module) exports.run({ tier: process.argv[2] || 'quick' }).then((r) => { console.log(r.info, r.broken, r.violations.length); for (const v of r.violations.slice(0, 12)) console.log(v); });
