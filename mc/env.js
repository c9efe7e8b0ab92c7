'use strict';
// The closed environment of a generated program. Every source of input is a
// call to one of these globals; each call takes the next answer of the choice
// sequence. Answers beyond the sequence are the default (0), so executions end.
const vm = require('node:vm');

class Horizon extends Error {}
const state = { choices: null, pos: 0, arity: [], trace: [], calls: 0, throws: 0, limits: null };

const MAXCALLS = 400;
function choose(n, kind) {
  if (++state.calls > MAXCALLS) throw new Horizon('horizon');
  const i = state.pos++;
  let n2 = n;
  if (kind === 'throwing' && state.throws >= state.limits.throws) n2 = n - 1;
  if (i < state.choices.length) {
    const v = state.choices[i];
    if (v >= n2) throw new Error('replay divergence: choice ' + v + ' of ' + n2);
    state.arity.push(n2);
    if (kind === 'throwing' && v === n - 1) state.throws++;
    return v;
  }
  if (i < state.limits.depth) { state.arity.push(n2); state.choices.push(0); } else state.arity.push(1);
  return 0;
}
const ids = new WeakMap();
function show(v, d = 0) {
  switch (typeof v) {
    case 'function': return 'fn:' + v.name;
    case 'symbol': return 'sym';
    case 'string': return JSON.stringify(v);
    case 'object': {
      if (v === null) return 'null';
      if (v === globalThis) return 'global';
      if (v instanceof Error) return errStr(v);
      if (d > 1) return '{..}';
      try {
        if (Array.isArray(v)) return '[' + v.map((x) => show(x, d + 1)).join() + ']';
        return '{' + Object.keys(v).map((k) => k + ':' + show(v[k], d + 1)).join() + '}';
      } catch (e) { return '?' + e; }
    }
    default: return Object.is(v, -0) ? '-0' : String(v);
  }
}
const env_ = { loud: false, where: null };
const rec = (s, e) => { state.trace.push(s); if (env_.where) env_.where(e); };

const api = {
  // falsy / truthy / throws
  c(id, ...a) { const k = choose(3, 'throwing'); rec('c' + id + (a.length ? '(' + a.map((x) => show(x)).join() + ')' : '') + '=' + k); if (k === 2) throw new Error('E' + id); return k ? id + 1 : 0; },
  // undefined / callable object
  n(id) { const k = choose(2); rec('n' + id + '=' + k); if (!k) return undefined; const f = function N(...a) { rec('N' + id + '(' + a.map((x) => show(x)).join() + ')'); return id; }; f.x = id; return f; },
  // {} / object with every property the generator uses
  o(id) { const k = choose(2); rec('o' + id + '=' + k); return k ? { q: id, p: id + 1, x: id + 2 } : {}; },
  // iterables of 0, 1 and 2 elements
  it(id) { const k = choose(3); rec('it' + id + '=' + k); return k === 0 ? [] : k === 1 ? [id] : [undefined, id]; },
  // the truthiness lattice of logic reporting
  v(id) {
    const vals = [0, 1, '', 'x', null, undefined, NaN, [], [0], {}, { a: 0 }, () => 1, Object.create(null), new (class K {})(), Symbol.iterator, new Map(), -1, 10n, 0n, /r/, Object.assign([], { length: 0, y: 1 }), new String(''), Object.create({ a: 1 }), { get a() { rec('getter'); return 1; } }, { get a() { throw new Error('getter'); } }, Object.defineProperty({}, 'h', { value: 1 }), { [Symbol.iterator]: 1 }, [,], [undefined], new (class extends Array {})(), new Proxy({}, {}), new Proxy([], {}), arguments, (a) => a, false, true, -0, new Boolean(false), new Uint8Array(0), Object.prototype, { length: 0 }, { length: 1 }, Object.freeze({}), Object.freeze({ a: 0 })];
    const k = choose(vals.length); rec('v' + id + '=' + k); return vals[k];
  },
  // a short lattice: falsy, truthy, trivial and non-trivial containers
  u(id) { const vals = [0, 1, [], [0], {}, { a: 0 }, null, () => 1]; const k = choose(vals.length); rec('u' + id + '=' + k); return vals[k]; },
  log(...a) { if (++state.calls > MAXCALLS) throw new Horizon('horizon'); rec('log(' + a.map((x) => show(x)).join() + ')'); return a[0]; },
  tag(strs, ...vals) { rec('tag(' + strs.raw.join('|') + ';' + vals.map((x) => show(x)).join() + ')'); return vals.length ? vals[0] : 0; },
  // JSX elements; calls the functions it is given
  J(type, ...a) {
    if (env_.loud) rec('J(' + [type, ...a].map((x) => show(x)).join() + ')');
    for (const x of a) for (const y of x && x.constructor === Object ? Object.values(x) : [x]) if (typeof y === 'function' && !/^class/.test(String(y))) y();
    return 1;
  },
  JF: 'fragment',
  // imported modules: every name is c, a namespace has every name
  $imp() { return new Proxy({}, { get: () => api.c }); },
  // exported values at the end
  $exp(get) { for (const k of Object.keys(get)) { let x; try { x = show(get[k]()); } catch (e) { x = errStr(e); } rec('export ' + k + '=' + x); } },
  // calls a function of any kind once, starting generators and awaiting promises
  use(f) { if (typeof f !== 'function') return f; const r = f(); if (r && r.next) { const s = r.next(); if (s.then) s.then((x) => rec('use ' + show(x.value)), (e) => rec('use ' + show(e))); else rec('use ' + show(s.value)); } else if (r && r.then) r.then((x) => rec('use ' + show(x)), (e) => rec('use ' + show(e))); else rec('use ' + show(r)); return 1; },
  // calls every member of an object or class, in order, whatever its key
  reach(h) {
    for (const O of [h, h.prototype]) if (O) for (const k of Reflect.ownKeys(O)) {
      if (typeof k === 'string' && /^(?:length|name|prototype|constructor)$/.test(k)) continue;
      const d = Object.getOwnPropertyDescriptor(O, k);
      try {
        if (d.get) rec('get ' + show(d.get.call(O)));
        if (d.set) d.set.call(O, {});
        if (typeof d.value === 'function' && !/^class/.test(String(d.value))) api.use(d.value.bind(O, []));
      } catch (e) { if (e instanceof Horizon) throw e; rec('reach ' + show(e)); }
    }
  },
  // yields to the microtask queue
  p(id) { const k = choose(3, 'throwing'); rec('p' + id + '=' + k); return k === 2 ? Promise.reject(new Error('P' + id)) : Promise.resolve(k ? id + 1 : 0); },
};
function install() { for (const k of Object.keys(api)) globalThis[k] = api[k]; }
install();
process.on('unhandledRejection', () => {});
process.on('uncaughtException', (e) => { console.error('uncaught', e); process.exit(2); });

// ---- counters of the reference instrumentation
const ref = { s: [], f: [], b: [], t: [] };
globalThis.$s = (i) => { ref.s[i] = (ref.s[i] || 0) + 1; };
globalThis.$f = (i) => { ref.f[i] = (ref.f[i] || 0) + 1; };
globalThis.$b = (i, j) => { (ref.b[i] ||= [])[j] = (ref.b[i][j] || 0) + 1; };
globalThis.$t = (i, j, v) => {
  let hit = false;
  if (v) {
    if (Array.isArray(v)) hit = v.length > 0;
    else if (Object.getPrototypeOf(v) === Object.prototype) hit = Object.keys(v).length > 0;
    else hit = true;
  }
  (ref.t[i] ||= [])[j] = (ref.t[i][j] || 0) + (hit ? 1 : 0);
  return v;
};
function resetRef() { ref.s = []; ref.f = []; ref.b = []; ref.t = []; }

const drain = eval('(function(){ %PerformMicrotaskCheckpoint(); })');

function compile(code, { strict = false, asyncBody = false } = {}) {
  // directly behind the brace, so that a directive prologue stays one
  return vm.runInThisContext(`(${asyncBody ? 'async ' : ''}function(){${strict ? '"use strict";' : ''}${code}\n})`);
}
// messages of the engine's own errors quote the source text: keep their class only
const errStr = (e) => (e instanceof Error ? (e.constructor === Error || e instanceof Horizon ? e.name + ':' + e.message : e.name) : 'thrown:' + show(e));

// Run one compiled body under one choice sequence.
function run(fn, choices, limits) {
  state.choices = choices; state.pos = 0; state.arity = []; state.trace = []; state.calls = 0; state.throws = 0; state.limits = limits;
  try {
    const r = fn.call({ me: 'this' });
    if (r && typeof r.then === 'function') r.then((v) => rec('resolved ' + show(v)), (e) => rec('rejected ' + errStr(e), e));
    else rec('end ' + show(r));
  } catch (e) {
    rec('uncaught ' + errStr(e), e);
  }
  drain();
  return state.trace;
}

// Depth-first enumeration of every choice sequence within the limits.
function explore(fn, limits, visit) {
  let choices = [];
  let nodes = 1, edges = 0, runs = 0;
  for (;;) {
    const given = choices.length;
    run(fn, choices, limits);
    runs++;
    const arity = state.arity.slice(0, choices.length);
    edges += choices.length - (given ? given - 1 : 0);
    nodes += choices.length - (given ? given - 1 : 0);
    visit(choices.slice(), state.trace);
    let i = choices.length - 1;
    while (i >= 0 && choices[i] + 1 >= arity[i]) i--;
    if (i < 0) break;
    choices = choices.slice(0, i + 1);
    choices[i]++;
    if (limits.maxRuns && runs >= limits.maxRuns) return { nodes, edges, runs, capped: true };
  }
  return { nodes, edges, runs, capped: false };
}

module.exports = { env_, explore, run, compile, ref, resetRef, state, show, errStr, drain, Horizon, install };
