'use strict';
// C08: named functions of every kind x ignore lists x bodies.
const g = require('./gen.js');
const { leafTree } = require('./corpus.js');

// N is the name; each use calls the member once
const CLASS = ['N(p = c(@)) { $F return $E; }', 'static N() { $F }', 'async N() { $AS return $A; }', '*N() { $GS yield $G; }', 'async *N() { yield $A; }', 'get N() { $F return $E; }', 'set N(v) { $F }', 'static get N() { return $E; }', 'static async N() { $AS }', '#N() { return $E; }', '"N"() { return $E; }', 'N = () => { $F return $E; };', 'N = function () { $F };', 'N = n(@);', '["N"]() { return $E; }', 'static N = (p = $E) => p;', 'static #N() { $F }', 'N = function N() { $F };'];
const OBJ = ['N(p = c(@)) { $F return $E; }', 'async N() { $AS }', '*N() { yield $G; }', 'get N() { $F return $E; }', 'set N(v) { $F }', '"N"() { return $E; }', 'get "N"() { return $E; }', '["N"]() { return $E; }', 'get ["N"]() { return $E; }', 'N: () => $E', 'N: function () { $F return $E; }', 'N: function N() { $F return $E; }', 'N: $E', 'async *N() { $AS }'];
const EXPR = ['(function N(p = c(@)) { $F return $E; })()', '(async function N() { $AS })()', '[...(function* N() { yield $G; })()]', 'it(@).map(function N(x) { $F return x; })', '(function () { return (function N() { $F return $E; })(); })()', '((N) => N)(c(@))', '(() => { const N = () => $E; return N(); })()', '(() => { const N = function () { $F }; return N(); })()', '(() => { const q = function N() { $F }; return q(); })()', 'new (function N() { $F })()', '(function () { return (function q() { return (function N() { return $E; })() + $E; })(); })()', 'c(@) && (function N() { $F return $E; })()', '(c(@) ? function N() { $F } : () => $E)()', '((p = function N() { return $E; }) => p())(n(@))'];
const STMT = ['function N(p = c(@)) { $F return $E; } N();', 'var N = $E;', 'l%: { function N() { $F } N(); }', 'class N { m() { $F } } new N().m();', 'export function N() { $F } N();', 'export default function N() { $F }', 'export default (function N() { $F });', 'const q = { r: { N() { $F return $E; } } }; q.r.N();', 'class Q { static { function N() { $F } N(); } }', 'class Q extends (class { N() { $F } }) { N() { super.N(); $F } o() { $F } } new Q().N(); new Q().o();', 'class Q { N() { class R { o() { $F } N() { return $E; } } new R().o(); new R().N(); } } new Q().N();', 'class Q { o() { class R { o() { $F } N() { return $E; } } new R().o(); new R().N(); } } new Q().o();', 'function o() { return { N() { $F }, o() { $F } }; } o().N(); o().o();'];
const use = (m, name) => { const at = (x) => `log(typeof ${x});`; return at(name); };
const call = (obj, name) => `{ const t_ = ${obj === 'new K()' ? 'I' : obj}; if (typeof t_.${name} === "function") { const r_ = t_.${name}(); if (r_ && r_.next) log(r_.next()); } t_.${name} = 1; }`;
const LISTS = [[], ['aa'], ['bb'], ['aa', 'bb'], ['zz', 'aa'], ['AA'], ['a'], ['aaa'], ['']];
const PAIRLISTS = [['aa'], ['bb'], ['bb', 'aa']];

function* bodies(text, tier) {
  const t = { k: 'S', s: text };
  yield g.render(leafTree(t));
  const hs = g.holes(t);
  for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { core: true })) {
    const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f);
    yield g.render({ t, kids });
  }
}
const nm = (s, n) => s.replace(/\bN\b/g, n);
function* methods(tier) {
  const P = function* (text, lists, full) {
    if (!full) { const src = g.render(leafTree({ k: 'S', s: text })); for (const l of lists) yield { src, script: false, opts: { ignoreClassMethods: l }, refOpts: { ignoreClassMethods: l } }; return; }
    for (const src of bodies(text)) for (const l of lists) yield { src, script: false, opts: { ignoreClassMethods: l }, refOpts: { ignoreClassMethods: l } };
  };
  const cls = (ms, calls) => `c(@); class K { ${ms.join(' ')} } const I = new K(); ${calls.map((n) => call('new K()', n) + call('K', n)).join(' ')} c(@);`;
  const obj = (ms, calls) => `const O = { ${ms.join(', ')} }; ${calls.map((n) => call('O', n)).join(' ')}`;
  for (const m of CLASS) { const t = cls([nm(m, 'aa'), 'other() { c(@); }'], ['aa', 'other']); yield* P(t, LISTS, false); yield* P(t, tier === 'thorough' ? LISTS : [['aa'], ['bb']], true); }
  for (const m of OBJ) { const t = obj([nm(m, 'aa'), 'other() { c(@); }'], ['aa', 'other']); yield* P(t, LISTS, false); yield* P(t, tier === 'thorough' ? LISTS : [['aa'], ['bb']], true); }
  for (const m of EXPR) { const t = 'log(' + nm(m, 'aa') + ');'; yield* P(t, LISTS, false); yield* P(t, tier === 'thorough' ? LISTS : [['aa'], ['bb']], true); }
  for (const m of STMT) { const t = nm(m, 'aa'); yield* P(t, LISTS, false); yield* P(t, tier === 'thorough' ? LISTS : [['aa'], ['bb']], true); yield* P(t, [['o'], ['o', 'aa'], ['m']], false); }
  for (const a of CLASS) for (const b of CLASS) yield* P(cls([nm(a, 'aa'), nm(b, 'bb')], ['aa', 'bb']), PAIRLISTS, false);
  for (const a of OBJ) for (const b of OBJ) yield* P(obj([nm(a, 'aa'), nm(b, 'bb')], ['aa', 'bb']), PAIRLISTS, false);
  for (const a of EXPR) for (const b of EXPR) yield* P(`log(${nm(a, 'aa')}, ${nm(b, 'bb')});`, PAIRLISTS, false);
  for (const c of ['class K { constructor(p = c(@)) { $F } o() { $F } } new K().o();', 'class K extends (class { constructor() { $F } }) { constructor() { super($E); $F } } new K();', 'class K { static constructor() { $F } } K.constructor();']) yield* P(c, [['constructor'], ['o'], ['constructor', 'o']], true);
  for (const w of ['get', 'set', 'static', 'async', 'default', 'toString', '__proto__', 'hasOwnProperty', '$', '_', 'ä']) yield* P(`class K { ${w}() { c(@); } o() { c(@); } } new K().${w}(); new K().o(); log({ ${w}() { return c(@); } }.${w}());`, [[w], ['o'], [w, 'o']], false);
}
// ... compiled from TypeScript, types erased before or after
const TYPED = ['class K { ‹N(a: string): void; N(a: number): void;› N(a‹?: any›) { $F return $E; } other() { c(@); } } const t = new K(); t.N?.(); t.other();', '‹abstract› class K { ‹abstract N(): void;› other() { c(@); } static N‹<T>›(p‹?: T› = c(@)) { $F } } K.N();', 'class K { ‹public› N()‹: any› { $F } ‹private static› N = (p‹: any›) => $E; } new K().N();', 'class K { ‹declare N: any;› o() { $F } } new K().o();', '‹declare function N(): void;› log((function N(p‹?: any›)‹: any› { $F return $E; })());', '‹interface N { N(): void }› const O = { N(a‹?: any›)‹: any› { $F return $E; }, get o()‹: any› { return $E; } }; O.N(); log(O.o);', 'log(({ N()‹: any› { $F } }‹ as any›).N());', 'class K { get N()‹: any› { return $E; } set N(v‹: any›) { $F } } log(new K().N); new K().N = 1;', 'export default class K { N(‹this: K, ›a = c(@)) { $F } }', 'const v = class‹<T>› { async N‹<U>›()‹: Promise<any>› { $AS } *o()‹: any› { $GS } }; new v().N(); [...new v().o()];'];
function* tsmethods(tier) {
  const ts = require('./ts.js');
  for (const [list, wrap] of [[CLASS, (m) => `c(@); class K { ${m} other() { c(@); } } const I = new K(); ${call('new K()', 'aa')} ${call('K', 'aa')}`], [OBJ, (m) => `const O = { ${m}, other() { c(@); } }; ${call('O', 'aa')}`], [EXPR, (m) => `log(${m});`], [STMT, (m) => m], [TYPED, (m) => m]]) for (const m of list) for (const x of list === TYPED || tier === 'thorough' ? bodies(wrap(nm(m, 'aa'))) : [g.render(leafTree({ k: 'S', s: wrap(nm(m, 'aa')) }))]) for (const l of [['aa'], ['o'], ['other', 'zz']]) for (const strip of ['before', 'after']) yield { src: ts.textOf(x), refSrc: ts.refOf(x), script: false, opts: { ignoreClassMethods: l }, refOpts: { ignoreClassMethods: l }, req: { ts: true, strip }, compiled: true };
}
module.exports = { methods, tsmethods };
