'use strict';
// Products of the grammar's small axes, complete up to the sets below: where the
// form families take one or two examples of a shape, here every combination is a
// program of its own.
//   members   holder x modifiers and kind x key x parameters x body
//   functions position x kind x parameters x body
//   bindings  declaration kind x pattern x position
//   loops     loop x label x body x jump
//   tests     branching expression x position it stands at
//   bodies    statement standing alone x the statement it is the body of
const g = require('./gen.js');
const { leafTree } = require('./corpus.js');

const KEYS = ['k', '"s t"', '5', '0x1f', '.5', '1n', '["k" + c(@)]', '[c(@) || "z"]', 'default', 'get', 'static', 'async', '"constructor_"', '$', 'ä', '"\\u0061b"', '[`t${c(@)}`]', '[Symbol.iterator]', '__proto__', '""'];
const PARAMS = ['', 'a', 'a = c(@)', '{ q = c(@) } = {}', '[q = c(@)] = []', '...a', 'a, b = a || c(@)'];
const BODIES = ['', 'c(@);', 'return c(@);', 'return c(@) || c(@);', 'if (c(@)) return 1; c(@);', 'const w = () => c(@); return w();', '"use strict"; c(@);'];
const strictBody = (p, b) => /^"use strict"/.test(b) && !/^(|a)$/.test(p);

const reach = 'reach(h%);';
const HOLDERS = [
  [(m) => `const h% = { ${m} };`, false],
  [(m) => `class h% { ${m} }`, true],
  [(m) => `class h% { static ${m} }`, true],
  [(m) => `const h% = class extends Object { before() {} ${m} after() {} };`, true],
  [(m) => `const h% = { a: 1, ${m}, b: 2 };`, false],
  [(m) => `export class h% { ${m} }`, true],
];
const KINDS = [['', (p) => p], ['get ', () => ''], ['set ', (p) => (!p || /^\.\.\.|^a, /.test(p) ? null : p)], ['async ', (p) => p], ['*', (p) => p], ['async *', (p) => p]];
function* members(all) {
  for (const [hold, cls] of HOLDERS) for (const [kind, par] of KINDS) for (const [ki, key] of KEYS.entries()) for (const [pi, p0] of PARAMS.entries()) for (const [bi, b] of BODIES.entries()) {
    const p = par(p0);
    if (p === null || (kind === 'get ' && pi)) continue;
    if (strictBody(p, b)) continue;
    // quick: keys with one body, parameters and bodies with one key
    if (!all && !(((pi === 2 || kind === 'get ') && bi === 2) || (ki === 0 && (pi === 1 || bi === 1 || (kind === 'get ' && pi === 0))) || (ki === 6 && pi === 1))) continue;
    yield `${hold(`${kind}${key}(${p}) { ${b} }`)} ${reach}`;
  }
  // fields (holding no functions), accessors in pairs, several of a kind
  for (const [hold, cls] of HOLDERS) for (const key of KEYS) {
    if (cls) {
      if (!/prototype|constructor_/.test(key)) for (const v of ['', ' = c(@)', ' = c(@) && c(@)', ' = [c(@) ? 1 : 2]', ' = this', ' = (c(@), new.target)']) yield hold(`${key}${v};`) + ' log(new h%() instanceof h%);';
    } else for (const v of ['c(@)', 'c(@) && c(@)', '[c(@) ? 1 : 2]', 'function () { return c(@); }', '(a = c(@)) => a', '(() => c(@))', 'class { m() { return c(@); } }', '{ n() { return c(@); } }', 'async () => { c(@); }']) yield hold(`${key}: ${v}`) + ' ' + reach;
    if (/^\[c\(/.test(key)) continue;
    yield hold(`get ${key}() { return c(@); }${cls ? '' : ','} ${/^class h% \{ static/.test(hold('')) ? 'static ' : ''}set ${key}(q = c(@)) { c(@); }`) + ' ' + reach;
  }
  for (const kind of ['', 'static ']) for (const m of ['#k() { return c(@); }', 'get #k() { return c(@); }', 'async #k() { c(@); }', '*#k() { yield c(@); }', '#k = c(@);', '#k = c(@) || c(@);', '#k;', 'get #k() { return c(@); } ' + kind + 'set #k(q = c(@)) { c(@); }']) yield `class h% { ${kind}${m} ${kind}m() { const r = this.#k; if (typeof r === "function") { const x = this.#k(); if (x && x.next) log(x.next().value); } log(#k in this); } } h%.m?.(); new h%().m?.();`;
}

const FUNCS = [
  (p, b) => `function (${p}) { ${b} }`, (p, b) => `function n% (${p}) { ${b} }`, (p, b) => `(${p}) => { ${b} }`, (p, b) => `async function (${p}) { ${b} }`, (p, b) => `async (${p}) => { ${b} }`, (p, b) => `function* (${p}) { ${b} }`, (p, b) => `async function* n% (${p}) { ${b} }`, (p, b) => `function n% (${p}) { n%.x = 1; ${b} }`,
];
const ARROWS = ['(P) => c(@)', '(P) => (c(@))', '(P) => ({ a: c(@) })', '(P) => c(@) && c(@)', '(P) => (c(@) ? c(@) : c(@))', '(P) => () => c(@)', '(P) => `${c(@)}`', '(P) => [c(@)]', 'async (P) => c(@)', '(P) => (c(@), c(@))', '(P) => void c(@)', '(P) => (z% = c(@))', '(P) => class { m() { return c(@); } }', '(P) => function () { return c(@); }', '(P) => { }', '(P) => ({})'];
// X: the function; it is called once through use()
const R = 'let z%;';
const AT = [
  'var x = X; use(x);', 'const x = X; use(x);', 'let x; x = X; use(x);', 'use(X);', 'use((X));', 'use([X][0]);', 'use({ a: X }.a);', 'use({ ["a" + 1]: X }.a1);', 'use({ ...{ a: X } }.a);', 'use(c(@) ? X : 1);', 'use(c(@) && X);', 'use(n(@) ?? (X));', 'use((c(@), X));', 'use((() => X)());', 'use((function () { return X; })());', '(X)();', '(X).call(1);', 'void (X)();', '!(X)();', 'use((x = (X)) => x());', 'use(({ x = (X) }) => x, o(@));'.replace(', o(@)', ''), 'for (const x of [X]) use(x);', 'for (let x = X, i = 0; i < 1; i++) use(x);', 'if (X) use(1);', 'switch (typeof (X)) { case "function": use(2); }', 'try { throw X; } catch (x) { use(x); }', 'use(`${typeof (X)}`);', 'tag`${X}`;', 'new (class { constructor(a) { use(a); } })(X);', 'use((X).name.length);'.replace('.name.length', '.bind(null)'), 'use([1].map(X).length);', 'const { x = (0, X) } = {}; use(x);', 'z% ??= X; use(z%);', 'const o = {}; o.p = X; use(o.p);', 'const o = {}; o[c(@)] = X;', 'use(typeof (X));', 'l%: { const x = X; use(x); break l%; }', 'export const x = X; use(x);', 'export default (X);', 'use((class { static m() { return X; } }).m());', 'use(new Promise(X) instanceof Promise);', 'var a, x = X, b; use(x);', 'return_(X); function return_(f) { return use(f); }', 'log(c(@), X, c(@));', 'use(((X)));', 'use(c(@) || X || X);'.replace('X || X', 'X'), 'o(@)[X];', '(X)?.();', '[X, X].forEach(use);',
];
function* functions(all) {
  const once = new Set();
  for (const [ai, at] of AT.entries()) for (const [fi, mk] of FUNCS.entries()) for (const [pi, p] of PARAMS.entries()) for (const [bi, b] of BODIES.entries()) {
    if (strictBody(p, b)) continue;
    if (!all && !((pi === 2 && bi === 2) || (ai < 4 && (bi === 3 || pi === 1)))) continue;
    const x = mk(p, b);
    const s = R + ' ' + (x.startsWith('(') || x.startsWith('async (') ? at.replace(/\|\| X\b|&& X\b/g, (m) => m.slice(0, -1) + '(X)') : at).replaceAll('X', () => x);
    if (!once.has(s)) { once.add(s); yield s; }
  }
  for (const [ai, at] of AT.entries()) for (const a of ARROWS) for (const [pi, p] of PARAMS.entries()) {
    if (!all && !(pi === 2 || (ai < 3 && pi < 2))) continue;
    // an arrow in front of an operator needs parentheses
    const x = a.replace('P', () => p);
    yield R + ' ' + at.replace(/\|\| X\b|&& X\b/g, (m) => m.slice(0, -1) + '(X)').replaceAll('X', () => x);
  }
}

const PATTERNS = ['x', '{ x }', '{ q: x }', '{ q: x = c(@) }', '{ x = c(@) }', '{ ...x }', '{ ["q" + (c(@) && "")]: x }', '{ q: { r: x = c(@) } = {} }', '[x]', '[x = c(@)]', '[, x]', '[...x]', '[[x = c(@)] = []]', '[{ q: x = c(@) } = {}]', '{ x: [x = c(@) && c(@)] = [] }', '{}', '[]', '{ x, q: y = c(@) }', '{ x = () => c(@) }'.replace('() => c(@)', '(0, () => c(@))'), '[x = (c(@) ? 1 : 2), y]'];
const WHERE = ['D P = V;', 'D P = V, e_ = c(@);', 'D e_ = c(@), P = V;', '{ D P = V; }', 'function f%() { D P = V; } f%();', 'for (D P of [V, V]) c(@);', 'for (D P of [V, V]) { c(@); }', 'for (D P = V, i_ = 0; i_ < 1; i_++) c(@);', 'for (D P = V; c(@);) { break; }', 'switch (c(@)) { case 0: D P = V; }', 'class S% { static { D P = V; } }', 'try { D P = V; } catch { }', 'export D P = V;', 'l%: { D P = V; }', 'if (c(@)) { D P = V; } else { D P = V; }', '(async () => { for await (D P of [V]) c(@); })();', 'D\nP\n=\nV\n', '(() => { D P = V; return 1; })();'];
const VALS = { '{': ['o(@)', '(c(@) ? o(@) : {})', '{ q: [c(@)], x: [c(@)] }', 'n(@) || {}'], '[': ['it(@)', '[c(@), ...it(@)]', '(c(@) && it(@)) || []'], x: ['c(@)', 'c(@) || c(@)', '() => c(@)', 'function () { return c(@); }', 'class { m() { return c(@); } }', '(c(@), c(@))'] };
function* bindings(all) {
  for (const d of ['var', 'let', 'const']) for (const [wi, w] of WHERE.entries()) for (const p of PATTERNS) for (const [vi, v] of VALS[p[0]].entries()) {
    if (!all && vi && wi > 1 && p !== 'x') continue;
    // a class or function in front of which something may throw is counted too early (known)
    if (/function|class|=>/.test(v) && /e_ = c\(@\), P|for|try/.test(w)) continue;
    yield w.replaceAll('D', d).replaceAll('P', () => p).replaceAll('V', () => v);
  }
  for (const d of ['var', 'let']) for (const w of ['D x;', 'D x, y;', '{ D x; }', 'for (D x; c(@);) break;', 'switch (c(@)) { case 0: D x; }', 'export D x;', 'function f%() { D x; } f%();', 'D x; x = c(@);', 'D x, y = c(@), z;']) yield w.replaceAll('D', d);
  // assignments and parameters with the same patterns
  for (const p of PATTERNS) for (const v of VALS[p[0]].slice(0, 3)) {
    if (p !== 'x' || !/=>|function|class/.test(v)) yield `let x, y; (${p} = ${v}); log(1);`, yield `let x, y; for (${p} of [${v}]) c(@);`;
    yield `((${p}) => c(@))(${v});`; yield `(function (${p} = ${v}) { c(@); })();`; yield `try { throw ${v}; } catch (${p}) { c(@); }`; yield `class K% { m(${p}) { return c(@); } set s(${p}) { c(@); } } new K%().m(${v}); new K%().s = ${v};`;
  }
}

const LOOPS = ['while (c(@)) B', 'do B while (c(@));', 'for (; c(@);) B', 'for (let i = 0; i < 2; i++) B', 'for (const x of it(@)) B', 'for (const k in { a: 1, b: 2 }) B', 'for (;;) B'];
const JUMPS = ['', 'break;', 'continue;', 'break l%;', 'if (c(@)) break;', 'if (c(@)) continue;', 'if (c(@)) break l%; else continue;', 'c(@) || c(@);', 'try { continue; } finally { c(@); }', 'switch (c(@)) { case 0: break; default: continue; }', 'm%: { if (c(@)) break m%; break; }', '{ break; }', 'return_(); function return_() { return c(@); }', ';', 'var w = c(@);', 'if (c(@)) ; else break;', 'l2%: while (c(@)) { if (c(@)) continue l2%; break; }', '(() => { c(@); })();', 'throw c(@);', 'while (c(@)) break;', 'do break; while (c(@));', 'for (const y of it(@)) if (c(@)) break; else c(@);'];
function* loops(all) {
  for (const lp of LOOPS) for (const lab of ['', 'l%: ', 'm_%: l%: ']) for (const j of JUMPS) for (const body of ['B', '{ B }', '{ c(@); B }', '{ B c(@); }', '{ if (c(@)) B }', '{ { B } }']) {
    if (/l%;/.test(j) && !lab) continue;
    if ((/^B$|\) B \}$/.test(body) && !j) || (body === 'B' && /^return_/.test(j))) continue;
    if (!all && lab.length > 4 && body.length > 6) continue;
    const b = body.replace('B', () => j);
    const inf = lp === 'for (;;) B';
    if (inf && (!/break|throw/.test(j) || /m%|l2%|while|y of/.test(j) || !/^\{ B|^B|^\{ c/.test(body))) continue;
    yield lab + lp.replace(/\bB\b/, () => (b === '{  }' ? '{}' : b));
  }
  for (const lp of LOOPS.slice(0, 6)) for (const lq of LOOPS.slice(0, 6)) yield `l%: ${lp.replace(/\bB\b/, () => lq.replace(/\bB\b/, '{ if (c(@)) continue l%; if (c(@)) break; c(@); }'))}`;
}

const BRANCHY = ['c(@) && c(@)', 'c(@) || c(@)', 'n(@) ?? c(@)', 'c(@) ? c(@) : c(@)', '!(c(@) || c(@))', '(c(@) && c(@)) || c(@)', 'c(@) ? c(@) && 1 : c(@) || 2', 'z% ||= c(@)', 'z% &&= c(@) && c(@)', 'z% ??= c(@)', '((a = c(@)) => a)(n(@))', '(({ q = c(@) }) => q)(o(@))', 'n(@)?.[c(@) || 1]'];
const SITES = ['(X);', 'log(X);', 'if (X) c(@);', 'if (X) { c(@); } else c(@);', 'while (X) { c(@); break; }', 'do { c(@); } while ((X) && c(@));', 'for (z% = (X); c(@);) break;', 'for (; X;) break;', 'for (const i of [1]) { for (; c(@); X) { continue; } break; }', 'for (const x of [X]) c(@);', 'for (const x of (X) ? [1] : []) c(@);', 'for (const x in (X)) c(@);', 'switch (X) { case 0: c(@); }', 'switch (c(@)) { case (X): c(@); }', 'switch (c(@)) { default: X; }', 'throw X;', '(function () { return X; })();', '(function () { if (c(@)) return X; return 1; })();', '(() => (X))();', '(async () => { await (X); })();', '(async () => { for await (const x of [X]) c(@); })();', '[...(function* () { yield X; })()];', '[...(function* () { yield* [X]; })()];', 'var x = (X);', 'const { x = (X) } = o(@);', 'const { [X]: x } = o(@);', 'const [x = (X)] = it(@);', '((x = (X)) => x)();', 'z% = (X);', 'z% += (X);', 'z% ||= (X);', 'o(@)[X] = c(@);', 'o(@)[X] += (X);', '(X ? o(@) : o(@)).x++;'.replace('X ?', '(X) ?'), 'delete o(@)[X];', '[X, c(@)];', '[...[X]];', 'log({ a: (X), b: c(@) }.a);', 'log({ [X]: c(@) });', 'log({ ...(X) });', 'log({ m() { return X; } }.m());', 'log(`a${X}b`);', 'tag`${X}`;', '((X) ? tag : tag)`a`;', 'log((X) ? 1 : 2);', 'log(c(@) ? (X) : 2);', 'log(c(@) ? 1 : (X));', 'log(c(@) && (X));', 'log((X) || c(@));', 'log((X) ?? c(@));', 'log((X) + (X));', 'log(-(X), typeof (X), void (X), !(X));', 'log((X, c(@)), (c(@), (X)));', 'log((X) in { a: 1 });', 'log((X) instanceof Object);', 'log((X) === (X));', 'n(@)?.(X);', 'n(@)?.[X]?.[X];', '((X) || log)?.(1);', '(X)?.x;', 'new (class { constructor(a) { log(a); } })(X);', 'new ((X) ? Object : Array)();', 'class K% extends ((X) ? Object : Array) {} new K%();', 'class K% { x = (X); static y = (X); } new K%();', 'class K% { static { X; } }', 'class K% { [X]() {} static [X] = 1; }', 'class K% { constructor() { X; } } new K%();', 'class K% extends Object { constructor() { super(X); } } new K%();', 'class K% { m() { return super.toString?.[X]; } } new K%().m();', 'l%: { if (X) break l%; c(@); }', 'try { X; } catch { X; } finally { X; }', 'export const x = (X);', 'export default (X);', 'await (X);', '((X));', '((((X))));', 'X, X;', '/* a */ (X) /* b */;', 'if (c(@)) X;', 'if (c(@)) c(@); else X;', 'while (c(@)) { if (c(@)) break; else X; }', 'function f%() { X; } f%(); f%();', 'log(eval_?.(X)); var eval_;', 'log(import.meta && (X));', 'debugger; X;', 'log(new.target_ === (X)); '.replace('new.target_', 'z%')];
function* tests() {
  for (const e of BRANCHY) for (const s of SITES) yield 'var z%; ' + s.replaceAll('(X)', () => '(' + e + ')').replace(/\bX\b/g, () => (/^\(\(\{|^\(\(a/.test(e) || !/\?\?|=|\?/.test(e) ? e : '(' + e + ')'));
}

const ALONE = ['c(@);', ';', '{ }', '{ c(@); }', 'var w = c(@);', 'if (c(@)) c(@);', 'if (c(@)) c(@); else c(@);', 'for (const q of it(@)) c(@);', 'while (c(@)) c(@);', 'do c(@); while (c(@));', 'switch (c(@)) { case 0: c(@); }', 'try { c(@); } catch { }', 'throw c(@);', 'debugger;', 'c(@) && c(@);', 'b%: c(@);', 'b%: { c(@); break b%; }', 'var w = () => c(@);', '(() => { c(@); })();', 'for (;;) break;', '({ a: c(@) });', '[c(@)];', '`${c(@)}`;', '"use strict";', 'w = c(@); var w;', 'c(@), c(@);', 'new Object(c(@));', 'for (var w of it(@)) ;', 'if (c(@)) ; else ;', 'var w = c(@), y = c(@) || 1;'];
const PARENTS = ['if (c(@)) B', 'if (c(@)) B else c(@);', 'if (c(@)) c(@); else B', 'if (c(@)) B else B', 'if (c(@)) { c(@); } else if (c(@)) B else B', 'while (c(@)) B', 'do B while (c(@));', 'for (; c(@);) B', 'for (const x of it(@)) B', 'for (const x in { a: 1 }) B', 'l%: B', 'l%: m%: B', '{ B }', '{ c(@); B c(@); }', 'switch (c(@)) { case 0: B }', 'switch (c(@)) { case 0: B break; default: B }', 'switch (c(@)) { case 0: { B } }', 'try { B } catch { }', 'try { c(@); } catch { B }', 'try { c(@); } finally { B }', 'function f%() { B } f%();', '(() => { B })();', 'class K% { m() { B } static { B } } new K%().m();', 'if (c(@)) if (c(@)) B else B', 'if (c(@)) while (c(@)) B', 'if (c(@)) l%: B', 'l%: if (c(@)) B else break l%;', 'while (c(@)) if (c(@)) B else break;', 'for (const x of it(@)) for (const y of it(@)) B', 'l%: for (const x of it(@)) { if (c(@)) continue l%; B }', 'do if (c(@)) B else B while (c(@));', 'async function f%() { B await 1; B } f%().catch(log);', 'function* f%() { B yield 1; B } [...f%()];', '"a"; B', 'c(@); B c(@);', 'if (c(@)) { B }', 'if (c(@)) { } else { B }', 'for (const x of it(@)) { B }', 'while (c(@)) { B if (c(@)) break; B }', 'switch (c(@)) { default: case 1: B }'];
function* bodies(all) {
  for (const p of PARENTS) for (const b of ALONE) {
    if (/^w = /.test(b) && /B else|do B|do if/.test(p)) continue;
    yield p.replace(/\bB\b/g, () => b).replace('const y of', 'const yy of');
  }
  if (all) for (const p of PARENTS) for (const q of PARENTS) for (const b of ALONE.slice(0, 6)) {
    const inner = q.replace(/\bB\b/g, () => b).replace(/([fKlm])%/g, '$1i%').replace(/\bl%/g, 'li%');
    if (/function|class|^"a"/.test(q) && !/\{[^}]*B/.test(p)) continue;
    if (/^c\(@\);/.test(q) && !/\{[^}]*B/.test(p)) continue;
    yield p.replace(/\bB\b/g, () => inner);
  }
}

function* grid(tier) {
  const all = tier === 'thorough';
  const seen = new Set();
  for (const f of [members, functions, bindings, loops, tests, bodies]) for (const s of f(all)) {
    const src = g.render(leafTree({ k: 'S', s }));
    if (seen.has(src)) continue;
    seen.add(src);
    yield { src, script: false };
    if (all && !/\bexport\b|\bimport\b|^\s*await\b/.test(s)) yield { src, script: true };
  }
}
module.exports = { grid };
