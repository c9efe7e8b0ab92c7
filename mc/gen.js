'use strict';
// The program grammar. A template is { k: 'S' | 'E', s: text } with holes:
//   $E expression, $S statement, $A / $G the same inside an async function / a
//   generator ($A, $G: expressions; $AS, $GS: statements), $L statement inside a
//   loop, $F statement inside a function, $C statement inside a labelled loop
//   in a function. '@' is a fresh number, '%' a number fresh per instance.
// Programs are built by substituting holes exhaustively up to a bound.

const E = [
  'c(@)',
  '$E && $E', '$E || $E', '$E ?? $E', '$E && $E || $E', '($E || $E) && $E', '($E ?? $E) || $E', '$E && ($E && $E)', '(($E) || ($E))',
  '($E ? $E : $E)', '($E ? $E : $E ? $E : $E)',
  '(v% = $E)', '(v% ||= $E)', '(v% &&= $E)', '(v% ??= $E)', '(v% += $E)', '(o(@).x = $E)', '(o(@)[$E] = $E)', 'o(@)[$E]++',
  '($E, $E)', '!$E', 'typeof $E', 'void $E', '-$E', '($E + $E)', '($E < $E)', '(c(@) in { x: $E })', '($E instanceof Object)', 'delete o(@)[$E]',
  'c(@, $E)', 'c(@, ...it(@), $E)', 'log($E)', '[$E, ...it(@)].length', '({ a: $E, [$E]: $E, ...o(@) }).a', '`a${$E}b${$E}`',
  'n(@)?.[$E]', 'n(@)?.($E)', 'n(@)?.x?.[$E]?.($E)', '(n(@) ?? log)($E)',
  '(() => $E)()', '((p% = $E) => p%)(n(@))', '(({ q = $E }) => q)(o(@))', '(({ q: { x: z = $E } = $E }) => z)(o(@))', '(([q = $E, ...r] = $E || []) => q)(n(@) && it(@))',
  '(({ [$E]: q = $E, ...r }) => q)(o(@))', '((a, b = $E, { p = $E } = {}) => $E)(c(@))',
  '(() => { $F return $E; })()', '(function () { return $E; })()', '(function nm% (p = $E) { $F })(n(@))', '(function nm% () { "use strict"; $F return this === undefined; })()',
  '(() => () => $E)()()',
  '({ m(p = $E) { $F return $E; } }).m(n(@))', '({ get g() { return $E; } }).g', '({ set s(p) { $F } }).s = $E', '({ ["k" + $E]() { return $E; } }).k0?.()', '({ *m() { yield $E; } }).m().next().value', '({ "s"() { return $E; }, 5() { return $E; } }).s()',
  '({ async m() { return $A; } }).m()',
  'new (class { constructor(p = $E) { $F } })(n(@))', 'new (class { m() { $F return $E; } })().m()', 'new (class { get g() { return $E; } static m() { return 1; } })().g', '(class { static m() { return $E; } }).m()', 'new (class { #p() { return $E; } m() { return this.#p(); } })().m()',
  'new (class { x = $E; y = c(@); })().x', '(class { static x = $E; static y = c(@); }).x', 'typeof class { static { $S } static { log($E); } }', 'new (class { #f = $E; m() { return this.#f; } })().m()', 'new (class { ["x" + $E] = c(@); static [$E] = $E; })().x0',
  'new (class extends (class { constructor(a) { log(a); } }) { constructor() { super($E); $F } })()', 'new (class extends (c(@), Object) { m() { return super.toString($E); } })().m()',
  'new (class { *g() { $GS yield $G; } })().g().next().value', 'new (class { async m() { $AS return $A; } })().m()', 'new (class { set s(p) { $F } })().s = $E', 'new (class { "lit"() { return $E; } [$E]() {} get ["g"]() { return 1; } static async *ag() {} })().lit()',
  '[...(function* () { $GS yield $G; })()]', '[...(function* () { const r% = yield* [$E]; return r%; })()]',
  '(async () => { $AS return $A; })().then(log, log)', '(async () => $A)().then(log, log)', '(async function () { await p(@); $AS })().then(log, log)',
  '(async () => { for await (const x% of [p(@), $E]) { log(x%); $AS } })().then(log, log)', '(async function* () { yield $E; })().next().then(log, log)',
  'new Function("return 1")($E)', 'new (function () { this.a = $E; log(new.target !== undefined); })().a', '(function () { return arguments.length + $E; })($E, 1)', '(/* c */ $E /* d */)',
  '(function () { if ($E) { return $E; } else return $E; })()', 'it(@).map((x) => $E).length', 'it(@).filter((x, i) => i && $E || x).length',
].map((s) => ({ k: 'E', s }));
const EA = ['await $A', 'await p(@)', '(await $A ? await $A : $A)', '(await p(@) && await p(@))'].map((s) => ({ k: 'E', s, need: 'async' }));
const EG = ['(yield $G)', '(yield c(@) || $G)', '((yield) ? $G : $G)'].map((s) => ({ k: 'E', s, need: 'gen' }));

const S = [
  'c(@);',
  '$E;', 'var v% = $E;', 'let v% = $E, w% = $E;', 'const v% = $E; log(v%);', 'var v%; v% = $E;', 'let v%;', 'var v% = $E, w%, z% = $E;', 'var { q: v% = $E } = o(@);', 'let [v% = $E, w%] = it(@);', 'const { q: v% = $E, ...w% } = o(@), z% = $E;', 'var v% = function () { $F return $E; }; log(v%.name); v%();',
  'const v% = () => $E; log(v%.name, v%());', 'const v% = (a) => { $F return $E; }; log(v%.name, v%());', 'let v% = class { m() { return $E; } }; log(v%.name, new v%().m());', 'var v% = async () => $A; v%();', 'var v% = class Q {}; log(v%.name);', 'const v% = $E && (() => $E); if (v%) v%();', 'var v% = ($E);',
  'if ($E) $S', 'if ($E) { $S }', 'if ($E) $S else $S', 'if ($E) { $S } else { $S }', 'if ($E) $S else if ($E) $S', 'if ($E) { $S } else if ($E) { $S } else { $S }', 'if ($E) { if ($E) $S else $S }', 'if ($E) ; else $S', 'if ($E) {} else {}', 'if ($E) { $S $S }',
  'while (c(@)) $L', 'while ($E) { $L }', 'do $L while (c(@));', 'do { $L } while ($E);', 'for (;c(@);) $L', 'for (var i% = $E; c(@); $E) { $L }', 'for (let i% = $E, j% = $E; i% < 2 && $E; i%++) $L', 'for (let i% = 0; i% < 2; i%++) { log(() => i%); $L }', 'for (v% = $E; c(@); c(@)) {}', 'for (const x% of it(@)) $L', 'for (const x% of it(@)) { log(x%); $L }', 'for (const x% of $E || []) {}', 'for (const [x% = $E] of [it(@)]) { $L }', 'for (const { x = $E } of [o(@)]) $L', 'for (var k% in o(@)) { $L }', 'for (let k% in o(@)) $L', 'for (var f% = () => { $S }; c(@); f%()) ;',
  'switch ($E) { case $E: $S break; case 1: $S default: $S }', 'switch ($E) { default: $S case $E: { $S } }', 'switch (c(@)) { case 0: case 1: $S }', 'switch ($E) {}', 'switch ($E) { case $E: }', 'switch (c(@)) { case 0: let v% = $E; log(v%); break; default: log(1); }', 'switch (c(@)) { case c(@): $S break; case c(@): $S break; }',
  'try { $S } catch (e) { $S }', 'try { $S } finally { $S }', 'try { $S } catch { $S } finally { $S }', 'try { throw { m: n(@) }; } catch ({ m = $E }) { $S log(m); }', 'try { throw $E; } catch (e) { log(e); }',
  '{ $S $S }', '{ }', ';', 'debugger;', 'l%: { $S if (c(@)) break l%; $S }', 'l%: for (const x% of it(@)) { $L while (c(@)) { if (c(@)) continue l%; if ($E) break l%; $S } }', 'l%: m%: while (c(@)) { if ($E) continue l%; $S }', 'l%: $S', 'l%: if (c(@)) { if (c(@)) break l%; $S } else $S', 'l%: do { if (c(@)) continue l%; $L } while ($E);', 'l%: switch ($E) { case 0: while (c(@)) { break l%; } default: $S }',
  'while (c(@)) { if ($E) continue; $S if (c(@)) break; $S }', 'while (c(@)) if (c(@)) break; else $S', 'for (const x% of it(@)) { try { if ($E) continue; $S } finally { $S } }',
  'function f% (p = $E) { $F } f%(n(@));', 'f% (); function f% () { "use strict"; $F return $E; }', 'function f% () { $F return $E; } log(f%.name, f%());', 'function f% (a, b) { return arguments.length; } log(f%.length, f%($E, 1));', 'function f% () { function g% () { $F } g%(); return $E; } f%();', 'async function f% () { $AS return $A; } f%().then(log, log);', 'function* f% () { $GS yield $G; } for (const x of f%()) log(x);', 'async function* f% () { $AS yield $A; } f%().next().then(log, log);', 'function* f% () { try { log(yield $G); yield 2; } finally { $GS } } var g% = f%(); g%.next(); log(g%.return($E).value);', 'function* f% () { const x = yield; log(x); } var g% = f%(); g%.next(); g%.next($E);',
  'class K% { constructor() { $F } } new K%();', 'class K% { m() { $F return $E; } } log(K%.name, new K%().m());', 'class K% { x = $E; static y = $E; static { $S } } new K%();', 'class K% extends ($E ? Object : Array) { constructor(a = $E) { super(); $F } get g() { return $E; } } log(new K%().g);', 'class K% { static #z = $E; static m() { return K%.#z; } } log(K%.m());',
  '(function () { if (c(@)) return; $F })();', '(function () { while (c(@)) { if ($E) return $E; $L } })();', '(function () { try { return $E; } finally { $F } })();', '(function () { for (const x% of it(@)) { if (c(@)) return x%; $C } })();', '(() => { switch ($E) { case 0: return $E; } $F })();',
  '"not a directive"; ', 'log(this && this.me);', '(() => log(this && this.me, $E))();', 'log(`${$E}`, tag`a${$E}b`);', 'tag`a${$E}b${$E}`;', 'var v% = tag`${$E}`; log(v%);',
].map((s) => ({ k: 'S', s }));
const SL = ['break;', 'continue;', 'if ($E) break;', 'if ($E) continue;', 'if ($E) { $S continue; }', '{ $S break; }'].map((s) => ({ k: 'S', s, need: 'loop' }));
const SF = ['return;', 'return $E;', 'if ($E) return $E;', 'throw $E;', 'if ($E) throw $E;', 'return function () { return $E; };', 'return ($E);', 'return $E, $E;'].map((s) => ({ k: 'S', s, need: 'fn' }));
const SA = ['await $A;', 'const v% = await $A; log(v%);', 'for await (const x% of [p(@), p(@)]) $AS', 'if (await $A) $AS', 'try { await p(@); } catch (e) { log(e.message); }', 'return $A;'].map((s) => ({ k: 'S', s, need: 'async' }));
const SG = ['yield $G;', 'const v% = yield $G; log(v%);', 'yield* it(@);', 'if (yield $G) $GS', 'return $G;'].map((s) => ({ k: 'S', s, need: 'gen' }));
const SLOPPY = ['with (o(@)) $S', 'with ($E ? { log } : { c }) { $S }', 'var v% = 1; delete v%;', 'function f% (a) { arguments[0] = $E; return a; } log(f%(0));', 'function f% () { return typeof this; } log(f%());', 'if ($E) { function f% () { return $E; } } log(typeof f%);', 'for (var i% = 0 in o(@)) $L', 'function f% () { "use strict"; return typeof this; $F } log(f%());', 'l%: function f% () { return $E; } log(f%());']
  .map((s) => ({ k: 'S', s, need: 'sloppy' }));
const MODULE = ['export const v% = $E;', 'export let v% = $E;', 'export var v% = $E, w%;', 'export const v% = $E, w% = $E;', 'export const v% = () => { $F return $E; }; v%();', 'export function f% (p = $E) { $F } f%(n(@));', 'export class K% { m() { return $E; } } new K%().m();', 'export default $E;', 'export default function f% () { $F } f%();', 'export default class K% { x = $E } ', 'export default (p = $E) => p;', 'const v% = 1; export { v% as w% }; $S', 'export const { q: v% = $E } = o(@);', 'export async function f% () { $AS } f%().catch(log);', 'export default class { m() { return $E; } static s = $E; }', 'await p(@);', 'const v% = await $A;', 'for await (const x% of [p(@)]) { $AS }']
  .map((s) => ({ k: 'S', s, need: 'module' }));

const HOLE = /\$(AS|GS|A|G|E|S|L|F|C)(?![A-Za-z(])/g;
const WHAT = { E: ['E'], A: ['E', 'async'], G: ['E', 'gen'], S: ['S'], L: ['S', 'loop'], F: ['S', 'fn'], C: ['S', 'loop', 'fn'], AS: ['S', 'async', 'fn'], GS: ['S', 'gen', 'fn'] };

// A tree is { t: template, kids: [tree | null] } (null: the default filler).
function holes(t) {
  if (!t._h) t._h = [...t.s.matchAll(HOLE)].map((m) => { const [k, ...give] = WHAT[m[1]]; return { k, give }; });
  return t._h;
}
// What a hole of a nested template may contain: function and class bodies hide
// the outer context, everything else lets it through.
function render(tree) {
  let id = 0, inst = 0;
  const go = (tr) => {
    const { t, kids } = tr;
    const me = inst++;
    let h = 0;
    let out = '', p = 0;
    const lit = (x) => x.replace(/[@%]/g, (m) => (m === '@' ? String(++id) : '_' + me));
    for (const m of t.s.matchAll(HOLE)) {
      out += lit(t.s.slice(p, m.index));
      const hole = holes(t)[h];
      const kid = kids && kids[h];
      h++;
      let x;
      if (kid) x = go(kid); else x = hole.k === 'E' ? `c(${++id})` : `c(${++id});`;
      if (kid && hole.k === 'E' && needParen(kid.t.s)) x = '(' + x + ')';
      out += x;
      p = m.index + m[0].length;
    }
    out += lit(t.s.slice(p));
    return out;
  };
  const s = go(tree);
  // undeclared assignment targets of expression templates
  const vars = new Set();
  for (const m of s.matchAll(/(?:\(|for \()(v_\d+) (?:[|&?+]*)=/g)) if (!new RegExp(`(?:var|let|const) (?:[^;]*, )?${m[1]}\\b`).test(s)) vars.add(m[1]);
  return (vars.size ? `var ${[...vars].join(', ')};\n` : '') + s;
}
const needParen = (s) => /^(\$E|n\(|delete|void|typeof|-|!|await|new)|&&|\|\||\?\?| = \$E$/.test(s) && !/^\(.*\)$/.test(s);

const ALL = { E, S, EA, EG, SL, SF, SA, SG, SLOPPY, MODULE };
function fillers(hole, { sloppy = false, core = false } = {}) {
  let r;
  if (hole.k === 'E') { r = E.slice(1); if (hole.give.includes('async')) r = r.concat(EA); if (hole.give.includes('gen')) r = r.concat(EG); }
  else {
    r = S.slice(1);
    if (hole.give.includes('loop')) r = r.concat(SL);
    if (hole.give.includes('fn')) r = r.concat(SF);
    if (hole.give.includes('async')) r = r.concat(SA);
    if (hole.give.includes('gen')) r = r.concat(SG);
    if (sloppy) r = r.concat(SLOPPY);
  }
  return core ? r.filter((t) => CORE.has(t.s)) : r;
}
// Statement forms whose expansion as a single (unbraced) statement is a syntax
// error or several statements: only in block positions.
const multi = (s) => { let d = 0, n = 0; for (let i = 0; i < s.length; i++) { const ch = s[i]; if ('({['.includes(ch)) d++; else if (')}]'.includes(ch)) d--; else if (ch === ';' && d === 0 && i < s.length - 1) n++; } return n > 0 || /^(let|const|class|function|async function|l%: function)/.test(s); };

const CORE = new Set([
  '$E && $E', '$E || $E', '$E ?? $E', '($E ? $E : $E)', '(v% = $E)', 'c(@, $E)', '(() => $E)()', '((p% = $E) => p%)(n(@))', '(() => { $F return $E; })()', '(function nm% (p = $E) { $F })(n(@))', 'new (class { x = $E; y = c(@); })().x', 'n(@)?.[$E]', 'new (class { m() { $F return $E; } })().m()', '({ get g() { return $E; } }).g', '[...(function* () { $GS yield $G; })()]', '(async () => { $AS return $A; })().then(log, log)', 'await $A', '(yield $G)',
  '$E;', 'var v% = $E;', 'let v% = $E, w% = $E;', 'const v% = () => $E; log(v%.name, v%());', 'var v% = function () { $F return $E; }; log(v%.name); v%();', 'if ($E) $S', 'if ($E) { $S } else { $S }', 'if ($E) $S else if ($E) $S', 'while (c(@)) $L', 'for (var i% = $E; c(@); $E) { $L }', 'for (const x% of it(@)) $L', 'do { $L } while ($E);', 'switch ($E) { case $E: $S break; case 1: $S default: $S }', 'try { $S } catch { $S } finally { $S }', '{ $S $S }', 'l%: { $S if (c(@)) break l%; $S }', 'l%: for (const x% of it(@)) { $L while (c(@)) { if (c(@)) continue l%; if ($E) break l%; $S } }', 'function f% (p = $E) { $F } f%(n(@));', 'class K% { x = $E; static y = $E; static { $S } } new K%();', 'class K% { m() { $F return $E; } } log(K%.name, new K%().m());', 'break;', 'continue;', 'return $E;', 'throw $E;', 'if ($E) continue;', 'await $A;', 'yield $G;', 'l%: $S',
]);

module.exports = { ALL, E, S, EA, EG, SL, SF, SA, SG, SLOPPY, MODULE, holes, render, fillers, CORE, multi };
