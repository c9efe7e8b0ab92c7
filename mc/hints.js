'use strict';
// C07: hint placements. '§' marks where the comment goes; every placement is
// combined with every comment form, and every hintable construct with every
// filler of the grammar's core.
const g = require('./gen.js');
const { leafTree } = require('./corpus.js');

const NEXT = ['/* istanbul ignore next */ ', '// istanbul ignore next\n', '/*istanbul ignore next*/', '/* istanbul  ignore\tnext: because */ ', '/* first */ /* istanbul ignore next */ ', '/* istanbul ignore next */ /* last */ ', '/* istanbul ignore next */\n\n'];
const NOT = ['/* istanbul ignore nextt */ ', '/* ignore next */ ', '/* Istanbul ignore next */ ', '/* c8 ignore next */ ', '/** istanbul ignore next */ ', '/* istanbul ignore */ ', '/* not istanbul ignore next */ ', '// istanbul ignore\n', '/* istanbul ignore if */ ', '/* istanbul ignore else */ ', '/* istanbul next */ ', '/* istanbul ignore-next */ '];
const IFS = ['/* istanbul ignore if */ ', '// istanbul ignore if\n', '/* istanbul ignore if: why */ ', '/* istanbul ignore else */ ', '// istanbul ignore else\n', '/* istanbul ignore else -- why */ '];
const IFNOT = ['/* istanbul ignore iff */ ', '/* ignore else */ ', '/* istanbul ignore elsewhere */ '];

// constructs that take part in coverage, in the position right behind the hint
const STMTS = g.S.filter((t) => !/^(;|\{ \}|debugger|"not)/.test(t.s) && !/^\(/.test(t.s)).map((t) => t.s);
const FRAMES = [
  'c(@);\n§H\nc(@);',
  '{ §H\nc(@); }',
  'function fr() { c(@);\n§H\nreturn c(@); } fr();',
  '(() => {\n§H\nc(@); })();',
  'while (c(@)) { §H\nc(@); }',
  'if (c(@)) {\n§H\n} else { c(@); }',
  'switch (c(@)) { case 0:\n§H\nc(@); default: c(@); }',
  'try {\n§H\n} finally { c(@); }',
  'class Fr { static { c(@);\n§H\nc(@); } }',
];
// other placements
const PLACES = [
  'log(c(@) ? § c(@) : c(@));', 'log(c(@) ? c(@) : § c(@));', 'log(c(@) ? § c(@) : § c(@));', 'log(c(@) ? § (c(@) && c(@)) : c(@));', 'log(c(@) ? § () => c(@) : c(@));', 'log(c(@) ? c(@) : § c(@) ? c(@) : c(@));', 'log(c(@) ? c(@, () => c(@)) : § c(@, () => c(@)));',
  'log(§ c(@) && c(@));', 'log(c(@) && § c(@));', 'log(c(@) || § c(@) && c(@) || c(@));', 'log(c(@) && § (c(@) || c(@)) && c(@));', 'log((c(@) || § c(@)) && c(@));', 'log(c(@) ?? § c(@));', 'log(c(@) && (§ c(@) || c(@)));', 'log((§ c(@) && c(@)) || c(@));', 'var v = § c(@) && c(@), w = c(@) && c(@);', 'log(§ (c(@) && c(@)));', 'log(c(@) && § c(@, c(@) ? 1 : 2));', 'log(c(@) || § (() => c(@)));', 'log(c(@) || § (() => { c(@); }));', 'log(c(@), § c(@) ? c(@) : c(@), c(@) ? c(@) : c(@));',
  'log(§ () => c(@), () => c(@));', 'log((§ () => c(@))(), (() => c(@))());', 'log((§ function () { c(@); })(), (function () { c(@); })());', 'log((§ function nm() { return () => c(@); })()(), (() => c(@))());', 'it(@).map(§ (x) => { if (x) c(@); return x; }).map((x) => c(@));', 'log(§ async () => c(@));', 'log(§ class { m() { c(@); } }, class { n() {} });',
  'var § v = c(@), w = c(@);', 'var v = c(@), § w = c(@) && c(@), x = c(@);', 'let § v = () => c(@), w = () => c(@); v(); w();', 'let v = § () => c(@), w = () => c(@); v(); w();', 'const v = § function () { c(@); }; v();', 'const § v = function () { c(@); }, w = c(@); v();', 'for (var § i = c(@), j = c(@); c(@); c(@)) { c(@); }',
  'class K { § m() { c(@); } n() { c(@); } } new K().m(); new K().n();', 'class K { m() { c(@); } § n() { c(@); } o() { c(@); } } new K().m(); new K().n(); new K().o();', 'class K { § static m(p = c(@)) { c(@); } static n() { c(@); } } K.m(); K.n();', 'class K { § get g() { return c(@); } set g(v) { c(@); } } log(new K().g); new K().g = 1;', 'class K { get g() { return c(@); } § set g(v) { c(@); } } log(new K().g); new K().g = 1;', 'class K { § constructor() { c(@); } m() { c(@); } } new K().m();', 'class K { § #p() { c(@); } m() { this.#p(); c(@); } } new K().m();', 'class K { § async m() { c(@); } *n() { c(@); } } new K().m(); new K().n().next();', 'class K { § x = c(@); y = c(@); } new K();', 'class K { x = c(@); § static y = c(@) && c(@); z = c(@); } new K();', 'class K { § #f = c(@) ? 1 : 2; g = c(@); } new K();', 'class K { § x; y = c(@); } new K();', 'class K { § "lit"() { c(@); } 5() { c(@); } } new K().lit(); new K()[5]();', 'class K { § static { c(@); } static { c(@); } }',
  'log({ § m() { c(@); }, n() { c(@); } });', 'var v = { m() { c(@); }, § n() { return c(@); }, get § () { return c(@); } };', 'var v = { § get g() { return c(@); }, set g(x) { c(@); } }; log(v.g); v.g = 1;', 'var v = { get g() { return c(@); }, § set g(x) { c(@); } }; log(v.g); v.g = 1;', 'var v = { § async m() { c(@); }, *n() { c(@); } }; v.m(); v.n().next();', 'var v = { m: § function () { c(@); }, n: () => c(@) }; v.m(); v.n();', 'var v = { m: § () => c(@), n: () => c(@) }; v.m(); v.n();', 'var v = { a: § c(@) && c(@), b: c(@) && c(@) };', 'var v = { a: § c(@) ? c(@) : c(@), b: c(@) ? 1 : 2 };',
  'switch (c(@)) { § case 0: c(@); case 1: c(@); default: c(@); }', 'switch (c(@)) { case 0: c(@);\n§ case 1: c(@) && c(@); break;\ndefault: c(@); }', 'switch (c(@)) { case 0: c(@);\n§ default: { c(@); } }', 'switch (c(@)) { case 0:\n§ if (c(@)) c(@);\nc(@); break; default: }',
  'function f(§ a = c(@), b = c(@)) { return a; } f(n(@), n(@));', 'function f(a = c(@), § b = c(@) && c(@)) { return b; } f(n(@), n(@));', 'function f({ § q = c(@), p = c(@) }) { return q; } f(o(@));', 'var { q = c(@), § p = c(@) } = o(@);', 'var [§ q = c(@), p = c(@)] = it(@);', 'var { q: § v = c(@), p = c(@) } = o(@);', 'log(((§ p = c(@), q = c(@)) => p)(n(@), n(@)));', 'function f(a = § c(@), b = c(@)) { return a; } f(n(@), n(@));', 'try { throw o(@); } catch ({ § q = c(@), p = c(@) }) { c(@); }',
  'if (c(@)) § c(@); else c(@);', 'if (c(@)) c(@); else § c(@);', 'if (c(@)) c(@);\nelse § if (c(@)) c(@); else c(@);', 'if (c(@)) { c(@); } else {\n§ if (c(@)) c(@);\nc(@); }', 'while (c(@)) § if (c(@)) c(@); else c(@);', 'while (c(@)) § c(@);', 'for (const x of it(@)) § log(x);', 'do § c(@); while (c(@));', 'l: § while (c(@)) { if (c(@)) break l; }', '§ l: while (c(@)) { if (c(@)) continue l; c(@); } c(@);', 'for (;c(@);) { § if (c(@)) continue;\nc(@); }', 'if (§ c(@) && c(@)) c(@);', 'if (§ (() => c(@))()) c(@);', 'while (§ c(@) ? c(@) : 0) c(@);', 'for (var i = § c(@) && c(@); c(@);) c(@);',
  'log((() => § c(@))());', 'log((() => § (c(@) && c(@)))());', 'log((() => § c(@) && c(@))());', '(function () { § return c(@);\n})();', '(function () { c(@);\n§ return c(@) && c(@);\n})(); c(@);', '(function () { § throw c(@);\n})();', '(function () { return § c(@) ? c(@) : c(@); })();', '(function () { "use strict";\n§ c(@); return c(@); })();', '(function () { § })(c(@)); c(@);', '(function () { c(@);\n§ })(); c(@);', 'function f() { c(@); § } f(); c(@);', 'c(@);\n§ function f() { return c(@); } f();', 'c(@);\n§ class K { x = c(@); m() {} } new K();', 'c(@);\n§ {\nc(@); c(@); }\nc(@);', 'c(@);\n§ ;\nc(@);', 'c(@);\n§ tag`a${c(@)}`;\nc(@);', 'log(§ tag`a${c(@)}`, tag`b${c(@) && c(@)}`);', '§ tag`a`;', 'c(@, § c(@), c(@));', 'log([§ c(@) && c(@), c(@) && c(@)]);', 'log(`${§ c(@) && c(@)}${c(@) || c(@)}`);', 'log(...it(@), § c(@) ? 1 : 2);', 'v = § c(@) && c(@); var v;', '(async () => { § await c(@);\nawait c(@) && c(@); })();', '[...(function* () { § yield c(@);\nyield c(@) && c(@); })()];', 'new (§ class { m() { return c(@); } })().m();', 'log(!§ (c(@) && c(@)));', 'log(n(@)?.[§ c(@) && c(@)]);',
  '§ "use strict"; c(@);', '"use strict";\n§ c(@); c(@);', 'c(@)\n§', '§', 'var v;\n§ v = c(@);\nvar w = c(@);',
];
const MODPLACES = [
  'c(@);\n§ export const v = c(@) && c(@);\nc(@);', 'c(@);\n§ export let v = c(@), w = c(@);\nc(@);', '§ export function f() { c(@); } f();', 'c(@);\n§ export default function () { c(@); }\nc(@);', '§ export default () => c(@);', 'c(@);\n§ export default c(@) && c(@);\nc(@) && c(@);', '§ export class K { m() { c(@); } } new K().m();', '§ export default class { m() { c(@); } }', 'export § const v = c(@);\nc(@);', 'export const § v = c(@), w = c(@);', 'export const v = § () => c(@), w = () => c(@); v(); w();', 'export default § () => c(@);', 'export default § c(@) ? c(@) : c(@);', '§ import "m"; c(@);', '§ export { c as d }; var x = c(@);', 'export § function f() { c(@); } f();', 'export default § function f() { c(@); } f();', '§ await c(@);\nawait c(@);', 'c(@);\n§ export const v = () => c(@);\nv();', 'c(@);\n§ export async function f() { await c(@); }\nf();',
];
const IFPLACES = [
  '§ if ($E) $S', '§ if ($E) { $S } else { $S }', '§ if ($E) $S else $S', '§ if ($E) $S else if ($E) $S else $S', 'if ($E) $S else § if ($E) $S else $S', '§ if ($E) {} else $S', 'while (c(@)) { c(@);\n§ if ($E) { $S } else { $S }\nc(@); }', '(function () { §if ($E) { $S return c(@); } else { $S return c(@); } })();', 'if (c(@)) §if ($E) $S else $S', '§ if ($E) { § if (c(@)) $S else $S } else { $S }', '§ if (c(@)) $S\n§ if (c(@)) $S', 'l: § if ($E) { if (c(@)) break l; $S } else $S', 'switch (c(@)) { case 0: § if ($E) { $S } else { $S } default: $S }', 'for (;c(@);) § if ($E) continue; else $S',
];
const FILES = ['$S\n/* istanbul ignore file */', '$S /* istanbul ignore file */', '$S\n// istanbul ignore file', '$S // istanbul ignore file\n', '$S\n/* a */\n\n/* istanbul ignore file */ // b\n\n', '#!/usr/bin/env node\n/* istanbul ignore file */', 'import x from "x"; $S\n/* istanbul ignore file */\n', '$S\nexport const v = $E\n/* istanbul ignore file */', '"use strict"\n/* istanbul ignore file */', '"use strict"; $S\n/* istanbul ignore file */', 'c(@);\n{ $S /* istanbul ignore file */ }', 'function f() { $S } /* istanbul ignore file */', 'c(@) // istanbul ignore file', '/* istanbul ignore file */\n$S', '// istanbul ignore file\n$S', '/* istanbul ignore file: generated */\n$S', '#!/usr/bin/env node\n/* istanbul ignore file */\n$S', '/* a */ /* istanbul ignore file */ /* b */\n$S', '"use strict"; /* istanbul ignore file */\n$S', '$S /* istanbul ignore filed */', '/* istanbul ignore files */\n$S', '/* ignore file */\n$S', '\n\n/* istanbul ignore file */ function f() { $S }', '/* istanbul ignore file */', '/* istanbul ignore file */ export const v = $E;', 'c(@);\n$S\n/* istanbul ignored file */'];

// every combination of hints at the places marked '¶'
const SETS = [
  'log(¶ (¶ c(@) && ¶ c(@)) || ¶ c(@), c(@) && c(@));', 'log(¶ c(@) || ¶ (¶ c(@) && ¶ c(@)), c(@) && c(@));', 'log(¶ ((¶ c(@) ?? ¶ c(@))) ?? ¶ c(@));', 'log((¶ (¶ c(@) || ¶ c(@)) && ¶ (¶ c(@) || c(@))) ?? ¶ 1);',
  'log(¶ c(@) ? ¶ c(@) : ¶ c(@), c(@) ? 1 : 2);', 'log(c(@) ? ¶ (¶ c(@) && ¶ c(@)) : ¶ (¶ c(@) ? ¶ c(@) : c(@)));', 'log(¶ c(@) && (¶ c(@) ? ¶ c(@) : ¶ c(@)) && (() => ¶ (c(@) || c(@)))());',
  'switch (c(@)) {\n¶ case 0: c(@);\n¶ case 1: ¶ c(@) && c(@);\n¶ case c(@) && c(@): c(@); break;\n¶ default: c(@) || c(@); }', 'switch (c(@)) {\n¶ case 0:\n¶ case c(@): }\nif (c(@)) c(@);',
  'function f(¶ a = c(@), ¶ { ¶ b = c(@) } = o(@), [¶ d = ¶ (c(@) && c(@))] = it(@)) { return c(@); } f(n(@), n(@));',
  'var ¶ d = () => c(@), ¶ e = ¶ function () { c(@); };\nvar ¶ a = c(@), ¶ b = ¶ c(@) && ¶ c(@);\nd(); if (c(@)) c(@);',
  'class K {\n¶ m() { c(@); }\n¶ f = c(@);\n¶ static g = c(@) && c(@);\n¶ get h() { return c(@); }\n¶ #p(a = c(@)) { return c(@); }\n q() { return this.#p(); } }\nnew K().m(); new K().q(); new K().h;',
  'var v = {\n¶ m() { c(@); },\n¶ get h() { return c(@); },\n¶ set h(x) { c(@); },\n a: ¶ c(@) && c(@),\n b: ¶ () => c(@) };\nv.m(); v.h; v.h = 1; v.b && v.b();',
  'c(@);\n¶ function f() {\n¶ c(@);\n¶ return ¶ c(@) && c(@); }\nf();\n¶ for (const x of it(@)) {\n¶ if (c(@)) continue;\nc(@); }',
  'c(@);\n¶ try {\n¶ c(@); } catch ({ ¶ q = c(@) }) {\n¶ c(@); } finally {\n¶ c(@) && c(@); }\nc(@);',
];
const IFSETS = ['c(@);\n¶ if (c(@)) {\n¶ if (c(@)) c(@); else c(@);\n} else\n¶ if (c(@)) c(@); else c(@);', '¶ if (c(@)) {\n c(@) && c(@); } else if (c(@)) {\n¶ if (c(@)) c(@); c(@); } else c(@) || c(@);', 'while (c(@)) {\n¶ if (c(@)) break;\n¶ if (c(@)) { c(@); continue; } else { c(@); }\n¶ if (c(@)) c(@); }'];
function* sets(list, forms) {
  for (const p of list) {
    const n = p.split('¶').length - 1, k = forms.length + 1;
    for (let m = 1; m < k ** n; m++) {
      let i = 0, out = '';
      for (const part of number(p).split('¶')) {
        if (i) { const c = forms[Math.floor(m / k ** (i - 1)) % k - 1]; out = c ? put(out + '§' + part, c) : out + part.replace(/^ /, ''); } else out = part;
        i++;
      }
      yield out;
    }
  }
}

function number(s) { let n = 0; return s.replace(/@/g, () => String(++n)); }
// swc hands over a comment as belonging to the next token only if a line break
// or one of these comes before it (the other positions are known findings)
const OPEN = /(?:^|[([,=?:&|!~+\-*/<>%^)]|\b(?:else|do|return|throw|export|default|case|in|typeof|void|new|const|var))\s*$/;
const BINOP = /(?:^|\n)\s*$/;
function put(s, c) {
  const parts = s.split('§');
  let out = parts[0];
  for (let i = 1; i < parts.length; i++) {
    const line = /^\/\//.test(c);
    if (c && !(line ? BINOP : OPEN).test(out) && !/\n\s*$/.test(out)) out = out.replace(/ $/, '') + '\n';
    out += c + parts[i].replace(/^ /, '');
  }
  return out;
}

function* hints(tier) {
  const all = NEXT.concat(NOT);
  // every statement form under a hint in the plain frame, with every comment form
  for (const f of FRAMES) for (const s of STMTS) {
    const t = { k: 'S', s: f.replace('H', () => s) };
    const src = g.render(leafTree(t));
    const forms = f === FRAMES[0] ? (tier === 'thorough' ? all : NEXT.slice(0, 2).concat(NOT.slice(0, 1))) : tier === 'thorough' ? NEXT.slice(0, 2).concat(NOT.slice(0, 2)) : NEXT.slice(0, 1);
    for (const c of forms) yield { src: put(src, c), script: false };
    if (f === FRAMES[0]) yield { src: put(src, NEXT[0]), script: true };
  }
  for (const p of PLACES) {
    const src = number(p);
    for (const c of all.concat(IFNOT)) { yield { src: put(src, c), script: false }; yield { src: put(src, c), script: true }; }
  }
  for (const p of MODPLACES) for (const c of all) yield { src: put(number(p), c), script: false };
  // if / else hints with every filler in every hole
  for (const p of IFPLACES) {
    const t = { k: 'S', s: p };
    const hs = g.holes(t);
    const trees = [leafTree(t)];
    for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { core: tier !== 'thorough' })) {
      const kids = new Array(hs.length).fill(null); kids[h] = leafTree(f); trees.push({ t, kids });
    }
    trees.forEach((tr, i) => {});
    for (let i = 0; i < trees.length; i++) {
      const src = g.render(trees[i]);
      const cs = i === 0 ? IFS.concat(IFNOT, NEXT) : [IFS[0], IFS[3], NEXT[0]];
      for (const c of cs) { yield { src: put(src, c), script: true }; if (i === 0) yield { src: put(src, c), script: false }; }
    }
  }
  for (const p of FILES) {
    const t = { k: 'S', s: p };
    const hs = g.holes(t);
    for (const f of hs.length ? [null].concat(g.fillers(hs[0], { core: true })) : [null]) {
      const src = g.render({ t, kids: hs.length && f ? [leafTree(f)] : [] });
      for (const script of [false, true]) if (!(script && /export/.test(src))) yield { src, script };
    }
  }
  for (const src of sets(SETS, NEXT.slice(0, 1))) { yield { src, script: false }; if (tier === 'thorough') yield { src, script: true }; }
  for (const src of sets(IFSETS, [NEXT[0], IFS[0], IFS[3]])) { yield { src, script: true }; if (tier === 'thorough') yield { src, script: false }; }
  // pairs of hints in one sequence
  const cs = g.S.filter((t) => g.CORE.has(t.s));
  for (const a of cs) for (const b of cs) {
    const src = g.render({ t: { k: 'S', s: '§ $S\n¤ $S\nc(@);' }, kids: [leafTree(a), leafTree(b)] });
    yield { src: put(src.split('¤').join(''), NEXT[0]), script: false };
    yield { src: put(src, '').split('¤').join(NEXT[1]), script: true };
    if (tier === 'thorough') yield { src: put(src, NEXT[0]).split('¤').join(NEXT[0]), script: false };
  }
}

// Hints in TypeScript, compiled away before or after: the placements above, and
// every construct of the types family behind a hint (of an erased declaration
// the hint is erased with it).
const TYPED = [
  'class K% { § ‹public› m() { c(@); } § ‹private› static s() { return c(@); } § ‹protected readonly› x‹: any› = c(@); § get ‹›g()‹: any› { return c(@) && c(@); } } new K%().m(); K%.s(); log(new K%().g);',
  'class K% { ‹§ m(a: string): void; m(a: number): void;› m(a‹?: any›) { c(@); } ‹§ [k: string]: any;› n() { c(@); } } new K%().m(); new K%().n();', 'class K% { m() { c(@); } ‹§ declare y: any;› n() { c(@); } ‹§ abs?: any;› o = c(@) && c(@); } new K%().n();',
  'c(@); ‹§ type A% = 1;› c(@); ‹§ interface B% { a: 1 }› if (c(@)) c(@);', 'function f%() { ‹§ type A% = 1;› return c(@) || c(@); } f%();', '‹§ declare const d%: number;› var v% = c(@), § w%‹: number› = c(@);', '‹§ import type X% from "x";› c(@);', '‹§ export type T% = 1;› export const v% = c(@) && c(@);', 'switch (c(@)) { case 0: ‹§ type Q% = 1;› c(@); § case (c(@)‹ as any›): c(@); }',
  'log(c(@) && § (c(@)‹ as any›) && c(@));', 'log(c(@) ? § (c(@)‹ as any›) : § (c(@)‹!›));', 'log((§ (a‹: any›)‹: any› => c(@))(1), ((a‹: any›)‹: any› => c(@))(1));', 'function f%(§ a‹: any› = c(@), b‹: any› = c(@))‹: void› { return b; } f%(n(@), n(@));', 'var § { q% = c(@) }‹: { q?: any }› = o(@), [r% = c(@)]‹: any[]› = it(@);', 'c(@); § export default (c(@)‹ as any›);', 'c(@); § export ‹abstract› class K% { m() { c(@); } }', 'c(@); § ‹abstract› class K% { m() { c(@); } } c(@);', 'for (const x of it(@)) { § if ((c(@)‹ as any›)) c(@); c(@)‹!›; }',
];
function* tshints(tier) {
  const ts = require('./ts.js');
  const reqs = [{ ts: true, strip: 'before' }, { ts: true, strip: 'after' }];
  const forms = tier === 'thorough' ? NEXT.concat(NOT.slice(0, 4)) : NEXT.slice(0, 2).concat(NOT.slice(0, 1));
  const both = function* (src) { for (const req of reqs) yield { src: ts.textOf(src), refSrc: ts.refOf(src), script: false, req, compiled: true }; };
  for (const p of PLACES.concat(MODPLACES)) for (const c of forms) yield* both(put(number(p), c));
  for (const p of IFPLACES) for (const c of [IFS[0], IFS[3]]) yield* both(put(g.render(leafTree({ k: 'S', s: p })), c));
  for (const p of TYPED) for (const c of forms) yield* both(g.render(leafTree({ k: 'S', s: '\n' + p.replace(/§/g, '\n' + c.replace(/^\s+/, '')) })));
  for (const t of ts.T) {
    if (/istanbul/.test(t.s)) continue;
    for (const c of forms) {
      const x = g.render(leafTree({ k: 'S', s: /^‹(?!abstract)/.test(t.s) ? t.s.replace('‹', () => '‹\n' + c) : '\n' + c + t.s }));
      yield* both(x);
    }
  }
}
module.exports = { hints, tshints };
