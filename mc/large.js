'use strict';
// Sizes: many entries of each kind, long chains, deep nesting, far positions.
// Every count around the powers of ten, the widths of small integers, and up to
// the bound. Runs are few: the choices of a large program are cut at the depth.
const number = (s) => { let n = 0; return s.replace(/@/g, () => String(++n)); };
const UNIT = [
  'c(@);', 'var v% = c(@);', 'if (c(@)) c(@);', 'function f%() { c(@); } f%();', 'log(c(@) && c(@));', 'log((() => c(@))());', 'class K% { m() { c(@); } x = c(@); } new K%();', '(({ q = c(@) }) => q)(o(@));', 'log(c(@) ? c(@) : c(@));', 'switch (c(@)) { case 0: c(@); default: }', 'for (const x of it(@)) c(@);', 'log({ m() { return 1; }, get g() { return 2; } }.m());', 'l%: { c(@); break l%; }', 'try { c(@); } catch { c(@); }', 'tag`${c(@)}`;', 'export const v% = c(@);', 'export let v% = () => c(@);',
];
const LISTS = [ // unit, separator, frame
  ['c(@)', ' && ', 'log(X);'], ['c(@)', ' || ', 'log(X);'], ['c(@)', ' ?? ', 'log(X);'], ['c(@) && c(@)', ' || ', 'if (X) c(@); else c(@);'], ['(c(@) || c(@))', ' && ', 'log(X);'],
  ['case @: c(@);', '\n', 'switch (c(@)) { X default: c(@); }'], ['case c(@): c(@); break;', '\n', 'switch (c(@)) { X }'], ['if (c(@)) c(@);', ' else ', 'X'], ['if (c(@)) { c(@); }', ' else ', 'X else { c(@); }'], ['c(@) ? c(@)', ' : ', 'log(X : c(@));'],
  ['p@ = c(@)', ', ', '(function (X) { })();'], ['v@ = c(@)', ', ', 'var X;'], ['v@ = () => c(@)', ', ', 'let X; log(v1());'], ['k@: c(@)', ', ', 'log({ X }.k1);'], ['m@() { return c(@); }', ' ', 'class K { X } new K().m1();'], ['x@ = c(@);', ' ', 'class K { X } new K();'], ['static { c(@); }', ' ', 'class K { X }'], ['c(@)', ', ', 'log(X);'], ['() => c(@)', ', ', '[X].forEach((f) => f());'], ['${c(@)}', ' ', 'tag`X`; log(`X`);'], ['c(@), c(@)', ' ? 1 : ', 'log((X));'.replace('(X)', '[(X)]')],
];
const NEST = [ // open, core, close
  ['if (c(@)) { ', 'c(@);', ' }'], ['if (c(@)) ', 'c(@);', ''], ['if (c(@)) {} else { ', 'c(@);', ' }'], ['{ ', 'c(@);', ' }'], ['(() => ', 'c(@)', ')()'], ['(function () { return ', 'c(@)', '; })()'], ['(c(@) && ', 'c(@)', ')'], ['(c(@) || (c(@) && ', 'c(@)', '))'], ['(c(@) ? ', 'c(@)', ' : c(@))'], ['for (const x of it(@)) ', 'c(@);', ''], ['while (c(@)) { ', 'c(@); break;', ' break; }'], ['l%: { ', 'c(@);', ' break l%; }'], ['switch (c(@)) { case 0: ', 'c(@);', ' }'], ['try { ', 'c(@);', ' } finally { c(@); }'], ['log(new (class { m() { return ', 'c(@)', '; } })().m())'], ['c(@, ', 'c(@)', ')'], ['[', 'c(@)', '][0]'], ['({ a: ', 'c(@)', ' }).a'], ['(', 'c(@)', ')'], ['!', 'c(@)', ''], ['`${', 'c(@)', '}`'], ['((p = ', 'c(@)', ') => p)()'], ['function f%() { ', 'c(@);', ' } f%();'],
].map(([a, b, c]) => (c === undefined ? [a.replace(/c\(@\).*$/, ''), b, c] : [a, b, c])).filter((x) => x[2] !== undefined);
function* large(tier) {
  const thorough = tier === 'thorough';
  const limits = { depth: 4, throws: 1, maxRuns: 12 };
  const mk = (s) => ({ src: number(s), script: false, limits });
  const counts = thorough ? [9, 10, 11, 12, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1025] : [10, 11, 101, 130, 257];
  const reps = (u, n) => Array.from({ length: n }, (_, i) => u.replace(/%/g, '_' + i));
  for (const n of counts) for (const u of UNIT) yield mk(reps(u, n).join('\n'));
  for (const n of counts) for (const [u, sep, frame] of LISTS) if (n < 300 || !/ else | : |[&|?]/.test(sep)) yield mk(frame.split('X').join(reps(u, n).join(sep)));
  // ids of different kinds side by side
  for (const n of counts.filter((x) => x < 300)) { yield mk(reps('if (c(@)) { log(c(@) || (() => c(@))()); }', n).join('\n')); yield mk('function f() {\n' + reps('var v% = c(@) ? c(@) : c(@);', n).join('\n') + '\n}\nf();'); }
  for (const n of thorough ? [2, 3, 4, 5, 8, 12, 16, 24, 32, 48, 64] : [3, 4, 5, 9, 17, 33]) for (const [a, b, c] of NEST) {
    let s = '', e = '';
    for (let i = 0; i < n; i++) { s += a.replace(/%/g, '_' + i); e = c.replace(/%/g, '_' + i) + e; }
    const whole = s + b + e;
    yield mk(/[;}]\s*$/.test(whole) || /^(if|for) /.test(a) ? whole : `log(${whole});`);
  }
  // far positions
  for (const n of thorough ? [98, 99, 254, 255, 256, 998, 999, 4095, 65533, 65534, 65535, 65536, 100000] : [99, 255, 256, 65534, 65535, 65536]) for (const ch of ['\n', ' ', '\r\n', ';', '/**/\n', '\u00e9']) {
    const pad = ch === '\u00e9' ? `/*${ch.repeat(n)}*/` : ch.repeat(n);
    if (ch === ';' && n > 300) continue;
    yield { ...mk(pad + 'function f(a = c(@)) { if (a && c(@)) { return a ? c(@) : () => c(@); } } f();'), static: false };
    yield mk('if (c(@)) {' + pad + ' log(c(@) ||' + pad + ' c(@)); }');
  }
  if (thorough) for (const u of ['c(@);', 'log(c(@) && c(@));', 'function f%() { c(@); }']) for (const n of u === 'c(@);' ? [32769, 65537] : [32769]) yield { ...mk(reps(u, n).join('\n')), static: true };
}
module.exports = { large };
