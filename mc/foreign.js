'use strict';
// Programs that are instrumented already: as another file by the instrumenter
// itself (`first`), or by another tool in the same style. They are programs like
// any other: their own counters keep working and are statements to be counted.
const g = require('./gen.js');
const { leafTree, asStmt } = require('./corpus.js');
const rare = require('./rare.js');
const number = (s) => { let n = 0; return s.replace(/@/g, () => String(++n)); };
const HEAD = (name) => `function ${name}() { var d = globalThis.foreign_ || (globalThis.foreign_ = { s: {}, f: {}, b: { 0: [0, 0] }, bT: {} }); ${name} = function () { return d; }; return d; }\n${name}();\n`;
const BODY = [
  'X().s[0]++; c(@);', 'X().s[0]++;', 'X().f[0]++; X().s[1]++; log(1);', 'if (c(@)) { X().b[0][0]++; X().s[2]++; c(@); } else { X().b[0][1]++; }', 'log((X().b[0][0]++, c(@)) || (X().b[0][1]++, c(@)));', 'log((X().s[0]++, c(@)));', 'var v = (X().s[0]++, c(@));', 'function f() { X().f[0]++; X().s[3]++; return c(@); } f(); f();', 'const f = () => { X().f[0]++; X().s[4]++; return c(@); }; log(f.name, f());', 'const f = (p = (X().b[0][0]++, c(@))) => (X().s[0]++, p); log(f());', 'class K { m() { X().f[0]++; X().s[0]++; c(@); } x = (X().s[1]++, c(@)); } new K().m();', 'switch (X().s[0]++, c(@)) { case 0: X().b[0][0]++; X().s[1]++; c(@); break; default: X().b[0][1]++; }', 'for (const x of (X().s[0]++, it(@))) { X().s[1]++; c(@); }', 'X().bT[0]++; X(), c(@);', 'X().s[0] += 1; X().s[0] = X().s[0] || 0; ++X().s[0];', 'X().b[0]++; X().x[0]++; X.s[0]++; X()["s"][0]++; X().s++;', 'let _temp; log((X().b[0][0]++, (_temp = c(@), _temp)) && c(@));', 'export const v = (X().s[0]++, c(@));', 'export default (X().s[0]++, c(@));', 'try { X().s[0]++; c(@); } finally { X().s[1]++; }', 'l: { X().s[0]++; break l; } X().s[1]++;', '(X().s[0]++, X().s[1]++, c(@));', 'function g() { X().s[0]++; } g(); X().s[1]++;', 'if (c(@)) X().s[0]++; else X().s[1]++;', 'while (c(@)) X().s[0]++;', 'log(() => X().s[0]++, X().s[0]++);', '"use strict"; X().s[0]++;',
];
const NAMES = ['cov_1', 'cov_12345678901234567890', 'cov_abc', 'cov', 'cov_', '__cov_1', 'cov_2hj4', 'counter', 'coverage'];
function* foreign(tier) {
  for (const n of NAMES) for (const b of BODY) { const s = HEAD(n) + number(b.replace(/\bX\b/g, n)) + `\nlog(globalThis.foreign_);`; yield { src: s, script: false }; if (!/export/.test(b)) yield { src: s, script: true }; }
  const twice = (src, script, first = {}) => ({ src, script, first: { filename: '/p/g.js', ...first } });
  const trees = [...g.S.map(leafTree), ...g.E.map((t) => asStmt(leafTree(t))), ...g.SF.map((t) => ({ t: { k: 'S', s: '(function () { $F })();' }, kids: [leafTree(t)] })), ...g.MODULE.map(leafTree)];
  for (const t of trees) { const s = g.render(t); yield twice(s, false); yield twice(s, false, { opts: { reportLogic: true } }); }
  for (const t of g.SLOPPY) yield twice(g.render(leafTree(t)), true);
  for (const s of rare.M) yield twice(g.render(leafTree({ k: 'S', s })), false, { opts: { reportLogic: true } });
  for (const s of rare.SCRIPT) yield twice(g.render(leafTree({ k: 'S', s })), true);
}
module.exports = { foreign };
