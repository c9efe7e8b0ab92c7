'use strict';
// C05: logical shapes x every operand value of the lattice in env.js (v).
const g = require('./gen.js');
const { leafTree } = require('./corpus.js');
const ONE = ['V', '(V)', '(V, V)', '(c(@) ? V : 1)', '(x = V)', 'log(V)', '[V][0]', '({ a: V }).a', '(() => V)()', '(await_)', 'n(@)?.[V]', 'typeof V', '!V', 'V?.x', '(V, 0)', 'tag`a${V}`', '(function () { return V; })()', '(class { static x = V; }).x', '((p = V) => p)(n(@))', 'c(@)', '(x ||= V)', '(x ??= V)', 'o(@)', 'it(@)', '(() => {})', '(function () {})', '(class {})', 'log', '/r/', '`t`', '``', '1', '0', 'null', 'void 0', '[]', '({})', '{ a: 1 }', 'this', 'Array', 'Object', 'new Array(0)', 'new Object()'].filter((s) => !/await_|^\{/.test(s));
const OPS = ['&&', '||'];
const WRAP = ['log(X);', 'if (X) c(@); else c(@);', 'var y = X;', 'x = X;', 'while (X) { if (c(@)) break; c(@); break; }', 'log((() => X)());', '(function () { return X; })();', '(async () => { log(await (X)); })();', 'log(c(@) ? X : c(@));', 'log(`${typeof (X)}`);', 'for (var i = 0; i < 2; i++) log(X);', 'switch (X) { case 0: c(@); default: }', '(function* () { log(yield (X)); })().next();', 'class K { static s = X; f = X; m(p = X) { return X; } } log(new K().m());', 'log(...it(@), X);', 'export const z = X;', 'log({ [typeof (X)]: X });', 'try { throw X; } catch (e) { log(e); }', 'log(n(@)?.(X));', 'log(!(X), -1, (X, 1));', 'delete o(@)[typeof (X)];'];
const number = (s) => { let n = 0; return s.replace(/@/g, () => String(++n)); };
function* truth(tier) {
  const P = (s, big) => ({ src: (/\bx\b ?(=|\|\||\?\?)/.test(s) ? 'var x; ' : '') + number(s.replace(/V/g, 'v(@)').replace(/U/g, 'u(@)')), script: false, limits: { depth: 4, throws: 1, maxRuns: big } });
  // every operand form next to every value
  for (const op of OPS.concat('??')) for (const e of ONE) { yield P(`log(${e} ${op} V);`, 4000); yield P(`log(V ${op} ${e});`, 4000); }
  // chains of three and four (all association shapes and operators)
  const three = (a, b) => [`V ${a} V ${b} V`, `(V ${a} V) ${b} V`, `V ${a} (V ${b} V)`];
  const chains = [];
  for (const a of OPS) for (const b of OPS) chains.push(...three(a, b));
  chains.push('V ?? V ?? V', '(V ?? V) || V', 'V ?? (V && V)', '(V || V) ?? V');
  for (const s of chains) { yield P(`log(${s.replace(/V/g, 'U')});`, 100000); if (tier === 'thorough') yield P(`log(${s});`, 200000); }
  for (const a of OPS) for (const b of OPS) for (const c of OPS) for (const s of [`U ${a} U ${b} U ${c} U`, `(U ${a} U) ${b} (U ${c} U)`, `U ${a} (U ${b} (U ${c} U))`, `U ${a} c(@, U ${b} U) ${c} U`]) yield P(`log(${s});`, tier === 'thorough' ? 100000 : 5000);
  // enclosing constructs
  for (const w of WRAP) for (const x of ['V && V', 'V || V', '(V ?? V)', 'V && c(@)', 'c(@) || V', '(c(@) && V || V)']) yield P(w.split('X').join(x), tier === 'thorough' ? 20000 : 2500);
}
module.exports = { truth };
