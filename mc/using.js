'use strict';
// Explicit resource management: programs of the other lists whose constants are
// resources (`using x`, `await using x`, `for (using x of ...)`). Nothing here can run
// such a declaration, so the compiled and the instrumented text are run as the `const`
// they were made of: the counting is the same, only the disposal is left out.
const acorn = require('./vendor/acorn.js');
const parses = (src, script) => { try { acorn.parse(src, { ecmaVersion: 'latest', sourceType: script ? 'script' : 'module', allowReturnOutsideFunction: false }); return true; } catch { return false; } };
const PAD = '      const';
function* of(list) {
  for (const p of list) {
    if (p.opts || p.req || p.refSrc || !/\bconst +[\w$]/.test(p.src)) continue;
    // all of them, then each one alone
    const n = p.src.match(/\bconst(?= +[\w$])/g).length;
    for (const w of ['using', 'await using']) for (let k = -1; k < (n > 1 ? n : 0); k++) {
      let i = 0, j = 0;
      const at = (a, b) => (m) => (k < 0 || k === (a ? i++ : j++) ? b : m);
      const src = p.src.replace(/\bconst(?= +[\w$])/g, at(true, w));
      if (!parses(src, p.script)) continue;
      yield { src, script: p.script, refSrc: p.src.replace(/\bconst(?= +[\w$])/g, at(false, w === 'using' ? 'const' : PAD)), using: true };
    }
  }
}
const plain = (code) => code.replace(/\bawait using\b/g, 'const').replace(/\busing\b/g, 'const');
const T = [
  'const x = o(1), y = c(1) || o(2); log(x, y);', '{ const x = o(1); log(x); } log(2);', 'for (const x of it(1)) log(x);', 'for (const x of it(1)) { const y = c(1) ? x : 1; if (c(2)) continue; log(y); }', 'for (const i = o(1); c(1);) { log(i); }',
  'function f() { const x = c(1) && o(1); if (c(2)) return x; const y = o(2); return y; } f(); f();', 'const f = async () => { const x = await p(1); for await (const y of it(2)) { const z = y; log(z); } return x; }; f().then(log, log);',
  'function* g() { const x = yield 1; { const y = yield x; log(y); } } log([...g()]);', 'class K { static { const x = c(1); log(x || 2); } m() { const y = c(2); return y; } } new K().m();', 'try { const x = c(1); if (x) throw x; } catch (e) { const y = e; log(y); } finally { const z = 1; log(z); }',
  'switch (c(1)) { case 0: { const x = 1; log(x); break; } default: { const y = c(2) ?? 2; log(y); } }', 'l: { const x = c(1); if (x) break l; log(x); }', 'if (c(1)) { const x = 1; log(x); } else { const y = 2; log(y); }', 'const a = 1, b = a, d = [a && b]; log(d.length);', 'while (c(1)) { const x = c(2); if (x) break; }', 'do { const x = c(2); log(x); } while (c(1));',
  'const x = c(1)\nconst y = x\nlog(y)', 'const f = () => c(1); log(f(), f.name);', 'const f = function () { const x = c(1); return x; }; log(f(), f.name);', 'const K = class { m() { return 1; } }; log(new K().m(), K.name);', 'const x = (0, () => 1), y = null; log(x(), y);', '(() => { const x = c(1), y = c(2); return x && y; })();',
];
function* using(tier) {
  yield* of(T.flatMap((src) => [{ src, script: false }, { src: `(async () => { ${src} })();`, script: true }]));
  yield* of(require('./rare.js').rare(tier));
  yield* of(require('./grid.js').grid(tier));
  if (tier === 'thorough') yield* of(require('./corpus.js').forms(tier));
}
module.exports = { using, plain };
if (require.main === module) { let n = 0, a = 0; for (const p of using(process.argv[2] || 'quick')) { n++; if (/await using/.test(p.src)) a++; if (n % 997 === 0) console.log(p.src); } console.log(n, a); }
