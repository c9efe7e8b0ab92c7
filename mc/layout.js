'use strict';
// C09: every construct of the grammar with every kind of layout in every gap
// between its tokens. Only entries and their ranges are judged (static).
const g = require('./gen.js');
const { leafTree, asStmt } = require('./corpus.js');
const acorn = require('./vendor/acorn.js');

const TRIVIA = ['\t', '\n', '\r\n', '\r', '\n\n\n', '\u00a0', '\ufeff', '/*\u00e9*/', '/*\u6f22\u5b57*/', '/*\ud83d\ude00*/', '/*a\n\ud83d\ude00b*/', '/*\r\n*/', '//c\ud83d\ude00\n', '//\u00e9\r\n'];
const PREFIX = ['\ufeff', '\ufeff\n', '\ufeff/*\ud83d\ude00*/', '#!/x\ud83d\ude00\n', '\ufeff"\u00e9"; ', '"\ud83d\ude00";', '`\n\ud83d\ude00`;', '`a\r\n\u00e9b`;', '\n\r\n', '\r\n\t', '"a\\\nb";', '"\u2028";', '/*\u00e9\n\n*/ ', 'var \u{20bb7}, \u00f1; ', '/\ud83d\ude00/u; ', '  '];
const INFIX = ['\ud83d\ude00', '\u00e9'];
const IDENT = ['v\u00e9', 'v\u{20bb7}', '\u6f22'];

const inFn = { k: 'S', s: '(function () { $F })();' };
const inLoop = { k: 'S', s: 'while (c(@)) { $L }' };
function* bases(tier) {
  const seen = new Set();
  const out = [];
  const put = (src, script) => { const k = (script ? 's' : 'm') + src; if (!seen.has(k)) { seen.add(k); out.push({ src, script }); } };
  for (const t of g.S) put(g.render(leafTree(t)), false);
  for (const t of g.E) put(g.render(asStmt(leafTree(t))), false);
  for (const t of g.MODULE) put(g.render(leafTree(t)), false);
  for (const t of g.SLOPPY) put(g.render(leafTree(t)), true);
  for (const t of g.SF) put(g.render({ t: inFn, kids: [leafTree(t)] }), true);
  for (const t of g.SL) put(g.render({ t: inLoop, kids: [leafTree(t)] }), true);
  yield* out;
}
// uncommon constructs: fewer kinds of layout
function* rarely(thorough) {
  const rare = require('./rare.js');
  const few = thorough ? TRIVIA : ['\r\n', '/*\ud83d\ude00*/'];
  for (const [list, script] of [[rare.M, false], [rare.SCRIPT, true]]) for (const s of list) {
    const src = g.render(leafTree({ k: 'S', s }));
    const mk = (x) => ({ src: x, script, static: true });
    const gs = gaps(src, script);
    for (const at of gs) for (const t of few) yield mk(src.slice(0, at) + t + src.slice(at));
    for (const t of TRIVIA) {
      let x = '', p = 0;
      for (const at of gs) { x += src.slice(p, at) + t; p = at; }
      yield mk(x + src.slice(p));
    }
    for (const p of PREFIX) yield mk(p + src);
  }
}
function gaps(src, script) {
  const at = new Set([0, src.length]);
  try { for (const t of acorn.tokenizer(src, { ecmaVersion: 'latest', sourceType: script ? 'script' : 'module' })) { at.add(t.start); at.add(t.end); } } catch { /* the parser decides what a regexp is */ }
  return [...at].sort((a, b) => a - b);
}
function* layout(tier) {
  const thorough = tier === 'thorough';
  yield* rarely(thorough);
  for (const b of bases(tier)) {
    const mk = (src) => ({ src, script: b.script, static: true });
    yield mk(b.src);
    for (const p of PREFIX) yield mk(p + b.src);
    const gs = gaps(b.src, b.script);
    for (const at of gs) for (const t of TRIVIA) yield mk(b.src.slice(0, at) + t + b.src.slice(at));
    // layout in every gap at once, behind every prefix
    for (const t of TRIVIA) {
      let s = '', p = 0;
      for (const at of gs) { s += b.src.slice(p, at) + t; p = at; }
      s += b.src.slice(p);
      for (const q of ['', ...PREFIX]) yield mk(q + s);
    }
    for (const id of IDENT) yield mk(b.src.replace(/\b(?:v|w|x|i|j|l|m|f|K|nm)_\d+\b/g, (x) => id + x));
    if (thorough) {
      const few = ['\r\n', '/*\ud83d\ude00*/', '/*\u00e9\n*/', '\t'];
      for (let i = 0; i < gs.length; i++) for (let j = i + 1; j < gs.length; j++) for (const t of few) for (const u of few) yield mk(b.src.slice(0, gs[i]) + t + b.src.slice(gs[i], gs[j]) + u + b.src.slice(gs[j]));
    }
  }
}
// TypeScript and JSX: layout at the gaps outside of the text that is compiled
// away (next to it none with line breaks, which could end a statement there)
function* typedlayout(tier) {
  const ts = require('./ts.js');
  const thorough = tier === 'thorough';
  const few = thorough ? TRIVIA : ['\r\n', '/*\u6f22\u5b57*/', '/*\ud83d\ude00*/', '//\u00e9\r\n', '\r'];
  const reqs = [[ts.T, [{ ts: true, strip: 'before' }, { ts: true, strip: 'after' }]], [ts.JSX, [{ jsx: true }]]];
  for (const [list, rs] of reqs) for (const t of list) {
    if (/istanbul/.test(t.s)) continue;
    const x = g.render(leafTree(t));
    const src = ts.textOf(x), ref = ts.refOf(x);
    // offsets of the marked text
    const marked = []; { let n = 0, m; const re = /‹([^¦›]*)(?:¦([^›]*))?›/gu; let last = 0; while ((m = re.exec(x))) { n += m.index - last; marked.push([n, n + m[1].length]); n += m[1].length; last = m.index + m[0].length; } }
    const ok = (at) => !marked.some(([a, b]) => at > a && at < b), near = (at) => marked.some(([a, b]) => at === a || at === b);
    const gs = gaps(ref, false).filter(ok);
    const put = function* (s, r) { for (const req of rs) yield { src: s, refSrc: r, script: false, static: true, req, compiled: true }; };
    const at1 = (s, at, z) => s.slice(0, at) + z + s.slice(at);
    for (const p of PREFIX) yield* put(p + src, p + ref);
    if (list === ts.JSX) continue;
    for (const at of gs) for (const z of few) if (!(near(at) && /[\r\n]/.test(z))) yield* put(at1(src, at, z), at1(ref, at, z));
    for (const z of TRIVIA) {
      const all = (s) => { let o = '', p = 0; for (const at of gs) { if (near(at) && /[\r\n]/.test(z)) continue; o += s.slice(p, at) + z; p = at; } return o + s.slice(p); };
      for (const q of thorough ? ['', ...PREFIX] : ['', PREFIX[2], PREFIX[7]]) yield* put(q + all(src), q + all(ref));
    }
  }
}
module.exports = { layout, typedlayout };
