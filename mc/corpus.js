'use strict';
// Exhaustive program families over the grammar of gen.js. Each is a generator
// of { src, script } in a fixed order; duplicates are removed by the explorer.
const g = require('./gen.js');
const leafTree = (t) => ({ t, kids: [] });

// every template, every hole, every filler (one substituted hole at a time)
function* substitute(parents, opts, wrap) {
  for (const t of parents) {
    yield wrap(leafTree(t));
    const hs = g.holes(t);
    for (let h = 0; h < hs.length; h++) {
      for (const f of g.fillers(hs[h], opts)) {
        const kids = new Array(hs.length).fill(null);
        kids[h] = leafTree(f);
        yield wrap({ t, kids });
      }
    }
  }
}
function* substitute3(parents, opts, wrap) {
  for (const t of parents) {
    const hs = g.holes(t);
    for (let h = 0; h < hs.length; h++) for (const f of g.fillers(hs[h], { ...opts, core: true })) {
      const hs2 = g.holes(f);
      for (let j = 0; j < hs2.length; j++) for (const e of g.fillers(hs2[j], { ...opts, core: true })) {
        const kids2 = new Array(hs2.length).fill(null);
        kids2[j] = leafTree(e);
        const kids = new Array(hs.length).fill(null);
        kids[h] = { t: f, kids: kids2 };
        yield wrap({ t, kids });
      }
    }
  }
}
const asStmt = (tree) => ({ t: { k: 'S', s: 'log($E);' }, kids: [tree] });

function* forms(tier) {
  const less = tier === 'small';
  const stmt = (script) => (tr) => ({ src: g.render(tr), script });
  const ex = (script) => (tr) => ({ src: g.render(asStmt(tr)), script });
  const inFn = { k: 'S', s: '(function () { $C })();' };
  const inLoop = { k: 'S', s: '(async function () { for (const x of it(@)) { $L } })();' };
  const wrapFn = (script) => (tr) => ({ src: g.render({ t: inFn, kids: [tr] }), script });
  const core = (ts) => ts.filter((t) => g.CORE.has(t.s));
  const S2 = g.S, E2 = g.E;
  // depth 1 and 2, module and script
  yield* substitute(S2, {}, stmt(false));
  yield* substitute(E2, {}, ex(false));
  yield* substitute(g.MODULE, {}, stmt(false));
  yield* substitute(g.SLOPPY, { sloppy: true }, stmt(true));
  for (const t of S2.concat(E2)) yield (t.k === 'E' ? ex(true) : stmt(true))(leafTree(t));
  // the same statements inside a function
  for (const t of S2.concat(g.SF)) yield wrapFn(true)(leafTree(t));
  yield* substitute(g.SF, {}, wrapFn(false));
  for (const t of g.SL) yield { src: g.render({ t: inLoop, kids: [leafTree(t)] }), script: false };
  // sequences of two statements: in a block of a loop, at top level of a script
  const seq = { k: 'S', s: 'while (c(@)) { $L $L }' }, seqF = { k: 'S', s: '(function () { $F $F })();' }, top = { k: 'S', s: '$S $S' };
  const cs = core(g.S), csl = core(g.S.concat(g.SL)), csf = core(g.S.concat(g.SF));
  if (less) return;
  for (const a of csl) for (const b of csl) yield stmt(false)({ t: seq, kids: [leafTree(a), leafTree(b)] });
  for (const a of csf) for (const b of csf) yield stmt(true)({ t: seqF, kids: [leafTree(a), leafTree(b)] });
  for (const a of cs) for (const b of cs) yield stmt(true)({ t: top, kids: [leafTree(a), leafTree(b)] });
  if (tier === 'thorough') {
    for (const a of g.S) for (const b of g.S) yield stmt(false)({ t: top, kids: [leafTree(a), leafTree(b)] });
    yield* substitute(S2, { sloppy: true }, stmt(true));
    yield* substitute(E2, {}, ex(true));
    yield* substitute(S2, {}, wrapFn(false));
    yield* substitute3(S2, {}, stmt(false));
    yield* substitute3(E2, {}, ex(false));
    yield* substitute3(g.MODULE, {}, stmt(false));
  } else {
    yield* substitute3(core(g.S), {}, stmt(false));
  }
}
module.exports = { forms, leafTree, asStmt, substitute, substitute3 };
