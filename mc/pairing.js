'use strict';
// Entries of both sides, paired by kind and location.
const lc = (p) => p.line + ':' + p.column;
const rk = (r) => lc(r.start) + '-' + lc(r.end);

function implEntries(cov) {
  const S = Object.keys(cov.statementMap).map((id) => ({ id, key: rk(cov.statementMap[id]) }));
  const F = Object.keys(cov.fnMap).map((id) => { const f = cov.fnMap[id]; return { id, key: `${f.name === `(anonymous_${id})` ? '(anonymous)' : f.name}|${rk(f.decl)}|${rk(f.loc)}` }; });
  const B = Object.keys(cov.branchMap).map((id) => { const b = cov.branchMap[id]; return { id, key: `${b.type}|${rk(b.loc)}|${b.locations.map(rk).join(',')}`, logic: b.type === 'binary-expr', arms: b.locations.length }; });
  return { S, F, B };
}
function refEntries(r) {
  return {
    S: r.S.map((key, id) => ({ id, key })),
    F: r.F.map((f, id) => ({ id, key: `${f.name === null ? '(anonymous)' : f.name}|${f.decl}|${f.loc}` })),
    B: r.B.map((b, id) => ({ id, key: `${b.type}|${b.loc}|${b.locations.join(',')}`, logic: b.logic, arms: b.locations.length, dropped: b.dropped })).filter((b) => !b.dropped),
  };
}
// Pairs entries of both sides by key: [{ key, impl: [ids], ref: [ids] }] or a difference.
function pair(impl, ref) {
  const m = new Map();
  for (const e of impl) { let g = m.get(e.key); if (!g) m.set(e.key, (g = { key: e.key, impl: [], ref: [], logic: e.logic })); g.impl.push(e.id); }
  for (const e of ref) { let g = m.get(e.key); if (!g) m.set(e.key, (g = { key: e.key, impl: [], ref: [], logic: e.logic })); g.ref.push(e.id); }
  const groups = [...m.values()];
  const diff = [];
  for (const g of groups) {
    if (g.impl.length > g.ref.length) diff.push(`unexpected ${g.key}` + (g.ref.length ? ' (duplicate)' : ''));
    else if (g.impl.length < g.ref.length) diff.push(`missing ${g.key}`);
  }
  return { groups, diff };
}
module.exports = { implEntries, refEntries, pair, rk };
