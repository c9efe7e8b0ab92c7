'use strict';
// C13, over programs: every program through the plugin's entry point, without any
// configuration and with every option at once, against the instrumentation visitor
// called with the same options; and each option changes what it names, nothing else.
const { isDeepStrictEqual } = require('node:util');
const path = require('node:path');
const NAME = '/p/f.js';
const MAP = { version: 3, sources: ['a.ts', null], names: ['"n"'], mappings: 'AAAA', sourcesContent: [null], file: 'f.js', sourceRoot: '' };
const DEFAULTS = { coverageVariable: '__coverage__', compact: false, reportLogic: false, ignoreClassMethods: [], inputSourceMap: null, debugInitialCoverageComment: false };
const MANY = { coverageVariable: '__v__', compact: true, ignoreClassMethods: ['nope_'], inputSourceMap: MAP };
const D = (o) => ({ direct: { ...DEFAULTS, ...o } });
const C = (o) => ({ config: JSON.stringify(o) });
const DBG = { debugInitialCoverageComment: true };
// the one that writes a log comes last, a process has one log
const VARIANTS = [
  { plain: true }, {}, D({}), C({}), C({ ...DBG }), D({ ...DBG }), C({ reportLogic: true, ...DBG }), D({ reportLogic: true, ...DBG }), D({ ...MANY, ...DBG }), D({ ...MANY, reportLogic: true, ...DBG }),
  C({ unstableExclude: ['**/*.js'], reportLogic: true }), C({ unstableExclude: ['**/*.ts', '/q/**'] }), C({ ...MANY, reportLogic: true, ...DBG, unstableExclude: ['nope'], instrumentLog: { level: 'trace', enableTrace: true } }),
];
const [PLAIN, NONE, BASE, EMPTY, DEBUG, DDEBUG, LOGIC, DLOGIC, DMANY, DALL, OUT, IN, ALL] = VARIANTS.keys();
const same = [[NONE, BASE, 'without configuration'], [EMPTY, BASE, 'with an empty configuration'], [DEBUG, DDEBUG, 'with the debug comment'], [LOGIC, DLOGIC, 'with reportLogic'], [IN, BASE, 'with exclude patterns of other files'], [ALL, DALL, 'with all options']];
const request = (p) => ({ src: p.src, script: !!p.script, filename: NAME, variants: VARIANTS });
// everything but the coverage function
const FN = /function cov_\d+\(\) \{\n[^]*?\n\}\n/;
const rest = (code) => (FN.test(code) ? code.replace(FN, "") : null);
function judge(prog, resp, want) {
  const v = [];
  const stats = { runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0, outcomes: 0 };
  const add = (detail) => { for (const prop of want) v.push({ prop, detail }); };
  if (resp.err) { add(resp.err); return { v, stats }; }
  const o = resp.outs;
  if (o[PLAIN].err) return { skip: 'swc parser: ' + o[PLAIN].err };
  for (let i = 0; i < o.length; i++) if (o[i].err) add(`${JSON.stringify(VARIANTS[i])}: ${o[i].err}`);
  if (v.length) return { v, stats };
  stats.runs = o.length;
  for (const [a, b, w] of same) {
    if (o[a].code !== o[b].code) add(`the plugin ${w} does not do what the visitor does`);
    if (o[a].cov !== o[b].cov) add(`the plugin ${w} leaves another debug comment than the visitor`);
  }
  if (o[OUT].code !== o[PLAIN].code || o[OUT].cov !== null) add('an excluded file is changed');
  if (o[DEBUG].code !== o[BASE].code) add('the debug comment changes the code');
  if (o[BASE].cov !== null) add('a debug comment that nobody asked for');
  if (rest(o[DMANY].code) !== rest(o[BASE].code)) add('options change code they do not name');
  if (rest(o[DALL].code) !== rest(o[DLOGIC].code)) add('options change code they do not name, with reportLogic');
  const [d, l, m, a] = [DDEBUG, DLOGIC, DMANY, DALL].map((i) => o[i].cov && JSON.parse(o[i].cov));
  if (d) {
    stats.entries = Object.keys(d.statementMap).length + Object.keys(d.fnMap).length + Object.keys(d.branchMap).length;
    const drop = ({ bT, inputSourceMap, ...x }) => x;
    for (const [x, w] of [[l, 'reportLogic'], [m, 'other options'], [a, 'all options']]) if (!x || !isDeepStrictEqual(drop(x), drop(d))) add(`entries differ with ${w}`);
    if (d.bT || m.bT || !l.bT || !a.bT || !isDeepStrictEqual(l.bT, a.bT)) add('truth tables do not follow reportLogic alone');
    if (d.inputSourceMap || l.inputSourceMap || !isDeepStrictEqual(m.inputSourceMap, MAP) || !isDeepStrictEqual(a.inputSourceMap, MAP)) add('input source map');
  } else if (l || m || a || o[BASE].code !== o[PLAIN].code) add('coverage data with some options only');
  return { v, stats };
}
function* across(tier) {
  const c = require('./corpora.js');
  for (const n of ['rare', 'hints', 'methods', 'using', 'grid', ...(tier === 'thorough' ? ['forms'] : [])]) for (const p of c.get(n, tier === 'thorough' && n === 'forms' ? 'quick' : tier)) yield { src: p.src, script: p.script };
}
module.exports = { judge, request, across, bin: process.env.PLUGSVC || path.join(__dirname, '../harness/target/debug/plugsvc') };
