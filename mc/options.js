'use strict';
// C13: configurations through the plugin's entry point, against the effective
// options a reader of the documentation computes from the same text.
const path = require('node:path');
const os = require('node:os');
const { isDeepStrictEqual } = require('node:util');
const { Svc } = require('./svc.js');
const { excluded } = require('./exclude.js');
const R = require('./ref.js');
const { implEntries, refEntries, pair } = require('./pairing.js');
const { embedded, shape } = require('./embed.js');
const PLUG = process.env.PLUGSVC || path.join(__dirname, '../harness/target/debug/plugsvc');

const SRC = `import x from "x";
class A { constructor() { this.k = a && b; } render(p = 1) { return a || b ? c : d; } get q() { return 1 } static render() {} }
const o = { render() { return 2 }, q() { if (a) b; }, constructor: () => 0 };
/* istanbul ignore next */ function g() { if (a) b; }
function render() { switch (x) { case 1: a ?? b; } }
export { o as default, A };
`;
const FILE = '/p/f.js';
const MAP = { version: 3, sources: ['a.ts', null], names: ['"n"'], mappings: 'AAAA', sourcesContent: [null], file: 'f.js', sourceRoot: '' };

// ---- reference: the effective options of a configuration text
const DEFAULTS = { coverageVariable: '__coverage__', compact: false, reportLogic: false, ignoreClassMethods: [], inputSourceMap: null, debugInitialCoverageComment: false, unstableExclude: null };
const isStrs = (v) => Array.isArray(v) && v.every((x) => typeof x === 'string');
const TYPES = {
  coverageVariable: (v) => typeof v === 'string',
  compact: (v) => typeof v === 'boolean',
  reportLogic: (v) => typeof v === 'boolean',
  debugInitialCoverageComment: (v) => typeof v === 'boolean',
  ignoreClassMethods: isStrs,
  unstableExclude: (v) => v === null || isStrs(v),
  inputSourceMap: (v) => v === null || (typeof v === 'object' && !Array.isArray(v) && v.version === 3),
  instrumentLog: (v) => typeof v === 'object' && v !== null && !Array.isArray(v) && (v.level === undefined || v.level === null || typeof v.level === 'string') && (v.enableTrace === undefined || typeof v.enableTrace === 'boolean'),
};
function effective(text) {
  const d = { ...DEFAULTS };
  if (text === null) return d;
  let j;
  try { j = JSON.parse(text); } catch { return d; }
  if (typeof j !== 'object' || j === null || Array.isArray(j)) return d;
  for (const k of Object.keys(TYPES)) if (k in j && !TYPES[k](j[k])) return d; // unreadable as a whole
  for (const k of Object.keys(DEFAULTS)) if (k in j) d[k] = j[k];
  if (d.inputSourceMap) d.inputSourceMap = Object.fromEntries(Object.entries(d.inputSourceMap).filter(([k]) => k in MAP));
  return d;
}

// a source map without the fields its format requires: not judged
function undecided(text) {
  try { const m = JSON.parse(text).inputSourceMap; return !!m && typeof m === 'object' && !('version' in m && m.sources && m.names && typeof m.mappings === 'string'); } catch { return false; }
}

// ---- enumeration: configuration texts
const NO = Symbol('absent');
function domains(tier) {
  const deep = tier === 'thorough';
  return {
    coverageVariable: [NO, '__coverage__', 'cov', ...(deep ? ['', '$"\\'] : [''])],
    compact: deep ? [NO, true, false] : [NO, true],
    reportLogic: [NO, true, false],
    ignoreClassMethods: [NO, ['render'], ['constructor', 'q'], ...(deep ? [[], ['nope']] : [])],
    inputSourceMap: [NO, MAP, ...(deep ? [null] : [])],
    instrumentLog: [NO, { level: 'info' }, { level: 'trace', enableTrace: true }, ...(deep ? [{}, { level: 'bogus', enableTrace: true }, { level: null }] : [])],
    debugInitialCoverageComment: [NO, true, ...(deep ? [false] : [])],
    unstableExclude: [NO, ['**/nope.js'], ['x', '**/f.js'], ...(deep ? [null, []] : [])],
    unknown: [NO, { report_logic: true, coverage_variable: 'no', ReportLogic: true, foo: [{}] }],
  };
}
function* product(tier) {
  const D = domains(tier), keys = Object.keys(D);
  const rec = function* (i, parts) {
    if (i === keys.length) { yield parts; return; }
    for (const v of D[keys[i]]) {
      if (v === NO) yield* rec(i + 1, parts);
      else if (keys[i] === 'unknown') yield* rec(i + 1, [...parts, ...Object.entries(v)]);
      else yield* rec(i + 1, [...parts, [keys[i], v]]);
    }
  };
  let n = 0;
  for (const p of rec(0, [])) {
    const q = n++ % 2 ? p.slice().reverse() : p;
    yield '{' + q.map(([k, v]) => JSON.stringify(k) + ':' + JSON.stringify(v)).join(',') + '}';
  }
}
function* odd(tier) {
  yield null;
  for (const t of ['', ' ', '{', '}', '{}', ' {} ', '{}x', '[]', 'null', '1', 'true', '""', '"{}"', 'undefined', '{reportLogic:true}', "{'reportLogic':true}", '{"reportLogic":true,}', '{"reportLogic":True}', '{"reportLogic":true}}', '\ufeff{"reportLogic":true}', '{"reportLogic":true}//', '{"reportLogic":true,"reportLogic":tru}', '\0', '{"a":"\ud800"}'.replace('\ud800', '\\ud800'), '{"reportLogic":true,"x":1e999}']) yield t;
  const good = { coverageVariable: 'cov', compact: true, reportLogic: true, ignoreClassMethods: ['render'], inputSourceMap: MAP, instrumentLog: { level: 'error', enableTrace: true }, debugInitialCoverageComment: true, unstableExclude: ['**/nope.js'] };
  const values = [null, true, false, 0, 1, -1, 1.5, '', 'true', 'render', 'info', [], ['render'], [null], [1], ['a', 1], {}, { a: 1 }, { level: 1 }, { level: 'info', enableTrace: null }, { level: 'bogus' }, { level: 'INFO' }, { enableTrace: 'x' }, { enable_trace: true, level: 'warn' }, MAP, { ...MAP, version: 'x' }, { ...MAP, version: undefined }, { ...MAP, mappings: undefined }, { ...MAP, names: undefined }, { ...MAP, extra: 1 }];
  // arrays where an object is asked for are read by position: not judged
  const fair = (k, v) => (k !== 'inputSourceMap' && k !== 'instrumentLog') || !Array.isArray(v);
  const keys = Object.keys(good);
  for (const k of keys) for (const v of values) {
    if (!fair(k, v)) continue;
    yield JSON.stringify({ [k]: v });
    for (const l of keys) if (l !== k) { yield JSON.stringify({ [k]: v, [l]: good[l] }); if (tier === 'thorough') yield JSON.stringify({ [l]: good[l], [k]: v }); }
  }
  // text values are taken as they are
  for (const t of [' cov', 'cov ', '\tcov\n', ' ', 'COV', 'Cov', 'window.cov', 'cov-1', '0', '-1', '00', '1.0', 'null', 'true', 'c\u00f6v', 'co\u0301v', '\u{1f600}', '"cov"', "'cov'", '`${cov}`', 'c\\ov', 'c/ov', '[cov]', 'this', '\ufeffcov', 'cov\u0000', 'cov\u2028', 'c'.repeat(300)]) {
    yield JSON.stringify({ coverageVariable: t });
    yield JSON.stringify({ reportLogic: true, coverageVariable: t, debugInitialCoverageComment: true });
    yield JSON.stringify({ ignoreClassMethods: [t] });
    yield JSON.stringify({ ignoreClassMethods: [t, 'render'], coverageVariable: t });
  }
  for (const t of [' render', 'render ', 'Render', 'RENDER', 'rende', 'renderr', 'r*', '*', '#render', '/render/', 'q.render', 'renders', 'K', 'C', 'Q', 'hasOwnProperty']) yield JSON.stringify({ ignoreClassMethods: [t] });
  // every pair of options, both orders, with spaces and escapes
  for (const k of keys) for (const l of keys) if (k !== l) {
    yield JSON.stringify({ [k]: good[k], [l]: good[l] }, null, 2);
    yield `{"\\u00${k.charCodeAt(0).toString(16)}${k.slice(1)}":${JSON.stringify(good[k])},"${l}":${JSON.stringify(good[l])}}`;
  }
  // spellings that are not the documented key
  const snake = (k) => k.replace(/[A-Z]/g, (c) => '_' + c.toLowerCase());
  for (const k of keys) for (const n of [snake(k), snake(k).replace(/_/g, '-'), k.toUpperCase(), k.toLowerCase(), k[0].toUpperCase() + k.slice(1), ' ' + k, k + ' ', k + '\0']) if (n !== k) yield JSON.stringify({ [n]: good[k], debugInitialCoverageComment: true });
  for (const n of ['enable_trace', 'Level']) yield JSON.stringify({ instrumentLog: { [n]: true } });
  // every prefix of a configuration, every one with one character gone
  const texts = [JSON.stringify(good), '{ "reportLogic" : true , "unstableExclude" : [ "**" ] }'];
  for (const t of texts) for (let i = 0; i < t.length; i++) { yield t.slice(0, i); yield t.slice(0, i) + t.slice(i + 1); }
}
// ---- one distinct set of effective options, on its own and against the default
function semantic(e, out, base) {
  const v = [];
  const ast = R.parse(out.code, { module: true });
  const emb = embedded(out.code, ast, R.parse(SRC, { module: true }));
  const { hash, _coverageSchema, ...cov } = emb.r;
  if (emb.own.length !== 1 || emb.own[0][0] !== e.coverageVariable) v.push(`coverage is stored under ${JSON.stringify(emb.own.map((x) => x[0]))}`);
  if (!isDeepStrictEqual(cov.inputSourceMap || null, e.inputSourceMap)) v.push(`input source map is ${JSON.stringify(cov.inputSourceMap)}`);
  if (('bT' in cov) !== e.reportLogic) v.push(`logic reporting is ${e.reportLogic ? 'on' : 'off'}, bT ${'bT' in cov ? 'present' : 'absent'}`);
  if ((out.cov !== null) !== e.debugInitialCoverageComment) v.push(`debug comment ${out.cov === null ? 'absent' : 'present'}`);
  if (out.cov !== null && !isDeepStrictEqual(JSON.parse(out.cov), cov)) v.push('debug comment differs from the embedded data');
  if (cov.path !== FILE) v.push(`path is ${cov.path}`);
  const re = refEntries(R.analyse(SRC, { module: true, ignoreClassMethods: e.ignoreClassMethods })), ie = implEntries(cov);
  for (const t of ['S', 'F', 'B']) for (const d of pair(ie[t], re[t].filter((x) => e.reportLogic || t !== 'B' || x)).diff) v.push(`ignoreClassMethods ${JSON.stringify(e.ignoreClassMethods)}: ${d}`);
  // outside of the embedded coverage function nothing depends on the variable, the map, the comment or compact
  const rest = JSON.stringify(shape(ast.body.filter((n) => !(n.id && /^cov_/.test(n.id.name)))));
  const key = JSON.stringify([e.reportLogic, e.ignoreClassMethods.map((x) => /^(nope)$/.test(x) ? null : x).filter(Boolean)]);
  if (!base.has(key)) base.set(key, rest);
  else if (base.get(key) !== rest) v.push('an option changes code it does not name');
  return v;
}

exports.run = async ({ tier }) => {
  const N = Math.max(1, Math.min(8, os.cpus().length));
  const violations = [];
  const add = (key, detail, replay) => { if (violations.length < 2000) violations.push({ key, detail: `configuration ${key}: ${detail}`, replay: { src: SRC, filename: FILE, ...replay } }); };
  const texts = new Map();
  for (const t of product(tier)) texts.set(t, 'product');
  const prod = texts.size;
  for (const t of odd(tier)) if (!undecided(t)) texts.set(t, 'odd');
  const list = [...texts.keys()];
  const svcs = Array.from({ length: N }, () => new Svc({ bin: PLUG }));
  // what each distinct set of options does
  const want = new Map();
  const plain = (await svcs[0].batch([{ src: SRC, filename: FILE, plain: true }]))[0].code;
  const effs = list.map((t) => effective(t));
  const keyOf = (e) => JSON.stringify([e.coverageVariable, e.compact, e.reportLogic, e.ignoreClassMethods, e.inputSourceMap, e.debugInitialCoverageComment]);
  for (const e of effs) if (!want.has(keyOf(e))) want.set(keyOf(e), e);
  const distinct = [...want.values()];
  const direct = new Map();
  const ds = await svcs[0].batch(distinct.map((e) => ({ src: SRC, filename: FILE, direct: { ...e, unstableExclude: undefined } })));
  const base = new Map();
  let skippedNone = 0, excludedN = 0, broken = null;
  distinct.forEach((e, i) => {
    if (ds[i].err) { add(keyOf(e), ds[i].err, { direct: e }); return; }
    direct.set(keyOf(e), ds[i]);
    let v;
    try { v = semantic(e, ds[i], base); } catch (x) { v = ['emitted code fails: ' + x.message]; }
    for (const d of v) add(keyOf(e), d, { direct: e });
  });
  // compact changes nothing; the variable only its literal
  for (const e of distinct) {
    const o = direct.get(keyOf(e)), p = direct.get(keyOf({ ...e, compact: false }));
    if (o && p && o.code !== p.code) add(keyOf(e), 'compact changes the code', { direct: e });
    const q = direct.get(keyOf({ ...e, debugInitialCoverageComment: false }));
    if (o && q && o.code !== q.code) add(keyOf(e), 'the debug option changes the code', { direct: e });
  }
  let at = 0;
  await Promise.all(svcs.map(async (svc) => {
    while (at < list.length) {
      const from = at;
      const part = list.slice(at, at += 256);
      const rs = await svc.batch(part.map((config) => ({ src: SRC, filename: FILE, ...(config === null ? {} : { config }) })));
      part.forEach((t, x) => {
        const e = effs[from + x], r = rs[x];
        if (r.err) { add(String(t), r.err, { config: t }); return; }
        if (e.unstableExclude && excluded(FILE, e.unstableExclude)) {
          excludedN++;
          if (r.code !== plain || r.cov !== null) add(String(t), 'an excluded file is changed', { config: t });
          return;
        }
        const d = direct.get(keyOf(e));
        if (!d) { skippedNone++; return; }
        if (r.code !== d.code) add(String(t), `the result is not the one of ${JSON.stringify({ ...e, unstableExclude: undefined })}`, { config: t });
        else if (r.cov !== d.cov) add(String(t), 'the debug comment differs', { config: t });
      });
    }
  }));
  // no file name, no comments
  const d0 = await svcs[0].batch([{ src: SRC, real: 'r.js' }, { src: SRC, real: 'r.js', filename: 'unknown.js' }, { src: SRC, real: 'r.js', config: '{"unstableExclude":["unknown.js"]}' }, { src: SRC, filename: FILE, nocomments: true }, { src: SRC, filename: FILE, nocomments: true, config: '{"debugInitialCoverageComment":true}' }, { src: SRC, real: 'other.js', filename: FILE }, { src: SRC, filename: FILE }]);
  d0.forEach((r, i) => { if (r.err) add('context ' + i, r.err, { context: i }); });
  if (d0[0].code !== d0[1].code) add('no file name', 'is not instrumented as unknown.js', { context: 0 });
  if (d0[2].code !== plain) add('no file name', 'unknown.js cannot be excluded', { context: 2 });
  if (d0[3].code !== d0[4].code) add('no comments', 'the debug option changes the code', { context: 4 });
  if (d0[5].code !== d0[6].code) add('another name in the source map', 'changes the result', { context: 5 });
  for (const s of svcs) s.close();
  if (!excludedN) broken = 'nothing excluded';
  violations.sort((a, b) => a.detail.length - b.detail.length);
  return { states: list.length, transitions: list.length + distinct.length, traces_validated_against_impl: list.length, info: { configurations: list.length, product: prod, malformed_and_odd: list.length - prod, distinct_effective_options: distinct.length, excluded: excludedN }, samples: [list[17], list[list.length - 9]], violations, broken };
};
if (require.main === module) exports.run({ tier: process.argv[2] || 'quick' }).then((r) => { console.log(r.info, r.broken, r.violations.length); for (const v of r.violations.slice(0, +process.argv[3] || 30)) console.log(v.detail.slice(0, 400)); });
