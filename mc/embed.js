'use strict';
// C12: the coverage object the emitted code embeds, against the data computed
// and against what was put in (path, input source map), for every program x
// every string put into names, source map fields and the coverage variable.
const R = require('./ref.js');
const crypto = require('node:crypto');
const { isDeepStrictEqual } = require('node:util');
const MARK = '__coverage_data_json_comment__::';
const DBG = { debugInitialCoverageComment: true };
const VARIANTS = [DBG, { ...DBG, reportLogic: true }, {}, { reportLogic: true }, { ...DBG, __comments: true }, { __comments: true }];
const request = (p) => ({ src: p.src, script: !!p.script, plain: true, filename: '/p/f.js', variants: VARIANTS.map((v) => ({ ...v, ...(p.opts || {}) })), ...(p.req || {}) });

// the tree without positions and spellings
function shape(n) {
  if (Array.isArray(n)) return n.map(shape);
  if (!n || typeof n !== 'object' || n instanceof RegExp) return typeof n === 'bigint' ? String(n) : n;
  const o = {};
  for (const k of Object.keys(n)) if (k !== 'start' && k !== 'end' && k !== 'loc' && k !== '_ch' && (k !== 'raw' || n.type === 'TemplateElement')) o[k] = shape(n[k]);
  return o;
}
// Calls the emitted coverage function in the emptied global object.
function embedded(code, ast, src) {
  const theirs = new Set(src.body.map((n) => n.id && n.id.name));
  const d = ast.body.find((n) => n.type === 'FunctionDeclaration' && /^cov_\d+$/.test(n.id.name) && !theirs.has(n.id.name));
  if (!d) throw new Error('no coverage function');
  const had = new Set(Reflect.ownKeys(globalThis));
  const f = (0, eval)(`(function () { "use strict"; ${code.slice(d.start, d.end)}\nreturn ${d.id.name}; })()`);
  try {
    const r = f();
    const added = Reflect.ownKeys(globalThis).filter((k) => !had.has(k));
    const own = added.map((k) => [k, globalThis[k]]);
    return { r, own, decl: code.slice(d.start, d.end) };
  } finally { for (const k of Reflect.ownKeys(globalThis)) if (!had.has(k)) delete globalThis[k]; }
}
const dig = (s) => crypto.createHash('sha1').update(s).digest('base64');

function judge(prog, resp, want) {
  const v = [];
  const add = (detail) => v.push({ prop: 'C12', detail });
  const stats = { runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0, outcomes: 0 };
  let src;
  try { src = R.parse(prog.src, { module: !prog.script }); } catch (e) { return { skip: 'reference parser: ' + e.message }; }
  if (resp.plain_err) return { skip: 'swc parser: ' + resp.plain_err };
  if (resp.err) { add(resp.err); return { v, stats }; }
  const outs = resp.outs;
  const name = (prog.opts && prog.opts.__filename) || '/p/f.js';
  const gcv = (prog.opts && prog.opts.coverageVariable) || '__coverage__';
  const facts = [];
  for (let i = 0; i < 6; i++) if (outs[i].err) { add(`variant ${i}: ${outs[i].err}`); return { v, stats }; }
  if (!outs[0].cov) {
    if (outs[0].code !== resp.plain) add('no coverage data, yet the program is changed');
    return { v, stats };
  }
  const asts = [];
  for (let i = 0; i < 6; i++) {
    try { asts.push(R.parse(outs[i].code, { module: !prog.script })); } catch (e) { add(`variant ${i}: emitted code does not parse: ${e.message}`); return { v, stats }; }
  }
  for (let i = 0; i < 2; i++) {
    const o = outs[i];
    let cov;
    try { cov = JSON.parse(o.cov); } catch (e) { add('debug comment is not JSON: ' + e.message); return { v, stats }; }
    if (cov.path !== name) add(`path is ${JSON.stringify(cov.path)} for the file ${JSON.stringify(name)}`);
    const ism = prog.opts && prog.opts.inputSourceMap;
    if (!isDeepStrictEqual(cov.inputSourceMap, ism || undefined)) add(`input source map is ${JSON.stringify(cov.inputSourceMap)}, given ${JSON.stringify(ism)}`);
    let e;
    try { e = embedded(o.code, asts[i], src); } catch (x) { add(`coverage function fails: ${x.message}`); return { v, stats }; }
    stats.runs++;
    const { hash, _coverageSchema, ...rest } = e.r;
    if (!isDeepStrictEqual(rest, cov)) add(`embedded object is ${JSON.stringify(rest)}, computed data is ${o.cov}`);
    if (_coverageSchema !== '11020577277169172593') add(`schema marker ${JSON.stringify(_coverageSchema)}`);
    if (typeof hash !== 'string' || !hash) add(`hash ${JSON.stringify(hash)}`);
    if (e.own.length !== 1 || e.own[0][0] !== gcv || Object.keys(e.own[0][1]).join('\0') !== name || e.own[0][1][name] !== e.r) add(`global state after loading is ${JSON.stringify(e.own.map((x) => [x[0], Object.keys(x[1])]))}`);
    stats.entries += Object.keys(cov.statementMap).length + Object.keys(cov.fnMap).length + Object.keys(cov.branchMap).length;
    const d = dig(o.cov);
    facts.push(['hash ' + hash, 'data ' + d], ['data ' + d, 'hash ' + hash]);
    if (outs[i + 2].cov) add('debug comment without the option');
    if (outs[i + 2].code !== o.code) add('the debug option changes the program');
  }
  // printed with comments
  const [a, b, c] = [asts[4], asts[5], asts[0]].map((x) => JSON.stringify(shape(x)));
  if (b !== c) add('printing comments changes the program'); // swc's business, but then nothing follows from the next line
  if (a !== c) add('the debug comment changes the program');
  const at = outs[4].code.split(MARK);
  if (at.length > 2) add(`${at.length - 1} debug comments`);
  else if (at.length === 2) { // attached where something is printed
    const text = at[1].slice(0, at[1].indexOf('*/'));
    let ok = false;
    try { ok = isDeepStrictEqual(JSON.parse(text), JSON.parse(outs[0].cov)); } catch { /* reported */ }
    if (!ok) add(`the printed debug comment is ${text.slice(0, 200)}`);
  }
  return { v, stats, facts };
}

// ---- corpus
const CH = ['a', '0', '1', '"', "'", '\\', '\n', '\r', '\u2028', '\u2029', '\0', '\t', '\b', '\v', '\f', '\x1b', '\x7f', '\x80', '\xad', '`', '$', '{', '*/', '/*', '//', '/', '</script>', '<!--', '-->', '\u00e9', '\ufeff', '\u6f22', '\ud83d\ude00', '\ufffd', '\uffff', ' ', '.', 'u', 'x', '%', '__proto__', '\u200d', '\ue000', '\u{10ffff}'];
function* strings(n, alphabet = CH) {
  let layer = [''];
  yield '';
  for (let i = 0; i < n; i++) {
    const next = [];
    for (const s of layer) for (const c of alphabet) { next.push(s + c); yield s + c; }
    layer = next;
  }
}
function* embed(tier) {
  const deep = tier === 'thorough';
  const base = { src: 'function f() { a && b; } f();', script: false };
  const small = { src: 'f();', script: true };
  const put = (opts, b = small) => ({ ...b, opts });
  const FEW = CH.filter((c) => !/^[.u%a]$/.test(c));
  for (const s of strings(deep ? 3 : 2)) if (s && !/^__proto__$/.test(s)) {
    yield put({ __filename: s });
    yield put({ __filename: '/p/' + s + '.js' });
    yield put({ coverageVariable: s });
  }
  const none = { version: 3, sources: [], names: [], mappings: '' };
  for (const s of strings(2)) {
    for (const m of [{ file: s }, { sourceRoot: s }, { sources: [s] }, { names: [s] }, { mappings: s }, { sourcesContent: [s] }]) yield put({ inputSourceMap: { ...none, ...m } });
  }
  // presence and absence of every field
  const F = { version: [0, 1, 3, 4294967295], file: [undefined, '', 'f'], sourceRoot: [undefined, '', 'r'], sources: [[], [''], ['a', 'b'], ['a', 'a', '\u6f22'], [null], ['a', null, '']], sourcesContent: [undefined, [], [null], [''], [null, 'x'], ['x', null, '"*/\\']], names: [[], [''], ['n', 'm"']], mappings: ['', 'AAAA;A,CAAC'] };
  const keys = Object.keys(F);
  const rec = function* (i, m) { if (i === keys.length) { yield put({ inputSourceMap: m }, base); return; } for (const x of F[keys[i]]) yield* rec(i + 1, x === undefined ? m : { ...m, [keys[i]]: x }); };
  yield* rec(0, {});
  // names of functions and keys
  const ids = ['a', '$', '_', '\u00e9', '\u6f22', '\u{20bb7}', '\\u0061b', '\\u{20bb7}', 'a\u200d', 'async', 'of', 'get', 'hash', 'path', 'coverage', 'coverageData', 'global', 'gcv', 'actualCoverage', 'cov_1', 'Function', 'undefined', 'constructor', '__proto__', 'toString', 'hasOwnProperty'];
  const strs = ["'\"'", '"\'"', "'\\\\'", "'\\n'", "'\u2028'", "'*/'", "'\\0'", "'\ud83d\ude00'", '["x" + "*/"]', '1', '1e3', '0b1', '1n', '"__proto__"'];
  for (const id of ids) for (const script of [true, false]) {
    for (const t of ['function ID() {}', 'var ID = function () {};', 'var ID = () => 0;', 'var x = function ID() {};', 'class ID { m() {} }', '({ ID() {} });', '({ ID: function () {} });', '({ ID: () => 0 });', 'class A { ID() {} }', 'class A { #ID() {} }', 'class A { ID = () => 0 }', 'export default function ID() {}', 'export function ID() {}', 'var ID; ID = () => 0; ID && ID;', 'function f(ID = () => 0) { return ID || 1; }'])
      yield { src: t.replaceAll('ID', id), script };
  }
  for (const k of strs) for (const t of ['({ ID() {} });', '({ ID: function () {} });', '({ get ID() { return 1 } });', 'class A { ID() {} }', 'class A { static ID = () => 0 }'])
    yield { src: t.replaceAll('ID', k), script: false };
  // texts that contain the marker or comments of their own
  for (const c of ['/*a*/', '//a\n', '/* __x */', '/*! k */', '/**d*/']) for (const t of ['@f();', 'f();@', 'function f() { @ return 1; @ }', '"use strict"; @ f();', '@import "x"; f();', 'a@&&@b;', '@'])
    yield { src: t.replaceAll('@', c), script: false };
  for (const p of require('./corpus.js').forms(deep ? 'quick' : 'small')) yield p;
}
module.exports = { judge, request, embed, embedded, shape, VARIANTS };
