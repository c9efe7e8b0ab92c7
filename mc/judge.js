'use strict';
// Judges one program: instrumented code against the plain code (behaviour) and
// against the reference instrumentation (entries and counts), on every choice
// sequence within the limits.
const R = require('./ref.js');
const env = require('./env.js');
const { demodule } = require('./module.js');

const { implEntries, refEntries, pair, rk } = require('./pairing.js');
const FILE = '/p/f.js';
const eqArr = (a, b) => { if (a.length !== b.length) return false; for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return false; return true; };

function traceDiff(a, b) {
  let i = 0;
  while (i < a.length && i < b.length && a[i] === b[i]) i++;
  return `expected [${a.slice(Math.max(0, i - 1), i + 3).join(' ')}] got [${b.slice(Math.max(0, i - 1), i + 3).join(' ')}] at event ${i}`;
}

// Structural checks of one coverage object (C06).
// `made`: the program contains code a compiler made up, which has no place in the file (0:0).
function wellFormed(cov, src, logic, made) {
  const v = [];
  const lines = src.replace(/^\ufeff/, '').split(/\r\n|\n|\r/);
  const width = (l) => lines[l - 1].length;
  const okPos = (p) => Number.isInteger(p.line) && Number.isInteger(p.column) && p.line >= 1 && p.line <= lines.length && p.column >= 0 && p.column <= width(p.line) + 1;
  const zero = (r) => made && r && r.start && r.end && !r.start.line && !r.start.column && !r.end.line && !r.end.column;
  const okRange = (r, w) => { if (zero(r)) return; if (!r || !r.start || !r.end || !okPos(r.start) || !okPos(r.end)) v.push(`${w}: range ${JSON.stringify(r)} outside of the file`); else if (r.start.line > r.end.line || (r.start.line === r.end.line && r.start.column > r.end.column)) v.push(`${w}: start after end`); };
  const consec = (m, w, gaps) => { const k = Object.keys(m).map(Number).sort((a, b) => a - b); k.forEach((x, i) => { if (!gaps && x !== i) v.push(`${w} ids not consecutive: ${k}`); }); return k; };
  const same = (a, b, w) => { const x = Object.keys(a).sort().join(), y = Object.keys(b).sort().join(); if (x !== y) v.push(`${w}: ids [${x}] vs [${y}]`); };
  consec(cov.statementMap, 'statement'); consec(cov.fnMap, 'function'); consec(cov.branchMap, 'branch', true); // ids of branches that lost all arms stay unused
  same(cov.statementMap, cov.s, 's'); same(cov.fnMap, cov.f, 'f'); same(cov.branchMap, cov.b, 'b');
  for (const [k, r] of Object.entries(cov.statementMap)) { okRange(r, 's' + k); if (cov.s[k] !== 0) v.push(`s${k} starts at ${cov.s[k]}`); }
  for (const [k, f] of Object.entries(cov.fnMap)) { okRange(f.decl, 'f' + k); okRange(f.loc, 'f' + k); if (f.line !== f.loc.start.line) v.push(`f${k}: line ${f.line}`); if (cov.f[k] !== 0) v.push(`f${k} starts at ${cov.f[k]}`); if (typeof f.name !== 'string') v.push(`f${k} without name`); }
  for (const [k, b] of Object.entries(cov.branchMap)) {
    okRange(b.loc, 'b' + k); if (b.line !== b.loc.start.line) v.push(`b${k}: line ${b.line}`);
    if (!b.locations.length && b.type !== 'switch') v.push(`b${k} without arms`);
    b.locations.forEach((r, i) => okRange(r, `b${k}.${i}`));
    const z = cov.b[k]; if (!Array.isArray(z) || z.length !== b.locations.length || z.some((x) => x !== 0)) v.push(`b${k}: counts ${JSON.stringify(z)} for ${b.locations.length} arms`);
  }
  if (!logic) { if (cov.bT !== undefined && cov.bT !== null) v.push('bT without logic reporting'); }
  else {
    const want = Object.entries(cov.branchMap).filter(([, b]) => b.type === 'binary-expr').map(([k]) => k).sort().join();
    const got = Object.keys(cov.bT || {}).sort().join();
    if (want !== got) v.push(`bT ids [${got}] vs logical branches [${want}]`);
    else for (const k of Object.keys(cov.bT || {})) { const z = cov.bT[k]; if (z.length !== cov.branchMap[k].locations.length || z.some((x) => x !== 0)) v.push(`bT${k}: ${JSON.stringify(z)}`); }
  }
  return v;
}

// The redundant line fields of functions and branches.
function lineFields(cov) {
  const v = [];
  for (const [k, f] of Object.entries(cov.fnMap)) if (f.line !== f.loc.start.line) v.push(`function ${k}: line ${f.line}, its range starts in ${f.loc.start.line}`);
  for (const [k, b] of Object.entries(cov.branchMap)) if (b.line !== b.loc.start.line) v.push(`branch ${k}: line ${b.line}, its range starts in ${b.loc.start.line}`);
  return v;
}

// Counter updates in emitted code: <cov call>.<table>[i](\[j\])
function counters(ast, code) {
  const out = new Set();
  // the coverage function of this file, when another tool's are there as well
  const own = new Set(ast.body.filter((n) => n.type === 'FunctionDeclaration' && /^cov_/.test(n.id.name) && code.slice(n.start, n.end).includes(`"${FILE}"`)).map((n) => n.id.name));
  const isOwn = (x) => (own.size ? own.has(x) : /^cov_/.test(x));
  const go = (n, fnName) => {
    if (!n || typeof n !== 'object') return;
    if (Array.isArray(n)) { for (const x of n) go(x); return; }
    if (typeof n.type !== 'string') return;
    if (n.type === 'UpdateExpression' || n.type === 'AssignmentExpression') {
      let m = n.argument || n.left;
      const path = [];
      const bare = (x) => { while (x && x.type === 'ParenthesizedExpression') x = x.expression; return x; };
      m = bare(m);
      while (m && m.type === 'MemberExpression') { path.unshift(m.computed ? (m.property.type === 'Literal' ? String(m.property.value) : '?') : m.property.name); m = bare(m.object); }
      if (m && m.type === 'CallExpression' && m.callee.type === 'Identifier' && isOwn(m.callee.name) && ['s', 'f', 'b', 'bT'].includes(path[0])) out.add(path.join('.'));
    }
    for (const k of Object.keys(n)) if (k !== '_ch' && k !== 'type') go(n[k]);
  };
  go(ast);
  return out;
}
function closed(cov, ast, code) {
  const v = [];
  const have = counters(ast, code);
  const want = new Set();
  for (const k of Object.keys(cov.s)) want.add('s.' + k);
  for (const k of Object.keys(cov.f)) want.add('f.' + k);
  for (const [k, a] of Object.entries(cov.b)) a.forEach((_, i) => want.add(`b.${k}.${i}`));
  for (const [k, a] of Object.entries(cov.bT || {})) a.forEach((_, i) => want.add(`bT.${k}.${i}`));
  for (const x of have) if (!want.has(x)) v.push(`counter ${x} has no entry`);
  for (const x of want) if (!have.has(x)) v.push(`entry ${x} has no counter in the emitted code`);
  return v;
}

// After a run every table still has exactly the entries it started with, all of them counts.
function keptShape(cov, c) {
  if (!c) return null; // stopped before the first counter
  const bad = (a, b) => {
    const x = Object.keys(a), y = Object.keys(b || {});
    return x.length !== y.length || x.some((k) => !(k in b) || (Array.isArray(a[k]) ? !Array.isArray(b[k]) || bad(a[k], b[k]) : !Number.isInteger(b[k]) || b[k] < 0));
  };
  for (const t of ['s', 'f', 'b', 'bT']) if ((cov[t] || c[t]) && bad(cov[t] || {}, c[t])) return `runtime table ${t} is ${JSON.stringify(c[t])} for ${JSON.stringify(cov[t])}`;
  for (const t of ['statementMap', 'fnMap', 'branchMap']) if (Object.keys(c[t]).length !== Object.keys(cov[t]).length) return `runtime ${t} has other entries`;
  return null;
}

// does the text start (behind comments) with a string that stands alone?
const startsWithString = (src) => /^(?:\s|\/\/[^\n]*\n|\/\*[^]*?\*\/)*(['"])(?:(?!\1)[^\\\n]|\\[^])*\1/.test(src.replace(/^#!.*/, ''));

const VARIANTS = [{ debugInitialCoverageComment: true }, { debugInitialCoverageComment: true, reportLogic: true }];

function prepare(code, script, ast) {
  if (script) return env.compile(code.replace(/^#!.*/, ''));
  const d = demodule(code, ast, { observe: true });
  return env.compile(d.code, { strict: true, asyncBody: d.tla });
}

// prog: { src, script, opts? }, resp: service response with outs for VARIANTS
// want: set of property ids; returns { skip } or { v: [{prop, detail, choices}], stats }
function judge(prog, resp, want, limits) {
  const v = [];
  const all = (detail, choices) => { for (const p of want) v.push({ prop: p, detail, choices }); };
  const add = (prop, detail, choices) => { if (want.has(prop)) v.push({ prop, detail, choices }); };
  const stats = { runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0 };
  let ref;
  const opt = { module: !prog.script, ...(prog.refOpts || {}) };
  const refSrc = prog.refSrc || prog.src;
  env.env_.loud = !!prog.loud;
  if (prog.noRef) ref = { noRef: true }; else try { ref = R.analyse(refSrc, opt); } catch (e) { return { skip: 'reference parser: ' + e.message }; }
  if (resp.plain_err) return { skip: 'swc parser: ' + resp.plain_err };
  if (resp.err) { all(resp.err); return { v, stats }; }
  if (prog.using) { const { plain: un } = require('./using.js'); resp = { ...resp, plain: un(resp.plain), outs: resp.outs.map((o) => (o.code ? { ...o, code: un(o.code) } : o)) }; }
  // what a compiler turns into other code is compared with the compiled program
  let outlineOf = ref.ast;
  if (prog.compiled) try { outlineOf = R.parse(resp.plain, { module: !prog.script }); } catch (e) { return { skip: 'compiled code does not parse: ' + e.message }; }
  const modes = [];
  for (let i = 0; i < resp.outs.length; i++) {
    const o = resp.outs[i];
    const logic = i === 1;
    const m = { logic, name: logic ? 'reportLogic' : 'default', o };
    if (o.err) { all(`${m.name}: ${o.err}`); continue; }
    try { m.ast = R.parse(o.code, { module: !prog.script }); } catch (e) { all(`${m.name}: emitted code does not parse: ${e.message}`); continue; }
    if (ref.ignoreFile) { if (o.cov) all(`${m.name}: ignored file has coverage`); if (o.code !== resp.plain) all(`${m.name}: ignored file is changed`); continue; }
    if (!o.cov) { all(`${m.name}: no coverage data`); continue; }
    m.cov = JSON.parse(o.cov);
    modes.push(m);
  }
  if (want.has('C20')) {
    for (const m of modes) {
      if (!m.ast.body.some((n) => n.type === 'FunctionDeclaration' && /^cov_/.test(n.id.name))) add('C20', `${m.name}: no coverage function`);
      const outline = (ast) => ast.body.filter((n) => /^(Import|Export)/.test(n.type)).map((n) => n.type + ':' + (n.source ? n.source.value : '') + ':' + (n.specifiers || []).map((s) => `${(s.imported || {}).name || ''}${(s.exported || s.local).name}`).join() + ':' + (n.declaration ? (n.declaration.id ? n.declaration.id.name : (n.declaration.declarations || []).map((d) => d.id.name).join()) : '')).join(';');
      const a = outline(outlineOf), b = outline(m.ast);
      if (a !== b) add('C20', `${m.name}: imports/exports changed: ${a} -> ${b}`);
      const dirs = (ast) => ast.body.filter((n) => n.directive !== undefined).map((n) => n.directive).join();
      // a string that was not in the prologue of the source is no directive, even where the compiler took everything away that stood in front of it
      const late = prog.compiled && !(prog.req && prog.req.strip === 'before') && !startsWithString(prog.src);
      const want_ = late ? '' : dirs(outlineOf);
      if (want_ !== dirs(m.ast)) add('C20', `${m.name}: directives changed: ${want_} -> ${dirs(m.ast)}`);
    }
  }
  if (want.has('C06')) for (const m of modes) {
    for (const d of wellFormed(m.cov, prog.src, m.logic, prog.noRef && prog.req && prog.req.strip === 'before')) add('C06', `${m.name}: ${d}`);
    for (const d of closed(m.cov, m.ast, m.o.code)) add('C06', `${m.name}: ${d}`);
  }
  const needEntries = !prog.noRef && ['C02', 'C03', 'C04', 'C05', 'C07', 'C08', 'C09'].some((p) => want.has(p));
  const re = needEntries ? refEntries(ref) : null;
  if (needEntries) for (const m of modes) {
    const ie = implEntries(m.cov);
    m.S = pair(ie.S, re.S); m.F = pair(ie.F, re.F); m.B = pair(ie.B, re.B);
    stats.entries += ie.S.length + ie.F.length + ie.B.length;
    const w = (prop, x, kind) => { for (const d of x.diff) { add(prop, `${m.name}: ${kind} ${d}`); for (const p of ['C07', 'C08', 'C09']) add(p, `${m.name}: ${kind} ${d}`); } };
    w('C02', m.S, 'statement'); w('C03', m.F, 'function'); w('C04', m.B, 'branch');
    if (want.has('C09')) for (const d of lineFields(m.cov)) add('C09', `${m.name}: ${d}`);
    if (want.has('C05')) {
      if (m.logic) {
        const logicIds = ie.B.filter((b) => b.logic).map((b) => b.id).sort().join();
        const bt = Object.keys(m.cov.bT || {}).sort().join();
        if (logicIds !== bt) add('C05', `bT has [${bt}], logical branches are [${logicIds}]`);
        const base = modes.find((x) => !x.logic);
        if (base) for (const k of ['statementMap', 'fnMap', 'branchMap', 's', 'f', 'b']) if (JSON.stringify(base.cov[k]) !== JSON.stringify(m.cov[k])) add('C05', `${k} differs with logic reporting`);
      } else if (m.cov.bT) add('C05', 'truth table without logic reporting');
    }
  }
  if (v.length || !modes.length || !['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'].some((p) => want.has(p)) || prog.static) return { v, stats };

  // ---- execution
  let plain, refFn;
  try { plain = prepare(resp.plain, prog.script); } catch (e) { return { skip: 'plain code does not compile: ' + e.message }; }
  try { for (const m of modes) m.fn = prepare(m.o.code, prog.script, m.ast); } catch (e) { all('instrumented code does not compile: ' + e.message); return { v, stats }; }
  if (needEntries) try { refFn = prepare(ref.code, prog.script); } catch (e) { return { skip: 'reference code does not compile: ' + e.message + '\n' + ref.code, machinery: true }; }
  const wantTrace = ['C01', 'C05', 'C07', 'C08'].some((p) => want.has(p));
  let machinery = null;
  const outcomes = new Set();
  // swc's printer alone may change a program; the original text has the last word
  let orig;
  const printer = (choices, lim, t) => {
    if (prog.noRef) return false;
    try { orig ||= prepare(refSrc, prog.script); return eqArr(env.run(fresh(orig), choices.slice(), lim), t); } catch { return false; }
  };
  // a program may keep coverage data of its own
  const fresh = (fn) => function () { delete globalThis.__coverage__; delete globalThis.foreign_; delete globalThis.__other__; return fn.apply(this, arguments); };
  const r = env.explore(fresh(plain), limits, (choices, trace) => {
    if (v.length > 3 || machinery) return;
    stats.runs++;
    outcomes.add(trace.join(' '));
    const lim = { depth: 0, throws: limits.throws };
    let rc = null;
    if (refFn) {
      env.resetRef();
      const t = env.run(fresh(refFn), choices.slice(), lim);
      if (!eqArr(trace, t)) {
        machinery = { orig: printer(choices, lim, t), text: `reference diverges from plain on ${choices}: ${traceDiff(trace, t)}\n${ref.code}` };
        return;
      }
      rc = env.ref;
    }
    for (const m of modes) {
      const t = env.run(fresh(m.fn), choices.slice(), lim);
      const kept = (globalThis.__coverage__ || {})[FILE];
      if (wantTrace && !eqArr(trace, t) && !printer(choices, lim, t)) { const d = `${m.name}: ${traceDiff(trace, t)}`; add('C01', d, choices); add('C07', d, choices); add('C08', d, choices); if (m.logic) add('C05', d, choices); }
      if (want.has('C06')) {
        const d = keptShape(m.cov, kept) || (!kept && t.some((x) => /^(?:end|resolved) /.test(x)) ? 'the run completes and leaves no coverage' : null);
        if (d) add('C06', `${m.name}: ${d}`, choices);
      }
      if (!needEntries) continue;
      const c = kept || { s: {}, f: {}, b: {}, bT: {} };
      const cmp = (prop, groups, kind, geti, getr) => {
        for (const g of groups) {
          const a = g.impl.map(geti).map(String), b = g.ref.map(getr).map(String);
          if (a.length > 1) { a.sort(); b.sort(); }
          if (!eqArr(a, b)) { const d = `${m.name}: ${kind} ${g.key} counted ${a}, expected ${b}`; add(prop, d, choices); add('C07', d, choices); add('C08', d, choices); }
          else if (a[0] !== '0') stats.hitEntries++;
        }
      };
      if (want.has('C02') || want.has('C07') || want.has('C08')) cmp('C02', m.S.groups, 'statement', (i) => c.s[i] || 0, (i) => rc.s[i] || 0);
      if (want.has('C03') || want.has('C07') || want.has('C08')) cmp('C03', m.F.groups, 'function', (i) => c.f[i] || 0, (i) => rc.f[i] || 0);
      const arms = (tab, i, n) => { const a = (tab && tab[i]) || []; let s = ''; for (let j = 0; j < n; j++) s += (a[j] || 0) + ' '; return s; };
      if (want.has('C04') || want.has('C07') || want.has('C08')) cmp('C04', m.B.groups, 'branch', (i) => arms(c.b, i, m.cov.b[i].length), (i) => arms(rc.b, i, ref.B[i].locations.length));
      if (m.logic && want.has('C05')) {
        cmp('C05', m.B.groups.filter((g) => g.logic), 'truth', (i) => arms(c.bT, i, m.cov.b[i].length), (i) => arms(rc.t, i, ref.B[i].locations.length));
        cmp('C05', m.S.groups, 'statement', (i) => c.s[i] || 0, (i) => rc.s[i] || 0);
        cmp('C05', m.B.groups, 'branch', (i) => arms(c.b, i, m.cov.b[i].length), (i) => arms(rc.b, i, ref.B[i].locations.length));
      }
    }
  });
  stats.nodes = r.nodes; stats.edges = r.edges; if (r.capped) stats.capped = 1;
  stats.outcomes = outcomes.size;
  if (machinery) {
    // swc's printer itself may change a program (e.g. it drops parentheses); then the
    // plain code is no baseline. The original text decides.
    if (machinery.orig) return { skip: 'swc prints a different program without instrumentation' };
    return { skip: machinery.text, machinery: true };
  }
  return { v, stats };
}
// What the service is asked for a program.
const request = (p) => ({ src: p.src, script: !!p.script, plain: true, filename: FILE, variants: VARIANTS.map((v) => ({ ...v, ...(p.opts || {}) })), ...(p.req || {}) });
module.exports = { judge, request, VARIANTS, wellFormed, closed, implEntries, refEntries, pair, FILE, rk };
