'use strict';
// C22: the emitted code keeps the comments and the source positions of the
// program. With every injected token taken out, the instrumented text has the
// tokens and comments of the text without instrumentation, each at the same
// original position; and on every execution, whatever the program calls, throws
// or reads is at the same original position.
const acorn = require('./vendor/acorn.js');
const env = require('./env.js');
const { demodule } = require('./module.js');
const FILE = '/p/f.js';
const VARIANTS = [{}, { reportLogic: true }];
const eqArr = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);

// Tokens and comments in order.
function read(code, script) {
  const list = [];
  const ast = acorn.parse(code, {
    ecmaVersion: 'latest', sourceType: script ? 'script' : 'module',
    onToken: (t) => { if (t.type !== acorn.tokTypes.eof) list.push({ s: t.start, x: code.slice(t.start, t.end) }); },
    onComment: (b, text, s, e) => list.push({ s, x: code.slice(s, e), comment: true }),
  });
  list.sort((a, b) => a.s - b.s);
  const starts = [0];
  for (let i = 0; i < code.length; i++) if (code[i] === '\n') starts.push(i + 1);
  return { code, ast, list, starts };
}
// The ranges of what was injected: whatever begins with the coverage function.
function injected(r, cov) {
  const cuts = [];
  const root = (n) => { for (;;) switch (n.type) {
    case 'CallExpression': n = n.callee; break;
    case 'MemberExpression': n = n.object; break;
    case 'UpdateExpression': if (n.prefix) { n = n.argument; break; } n = n.argument; break;
    case 'AssignmentExpression': case 'LogicalExpression': case 'BinaryExpression': n = n.left; break;
    case 'ConditionalExpression': n = n.test; break;
    default: return n.type === 'Identifier' && n.name === cov;
  } };
  const drop = (n) => {
    if (n.type === 'AssignmentExpression' && n.operator === '=') { cuts.push([n.start, n.right.start]); go(n.right); } else cuts.push([n.start, n.end]);
  };
  const go = (n) => {
    if (!n || typeof n !== 'object') return;
    if (Array.isArray(n)) { n.forEach(go); return; }
    if (typeof n.type !== 'string') return;
    if (n.type === 'FunctionDeclaration' && n.id && n.id.name === cov) { cuts.push([n.start, n.end]); return; }
    if (n.type === 'ExpressionStatement' && root(n.expression)) { drop(n.expression); return; }
    if (n.type === 'SequenceExpression') { for (const e of n.expressions) if (root(e)) drop(e); else go(e); return; }
    for (const k of Object.keys(n)) go(n[k]);
  };
  go(r.ast.body);
  cuts.sort((a, b) => a[0] - b[0]);
  return cuts;
}
const PUNCT = new Set(['(', ')', '{', '}', ';', ',', '']);
function keepers(r, cuts) {
  let k = 0;
  // what the printer may lose when it simplifies parentheses and sequences
  let before = '';
  r.list.forEach((t, i) => {
    const next = t.comment ? (r.list.slice(i + 1, i + 9).find((x) => !x.comment) || { x: '' }).x : '';
    t.loose = t.comment ? /^[(),0]$/.test(next) || /^[(),0]$/.test(before) : t.x === '0';
    if (!t.comment) before = t.x;
  });
  return r.list.filter((t) => {
    while (k < cuts.length && cuts[k][1] <= t.s) k++;
    const cut = k < cuts.length && cuts[k][0] <= t.s;
    return t.comment ? true : !cut && !PUNCT.has(t.x);
  });
}
// Positions of the output, by line.
function table(map, r) {
  const lines = [];
  for (const [p, l, c] of map) (lines[l] ||= []).push([c, p]);
  for (const l of lines) if (l) l.sort((a, b) => a[0] - b[0]);
  return lines;
}
// What a consumer of source maps answers for a position of the output.
function lookup(lines, l, c) {
  const L = lines[l];
  if (!L) return null;
  let lo = 0, hi = L.length;
  while (lo < hi) { const m = (lo + hi) >> 1; if (L[m][0] <= c) lo = m + 1; else hi = m; }
  return lo ? L[lo - 1] : null;
}
function lineOf(starts, at) { let lo = 0, hi = starts.length; while (lo < hi) { const m = (lo + hi) >> 1; if (starts[m] <= at) lo = m + 1; else hi = m; } return lo - 1; }
const place = (r, lines, at) => { const l = lineOf(r.starts, at); return lookup(lines, l, at - r.starts[l]); };
// Every original position the output has at exactly this place.
const exact = (r, lines, at) => { const l = lineOf(r.starts, at), c = at - r.starts[l]; return (lines[l] || []).filter((x) => x[0] === c).map((x) => x[1]); };

const ADDED = new Set(['else', 'return']);
function* align(P, I) {
  let i = 0;
  for (let j = 0; j < I.length; j++) {
    if (i < P.length && P[i].x === I[j].x) { yield [P[i], I[j]]; i++; continue; }
    if (ADDED.has(I[j].x)) continue;
    // the printer simplifies nested sequences: their parentheses and zeros go
    let k = i;
    while (k < P.length && P[k].loose && P[k].x !== I[j].x) k++;
    if (k > i && k < P.length && P[k].x === I[j].x) { i = k; j--; continue; }
    yield `${i < P.length ? JSON.stringify(P[i].x) : 'the end'} expected, got ${JSON.stringify(I[j].x)} behind ${i ? JSON.stringify(P[i - 1].x) : 'the start'}`;
    return;
  }
  if (i < P.length) yield `${JSON.stringify(P[i].x)} is gone`;
}

function judge(prog, resp, want, limits) {
  const v = [];
  const add = (detail, choices) => v.push({ prop: 'C22', detail, choices });
  const stats = { runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0, outcomes: 0 };
  if (resp.plain_err) return { skip: 'swc parser: ' + resp.plain_err };
  if (resp.err) { add(resp.err); return { v, stats }; }
  let plain;
  try { plain = read(resp.plain, prog.script); } catch (e) { return { skip: 'reference parser: ' + e.message }; }
  const pl = table(resp.plain_map);
  const P = keepers(plain, []);
  const modes = [];
  // compilers make up tokens for an expression (the value of an enum's member)
  const bytes = Buffer.from(prog.src);
  const written = (o, x) => bytes.subarray(o, o + Buffer.byteLength(x)).toString() === x;
  resp.outs.forEach((o, k) => {
    const name = k ? 'reportLogic' : 'default';
    if (o.err) { add(`${name}: ${o.err}`); return; }
    let r;
    try { r = read(o.code, prog.script); } catch (e) { add(`${name}: emitted code does not parse: ${e.message}`); return; }
    const cov = r.ast.body.find((n) => n.type === 'FunctionDeclaration' && /^cov_\d+$/.test(n.id.name));
    const lines = table(o.map);
    for (const p of align(P, keepers(r, cov ? injected(r, cov.id.name) : []))) {
      if (typeof p === 'string') { add(`${name}: ${p}`); break; }
      stats.entries++;
      const [a, b] = p;
      if (a.comment) { stats.hitEntries++; continue; }
      if (!/^[\w$"'`#\u0080-\uffff]/.test(a.x)) continue;
      const x = exact(plain, pl, a.s), y = exact(r, lines, b.s);
      for (const o of x.slice(-1)) if (!y.includes(o) && written(o, a.x)) { add(`${name}: ${JSON.stringify(a.x)} of offset ${o} is reported at ${y.length ? y : 'no offset'}`); break; }
      if (v.length > 3) break;
    }
    modes.push({ name, r, lines, o });
  });
  if (v.length || prog.static || !modes.length) return { v, stats };

  // ---- execution: the stack at every observable event
  const ready = (r, lines) => {
    let code = r.code, head = 0, tla = false;
    if (prog.script) code = code.replace(/^#!.*/, ''); else ({ code, head, tla } = demodule(code, r.ast, { observe: true, keep: true }));
    const fn = env.compile(code, { strict: !prog.script, asyncBody: tla });
    return { r, lines, fn, shift: head + (tla ? 'async ' : '').length + '(function(){'.length + (prog.script ? 0 : '"use strict";'.length) };
  };
  let a;
  try { a = ready(plain, pl); } catch (e) { return { skip: 'plain code does not compile: ' + e.message }; }
  for (const m of modes) try { m.run = ready(m.r, m.lines); } catch (e) { add(`${m.name}: instrumented code does not compile: ${e.message}`); return { v, stats }; }
  const outcomes = new Set();
  // swc's printer alone may change a program; the original text has the last word
  let orig;
  const printed = (choices, lim, t) => {
    if (prog.req) return false;
    try { orig ||= env.compile(prog.script ? prog.src.replace(/^#!.*/, '') : demodule(prog.src, undefined, { observe: true }).code, { strict: !prog.script, asyncBody: !prog.script && demodule(prog.src).tla }); return eqArr(env.run(orig, choices.slice(), lim), t); } catch { return false; }
  };
  const r = env.explore(a.fn, limits, (choices, trace) => {
    if (v.length > 3) return;
    stats.runs++;
    outcomes.add(trace.join(' '));
    const lim = { depth: 0, throws: limits.throws };
    const at = stacks(() => env.run(a.fn, choices.slice(), lim));
    for (const m of modes) {
      delete globalThis.__coverage__;
      const t = stacks(() => env.run(m.run.fn, choices.slice(), lim));
      if (!eqArr(at.trace, t.trace)) { if (!printed(choices, lim, t.trace)) add(`${m.name}: with its comments [${at.trace.join(' ')}] becomes [${t.trace.join(' ')}]`, choices); continue; }
      at.places.some((frames, i) => frames.some((x, k) => {
        const y = t.places[i][k];
        const want = spot(a, x);
        if (!want.length) return false; // in front of a token without a position
        stats.hitEntries++;
        const got = y ? spot(m.run, y) : [];
        const o = want[want.length - 1];
        if (got.includes(o)) return false;
        add(`${m.name}: ${trace[i]} at offset ${o} is reported at ${got.length ? got : 'no offset'}`, choices);
        return true;
      }));
    }
  });
  stats.nodes = r.nodes; stats.edges = r.edges; if (r.capped) stats.capped = 1;
  stats.outcomes = outcomes.size;
  return { v, stats };
}
// The places in the program a run is at, event by event: the whole stack.
function stacks(f) {
  const places = [];
  const was = [Error.prepareStackTrace, Error.stackTraceLimit];
  Error.prepareStackTrace = (e, frames) => frames;
  Error.stackTraceLimit = 40;
  env.env_.where = (e) => {
    // the engine is inexact about errors of its own and about who runs static initialisers
    let s = e instanceof Error && e.constructor === Error ? e.stack : e instanceof Error ? [] : new Error().stack;
    if (!Array.isArray(s)) s = [];
    places.push(s.filter((x, i) => x.getFileName() === 'evalmachine.<anonymous>' && !(i && /static_initializer/.test(s[i - 1].getFunctionName()))).map((x) => [x.getLineNumber(), x.getColumnNumber()]));
  };
  try { return { trace: f().slice(), places }; } finally { env.env_.where = null; [Error.prepareStackTrace, Error.stackTraceLimit] = was; }
}
const spot = (c, [line, col]) => { const l = line - 1, x = col - 1 - (l ? 0 : c.shift); return (c.lines[l] || []).filter((m) => m[0] === x).map((m) => m[1]); };
const request = (p) => ({ src: p.src, script: !!p.script, plain: true, map: true, keep_comments: true, filename: FILE, variants: VARIANTS.map((v) => ({ ...v, ...(p.opts || {}) })), ...(p.req || {}) });

// Programs: every construct of the grammar, every gap between its tokens with a
// comment of its own.
function tokens(src, script) {
  const at = [];
  try { for (const t of acorn.tokenizer(src, { ecmaVersion: 'latest', sourceType: script ? 'script' : 'module' })) at.push(t.start); } catch { return null; }
  return at;
}
function commented(src, script, mk) {
  const at = tokens(src, script);
  if (!at) return null;
  let x = '', p = 0, n = 0;
  for (const i of [...at, src.length]) { x += src.slice(p, i) + mk(n++); p = i; }
  return x + src.slice(p);
}
function* places(tier) {
  const few = tier === 'thorough' ? undefined : { depth: 3, throws: 1, maxRuns: 2 };
  const corpora = require('./corpora.js');
  for (const c of ['forms', 'rare', 'grid', 'hints']) for (const p of corpora.get(c, tier)) {
    if (p.src.length > 4000) continue;
    const keep = { script: p.script, opts: p.opts };
    yield { src: p.src, ...keep };
    const a = commented(p.src, p.script, (n) => `/*${n}*/`);
    if (a) yield { src: a, ...keep, static: tier !== 'thorough' };
    const b = commented(p.src, p.script, (n) => `//${n}\n`);
    if (b) yield { src: b, ...keep, limits: few };
  }
  for (const c of ['types', 'elements', 'generated']) for (const p of corpora.get(c, tier)) yield { src: p.src, script: p.script, opts: p.opts, req: p.req };
}
module.exports = { judge, request, places };
