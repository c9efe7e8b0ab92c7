'use strict';
// Reference model: which entries a source has, and an independently
// instrumented version of it. Works on the original text with acorn; shares
// nothing with the implementation under test.
const acorn = require('./vendor/acorn.js');
const jsx = require('./vendor/acorn-jsx/index.js');
const JsxParser = acorn.Parser.extend(jsx());

const HINT = /^\s*istanbul\s+ignore\s+(if|else|next)(\W|$)/;
const FILE_HINT = /^\s*istanbul\s+ignore\s+(file)(\W|$)/;

function parse(src, { module = true, useJsx = false, onComment } = {}) {
  return (useJsx ? JsxParser : acorn.Parser).parse(src, {
    ecmaVersion: 'latest', sourceType: module ? 'module' : 'script', preserveParens: true, onComment,
    allowReturnOutsideFunction: false,
  });
}

// Line table of the property: lines end at LF, CRLF or CR, columns count UTF-16
// code units, a leading byte order mark is not part of the text.
function lineTable(src) {
  const starts = [0];
  for (let i = 0; i < src.length; i++) if (src[i] === '\n' || (src[i] === '\r' && src[i + 1] !== '\n')) starts.push(i + 1);
  return starts;
}
function posOf(src, starts, off) {
  let lo = 0, hi = starts.length - 1;
  while (lo < hi) { const m = (lo + hi + 1) >> 1; if (starts[m] <= off) lo = m; else hi = m - 1; }
  return lo + 1 + ':' + (off - starts[lo] - (lo === 0 && off > 0 && src.charCodeAt(0) === 0xfeff ? 1 : 0));
}

const isNode = (x) => x && typeof x === 'object' && typeof x.type === 'string' && typeof x.start === 'number';
function children(n) {
  if (n._ch) return n._ch;
  const out = [];
  for (const k of Object.keys(n)) {
    if (k === '_ch') continue;
    if (n.shorthand === true && k === 'key') continue;
    const v = n[k];
    if (Array.isArray(v)) { for (const x of v) if (isNode(x)) out.push(x); } else if (isNode(v)) out.push(v);
  }
  out.sort((a, b) => a.start - b.start);
  Object.defineProperty(n, '_ch', { value: out, enumerable: false });
  return out;
}

const COUNTED = new Set(['ExpressionStatement', 'BreakStatement', 'ContinueStatement', 'ReturnStatement', 'ThrowStatement', 'TryStatement',
  'IfStatement', 'ForStatement', 'ForInStatement', 'ForOfStatement', 'WhileStatement', 'DoWhileStatement', 'SwitchStatement', 'LabeledStatement', 'WithStatement']);
const isStmt = (n) => /Statement$|Declaration$|^Export|^Import(Default|Namespace)?Declaration|^ImportDeclaration/.test(n.type);
const isLogical = (n) => n.type === 'LogicalExpression';
// functions and classes without any block in them
function blockless(n) {
  if (!/^(ArrowFunction|Function|Class)Expression$/.test(n.type)) return false;
  const has = (x) => x.type === 'BlockStatement' || x.type === 'StaticBlock' || children(x).some(has);
  return !has(n);
}
const unparen = (n) => { while (n.type === 'ParenthesizedExpression') n = n.expression; return n; };

function analyse(src, opt = {}) {
  const { module = true, useJsx = false, ignoreClassMethods = [] } = opt;
  const comments = [];
  const ast = parse(src, { module, useJsx, onComment: comments });
  const starts = lineTable(src);
  const S = [], F = [], B = [];
  let tmp = 0;
  const rng = (a, b) => posOf(src, starts, a) + '-' + posOf(src, starts, b);

  // token position -> hint kinds
  const hints = new Map();
  let ignoreFile = false;
  const byStart = new Map(comments.map((c) => [c.start, c]));
  for (const c of comments) {
    const m = HINT.exec(c.value), fm = FILE_HINT.exec(c.value);
    if (!m && !fm) continue;
    let p = c.end;
    for (;;) {
      if (byStart.has(p)) { p = byStart.get(p).end; continue; }
      if (p < src.length && /\s/.test(src[p])) { p++; continue; }
      break;
    }
    if (m && !hints.has(p)) hints.set(p, m[1]);
    if (fm) { const q = firstToken(); if (q === p || p === src.length) ignoreFile = true; }
  }
  function firstToken() {
    let p = 0;
    if (src.startsWith('#!')) { p = src.indexOf('\n'); if (p < 0) p = src.length; }
    for (;;) {
      if (byStart.has(p)) { p = byStart.get(p).end; continue; }
      if (p < src.length && /\s/.test(src[p])) { p++; continue; }
      return p;
    }
  }
  if (ignoreFile) return { ignoreFile, S, F, B, code: src };
  const hint = (n) => hints.get(n.start);
  const next = (n) => hint(n) === 'next';

  const newS = (n, a, b) => S.push(rng(a ?? n.start, b ?? n.end)) - 1;
  const newF = (name, dn, body) => F.push({ name, decl: rng(dn.start, dn.end), loc: rng(body.start, body.end) }) - 1;
  const newB = (type, n) => B.push({ type, loc: rng(n.start, n.end), locations: [], logic: type === 'binary-expr' }) - 1;
  const newArm = (k, n) => B[k].locations.push(rng(n.start, n.end)) - 1;

  const raw = (n, map) => {
    let out = '', p = n.start;
    for (const c of children(n)) { out += src.slice(p, c.start) + map(c); p = c.end; }
    return out + src.slice(p, n.end);
  };
  const text = (n) => src.slice(n.start, n.end);

  // ---- statements
  function list(stmts, prefix, allowDirectives) {
    let out = '', i = 0;
    if (allowDirectives) while (i < stmts.length && stmts[i].directive !== undefined) { const t = text(stmts[i++]); out += t + (t.endsWith(';') ? '\n' : ';\n'); }
    out += prefix;
    for (; i < stmts.length; i++) out += stmt(stmts[i]) + '\n';
    return out;
  }
  const semi = (s, t) => (/^(Expression|Break|Continue|Return|Throw|DoWhile)Statement$|^VariableDeclaration$|^PropertyDefinition$/.test(s.type) && !/;\s*$/.test(t) ? t + ';' : t);

  function stmt(s) {
    if (next(s)) return semi(s, text(s));
    const pend = [];
    let own = '';
    if (COUNTED.has(s.type)) own = `$s(${newS(s)});`;
    if (s.type === 'ExportNamedDeclaration' && s.declaration?.type === 'VariableDeclaration' && s.declaration.kind === 'const') own = `$s(${newS(s)});`;
    const t = semi(s, inner(s, pend, true));
    return own + pend.map((i) => `$s(${i});`).join('') + t;
  }
  const single = (s, pre = '') => `{ ${pre}${stmt(s)} }`;
  function block(b, prefix = '', dirs = false) { return '{ ' + prefix0(b, prefix, dirs) + ' }'; }
  const prefix0 = (b, prefix, dirs) => list(b.body, prefix, dirs);

  function inner(s, pend, inList) {
    const X = (n) => expr(n, pend);
    switch (s.type) {
      case 'BlockStatement': return block(s);
      case 'StaticBlock': return 'static ' + block(s);
      case 'IfStatement': {
        const k = newB('if', s);
        const h = hint(s);
        const arm = (n) => {
          const i = newArm(k, s);
          return n ? single(n, `$b(${k},${i});`) : `{ $b(${k},${i}); }`;
        };
        const cons = h === 'if' ? text(s.consequent) : arm(s.consequent);
        const alt = h === 'else' ? (s.alternate ? text(s.alternate) : '{}') : arm(s.alternate);
        return `if (${X(s.test)}) ${h === 'if' ? '{' + cons + '}' : cons} else ${h === 'else' ? '{' + alt + '}' : alt}`;
      }
      case 'SwitchStatement': {
        const k = newB('switch', s);
        let out = `switch (${X(s.discriminant)}) {`;
        for (const c of s.cases) {
          if (next(c)) { out += text(c) + '\n'; continue; }
          const i = newArm(k, c);
          out += (c.test ? `case ${X(c.test)}:` : 'default:') + ` $b(${k},${i});` + list(c.consequent, '') + '\n';
        }
        if (!B[k].locations.length) B[k].dropped = true;
        return out + '}';
      }
      case 'LabeledStatement': {
        // counters of everything up to the labelled statement go in front of the label
        const b = s.body;
        if (next(b)) return text(s);
        if (COUNTED.has(b.type)) { pend.push(newS(b)); return `${text(s.label)}: ${inner(b, pend)}`; }
        return `${text(s.label)}: ${b.type === 'BlockStatement' ? block(b) : inner(b, pend)}`;
      }
      case 'TryStatement': {
        let out = 'try ' + block(s.block);
        if (s.handler) out += ` catch ${s.handler.param ? '(' + X(s.handler.param) + ')' : ''} ` + block(s.handler.body);
        if (s.finalizer) out += ' finally ' + block(s.finalizer);
        return out;
      }
      case 'ForStatement': case 'ForInStatement': case 'ForOfStatement': case 'WhileStatement': case 'DoWhileStatement': case 'WithStatement':
        return raw(s, (c) => (c === s.body ? single(c) + ' ' : c.type === 'VariableDeclaration' ? varDecl(c, pend, s.type !== 'ForStatement') : X(c)));
      case 'VariableDeclaration': return varDecl(s, pend);
      case 'ExportNamedDeclaration':
        if (s.declaration && next(s.declaration)) return text(s);
        if (s.declaration?.type === 'VariableDeclaration') {
          // count in front; the $t names are no exports (module.js)
          const one = s.declaration.declarations.length === 1;
          return raw(s, (v) => raw(v, (d) => {
            if (next(d)) return text(d);
            // the export's own entry stands for functions without a block
            if (!d.init || d.init.type === 'TaggedTemplateExpression' || (s.declaration.kind === 'const' && blockless(unparen(d.init)))) return raw(d, X);
            const i = newS(d.init);
            if (one) { pend.push(i); return raw(d, X); }
            return `$t${tmp++} = $s(${i}), ` + raw(d, X);
          }));
        }
        if (s.declaration) return raw(s, (c) => (c === s.declaration ? decl(c, pend) : text(c)));
        return text(s);
      case 'ExportDefaultDeclaration': return raw(s, (c) => decl(c, pend));
      case 'ImportDeclaration': case 'ExportAllDeclaration': case 'EmptyStatement': case 'DebuggerStatement': return text(s);
      case 'FunctionDeclaration': case 'ClassDeclaration': return decl(s, pend);
      default: return raw(s, X);
    }
  }
  function decl(n, pend) {
    if (next(n)) return text(n);
    if (n.type === 'FunctionDeclaration') return fn(n, n.id ? n.id.name : null, n.id || n, pend);
    if (n.type === 'VariableDeclaration') return varDecl(n, pend);
    return expr(n, pend);
  }
  function varDecl(v, pend, inHead) {
    return raw(v, (d) => {
      if (next(d) && d.start !== v.start) return text(d);
      if (!d.init) return raw(d, (c) => expr(c, pend));
      // a tagged template initialiser has one entry, counted like any tagged template
      if (d.init.type === 'TaggedTemplateExpression') return raw(d, (c) => expr(c, pend));
      const i = newS(d.init);
      if (inHead) return raw(d, (c) => (c === d.init ? `($s(${i}), ${expr(c, pend)})` : expr(c, pend)));
      const name = `$t${tmp++}`;
      return `${name} = $s(${i}), ` + raw(d, (c) => expr(c, pend));
    });
  }

  // ---- functions
  function ignored(name) { return ignoreClassMethods.includes(name); }
  function fn(n, name, declNode, pend) {
    const k = newF(name, declNode, n.body);
    return raw(n, (c) => {
      if (c !== n.body) return expr(c, pend);
      if (n.body.type === 'BlockStatement') return block(n.body, `$f(${k});`, true);
      if (next(n.body)) return `{ $f(${k}); return ${text(n.body)}; }`;
      const si = newS(n.body);
      const p = [];
      const t = expr(n.body, p);
      return `{ $f(${k}); $s(${si}); ${p.map((i) => `$s(${i});`).join('')} return ${t}; }`;
    });
  }
  const methodName = (n) => (n.kind === 'constructor' ? 'constructor' : n.key.type === 'PrivateIdentifier' ? '#' + n.key.name : !n.computed && n.key.type === 'Identifier' ? n.key.name : 'anonymous');
  function method(n, inClass, pend) {
    const name = methodName(n);
    if (name !== 'anonymous' && ignored(name)) return text(n);
    if (name === 'anonymous' && ignored('anonymous')) { /* names of computed methods are not matched */ }
    const simple = name !== 'anonymous';
    const accessor = n.kind === 'get' || n.kind === 'set';
    let dn = n.key;
    if (!simple) dn = !inClass && accessor ? n : computedSpan(n);
    return raw(n, (c) => (c === n.value ? fn(n.value, name, dn, pend) : expr(c, pend)));
  }
  function computedSpan(n) {
    if (!n.computed) return n.key;
    // the key of a computed member is denoted with its brackets
    let a = n.key.start - 1, b = n.key.end;
    while (src[a] !== '[') a--;
    while (src[b] !== ']') b++;
    return { start: a, end: b + 1 };
  }

  // ---- expressions
  function expr(n, pend) {
    const X = (c) => expr(c, pend);
    switch (n.type) {
      case 'LogicalExpression': {
        if (next(n)) return text(n);
        const k = newB('binary-expr', n);
        const t = raw(n, (c) => logicalOperand(k, c, pend));
        if (!B[k].locations.length) B[k].dropped = true;
        return t;
      }
      case 'ConditionalExpression': {
        if (next(n)) return text(n);
        const k = newB('cond-expr', n);
        const arm = (c) => {
          if (next(c)) return '(' + X(c) + ')';
          const i = newArm(k, c);
          return `($b(${k},${i}), ${X(c)})`;
        };
        const t = raw(n, (c) => (c === n.test ? X(c) : arm(c)));
        if (!B[k].locations.length) B[k].dropped = true;
        return t;
      }
      case 'AssignmentPattern': {
        if (next(n)) return text(n);
        const k = newB('default-arg', n);
        if (next(n.right)) { B[k].dropped = true; return raw(n, (c) => (c === n.right ? text(c) : X(c))); }
        return raw(n, (c) => {
          if (c !== n.right) return X(c);
          const i = newArm(k, c);
          return `($b(${k},${i}), ${X(c)})`;
        });
      }
      case 'TaggedTemplateExpression': {
        if (next(n)) return text(n);
        pend.push(newS(n));
        return raw(n, X);
      }
      case 'ArrowFunctionExpression': if (next(n)) return text(n); return fn(n, null, n, pend);
      case 'FunctionExpression':
        if (next(n)) return text(n);
        if (n.id && ignored(n.id.name)) return text(n);
        return fn(n, n.id ? n.id.name : null, n.id || n, pend);
      case 'FunctionDeclaration': return decl(n, pend);
      case 'MethodDefinition': if (next(n)) return text(n); return method(n, true, pend);
      case 'Property':
        if (n.value && n.value.type === 'FunctionExpression' && (n.method || n.kind === 'get' || n.kind === 'set')) {
          if (next(n)) return text(n);
          return method(n, false, pend);
        }
        if (n.shorthand && n.value.type !== 'AssignmentPattern') return text(n);
        return raw(n, X);
      case 'PropertyDefinition': {
        if (next(n)) return semi(n, text(n));
        if (!n.value) return raw(n, X);
        if (n.value.type === 'TaggedTemplateExpression') return semi(n, raw(n, X));
        const i = newS(n.value);
        return `${n.static ? 'static ' : ''}#$t${tmp++} = $s(${i}); ` + semi(n, raw(n, X)) ;
      }
      case 'ClassDeclaration': if (next(n)) return text(n); return raw(n, X);
      case 'StaticBlock': return inner(n, pend);
      case 'BlockStatement': return block(n);
      case 'VariableDeclaration': return varDecl(n, pend);
      default: return raw(n, X);
    }
  }
  function logicalOperand(k, n, pend) {
    const u = unparen(n);
    if (isLogical(u)) {
      if (next(n) || next(u)) return text(n);
      return '(' + raw(u, (c) => logicalOperand(k, c, pend)) + ')';
    }
    const t = expr(n, pend);
    if (next(n)) return `(${t})`;
    const i = newArm(k, n);
    return `$t(${k},${i},($b(${k},${i}), ${t}))`;
  }

  const code = list(ast.body, '', true);
  return { S, F, B, code, ast };
}

module.exports = { analyse, parse, lineTable, posOf, children };
