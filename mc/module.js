'use strict';
// Turns module code (import / export / top level await) into a function body,
// keeping evaluation order, so that it can be executed many times cheaply.
const { parse } = require('./ref.js');
function hasTopAwait(ast) {
  let found = false;
  const go = (n) => {
    if (found || !n || typeof n !== 'object') return;
    if (Array.isArray(n)) { n.forEach(go); return; }
    if (typeof n.type !== 'string') return;
    if (n.type === 'AwaitExpression' || (n.type === 'ForOfStatement' && n.await)) { found = true; return; }
    if (/Function/.test(n.type) ) return;
    if (n.type === 'PropertyDefinition' || n.type === 'StaticBlock') { if (n.computed) go(n.key); return; }
    for (const k of Object.keys(n)) if (k !== '_ch') go(n[k]);
  };
  go(ast.body);
  return found;
}
const key = (n) => JSON.stringify(n.type === 'Literal' ? n.value : n.name);
function bound(p, out) {
  if (!p) return out;
  if (p.type === 'Identifier') out.push(p.name);
  else if (p.type === 'ObjectPattern') p.properties.forEach((x) => bound(x.type === 'RestElement' ? x.argument : x.value, out));
  else if (p.type === 'ArrayPattern') p.elements.forEach((x) => bound(x, out));
  else if (p.type === 'AssignmentPattern') bound(p.left, out);
  else if (p.type === 'RestElement') bound(p.argument, out);
  return out;
}
// observe: the values of the exports at the end are part of the trace
// keep: what stays keeps its position (`head` comes in front of it)
function demodule(code, ast, { observe = false, keep = false } = {}) {
  ast ||= parse(code, { module: true });
  let out = '', p = 0, head = '';
  const exp = [];
  const cut = (a, b, s) => { out += code.slice(p, a) + s + (keep ? code.slice(a + s.length, Math.max(b, a + s.length)).replace(/[^\n]/g, ' ') : ''); p = b; };
  const own = (names) => names.forEach((n) => exp.push([JSON.stringify(n), n]));
  for (const n of ast.body) {
    if (n.type === 'ExportNamedDeclaration') {
      const d = n.declaration;
      if (d) { own(d.declarations ? d.declarations.flatMap((x) => bound(x.id, [])).filter((x) => !/^\$t\d/.test(x)) : [d.id.name]); cut(n.start, d.start, ''); } else {
        if (!n.source) for (const x of n.specifiers) exp.push([key(x.exported), x.local.name]);
        cut(n.start, n.end, '');
      }
    } else if (n.type === 'ExportDefaultDeclaration') {
      const d = n.declaration;
      if (/Declaration$/.test(d.type) && d.id) { exp.push(['"default"', d.id.name]); cut(n.start, d.start, ''); } else { exp.push(['"default"', '$default']); cut(n.start, d.start, 'var $default = '); }
    } else if (n.type === 'ImportDeclaration') {
      for (const x of n.specifiers) head += `const ${x.type === 'ImportNamespaceSpecifier' ? x.local.name : `{ ${x.imported ? key(x.imported) : '"default"'}: ${x.local.name} }`} = $imp(${n.source.raw}); `;
      cut(n.start, n.end, '');
    } else if (n.type === 'ExportAllDeclaration') cut(n.start, n.end, '');
  }
  const tail = observe && exp.length ? `\n;$exp({ ${exp.map(([k, v]) => `[${k}]: () => ${v}`).join(', ')} });` : '';
  return { code: head + out + code.slice(p) + tail, tla: hasTopAwait(ast), head: head.length };
}
module.exports = { demodule, hasTopAwait };
