'use strict';
const fs = require('node:fs');
const path = require('node:path');
// known-findings.txt: "known: property=<id> <json>" and "fixed: property=<id> <commit> <what failed>"
function load(id) {
  const out = [];
  for (const l of fs.readFileSync(path.join(__dirname, '../known-findings.txt'), 'utf8').split('\n')) {
    const m = /^known: property=(\S+) (\{.*\})\s*$/.exec(l);
    if (m && m[1] === id) out.push(JSON.parse(m[2]));
  }
  return out;
}
const sameProg = (k, p) => k.src === p.src && !!k.script === !!p.script && JSON.stringify(k.opts || {}) === JSON.stringify(p.opts || {}) && JSON.stringify(k.req || {}) === JSON.stringify(p.req || {});
module.exports = { load, sameProg };
