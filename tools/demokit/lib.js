'use strict';
const { spawnSync } = require('node:child_process');
const vm = require('node:vm');
const assert = require('node:assert');
const FILE = '/p/f.js';
// instrument(src, opts) -> { code, cov }
function instrument(src, o = {}) {
  const r = spawnSync(process.env.INST, { input: JSON.stringify({ src, ...o }) + '\n', encoding: 'utf8' });
  assert.strictEqual(r.status, 0, 'instrumenter failed: ' + r.stderr);
  const x = JSON.parse(r.stdout);
  return { ...x, cov: x.cov && JSON.parse(x.cov) };
}
// runs code in a fresh realm with the given globals; returns its coverage and result
function run(code, env = {}) {
  const ctx = vm.createContext({ console, ...env });
  const result = vm.runInContext(code, ctx);
  const all = JSON.parse(JSON.stringify(ctx.__coverage__ || {})); // (objects of this realm)
  return { result, cov: all[FILE], all, ctx };
}
module.exports = { instrument, run, assert, FILE };
