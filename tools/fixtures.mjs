// Runs /repo/spec/fixtures/*.yaml (the project's own end-to-end expectations,
// which need npm packages absent here) against the instrumentation service.
import { createRequire } from 'node:module';
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
const require = createRequire('/opt/veriftools/node/node_modules/');
const yaml = require('/opt/veriftools/node/node_modules/js-yaml');
const assert = (await import('node:assert')).default;
const SVC = process.env.INSTRSVC || '/verif/harness/target/debug/instrsvc';
const dir = '/repo/spec/fixtures/';
const docs = [];
for (const f of fs.readdirSync(dir)) {
  if (!f.endsWith('.yaml')) continue;
  yaml.loadAll(fs.readFileSync(dir + f, 'utf8'), (o) => { o.file = f; docs.push(o); });
}
const reqs = docs.map((d) => JSON.stringify({ src: d.code, filename: d.file, keep_comments: true,
  opts: { coverageVariable: '__testing_coverage__', debugInitialCoverageComment: true, ...(d.instrumentOpts || {}), ...(d.inputSourceMap ? { inputSourceMap: d.inputSourceMap } : {}) } }));
const out = spawnSync(SVC, { input: reqs.join('\n') + '\n', encoding: 'utf8', maxBuffer: 1 << 28 }).stdout.split('\n').filter(Boolean).map(JSON.parse);
const AsyncFunction = Object.getPrototypeOf(async () => {}).constructor;
let pass = 0, fail = 0, skip = 0;
for (let i = 0; i < docs.length; i++) {
  const d = docs[i], r = out[i];
  const name = d.file + '/' + (d.name || '');
  if (r.err) { console.log('ERR', name, r.err.slice(0, 200)); fail++; continue; }
  const o = d.opts || {};
  if (o.generateOnly || o.noCoverage) { skip++; continue; }
  for (const t of d.tests || []) {
    try {
      globalThis.__testing_coverage__ = undefined;
      const fn = new (o.isAsync ? AsyncFunction : Function)('args', '{ var exports={};\n var output;\n' + r.code + '\nreturn output;\n}');
      const actual = await fn(t.args);
      const cov = Object.values(globalThis.__testing_coverage__)[0];
      const lines = {};
      for (const [k, v] of Object.entries(cov.s)) { const l = cov.statementMap[k].start.line; lines[l] = Math.max(lines[l] ?? 0, v); }
      assert.deepEqual(actual, t.out);
      assert.deepEqual(lines, t.lines || {});
      assert.deepEqual(cov.f, t.functions || {});
      assert.deepEqual(cov.b, t.branches || {});
      assert.deepEqual(cov.bT || {}, t.branchesTrue || {});
      assert.deepEqual(cov.s, t.statements || {});
      pass++;
    } catch (e) { fail++; console.log('FAIL', name, t.name || '', e.message.slice(0, 400)); }
  }
}
console.log({ pass, fail, skip });
