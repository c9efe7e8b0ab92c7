'use strict';
// node kf.js PROP WHAT SRC [script] [OPTS]: prints a known-findings line for a program (authoring aid).
const { Svc } = require('./svc.js'); const { judge, VARIANTS } = require('./judge.js');
(async () => {
  const svc = new Svc();
  const [, , id, what, src, script, opts] = process.argv;
  const prog = { src: src.replace(/\\n/g, '\n'), script: script === 'script' };
  if (opts) prog.opts = prog.refOpts = JSON.parse(opts);
  const [r] = await svc.batch([{ src: prog.src, script: prog.script, plain: true, variants: VARIANTS.map((v) => ({ ...v, ...(prog.opts || {}) })), filename: '/p/f.js' }]);
  const x = judge(prog, r, new Set([id]), { depth: 6, throws: 1, maxRuns: 500 });
  const expect = [...new Set((x.v || []).map((y) => y.detail))];
  if (!expect.length) { console.error('no violation', JSON.stringify(x)); process.exit(1); }
  console.log(`known: property=${id} ` + JSON.stringify({ ...prog, expect, what }));
  svc.close();
})();
