'use strict';
// node --allow-natives-syntax replay.js ARTIFACT: judges the recorded program again, with all details.
const { Svc } = require('./svc.js');
(async () => {
  const a = JSON.parse(require('node:fs').readFileSync(process.argv[2], 'utf8'));
  const { judge, request } = require((require('./registry.js')[a.property] || {}).judge || './judge.js');
  if (!a.prog) { console.log(JSON.stringify(a, null, 1)); return; }
  const svc = new Svc();
  const p = a.prog;
  const [r] = await svc.batch([request(p)]);
  console.log(p.src + '\n----\n' + (r.outs ? r.outs[0].code || r.outs[0].err : r.err));
  const x = judge(p, r, new Set([a.property]), { depth: 6, throws: 1, maxRuns: 500 });
  console.log(JSON.stringify(x.v || x, null, 1));
  svc.close();
  process.exit(x.v && x.v.length ? 1 : 0);
})();
