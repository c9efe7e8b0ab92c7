// node one.js SRC [script] : judge one program for all properties (debugging aid)
const { Svc } = require('./svc.js'); const { judge, VARIANTS } = require('./judge.js');
(async () => {
  const svc = new Svc();
  const prog = { src: process.argv[2], script: process.argv[3] === 'script' };
  const [r] = await svc.batch([{ src: prog.src, script: prog.script, plain: true, variants: VARIANTS, filename: '/p/f.js' }]);
  const x = judge(prog, r, new Set(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C20']), { depth: 6, throws: 1, maxRuns: 500 });
  console.log(JSON.stringify(x, null, 1));
  svc.close();
})();
