'use strict';
// Runs a program sweep over all cores. Returns aggregated statistics and the
// violations found; a worker that stops making progress is itself a violation
// (the program it was at does not terminate or kills the process).
const { fork } = require('node:child_process');
const path = require('node:path');
const os = require('node:os');

function sweep({ want, corpus, tier, limits, judge, shards = Math.min(8, os.cpus().length), stall = tier === 'thorough' ? 600000 : 120000, maxViolations = 200 }) {
  return new Promise((resolve) => {
    const total = { programs: 0, skipped: 0, runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0, outcomes: 0, skips: {}, machinery: [], samples: [], facts: new Map() };
    const violations = [];
    let left = shards;
    const kids = [];
    const stopAll = () => kids.forEach((k) => { try { k.kill('SIGKILL'); } catch {} });
    for (let s = 0; s < shards; s++) {
      const k = fork(path.join(__dirname, 'sweep-worker.js'), [], { execArgv: ['--allow-natives-syntax', '--stack-size=4000', '--max-old-space-size=3000'], stdio: ['ignore', 'inherit', 'inherit', 'ipc'] });
      kids.push(k);
      let at = null, last = Date.now(), finished = false;
      const timer = setInterval(() => {
        if (Date.now() - last > stall) { violations.push({ prog: at, v: [...want].map((p) => ({ prop: p, detail: 'no progress (does not terminate)' })), stall: true }); k.kill('SIGKILL'); }
      }, 2000);
      k.on('message', (m) => {
        last = Date.now();
        if (m.at) at = m.at;
        if (m.violation) { violations.push(m.violation); if (violations.length >= maxViolations) stopAll(); }
        if (m.done) {
          finished = true;
          for (const x of ['programs', 'skipped', 'runs', 'nodes', 'edges', 'capped', 'entries', 'hitEntries', 'outcomes']) total[x] += m.done[x];
          for (const [r, n] of Object.entries(m.done.skips)) total.skips[r] = (total.skips[r] || 0) + n;
          for (const [k, x] of m.done.facts) { const y = total.facts.get(k); if (y === undefined) total.facts.set(k, x); else if (y !== x) violations.push({ prog: { src: k }, v: [{ prop: want[0], detail: `${k} belongs to ${y} and to ${x}` }] }); }
          total.machinery.push(...m.done.machinery);
          total.samples.push(...m.done.samples);
        }
      });
      k.on('exit', (code, sig) => {
        clearInterval(timer);
        if (!finished && violations.length < maxViolations && !violations.some((v) => v.stall && v.prog === at)) total.machinery.push({ why: `worker ended (${code} ${sig})`, ...(at || {}) });
        if (--left === 0) resolve({ total, violations });
      });
      k.send({ want, judge, corpus, tier, limits, shards, shard: s });
    }
  });
}
module.exports = { sweep };
if (require.main === module) {
  const [, , want, corpus, tier, depth, judge] = process.argv;
  const t0 = Date.now();
  sweep({ want: want.split(','), judge, corpus, tier, limits: { depth: +(depth || 5), throws: 1, maxRuns: 400 }, maxViolations: 500000 }).then(({ total, violations }) => {
    const by = {};
    for (const x of violations) for (const v of x.v) { const k = v.prop + ' ' + v.detail.replace(/\d+:\d+/g, 'p').replace(/\d+/g, '#').slice(0, 90); (by[k] ||= { n: 0, ex: [] }).n++; if (by[k].ex.length < 4 && !by[k].ex.find((e) => e.src === x.prog.src)) by[k].ex.push({ src: x.prog.src, script: x.prog.script, opts: x.prog.opts, d: v.detail, ch: v.choices && v.choices.join('') }); }
    console.log(JSON.stringify(by, null, 1));
    total.samples = total.samples.slice(0, 2); total.facts = total.facts.size;
    total.machineryCount = total.machinery.length; total.machinery = total.machinery.slice(0, 12);
    console.log(total, violations.length, (Date.now() - t0) / 1000 + 's');
  });
}
