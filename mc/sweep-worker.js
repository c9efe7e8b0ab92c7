'use strict';
// One shard of a program sweep: node sweep-worker.js (job comes over IPC).
const { Svc } = require('./svc.js');
const corpora = require('./corpora.js');

const strip = (p) => ({ src: p.src, script: !!p.script, opts: p.opts, refOpts: p.refOpts, req: p.req, refSrc: p.refSrc, noRef: p.noRef, loud: p.loud, using: p.using, compiled: p.compiled });
const COUNTS = `(({ s, f, b }) => ({ s, f, b }))(globalThis.__other__["/p/g.js"])`;
process.on('disconnect', () => process.exit(0)); // whoever asked is gone
process.on('message', (job) => work(job).catch((e) => { console.error('explorer failed:', e); process.exit(3); }));
async function work(job) {
  const { judge, request, bin } = require(job.judge || './judge.js');
  const svc = new Svc(bin ? { bin } : {});
  const want = new Set(job.want);
  const agg = { programs: 0, skipped: 0, runs: 0, nodes: 0, edges: 0, capped: 0, entries: 0, hitEntries: 0, outcomes: 0, skips: {}, machinery: [], samples: [], facts: new Map() };
  const seen = new Set();
  let batch = [], idx = 0, size = 0;
  const flush = async () => {
    if (!batch.length) return;
    const progs = batch; batch = []; size = 0;
    process.send({ at: progs[0] });
    // what is instrumented as another file first
    const twice = progs.filter((p) => p.first && !p.first.done);
    if (twice.length) {
      const rs = await svc.batch(twice.map((p) => ({ src: p.src, script: !!p.script, filename: p.first.filename, variants: [{ coverageVariable: '__other__', ...p.first.opts }] })));
      twice.forEach((p, i) => { const o = rs[i].outs && rs[i].outs[0]; p.first.done = true; if (o && o.code) p.src = o.code + `\nlog(JSON.stringify(${COUNTS}));`; else p.unusable = true; });
    }
    const resps = await svc.batch(progs.map(request));
    for (let i = 0; i < progs.length; i++) {
      const p = progs[i];
      process.send({ at: p });
      if (p.unusable) { agg.skipped++; agg.skips['not instrumented as the other file'] = (agg.skips['not instrumented as the other file'] || 0) + 1; continue; }
      const r = judge(p, resps[i], want, p.limits || job.limits);
      if (r.skip) {
        agg.skipped++;
        if (r.machinery) agg.machinery.push({ src: p.src, script: p.script, why: r.skip });
        else { const k = r.skip.replace(/\d+/g, '#').slice(0, 80); agg.skips[k] = (agg.skips[k] || 0) + 1; }
        continue;
      }
      agg.programs++;
      // facts: key -> value, the same key must always get the same value
      for (const [k, x] of r.facts || []) { const y = agg.facts.get(k); if (y === undefined) agg.facts.set(k, x); else if (y !== x) process.send({ violation: { prog: strip(p), v: [{ prop: job.want[0], detail: `${k} belongs to ${y} and to ${x}` }] } }); }
      for (const k of ['runs', 'nodes', 'edges', 'capped', 'entries', 'hitEntries', 'outcomes']) agg[k] += r.stats[k] || 0;
      if (agg.samples.length < 3 && agg.programs % 97 === 1) agg.samples.push({ src: p.src, script: !!p.script, opts: p.opts, runs: r.stats.runs, outcomes: r.stats.outcomes });
      if (r.v.length) process.send({ violation: { prog: strip(p), v: r.v } });
    }
  };
  for (const p of corpora.get(job.corpus, job.tier)) {
    const key = (p.script ? 's' : 'm') + JSON.stringify([p.opts || 0, p.req || 0]) + p.src;
    if (seen.has(key)) continue;
    seen.add(key);
    if (idx++ % job.shards !== job.shard) continue;
    batch.push(p);
    if (batch.length >= 100 || (size += p.src.length) > 200000) await flush();
  }
  await flush();
  svc.close();
  process.send({ done: { ...agg, facts: [...agg.facts] } }, () => process.disconnect());
}
