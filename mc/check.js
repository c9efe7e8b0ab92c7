'use strict';
// node check.js <property id>: decides one property at VERIF_TIER (quick | thorough).
const fs = require('node:fs');
const path = require('node:path');
const { sweep } = require('./sweep.js');
const { Svc } = require('./svc.js');
const registry = require('./registry.js');
const known = require('./known.js');

const id = process.argv[2];
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const root = path.join(__dirname, '..');
const t0 = Date.now();


(async () => {
  const spec = registry[id];
  if (!spec) { console.error('unknown property ' + id); process.exit(2); }
  const { judge, request, bin } = require(spec.judge || './judge.js');
  const kn = known.load(id);
  const found = []; // { prog?, detail, choices?, ... }
  const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [] };
  let broken = null;
  const want = [id];
  const limits1 = { depth: 6, throws: 1, maxRuns: 500 };

  // the listed findings, each on its own
  const progs = kn.filter((k) => k.src !== undefined);
  if (progs.length) {
    const svc = new Svc(bin ? { bin } : {});
    const rs = await svc.batch(progs.map(request));
    for (let i = 0; i < progs.length; i++) {
      const r = judge({ refOpts: undefined, ...progs[i] }, rs[i], new Set(want), limits1);
      if (r.skip) { broken = `known finding cannot be judged: ${r.skip}`; continue; }
      const got = [...new Set(r.v.map((x) => x.detail))];
      const extra = got.filter((d) => !progs[i].expect.includes(d));
      if (extra.length) found.push({ prog: progs[i], detail: extra[0], choices: (r.v.find((x) => x.detail === extra[0]) || {}).choices });
      else if (got.length) console.log(`KNOWN-FINDING: property=${id} ${progs[i].what}: ${JSON.stringify(progs[i].src)}`);
    }
    svc.close();
  }

  for (const s of spec.sweeps || []) {
    const { total, violations } = await sweep({ want, judge: spec.judge, corpus: s.corpus, tier, limits: s[tier] });
    cov.states += total.nodes + total.programs; cov.transitions += total.edges + total.entries; cov.traces_validated_against_impl += total.runs;
    cov[s.corpus] = { programs: total.programs, not_parsed: total.skipped, skips: total.skips, runs: total.runs, choice_tree_nodes: total.nodes, choice_tree_edges: total.edges, entries_compared: total.entries, distinct_facts: total.facts.size, nonzero_counts_compared: total.hitEntries, distinct_traces: total.outcomes, programs_cut_at_run_limit: total.capped, limits: s[tier] };
    cov.samples.push(...total.samples.slice(0, 3));
    for (const x of violations) for (const v of x.v) {
      const k = x.prog && progs.find((p) => known.sameProg(p, x.prog));
      if (k && k.expect.includes(v.detail)) continue;
      found.push({ prog: x.prog, detail: v.detail, choices: v.choices });
    }
    for (const m of total.machinery) {
      if (/^worker ended/.test(m.why)) found.push({ prog: m, detail: m.why });
      else broken ||= m.why + ' on ' + JSON.stringify(m.src);
    }
    if (!violations.length && total.programs === 0) broken = 'nothing explored';
  }
  for (const c of spec.custom || []) {
    const r = await require(c.module)[c.fn || 'run']({ id, tier, seed: +(process.env.VERIF_SEED || 1), root });
    for (const k of ['states', 'transitions', 'traces_validated_against_impl']) cov[k] += r[k] || 0;
    cov[c.name || path.basename(c.module, '.js')] = r.info || {};
    cov.samples.push(...(r.samples || []).slice(0, 3));
    if (r.broken) broken ||= r.broken;
    for (const v of r.violations || []) {
      const k = kn.find((x) => x.key !== undefined && x.key === v.key && (x.expect === undefined || x.expect === v.detail));
      if (k) { if (!k.said) { k.said = true; console.log(`KNOWN-FINDING: property=${id} ${k.what}`); } continue; }
      found.push(v);
    }
  }

  const seen = new Set();
  found.sort((a, b) => ((a.prog || {}).src || '').length - ((b.prog || {}).src || '').length);
  let n = 0;
  fs.mkdirSync(path.join(root, 'artifacts'), { recursive: true });
  for (const f of found) {
    const key = (f.prog ? f.prog.src : JSON.stringify(f.replay || f.key)) + '';
    if (seen.has(key)) continue;
    seen.add(key);
    if (++n > 10) break;
    const file = `artifacts/${id}-${n}.json`;
    fs.writeFileSync(path.join(root, file), JSON.stringify({ property: id, ...f }, null, 1) + '\n');
    console.log(`VIOLATION property=${id} replay=${file}`);
    console.log('  ' + String(f.detail).slice(0, 500) + (f.prog ? '\n  program: ' + JSON.stringify(f.prog.src).slice(0, 500) + (f.prog.script ? ' (script)' : ' (module)') + (f.choices ? ' choices ' + f.choices.join('') : '') : ''));
  }
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  cov.exhaustive = !broken;
  fs.writeFileSync(path.join(root, 'evidence', id + '.json'), JSON.stringify({ property: id, tier, seed: +(process.env.VERIF_SEED || 1), level: 'model_checking', coverage: cov, assumptions: spec.assumptions || [], wall_s: (Date.now() - t0) / 1000, violations: seen.size }, null, 1) + '\n');
  if (seen.size) process.exit(1);
  if (broken) { console.error('check is broken: ' + broken); process.exit(2); }
  console.log(`${id}: held on everything explored (${cov.states} states, ${cov.traces_validated_against_impl} traces, ${((Date.now() - t0) / 1000).toFixed(1)} s)`);
  process.exit(0);
})().catch((e) => { console.error(e); process.exit(2); });
