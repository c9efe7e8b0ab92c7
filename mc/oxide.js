'use strict';
// Runs the explicit-state exploration of istanbul-oxide (harness/src/bin/oxide.rs).
// For C18 it also feeds coverage data written by Istanbul's own instrumenter
// (where installed) and left behind by instrumented runs.
const { spawn } = require('node:child_process');
const path = require('node:path');
const vm = require('node:vm');
const BIN = process.env.OXIDE || path.join(__dirname, '../harness/target/debug/oxide');
const MODS = '/opt/veriftools/node/node_modules/';

function exec(id, tier, input) {
  return new Promise((res, rej) => {
    const p = spawn(BIN, [id, tier], { stdio: ['pipe', 'pipe', 'inherit'] });
    let out = '';
    p.stdout.on('data', (d) => { out += d; });
    p.stdin.on('error', () => {});
    p.on('error', rej);
    p.on('exit', (c, s) => { try { if (c !== 0) throw new Error(`oxide ended with ${c} ${s}`); res(JSON.parse(out)); } catch (e) { rej(e); } });
    p.stdin.end(input || '');
  });
}
exports.run = async ({ id, tier }) => exec(id, tier);

const opt = (m) => { try { return require(MODS + m); } catch { return null; } };

async function feed(tier) {
  const lines = [];
  const info = { istanbul: 0, remapped: 0, runs: 0 };
  const programs = [];
  const seen = new Set();
  const corpora = require('./corpora.js');
  const step = tier === 'thorough' ? 3 : 40;
  for (const name of ['truth', 'methods', 'forms']) {
    let i = 0;
    for (const p of corpora.get(name, 'quick')) {
      if (p.ts || p.req) continue;
      if (name !== 'truth' && i++ % step) continue;
      const k = (p.script ? 's' : 'm') + p.src;
      if (!seen.has(k)) { seen.add(k); programs.push(p); }
    }
  }
  // data of Istanbul's instrumenter
  const ili = opt('istanbul-lib-instrument');
  const ilsm = opt('istanbul-lib-source-maps'), ilc = opt('istanbul-lib-coverage'), babel = opt('@babel/core');
  if (ili) {
    for (const p of programs) for (const reportLogic of [false, true]) {
      const ins = ili.createInstrumenter({ esModules: !p.script, reportLogic });
      let data;
      try { ins.instrumentSync(p.src, '/p/i.js'); data = ins.lastFileCoverage(); } catch { continue; }
      if (!data) continue;
      lines.push(JSON.stringify({ from: 'istanbul', data }));
      info.istanbul++;
      if (ilsm && ilc && babel && reportLogic && info.istanbul % 4 === 0) {
        try {
          const r = babel.transformSync(p.src, { sourceMaps: true, configFile: false, babelrc: false, sourceFileName: 'orig.js', sourceType: p.script ? 'script' : 'module', retainLines: false });
          const i2 = ili.createInstrumenter({ esModules: !p.script, reportLogic });
          i2.instrumentSync(r.code, '/p/i.js', r.map);
          const cm = ilc.createCoverageMap({});
          cm.addFileCoverage(i2.lastFileCoverage());
          lines.push(JSON.stringify({ from: 'istanbul with an input source map', data: i2.lastFileCoverage() }));
          const mapped = await ilsm.createSourceMapStore().transformCoverage(cm);
          for (const f of mapped.files()) { lines.push(JSON.stringify({ from: 'istanbul, remapped', data: JSON.parse(JSON.stringify(mapped.fileCoverageFor(f))) })); info.remapped++; }
        } catch { /* babel refuses the program */ }
      }
    }
  }
  // what instrumented runs leave in the coverage variable
  const env = require('./env.js');
  const { demodule } = require('./module.js');
  const { Svc } = require('./svc.js');
  const svc = new Svc();
  const variants = [{}, { reportLogic: true }, { inputSourceMap: { version: 3, sources: ['a'], names: ['b'], mappings: 'AAAA', sourcesContent: [null], file: 'x' } }];
  const rs = await svc.batch(programs.map((p) => ({ src: p.src, script: !!p.script, filename: '/p/f.js', variants })));
  svc.close();
  rs.forEach((r, i) => {
    if (r.err) return;
    for (const o of r.outs) {
      if (o.err || !o.code) continue;
      try {
        let code = o.code, asyncBody = false;
        if (!programs[i].script) { const d = demodule(code); code = d.code; asyncBody = d.tla; }
        const fn = env.compile(code, { strict: !programs[i].script, asyncBody });
        delete globalThis.__coverage__;
        env.run(fn, [1, 1, 0, 1], { depth: 0, throws: 1 });
        const c = (globalThis.__coverage__ || {})['/p/f.js'];
        if (c) { lines.push(JSON.stringify({ from: 'a run', data: c })); info.runs++; }
      } catch { /* the other checks judge it */ }
    }
  });
  return { lines, info };
}
exports.json = async ({ id, tier }) => {
  const { lines, info } = await feed(tier);
  const r = await exec(id, tier, lines.join('\n') + '\n');
  r.info = { ...r.info, ...info };
  if (!info.runs && id === 'C18') r.broken = 'no instrumented run left coverage data';
  return r;
};
