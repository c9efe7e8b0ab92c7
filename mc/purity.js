'use strict';
// C10: harness/src/bin/purity.rs (histories, schedules, orders, names), and the
// corpora through two processes with other environments and the reverse order.
const { spawn } = require('node:child_process');
const os = require('node:os');
const path = require('node:path');
const { Svc } = require('./svc.js');
const BIN = process.env.PURITY || path.join(__dirname, '../harness/target/debug/purity');

const bin = (tier) => new Promise((res, rej) => {
  const p = spawn(BIN, [tier], { stdio: ['ignore', 'pipe', 'inherit'] });
  let out = '';
  p.stdout.on('data', (d) => { out += d; });
  p.on('error', rej);
  p.on('exit', (c, s) => { try { if (c !== 0) throw new Error(`purity ended with ${c} ${s}`); res(JSON.parse(out)); } catch (e) { rej(e); } });
});

exports.run = async ({ tier }) => {
  const r = await bin(tier);
  const corpora = require('./corpora.js');
  const seen = new Set(), list = [];
  for (const name of ['methods', 'hints', 'truth', 'forms']) {
    let i = 0;
    for (const p of corpora.get(name, name === 'forms' ? 'small' : 'quick')) {
      if (tier !== 'thorough' && name === 'hints' && i++ % 8) continue;
      const q = { src: p.src, script: !!p.script, filename: `/p/${list.length % 7}.js`, opts: { debugInitialCoverageComment: true, reportLogic: list.length % 2 === 1, ...(p.opts || {}) }, ...(p.req || {}) };
      const k = JSON.stringify([q.src, q.script, q.opts]);
      if (!seen.has(k)) { seen.add(k); list.push(q); }
    }
  }
  const N = Math.max(1, Math.min(4, os.cpus().length >> 1));
  const envs = [{ ...process.env }, { PATH: '/none', HOME: '/tmp', TZ: 'Asia/Tokyo', LANG: 'tr_TR.UTF-8', NODE_ENV: 'production', SWC_DEBUG: '1', RUST_LOG: 'trace', CI: '1' }];
  const cwd = [process.cwd(), '/'];
  const go = async (order, env, dir) => {
    const svc = new Svc({ env, cwd: dir });
    const out = new Map();
    for (let i = 0; i < order.length; i += 200) {
      const part = order.slice(i, i + 200);
      const rs = await svc.batch(part.map((k) => list[k]));
      part.forEach((k, j) => out.set(k, JSON.stringify(rs[j])));
    }
    svc.close();
    return out;
  };
  let compared = 0;
  await Promise.all(Array.from({ length: N }, async (_, s) => {
    const order = list.map((_, i) => i).filter((i) => i % N === s);
    const [a, b] = await Promise.all([go(order, envs[0], cwd[0]), go(order.slice().reverse(), envs[1], cwd[1])]);
    for (const k of order) {
      compared++;
      if (a.get(k) !== b.get(k)) r.violations.push({ key: 'order', detail: 'another order of requests, environment or process gives another output', replay: list[k] });
    }
  }));
  r.info.corpus_requests_in_two_orders = compared;
  r.states += compared; r.transitions += 2 * compared; r.traces_validated_against_impl += 2 * compared;
  return r;
};
