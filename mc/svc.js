'use strict';
// Client of the instrumentation service (one child process, pipelined).
const { spawn } = require('node:child_process');
const path = require('node:path');
const SVC = process.env.INSTRSVC || path.join(__dirname, '../harness/target/debug/instrsvc');
class Svc {
  constructor(how = {}) { const { bin = SVC, ...o } = how; this.bin = bin; this.how = o; this.start(); }
  start() {
    this.p = spawn(this.bin, { stdio: ['pipe', 'pipe', 'inherit'], ...this.how });
    this.q = []; this.buf = [];
    this.dead = null;
    this.p.stdout.setEncoding('utf8');
    this.p.stdout.on('data', (d) => {
      this.buf.push(d);
      if (d.indexOf('\n') < 0) return;
      const s = this.buf.join('');
      const ls = s.split('\n');
      this.buf = [ls.pop()];
      for (const l of ls) if (l) this.q.shift()(l);
    });
    this.p.on('exit', (code, sig) => { this.dead = `instrsvc exited ${code} ${sig}`; for (const r of this.q.splice(0)) r(null); });
    this.p.stdin.on('error', () => {});
  }
  // The whole batch in one write; a response per request. A request that kills
  // the service (stack overflow, abort) answers { err: 'crash' }.
  async batch(reqs) {
    const out = new Array(reqs.length);
    let i = 0;
    while (i < reqs.length) {
      if (this.dead) this.start();
      const ps = [];
      let text = '';
      for (let j = i; j < reqs.length; j++) { ps.push(new Promise((r) => this.q.push(r))); text += JSON.stringify(reqs[j]) + '\n'; }
      this.p.stdin.write(text + '\n');
      const rs = await Promise.all(ps);
      let k = 0;
      for (; k < rs.length && rs[k] !== null; k++) out[i + k] = JSON.parse(rs[k]);
      i += k;
      if (i < reqs.length && k < rs.length) {
        if (this.retry === i) { out[i] = { err: 'crash: ' + this.dead, crash: true }; i++; }
        else {
          // find the culprit: resend one by one from here
          for (; i < reqs.length; i++) {
            if (this.dead) this.start();
            const r = await new Promise((res) => { this.q.push(res); this.p.stdin.write(JSON.stringify(reqs[i]) + '\n\n'); });
            if (r === null) { out[i] = { err: 'crash: ' + this.dead, crash: true }; i++; break; }
            out[i] = JSON.parse(r);
          }
        }
      }
    }
    return out;
  }
  close() { this.p.removeAllListeners('exit'); this.p.stdin.end(); this.p.kill(); }
}
module.exports = { Svc };
