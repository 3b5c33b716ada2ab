// Runs a driver compiled to WebAssembly: wasm.js MODULE --tier T --jobs N --seconds S [--only I]
'use strict';
const {Worker, isMainThread, parentPort, workerData} = require('worker_threads');
const fs = require('fs');
if (isMainThread) {
  const file = process.argv[2], o = {tier: 'quick', jobs: '8', seconds: '1e9', only: '-1'};
  for (let i = 3; i + 1 < process.argv.length; i += 2) o[process.argv[i].replace('--', '')] = process.argv[i + 1];
  const only = +o.only, jobs = only >= 0 ? 1 : +o.jobs, t0 = Date.now(), res = [];
  let broken = false;
  const done = () => {
    if (res.length < jobs || broken) return;
    const r = res[0];
    for (const q of res.slice(1)) {
      for (const k of ['cases', 'calls', 'elements', 'outcomes']) r[k] += q[k];
      r.total = Math.max(r.total, q.total);
      r.exhaustive = r.exhaustive && q.exhaustive;
      r.extra = r.extra.map((v, i) => v + q.extra[i]);
      if ('msg' in q && !('msg' in r)) { r.msg = q.msg; r.fail_idx = q.fail_idx; r.fail_case = q.fail_case; }
    }
    r.seconds = (Date.now() - t0) / 1000;
    process.stdout.write(JSON.stringify(r) + '\n', () => process.exit('msg' in r ? 1 : 0));
  };
  for (let me = 0; me < jobs; me++) {
    const w = new Worker(__filename, {workerData: {file, me, jobs, only, thorough: o.tier === 'thorough' ? 1 : 0, seconds: +o.seconds}});
    w.on('message', (m) => { res.push(JSON.parse(m)); done(); });
    w.on('error', (e) => { broken = true; console.error(e); process.exit(4); });
  }
} else {
  class Exit extends Error {}
  let out = '', inst;
  const text = (p, n) => Buffer.from(new Uint8Array(inst.exports.memory.buffer, p, n)).toString('latin1');
  const env = {
    write: (fd, p, n) => { const s = text(p, n); if (fd === 1) out += s; else fs.writeSync(2, s); return n; },
    exit: (c) => { throw new Exit('exit ' + c); },
    now: () => performance.now() / 1000,
  };
  inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(workerData.file)), {env});
  const d = workerData;
  let crashed = 0;
  inst.exports.rt_init();
  try { inst.exports.mcx_run(d.me, d.jobs, d.only, d.thorough, d.seconds); }
  catch (e) { crashed = 1; if (!(e instanceof Exit) && !(e instanceof WebAssembly.RuntimeError)) throw e; }
  inst.exports.mcx_report(crashed);
  parentPort.postMessage(out.trim().split('\n').pop());
}
