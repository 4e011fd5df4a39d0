'use strict';
// C05: a queue consumer runs its callback on what it is given, settles each message by the
// outcome, keeps going through everything, and stops when told.
const L = require('./load');
const { Server, watch, connected, same, show } = require('./common');
const { ensure } = L;
async function consumer(x, thorough) {
  const depth = thorough ? 6 : 5;
  const w = L.world(), srv = new Server(w);
  const setting = x.choose(thorough ? 3 : 2, 'settings');
  const concurrency = [1, 2, 5][setting], batchSize = [3, 2, 1][setting];
  let waiting = null, exists = true, slowExists = null;
  const msgs = [];           // {id, v, how, state, runs, oks, fails: [reason], acks, nacks: [reason], deliveries}
  let n = 0, running = 0, stopped = false, gone = false;
  let stopW = null, ever = false, broke = false;
  const slow = [];           // callbacks under way
  const by = (v) => msgs.find((m) => m.v === v);
  const deliver = () => {
    if (!waiting || waiting.sock.mc.state !== 'open') { return; }
    const ready = msgs.filter((m) => m.state === 'pending').slice(0, waiting.opts.batchSize);
    if (!ready.length) return;
    const r = waiting; waiting = null;
    for (const m of ready) { m.state = 'flight'; m.deliveries++; }
    srv.reply(r, 3, Buffer.concat([L.u32(ready.length), ...ready.flatMap((m) => [L.uuid(m.id), L.u32(m.body.length), m.body])]));
  };
  srv.handle = (r) => {
    if (r.op === 0x14) { if (slowExists === true) slowExists = r; else srv.reply(r, exists ? 0 : 1, exists ? [] : L.str('Queue not found')); }
    else if (r.op === 0x12) {
      if (waiting && waiting.sock === r.sock) srv.fail('two-loops', 'two requests for messages are open at once');
      if (stopped && w.now > stopped.at) srv.fail('after-stop', 'messages are asked for after stop()');
      if (r.opts.batchSize !== batchSize || r.opts.waitMs !== 5000) srv.fail('options', `asks for ${show(r.opts)}`);
      waiting = r; deliver();
      if (waiting === r) w.later(5000, () => { if (waiting === r) { waiting = null; srv.reply(r, 3, L.u32(0)); } });
    } else if (r.op === 0x13 || r.op === 0x1A) {
      const m = msgs.find((m) => L.uuid(m.id).toString('hex') === r.id);
      if (!m) return srv.fail('unknown-id', `settles ${r.id}`);
      if (r.op === 0x13) m.acks++; else m.nacks.push(r.reason);
      const ok = m.state === 'flight';
      if (ok) m.state = r.op === 0x13 ? 'acked' : m.nacks.length > 1 ? 'dead' : 'pending';
      srv.reply(r, ok ? 0 : 1, ok ? [] : L.str('failed'));
      deliver();
    } else srv.fail('operation', `unexpected request ${r.op}`);
  };
  const client = await connected(w, srv);
  const callback = (v) => {
    const m = by(v);
    if (!m) { srv.fail('value', `the callback is given ${show(v)}`); return; }
    m.runs++; running++;
    if (stopped && stopped.done) srv.fail('after-stop', 'the callback runs after stop() has returned');
    if (running > concurrency) srv.fail('concurrency', `${running} callbacks run at once, ${concurrency} allowed`);
    const end = (err) => { running--; m.up = !!srv.sock; if (err) m.fails.push(m.up); else m.oks.push(m.up); };
    if (m.how === 'ok') { end(); return; }
    if (m.how === 'fails') { end(1); throw new Error(`no ${v}`); }
    if (m.how === 'rejects') { end(1); return Promise.reject(`no ${v}`); }
    return new Promise((res, rej) => slow.push({ m, fin: (err) => { end(err); err ? rej(new Error(`no ${v}`)) : res(); } }));
  };
  const push = (how, raw) => { const v = raw ? null : `m${++n}`; msgs.push({ id: 100 + msgs.length, v, how, body: raw ? Buffer.alloc(0) : L.val(v), state: 'pending', runs: 0, oks: [], fails: [], acks: 0, nacks: [], deliveries: 0 }); };
  const subscribe = () => watch((async () => client.queue('q').subscribe(callback, { batchSize, waitMs: 5000, concurrency }))());
  let sub = subscribe(); await w.settle();
  ensure(sub.state === 'done', 'subscribe', `${sub.state} ${sub.error || ''}`);
  const count = (a, y) => a.filter((z) => z === y).length;
  const check = (when) => {
    srv.check();
    for (const m of msgs) {
      const say = `${when}: message ${show(m.v)} (${m.how})`;
      ensure(m.runs <= m.deliveries, 'twice', `${say} was delivered ${m.deliveries} times, the callback ran ${m.runs} times`);
      const back = m.nacks.filter((r) => r === `no ${m.v}`).length, ret = m.nacks.length - back;
      ensure(m.acks === count(m.oks, true), 'ack', `${say}: the callback succeeded ${m.oks.length} times (${count(m.oks, true)} while connected), it was acknowledged ${m.acks} times`);
      ensure(back === count(m.fails, true), 'nack', `${say}: the callback failed ${m.fails.length} times (${count(m.fails, true)} while connected), it was rejected with ${show(m.nacks)}`);
      ensure(ret === 0 || ever && ret <= m.deliveries - m.runs, 'returned', `${say} was given back ${ret} times`);
    }
  };
  const stop = async () => { ever = true; stopped = { at: w.now, done: false }; stopW = watch(sub.value.stop()); await w.settle(); };
  for (let i = 0; i < depth; i++) {
    const s = srv.sock;
    const f = x.pick('step', [
      ['a message', async () => { push('ok'); }],
      ['a message that fails', async () => { push('fails'); }],
      ['a message that rejects and a good one', async () => { push('rejects'); push('ok'); }],
      msgs.filter((m) => m.how === 'slow').length < 3 && ['slow messages', async () => { push('slow'); push('slow'); }],
      slow[0] && ['the first slow one succeeds', async () => slow.shift().fin()],
      slow[0] && ['the first slow one fails', async () => slow.shift().fin(true)],
      slow[1] && ['the last slow one succeeds', async () => slow.pop().fin()],
      waiting && s && ['the wait ends', async () => { const r = waiting; waiting = null; srv.reply(r, 3, L.u32(0)); }],
      waiting && s && ['asking is refused', async () => { const r = waiting; waiting = null; srv.reply(r, 1, L.str('overload')); }],
      s && ['the connection breaks', async () => { srv.drop('reset'); broke = true; waiting = null; }],
      msgs.some((m) => m.state === 'flight') && ['messages time out', async () => { for (const m of msgs) if (m.state === 'flight') m.state = 'pending'; }],
      !stopped && !gone && ['stop', stop],
      !gone && ['disconnect', async () => { client.disconnect(); gone = { at: w.now }; waiting = null; }],
      !stopped && !gone && s && ['a second subscription', async () => { const p = subscribe(); await w.settle(); ensure(p.state === 'failed', 'second', `a second subscription to the queue is ${p.state}`); }],
      ['2.5 s pass', () => w.pass(2500)],
    ]);
    await f(); await w.settle(); deliver(); await w.settle();
    if (stopW && stopW.state === 'done') stopped.done = true;
    check(`after ${x.log[x.log.length - 1]}`);
  }
  x.note(`${setting};${x.log.join()}`);
  if (waiting && stopped) { const r = waiting; waiting = null; srv.reply(r, 3, L.u32(0)); await w.settle(); }
  while (slow.length) { slow.shift().fin(); await w.settle(); }
  await w.pass(6000);
  while (slow.length) { slow.shift().fin(); await w.settle(); }
  if (stopW && stopW.state === 'done') stopped.done = true;
  check('in the end');
  if (stopped) ensure(stopW.state === 'done', 'stop-hangs', 'stop() never returns');
  // what was handed out is worked on or given back, also when the consumer is stopped meanwhile
  if (!broke && !gone) for (const m of msgs) { const ret = m.nacks.filter((r) => r !== `no ${m.v}`).length; ensure(m.runs + ret === m.deliveries, 'dropped', `message ${show(m.v)} was delivered ${m.deliveries} times, the callback ran ${m.runs} times and it was given back ${ret} times`); }
  if (gone) {
    const left = [...w.timers.values()].filter((t) => t.reffed);
    ensure(left.length === 0, 'kept-alive', `${left.length} timers keep the process alive after disconnect()`);
    return;
  }
  for (const m of msgs) if (m.state === 'flight') m.state = 'pending';
  if (stopped) {
    stopped = false;
    sub = subscribe(); await w.settle();
    ensure(sub.state === 'done', 'again', `subscribing after stop(): ${sub.state} ${sub.error || ''}`);
  }
  push('ok');
  for (let i = 0; i < 12; i++) { deliver(); await w.settle(); while (slow.length) { slow.shift().fin(); await w.settle(); } await w.pass(1000); for (const m of msgs) if (m.state === 'flight' && !m.acks) m.state = 'pending'; }
  check('in the end');
  for (const m of msgs) ensure(m.state === 'acked' || m.state === 'dead', 'stuck', `message ${show(m.v)} (${m.how}) is ${m.state} in the end`);
  await (async () => { const p = watch(sub.value.stop()); stopped = { at: w.now, done: false }; if (waiting) { const r = waiting; waiting = null; srv.reply(r, 3, L.u32(0)); } await w.pass(6000); ensure(p.state === 'done', 'stop-hangs', 'stop() never returns'); })();
  client.disconnect();
  await w.pass(3000);
  const left = [...w.timers.values()].filter((t) => t.reffed);
  ensure(left.length === 0, 'kept-alive', `${left.length} timers keep the process alive after disconnect()`);
  srv.check();
}
/** subscriptions made at the same time, to queues that exist or not */
async function guard(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const asked = []; let consumes = 0;
  srv.handle = (r) => { if (r.op === 0x14) asked.push(r); else if (r.op === 0x12) consumes++; };
  const subs = []; let ended = 0;
  for (let i = 0; i < 5; i++) {
    const f = x.pick('step', [
      subs.length < 3 && ['subscribe', async () => { const p = watch((async () => client.queue('q').subscribe(() => {}))()); subs.push(p); }],
      asked[0] && ['it exists', async () => srv.reply(asked.shift(), 0)],
      asked[0] && ['it does not exist', async () => srv.reply(asked.shift(), 1, L.str('Queue not found'))],
      subs.length > 0 && ['time passes', () => w.pass(20000)],
    ]);
    await f(); await w.settle(); srv.check();
    ensure(subs.filter((p) => p.state === 'done').length <= 1, 'two', 'two subscriptions to one queue are accepted');
  }
  x.note(x.log.join());
  await w.pass(20000);
  asked.length = 0;
  for (const p of subs) ensure(p.state !== 'pending', 'hangs', 'subscribe never ends');
  if (!subs.some((p) => p.state === 'done')) {
    const p = watch((async () => client.queue('q').subscribe(() => {}))()); await w.settle();
    ensure(asked.length === 1, 'again', `a subscription after a failed one: ${p.state} ${p.error || ''}`);
    srv.reply(asked.shift(), 0); await w.settle();
    ensure(p.state === 'done', 'again', `a subscription after a failed one: ${p.state} ${p.error || ''}`);
  }
  srv.check();
  client.disconnect();
}
/** messages whose bodies cannot be read, among others */
async function poison(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const bodies = [[], [2, 0x7b], [2, 0xff], [0], [1], [2], [9, 1]];
  const b = bodies[x.choose(bodies.length, 'body')], at = x.choose(3, 'position'), concurrency = 1 + x.choose(2, 'concurrency');
  x.log.push(`body ${Buffer.from(b).toString('hex')} at ${at} of 3, concurrency ${concurrency}`); x.note(x.log[0]);
  const list = [0, 1, 2].map((i) => i === at ? Buffer.from(b) : L.val(`m${i}`));
  const acks = [], nacks = [], got = []; let served = false;
  srv.handle = (r) => {
    if (r.op === 0x14) srv.reply(r, 0);
    else if (r.op === 0x12) { if (!served) { served = true; srv.reply(r, 3, Buffer.concat([L.u32(3), ...list.flatMap((m, i) => [L.uuid(i), L.u32(m.length), m])])); } }
    else if (r.op === 0x13) acks.push(r.id); else if (r.op === 0x1A) nacks.push(r.id);
  };
  const p = watch(client.queue('q').subscribe((v) => { got.push(v); }, { concurrency })); await w.settle();
  await w.pass(5000);
  srv.check();
  for (let i = 0; i < 3; i++) if (i !== at) ensure(got.includes(`m${i}`) && acks.includes(L.uuid(i).toString('hex')), 'lost', `a good message beside an unreadable one is not processed: ${show(got)}`);
  ensure(acks.length + nacks.length === 3, 'settled', `${acks.length} acknowledged, ${nacks.length} rejected of 3`);
  client.disconnect();
}
/** messages that come after any idle time, with the options the library itself chooses or others */
async function idle(x, thorough) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const opts = [{}, { waitMs: 20000 }, { waitMs: 60000 }, { waitMs: 0 }][x.choose(4, 'options')];
  const gaps = thorough ? [0, 3000, 9000, 14500, 15500, 16500, 18500, 19900, 21000, 40000] : [0, 9000, 14500, 16500, 18500, 21000, 40000];
  const waits = []; const out = []; let n = 0; const got = [], acks = [];
  const deliver = () => { while (waits.length && out.length) { const r = waits.shift(), m = out.shift(); srv.reply(r, 3, Buffer.concat([L.u32(1), L.uuid(m), L.u32(L.val(m).length), L.val(m)])); } };
  srv.handle = (r) => {
    if (r.op === 0x14) srv.reply(r, 0);
    else if (r.op === 0x12) {
      if (!(r.opts.waitMs > 0)) { if (out.length) { waits.push(r); deliver(); } else w.later(20, () => srv.reply(r, 3, L.u32(0))); return; }
      waits.push(r); deliver();
      w.later(r.opts.waitMs, () => { const i = waits.indexOf(r); if (i >= 0) { waits.splice(i, 1); srv.reply(r, 3, L.u32(0)); } });
    } else if (r.op === 0x13) acks.push(r.id);
  };
  const p = watch(client.queue('q').subscribe((v) => { got.push(v); }, opts)); await w.settle();
  const at = [];
  for (let i = 0; i < (thorough ? 4 : 3); i++) {
    const g = gaps[x.choose(gaps.length, 'gap')]; at.push(g);
    await w.pass(g); out.push(++n); deliver(); await w.settle();
  }
  x.log.push(`options ${JSON.stringify(opts)}, messages after ${at.join(', ')} ms`); x.note(x.log[0]);
  await w.pass(5000);
  for (let i = 1; i <= n; i++) ensure(got.includes(i) && acks.includes(L.uuid(i).toString('hex')), 'dropped', `message ${i} was handed to the client, its callback saw ${show(got)}`);
  ensure(got.length === n, 'twice', `the callback saw ${show(got)}`);
  srv.check();
  client.disconnect();
}
module.exports = {
  idle: { what: 'messages that arrive after any of several idle times, with several waiting times', run: idle },
  consumer: { what: 'every history of messages (good, failing, slow), answers, refusals, breaks, timeouts, stop and disconnection around one consumer', run: consumer },
  guard: { what: 'subscriptions at the same time to a queue that exists or not', run: guard },
  poison: { what: 'messages with every kind of odd body among good ones', run: poison },
};
