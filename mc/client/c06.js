'use strict';
// C06: a stream consumer runs its callback on every record its group is due, acknowledges
// exactly what succeeded with the membership it was given it under, finds its way back into
// the group whenever it has to, and leaves when it is stopped.
const L = require('./load');
const { Server, watch, connected, same, show } = require('./common');
const { ensure } = L;
const WAIT = 5000;
async function consumer(x, thorough) {
  const depth = thorough ? 6 : 5;
  const w = L.world(), srv = new Server(w);
  const setting = x.choose(2, 'settings');
  const concurrency = [1, 2][setting], batchSize = [3, 2][setting];
  const recs = [];            // {seq, v, how, state: pending|flight|acked, member, runs, oks, acks, deliveries}
  const members = new Map();  // id -> {id, gen, sock, in, abandoned}
  let gen = 1n, k = 0, n = 0, waiting = null, joins = [], slowJoin = false, joinFails = 0;
  let running = 0, stopped = null, gone = null, stopW = null;
  const slow = [];
  const err = (r, m) => srv.reply(r, 1, L.str(m));
  const drop = (m) => { m.in = false; for (const r of recs) if (r.state === 'flight' && r.member === m.id) r.state = 'pending'; };
  const deliver = () => {
    if (!waiting || waiting.sock.mc.state !== 'open') return;
    const m = members.get(waiting.member);
    const ready = recs.filter((r) => r.state === 'pending').slice(0, waiting.limit);
    if (!ready.length) return;
    const r = waiting; waiting = null;
    for (const q of ready) { q.state = 'flight'; q.member = m.id; q.deliveries.push({ member: m.id, gen: r.gen, acks: 0, oks: 0 }); }
    srv.reply(r, 3, Buffer.concat([L.u32(ready.length), ...ready.flatMap((q) => [L.u64(q.seq), L.u64(w.now), L.u32(q.body.length), q.body])]));
  };
  const join = (r) => { const m = { id: `c${++k}`, sock: r.sock, in: true, gen }; members.set(m.id, m); srv.reply(r, 3, Buffer.concat([L.u64(0), L.u64(gen), L.str(m.id)])); };
  srv.handle = (r) => {
    if (r.name !== 's' || r.group !== 'g') srv.fail('operation', `asks about ${r.name}, ${r.group}`);
    if (stopped && stopped.done && (r.op === 0x32 || r.op === 0x33)) srv.fail('after-stop', `request ${r.op.toString(16)} after stop() has returned`);
    if (r.op === 0x33) {
      if (stopped && r.at > stopped.at) srv.fail('after-stop', 'the group is joined after stop()');
      if (slowJoin) joins.push(r); else if (joinFails) { joinFails--; err(r, 'Topic not found'); } else join(r);
      return;
    }
    const m = members.get(r.member);
    if (!m) return srv.fail('member', `request ${r.op.toString(16)} by ${r.member}`);
    if (r.op === 0x32) {
      if (waiting && waiting.sock === r.sock) srv.fail('two-loops', 'two requests for records are open at once');
      if (stopped && r.at > stopped.at) srv.fail('after-stop', 'records are asked for after stop()');
      if (r.limit !== batchSize || r.wait !== WAIT) srv.fail('options', `asks for ${r.limit} records, waits ${r.wait}`);
      if (r.gen !== gen) return err(r, 'FENCED');
      if (!m.in) return err(r, 'NOT_MEMBER');
      waiting = r; deliver();
      if (waiting === r) w.later(WAIT, () => { if (waiting === r) { waiting = null; srv.reply(r, 3, L.u32(0)); } });
    } else if (r.op === 0x34) {
      const q = recs[Number(r.seq) - 1];
      const d = q && q.deliveries.find((d) => d.member === r.member && d.gen === r.gen && d.oks > d.acks);
      if (!d) return srv.fail('ack', `${r.member} acknowledges record ${r.seq}: ${show(q && { how: q.how, deliveries: q.deliveries.map((d) => `${d.member} ${d.gen} ${d.oks} ${d.acks}`) })}`);
      d.acks++;
      if (r.gen !== gen) return err(r, 'FENCED');
      if (!m.in) return err(r, 'NOT_MEMBER');
      q.state = 'acked';
      srv.reply(r, 0);
    } else if (r.op === 0x39) {
      if (!stopped) srv.fail('leaves', 'the consumer leaves the group without being stopped');
      if (r.gen !== gen) return err(r, 'FENCED');
      if (!m.in) return err(r, 'NOT_MEMBER');
      drop(m);
      srv.reply(r, 0);
      if (waiting && waiting.member === m.id) { const q = waiting; waiting = null; srv.reply(q, 3, L.u32(0)); }
    } else srv.fail('operation', `unexpected request ${r.op}`);
  };
  srv.onGone = (s) => { for (const m of members.values()) if (m.sock === s) drop(m); if (waiting && waiting.sock === s) waiting = null; joins = joins.filter((r) => r.sock !== s); };
  const client = await connected(w, srv);
  const callback = (v) => {
    const q = recs.find((q) => q.v === v);
    if (!q) { srv.fail('value', `the callback is given ${show(v)}`); return; }
    q.runs++; running++;
    // the delivery it belongs to
    const d = q.deliveries[q.deliveries.length - 1];
    if (stopped && stopped.done) srv.fail('after-stop', 'the callback runs after stop() has returned');
    if (stopped && w.now > stopped.at) srv.fail('after-stop', 'the callback is begun after stop()');
    if (running > concurrency) srv.fail('concurrency', `${running} callbacks run at once, ${concurrency} allowed`);
    const end = (e) => { running--; if (!e && srv.sock) d.oks++; if (!e) q.done = true; };
    if (q.how === 'ok') { end(); return; }
    if (q.how === 'fails') { end(1); q.how = 'ok'; throw new Error('no'); }
    if (q.how === 'rejects') { end(1); q.how = 'ok'; return Promise.reject('no'); }
    return new Promise((res, rej) => slow.push((e) => { end(e); e ? rej(new Error('no')) : res(); }));
  };
  const publish = (how) => { const v = `r${++n}`; recs.push({ seq: n, v, how, body: L.val(v), state: 'pending', runs: 0, deliveries: [], done: false }); };
  const subscribe = () => watch((async () => client.stream('s').subscribe('g', callback, { batchSize, waitMs: WAIT, concurrency }))());
  const sub = subscribe(); await w.settle();
  ensure(sub.state === 'done', 'subscribe', `${sub.state} ${sub.error || ''}`);
  const check = (when) => {
    srv.check();
    for (const q of recs) {
      ensure(q.runs <= q.deliveries.length, 'twice', `${when}: record ${q.v} was delivered ${q.deliveries.length} times, the callback ran ${q.runs} times`);
      for (const d of q.deliveries) ensure(d.oks === d.acks, 'ack', `${when}: record ${q.v} delivered to ${d.member} was processed ${d.oks} times and acknowledged ${d.acks} times`);
    }
    if (stopped && stopped.done && srv.sock) {
      const left = [...members.values()].filter((m) => m.in && !m.abandoned);
      ensure(left.length === 0, 'still-member', `${when}: stop() has returned, ${left.map((m) => m.id)} is still in the group`);
    }
  };
  const ended = () => { const r = waiting; waiting = null; return r; };
  for (let i = 0; i < depth; i++) {
    const s = srv.sock;
    const f = x.pick('step', [
      ['two records', async () => { publish('ok'); publish('ok'); }],
      ['a record that fails and a good one', async () => { publish(i % 2 ? 'rejects' : 'fails'); publish('ok'); }],
      recs.filter((q) => q.how === 'slow').length < 3 && ['slow records', async () => { publish('slow'); publish('slow'); }],
      slow[0] && ['the first slow one succeeds', async () => slow.shift()()],
      slow[0] && ['the last slow one fails', async () => slow.pop()(true)],
      waiting && ['asking is refused', async () => { const r = ended(); const m = members.get(r.member); m.abandoned = true; err(r, 'overload'); }],
      s && ['the group is rewound', async () => { gen++; for (const m of members.values()) drop(m); for (const q of recs) if (q.state === 'flight') q.state = 'pending'; if (waiting) srv.reply(ended(), 3, L.u32(0)); }],
      s && ['the connection breaks', async () => { srv.drop('reset'); }],
      recs.some((q) => q.state === 'flight') && ['records time out', async () => { for (const q of recs) if (q.state === 'flight') q.state = 'pending'; }],
      s && !joins.length && ['joining becomes slow', async () => { slowJoin = true; }],
      joins.length > 0 && ['the join is answered', async () => { slowJoin = false; for (const r of joins.splice(0)) join(r); }],
      !joins.length && !joinFails && thorough && ['joining will fail', async () => { joinFails = 1; }],
      !stopped && !gone && ['stop', async () => { stopped = { at: w.now, done: false }; stopW = watch(sub.value.stop()); await w.settle(); }],
      !gone && ['disconnect', async () => { client.disconnect(); gone = { at: w.now }; }],
      ['2.5 s pass', () => w.pass(2500)],
    ]);
    await f(); await w.settle(); deliver(); await w.settle();
    if (stopW && stopW.state === 'done') stopped.done = true;
    check(`after ${x.log[x.log.length - 1]}`);
  }
  x.note(`${setting};${x.log.join()}`);
  slowJoin = false; joinFails = 0; for (const r of joins.splice(0)) join(r);
  await w.settle();
  const drain = async () => { while (slow.length) { slow.shift()(); await w.settle(); } };
  for (let i = 0; i < 4; i++) { await drain(); await w.pass(6000); }
  if (stopW && stopW.state === 'done') stopped.done = true;
  check('in the end');
  const noTimers = () => { const left = [...w.timers.values()].filter((t) => t.reffed); ensure(left.length === 0, 'kept-alive', `${left.length} timers keep the process alive after disconnect()`); };
  if (stopped) ensure(stopW.state === 'done', 'stop-hangs', 'stop() never returns');
  if (gone) { ensure(!waiting, 'still-asking', 'still asking'); noTimers(); return; }
  if (!stopped) {
    publish('ok');
    for (let i = 0; i < 8; i++) { deliver(); await w.settle(); await drain(); await w.pass(1000); for (const q of recs) if (q.state === 'flight') q.state = 'pending'; }
    check('in the end');
    for (const q of recs) ensure(q.state === 'acked', 'stuck', `record ${q.v} (${q.how}) is ${q.state} in the end`);
    stopped = { at: w.now, done: false };
    const p = watch(sub.value.stop());
    await w.pass(6000);
    ensure(p.state === 'done', 'stop-hangs', 'stop() never returns');
    stopped.done = true;
    check('after stop()');
  }
  client.disconnect(); gone = {};
  await w.pass(4000);
  noTimers();
  srv.check();
}
/** records whose bodies cannot be read, among others */
async function poison(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const bodies = [[], [2, 0x7b], [2, 0xff], [0], [1], [2], [9, 1]];
  const b = bodies[x.choose(bodies.length, 'body')], at = x.choose(3, 'position'), concurrency = 1 + x.choose(2, 'concurrency');
  x.log.push(`body ${Buffer.from(b).toString('hex')} at ${at} of 3, concurrency ${concurrency}`); x.note(x.log[0]);
  const list = [0, 1, 2].map((i) => i === at ? Buffer.from(b) : L.val(`m${i}`));
  const acks = [], got = []; let served = false;
  srv.handle = (r) => {
    if (r.op === 0x33) srv.reply(r, 3, Buffer.concat([L.u64(0), L.u64(7), L.str('me')]));
    else if (r.op === 0x32) { if (!served) { served = true; srv.reply(r, 3, Buffer.concat([L.u32(3), ...list.flatMap((m, i) => [L.u64(i + 1), L.u64(0), L.u32(m.length), m])])); } }
    else if (r.op === 0x34) acks.push(Number(r.seq));
  };
  const p = watch(client.stream('s').subscribe('g', (v) => { got.push(v); }, { concurrency })); await w.settle();
  ensure(p.state === 'done', 'subscribe', `${p.state} ${p.error || ''}`);
  await w.pass(5000);
  srv.check();
  for (let i = 0; i < 3; i++) if (i !== at) ensure(got.includes(`m${i}`) && acks.includes(i + 1), 'lost', `a good record beside an unreadable one is not processed: ${show(got)}`);
  client.disconnect();
}
/** joining a group: refused, unanswered, cut off */
async function first(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const asked = []; let fetches = 0;
  srv.handle = (r) => { if (r.op === 0x33) asked.push(r); else if (r.op === 0x32) fetches++; };
  const f = x.pick('how', [
    ['refused', async () => { srv.reply(asked[0], 1, L.str('Topic not found')); }],
    ['malformed', async () => { srv.reply(asked[0], 3, [1, 2]); }],
    ['cut off', async () => { srv.drop('reset'); }],
    ['disconnected', async () => { client.disconnect(); }],
    ['unanswered', async () => {}],
    ['accepted', async () => { srv.reply(asked[0], 3, Buffer.concat([L.u64(0), L.u64(1), L.str('me')])); }],
    ['accepted late', async () => { await w.pass(10000); srv.reply(asked[0], 3, Buffer.concat([L.u64(0), L.u64(1), L.str('me')])); }],
  ]);
  const p = watch((async () => client.stream('s').subscribe('g', () => {}))()); await w.settle();
  ensure(asked.length === 1, 'join', `${asked.length} requests to join`);
  await f(); await w.pass(20000);
  const ok = x.log[0].startsWith('accepted');
  x.note(x.log[0]);
  srv.check();
  ensure(p.state === (ok ? 'done' : 'failed'), 'first', `${x.log[0]}: subscribe() is ${p.state}`);
  ensure(ok ? fetches === 1 : fetches === 0 && asked.length === 1, 'first', `${x.log[0]}: ${fetches} requests for records, ${asked.length} to join`);
  client.disconnect();
  await w.pass(5000);
  const left = [...w.timers.values()].filter((t) => t.reffed);
  ensure(left.length === 0, 'kept-alive', `${left.length} timers keep the process alive after disconnect()`);
  srv.check();
}
module.exports = {
  consumer: { what: 'every history of records (good, failing, slow), refusals, rewinds, breaks, slow joins, timeouts, stop and disconnection around one consumer', run: consumer },
  poison: { what: 'records with every kind of odd body among good ones', run: poison },
  first: { what: 'the first join answered in every way', run: first },
};
