'use strict';
// C03: the connection comes back until the user ends it, and then never again.
const L = require('./load');
const { Server, watch, connected, same, show } = require('./common');
const { ensure } = L;
async function life(x, thorough) {
  const depth = thorough ? 9 : 7;
  const w = L.world(), srv = new Server(w, false);
  const conf = w.sdk.DEFAULT_CONFIG.connection;
  srv.handle = (r) => { if (!hold) srv.reply(r, 0); };
  let hold = false, gone = false, dialsAtEnd = 0;
  const first = watch(w.sdk.NexoClient.connect({ host: 'h', port: 1, logger: () => {} }));
  await w.settle();
  ensure(srv.dialing, 'dial', 'connect() does not dial');
  let client = null;
  // what the user has asked for and been told
  const want = new Map(); const got = {};
  const subs = [];
  const subscribe = async (t) => { const p = watch(client.pubsub(t).subscribe((d) => { (got[t] = got[t] || []).push(d); })); subs.push({ p, t, kind: 'subscribe', sock: srv.sock }); await w.settle(); };
  const unsubscribe = async (t) => { const p = watch(client.pubsub(t).unsubscribe()); subs.push({ p, t, kind: 'unsubscribe', sock: srv.sock }); await w.settle(); };
  const learn = () => { for (const s of subs) if (!s.known && s.p.state !== 'pending') { s.known = true; if (s.p.state === 'done') want.set(s.t, s.kind === 'subscribe'); } };
  const check = (when) => {
    srv.check(); learn();
    if (gone || first.state === 'failed') {
      ensure(!srv.sock && !srv.dialing, 'alive', `${when}: a connection is ${srv.sock ? 'open' : 'being opened'} although the client ${gone ? 'was disconnected' : 'failed to connect'}`);
      ensure(srv.dials === dialsAtEnd, 'redial', `${when}: the client dials again although it ${gone ? 'was disconnected' : 'failed to connect'}`);
    }
  };
  let waitedWithout = 0;
  for (let i = 0; i < depth; i++) {
    client = first.value;
    const s = srv.sock, d = srv.dialing, up = first.state === 'done';
    const busy = subs.some((q) => q.p.state === 'pending');
    const f = x.pick('step', [
      d && ['the dial succeeds', async () => { srv.accept(d); await w.settle(); }],
      d && ['the dial fails', async () => { srv.refuse(d); await w.settle(); if (!up) { ensure(first.state === 'failed', 'connect', 'connect() does not tell that it failed'); dialsAtEnd = srv.dials; } }],
      s && ['the server closes', async () => { srv.drop(); await w.settle(); }],
      s && ['the connection breaks', async () => { srv.drop('reset'); await w.settle(); }],
      up && !gone && ['disconnect', async () => { client.disconnect(); gone = true; dialsAtEnd = srv.dials; await w.settle(); }],
      up && !busy && !want.get('a') && ['subscribe a', () => subscribe('a')],
      up && !busy && want.get('a') && ['unsubscribe a', () => unsubscribe('a')],
      up && !busy && !want.get('b/#') && ['subscribe b/#', () => subscribe('b/#')],
      up && s && ['the server is silent', async () => { hold = !hold; }],
      !d && ['the delay passes', () => w.pass(conf.reconnectDelayMs)],
      ['half the delay passes', () => w.pass(conf.reconnectDelayMs / 2)],
    ]);
    await f();
    check(`after ${x.log[x.log.length - 1]}`);
  }
  x.note(x.log.join());
  hold = false; srv.auto = true;
  if (srv.dialing) { const d = srv.dialing; srv.accept(d); }
  await w.pass(40000);
  check('in the end');
  if (gone || first.state === 'failed') {
    const left = [...w.timers.values()].filter((t) => t.reffed);
    ensure(left.length === 0, 'kept-alive', `${left.length} timers keep the process alive`);
    if (gone) for (const s of subs) ensure(s.p.state !== 'pending', 'hangs', `${s.kind} ${s.t} never ends`);
    return;
  }
  ensure(first.state === 'done', 'connect', `connect() is ${first.state} ${first.error || ''}`);
  ensure(srv.sock, 'not-back', 'the client is not connected again');
  for (const s of subs) ensure(s.p.state !== 'pending', 'hangs', `${s.kind} ${s.t} never ends`);
  // what this connection has been told to deliver
  const on = new Set();
  for (const r of srv.conns.get(srv.sock).requests) { if (r.op === 0x22) on.add(r.topic); if (r.op === 0x23) on.delete(r.topic); }
  for (const [t, yes] of want) {
    // refused or unanswered requests may have had an effect
    const failed = subs.some((s) => s.t === t && s.p.state === 'failed' && s.sock === srv.sock);
    if (yes && !failed) ensure(on.has(t), 'not-restored', `the subscription to ${t} is not there on the new connection`);
    if (!yes && !failed) ensure(!on.has(t), 'revived', `${t} is subscribed although it was unsubscribed`);
    const n = (got[t] || []).length;
    srv.send(srv.sock, L.frame(3, 0, 0, Buffer.concat([L.str(t === 'a' ? 'a' : 'b/c'), L.val(`m${t}`)])));
    await w.settle();
    if (yes) ensure((got[t] || []).length === n + 1 && got[t][n] === `m${t}`, 'push', `a push to ${t}: ${show(got[t])}`);
    if (!yes && !failed) ensure((got[t] || []).length === n, 'push-after', `a push to ${t} reaches a handler that was removed`);
  }
  client = first.value;
  const p = watch(client.store.map.del('x')); await w.settle();
  ensure(p.state === 'done', 'use', `a request on the new connection: ${p.state} ${p.error || ''}`);
  client.disconnect(); gone = true; dialsAtEnd = srv.dials;
  await w.pass(40000);
  check('after the end');
  const left = [...w.timers.values()].filter((t) => t.reffed);
  ensure(left.length === 0, 'kept-alive', `${left.length} timers keep the process alive after disconnect`);
}
module.exports = {
  life: { what: 'every sequence of dials that succeed or fail, breaks, delays, subscriptions, a silent server and disconnection', run: life },
};
