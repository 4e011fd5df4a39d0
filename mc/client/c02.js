'use strict';
// C02: every call ends, once, with its own answer.
const L = require('./load');
const { Server, watch, connected, same, show } = require('./common');
const { ensure } = L;
const TIMEOUT = 15000, SWEEP = 1000;
/** calls in flight over one connection and whatever can happen to it */
async function calls(x, thorough, beside) {
  const depth = (thorough ? 6 : 5) - (beside ? 1 : 0);
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const conf = w.sdk.DEFAULT_CONFIG.connection;
  const timeout = conf.requestTimeoutMs, sweep = conf.sweepIntervalMs;
  let rest = null;          // part of an answer still under way
  if (beside) {
    // consumers whose requests may take longer than any call, never answered
    const say = (r, st, body) => { const b = L.frame(2, st, r.num, body); if (rest) rest.b = Buffer.concat([rest.b, b]); else srv.send(r.sock, b); };
    srv.handle = (r) => { if (r.op === 0x33) say(r, 3, Buffer.concat([L.u64(0), L.u64(1), L.str('m')])); else if (r.op === 0x14 && r.name === 'q') say(r, 0, []); };
    const subs = [beside !== 'queue' && watch(client.stream('s').subscribe('g', () => {}, { waitMs: 20000 })), beside !== 'stream' && watch(client.queue('q').subscribe(() => {}, { waitMs: 60000 }))].filter((p) => p);
    await w.settle();
    for (const p of subs) ensure(p.state === 'done', 'subscribe', `${p.state} ${p.error}`);
  }
  const all = [];           // calls made
  let gone = false, n = 0, last = null;
  const open = () => all.filter((c) => c.req && !c.sent && c.req.sock === srv.sock);
  const ask = async (kind) => {
    const from = srv.requests.length, up = !!srv.sock && !gone;
    const id = ++n;
    const c = { id, kind, at: w.now, up };
    const f = { get: () => client.store.map.get(`k${id}`), set: () => client.store.map.set(`k${id}`, id), exists: () => client.queue(`k${id}`).exists() }[kind];
    c.w = watch((async () => f())());
    await w.settle();
    const rs = srv.requests.slice(from).filter((r) => r.key === `k${id}` || r.name === `k${id}`);
    ensure(rs.length === (up ? 1 : 0), 'request', `${kind} while ${up ? 'connected' : 'not connected'}: ${rs.length} requests`);
    c.req = rs[0] || null;
    all.push(c);
  };
  const bytes = (c, err) => {
    c.sent = true; last = c;
    if (err) { c.want = c.kind === 'exists' ? { v: false } : { e: `no ${c.id}` }; return L.frame(2, 1, c.req.num, L.str(`no ${c.id}`)); }
    c.want = { v: { get: `value ${c.id}`, set: undefined, exists: true }[c.kind] };
    return c.kind === 'get' ? L.frame(2, 3, c.req.num, L.val(`value ${c.id}`)) : L.frame(2, 0, c.req.num, []);
  };
  const arrived = (cs) => { for (const c of cs) { c.arrived = w.now; } };
  const put = async (b, cs) => {
    const s = srv.sock;
    if (rest) { b = Buffer.concat([rest.b, b]); cs = [...rest.cs, ...cs]; rest = null; }
    srv.send(s, b); arrived(cs); await w.settle();
  };
  const check = (when) => {
    srv.check();
    for (const c of all) {
      const age = w.now - c.at, say = `${c.kind} number ${c.id}`;
      ensure(!c.w.twice, 'twice', `${say} ended twice`);
      if (!c.req) { ensure(c.w.state === 'failed' || c.kind === 'exists' && c.w.value === false, 'not-connected', `${when}: ${say}, made while not connected: ${c.w.state}`); continue; }
      const failed = c.w.state === 'failed' || (c.kind === 'exists' && c.w.state === 'done' && c.w.value === false && !(c.want && c.want.v === false && c.arrived));
      if (c.arrived !== undefined && c.arrived - c.at <= timeout) {
        if (c.want.e !== undefined) ensure(c.w.state === 'failed' && c.w.error.message === c.want.e, 'error', `${when}: ${say}: ${c.w.state} ${c.w.error}, the server refused it: ${c.want.e}`);
        else ensure(c.w.state === 'done' && same(c.w.value, c.want.v), 'answer', `${when}: ${say}: ${c.w.state} ${show(c.w.value)} ${c.w.error || ''}, the server answered ${show(c.want.v)}`);
      } else if (c.arrived === undefined && (gone || c.req.sock.mc.state !== 'open')) {
        ensure(failed, 'hangs', `${when}: ${say} never ends: its connection is gone`);
      } else if (c.arrived === undefined && age > timeout + sweep) {
        ensure(failed, 'no-timeout', `${when}: ${say} was not answered for ${age} ms and is ${c.w.state}`);
      } else if (c.arrived === undefined && age <= timeout) {
        ensure(c.w.state === 'pending', 'early', `${when}: ${say} was not answered yet and is ${c.w.state} ${show(c.w.value)} ${c.w.error || ''}`);
      }
    }
  };
  for (let i = 0; i < depth; i++) {
    const o = open(), s = srv.sock;
    const f = x.pick('step', [
      all.length < 3 && ['get', () => ask('get')],
      all.length < 3 && ['set', () => ask('set')],
      all.length < 3 && ['exists', () => ask('exists')],
      o[0] && ['answer the first', () => put(bytes(o[0]), [o[0]])],
      o[1] && ['answer the last', () => put(bytes(o[o.length - 1]), [o[o.length - 1]])],
      o[1] && ['answer all at once, last first', () => put(Buffer.concat(o.slice().reverse().map((c) => bytes(c))), o)],
      o[0] && ['refuse the first', () => put(bytes(o[0], true), [o[0]])],
      ...[1, 6, 10, -1].map((cut) => o[0] && !rest && [`answer the first up to byte ${cut}`, async () => {
        const c = o[0], b = bytes(c), k = cut < 0 ? b.length - 1 : Math.min(cut, b.length);
        if (k === b.length) return put(b, [c]);
        srv.send(s, b.subarray(0, k)); await w.settle(); rest = { b: b.subarray(k), cs: [c] };
      }]),
      rest && s && ['the rest', () => put(Buffer.alloc(0), [])],
      last && s && last.req.sock === s && ['answer again', () => put(L.frame(2, 3, last.req.num, L.val('again')), [])],
      s && ['answer nobody', () => put(Buffer.concat([L.frame(2, 0, 77777, []), L.frame(9, 0, 1, [1, 2]), L.frame(3, 0, 0, Buffer.concat([L.str('t'), L.val('p')]))]), [])],
      s && ['the server closes', async () => { srv.drop(); rest = null; await w.settle(); }],
      s && ['the connection breaks', async () => { srv.drop('reset'); rest = null; await w.settle(); }],
      !gone && ['disconnect', async () => { client.disconnect(); gone = true; rest = null; await w.settle(); }],
      ['2 s pass', () => w.pass(2000)],
      ['15 s pass', () => w.pass(timeout)],
    ]);
    await f();
    check(`after ${x.log[x.log.length - 1]}`);
  }
  x.note(x.log.join());
  if (rest && srv.sock) await put(Buffer.alloc(0), []);
  await w.pass(timeout + 2 * sweep);
  check('in the end');
  if (gone) return;
  ensure(srv.sock, 'not-back', 'the client is not connected again');
  const k = all.length;
  await ask('get'); await put(bytes(all[k]), [all[k]]);
  check('in the end');
}
/** answers and pushes cut anywhere */
async function splits(x, thorough) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const seen = [];
  const sub = watch(client.pubsub('t').subscribe((d) => seen.push(d))); await w.settle(); srv.reply(srv.requests[0], 0); await w.settle();
  ensure(sub.state === 'done', 'subscribe', String(sub.error));
  const a = watch(client.store.map.get('a')), b = watch(client.store.map.get('b'));
  await w.settle();
  const [ra, rb] = srv.requests.slice(-2);
  const order = x.choose(3, 'order');
  const A = L.frame(2, 3, ra.num, L.val({ x: 'é' })), B = L.frame(2, 2, rb.num, []), P = L.frame(3, 0, 0, Buffer.concat([L.str('t'), L.val('push')]));
  const all = Buffer.concat([[A, P, B], [B, A, P], [P, B, A]][order]);
  const cuts = [];
  const k = thorough ? 4 : 3;
  let at = 0;
  for (let i = 0; i < k && at < all.length; i++) { const step = x.choose(all.length - at, 'cut'); if (step === 0) break; at += step; cuts.push(at); }
  cuts.push(all.length);
  x.log.push(`order ${order}, pieces up to ${cuts}`);
  let from = 0;
  for (const c of cuts) { srv.send(srv.sock, all.subarray(from, c)); await w.settle(); from = c; }
  ensure(a.state === 'done' && same(a.value, { x: 'é' }) && b.state === 'done' && b.value === null && same(seen, ['push']), 'split', `${a.state} ${show(a.value)}, ${b.state} ${show(b.value)}, pushes ${show(seen)}`);
  srv.check();
  client.disconnect();
}
module.exports = {
  beside: { what: 'the same beside consumers whose requests have other time limits', run: (x, thorough) => calls(x, thorough, ['stream', 'queue', 'both'][x.choose(thorough ? 3 : 2, 'consumer')]) },
  calls: { what: 'up to three calls in flight and every sequence of answers, partial answers, refusals, stray frames, breaks, time and disconnection', run: calls },
  splits: { what: 'two answers and a push in every order, cut into up to four (five) pieces anywhere', run: splits },
};
