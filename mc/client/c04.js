'use strict';
// C04: every push reaches the handlers it is for, and nothing in it can do harm.
const L = require('./load');
const { Server, watch, connected, same, show } = require('./common');
const { ensure } = L;
const all = (alphabet, n) => { let v = [[]], r = []; for (let i = 0; i < n; i++) { v = v.flatMap((p) => alphabet.map((x) => [...p, x])); r.push(...v); } return r.map((p) => p.join('/')); };
/** as the server matches (P01) */
function matches(p, t) {
  const go = (p, t) => p.length === 0 ? t.length === 0 : p[0] === '#' ? true : t.length > 0 && (p[0] === '+' || p[0] === t[0]) && go(p.slice(1), t.slice(1));
  return go(p.split('/'), t.split('/'));
}
async function setup() {
  const w = L.world(), srv = new Server(w);
  srv.handle = (r) => { if (!srv.hold) srv.reply(r, srv.status || 0, srv.status ? L.str('no') : []); };
  const client = await connected(w, srv);
  return { w, srv, client };
}
const push = (t, body) => L.frame(3, 0, 0, Buffer.concat([L.str(t), body]));
async function matching(x, thorough) {
  const ps = all(['a', 'b', '', '+', '#'], thorough ? 3 : 2), more = all(['a', '', '+', '#'], 3);
  const list = thorough ? ps : [...new Set([...ps, ...more])];
  const ts = all(['a', 'b', ''], 3);
  const one = list[x.choose(list.length, 'pattern')];
  const small = all(['a', '+', '#', ''], 2);
  const two = small[x.choose(small.length, 'other pattern')];
  const bad = x.choose(3, 'who fails');
  x.log.push(`${show(one)} and ${show(two)}, failing ${bad}`); x.note(x.log[0]);
  const { w, srv, client } = await setup();
  const got = [[], []];
  const pats = one === two ? [one] : [one, two];
  for (let i = 0; i < pats.length; i++) { const p = watch(client.pubsub(pats[i]).subscribe((d) => { got[i].push(d); if (bad === i + 1) throw new Error('handler'); })); await w.settle(); ensure(p.state === 'done', 'subscribe', String(p.error)); }
  let n = 0;
  const want = [[], []];
  const bytes = [];
  for (const t of ts) { n++; bytes.push(push(t, L.val(n))); pats.forEach((p, i) => { if (matches(p, t)) want[i].push(n); }); }
  srv.send(srv.sock, Buffer.concat(bytes));
  await w.settle();
  for (const i of [0, 1]) for (let k = 1; k <= n; k++) {
    const [a, b] = [got[i].filter((y) => y === k).length, want[i].includes(k) ? 1 : 0];
    ensure(a === b, 'match', `a push to ${show(ts[k - 1])} calls the handler of ${show(pats[i])} ${a} times`);
  }
  ensure(same(got, want), 'order', 'pushes are handled out of order');
  srv.check();
  client.disconnect();
}
/** subscriptions coming and going */
async function handlers(x, thorough) {
  const { w, srv, client } = await setup();
  const depth = thorough ? 7 : 6;
  const T = ['a', '+', 'a/#'];
  const have = new Map(); let n = 0, open = null;
  const got = [];
  const sub = async (t, how) => {
    const id = ++n;
    if (how === 'refused') srv.status = 1;
    if (how === 'slow') srv.hold = true;
    const p = watch((async () => client.pubsub(t).subscribe((d) => { got.push([id, d]); }))());
    await w.settle();
    srv.status = 0; srv.hold = false;
    if (have.has(t)) { ensure(p.state === 'failed', 'twice', `a second subscription to ${t}: ${p.state}`); return; }
    if (how === 'refused') { ensure(p.state === 'failed', 'refused', `a refused subscription to ${t}: ${p.state}`); return; }
    have.set(t, id);
    if (how === 'slow') { open = { p, r: srv.requests[srv.requests.length - 1], done: () => {}, fail: () => have.delete(t), what: `subscribe ${t}` }; return; }
    ensure(p.state === 'done', 'subscribe', `${t}: ${p.state} ${p.error || ''}`);
  };
  const unsub = async (t, how) => {
    if (how === 'refused') srv.status = 1;
    if (how === 'slow') srv.hold = true;
    const p = watch((async () => client.pubsub(t).unsubscribe())());
    await w.settle();
    srv.status = 0; srv.hold = false;
    if (how === 'slow') { open = { p, r: srv.requests[srv.requests.length - 1], done: () => have.delete(t), fail: () => {}, what: `unsubscribe ${t}` }; return; }
    if (how === 'refused' && have.has(t)) { ensure(p.state === 'failed', 'refused', `a refused end of ${t}: ${p.state}`); return; }
    ensure(p.state === 'done', 'unsubscribe', `${t}: ${p.state} ${p.error || ''}`);
    have.delete(t);
  };
  const say = async (t) => {
    const id = ++n; got.length = 0;
    srv.send(srv.sock, push(t, L.val(id))); await w.settle();
    const want = [...have].filter(([p]) => matches(p, t)).map(([, k]) => k).sort();
    ensure(same(got.map((g) => g[0]).sort(), want) && got.every((g) => g[1] === id), 'push', `a push to ${t} calls ${show(got)}, expected handlers ${want}`);
  };
  for (let i = 0; i < depth; i++) {
    const f = x.pick('step', [
      ...T.map((t) => !open && [`subscribe ${t}`, () => sub(t)]),
      !open && ['subscribe a, refused', () => sub('a', 'refused')],
      !open && !have.has('a') && ['subscribe a, slowly', () => sub('a', 'slow')],
      ...T.slice(0, 2).map((t) => !open && [`unsubscribe ${t}`, () => unsub(t)]),
      !open && have.has('a') && ['unsubscribe a, refused', () => unsub('a', 'refused')],
      !open && have.has('a') && ['unsubscribe a, slowly', () => unsub('a', 'slow')],
      open && ['the answer', async () => { const o = open; open = null; srv.reply(o.r, 0); await w.settle(); ensure(o.p.state === 'done', 'answer', `${o.what}: ${o.p.state} ${o.p.error || ''}`); o.done(); }],
      open && ['the refusal', async () => { const o = open; open = null; srv.reply(o.r, 1, L.str('no')); await w.settle(); ensure(o.p.state === 'failed', 'answer', `${o.what}: ${o.p.state}`); o.fail(); }],
    ]);
    await f();
    for (const t of ['a', 'a/b']) await say(t);
    srv.check();
  }
  x.note(x.log.join());
  client.disconnect();
}
const BODIES = [[], [0], [1], [2], [3, 1, 2], [255], [2, 0x7b], [2, 0xff], [1, 0xff, 0xfe], [2, ...Buffer.from('{"__proto__":{"x":1}}')]];
/** pushes and answers of any shape */
async function malformed(x) {
  const { w, srv, client } = await setup();
  const seen = [];
  for (const t of ['t', '#']) { watch(client.pubsub(t).subscribe((d) => seen.push([t, d]))); await w.settle(); }
  srv.hold = true;
  const kind = x.choose(3, 'kind');
  const after = push('t', L.val('after'));
  const sent = seen.length;
  if (kind === 0) {
    const bodies = [...BODIES.map((b) => Buffer.concat([L.str('t'), Buffer.from(b)])), Buffer.alloc(0), Buffer.from([0, 0]), L.u32(9), L.u32(0xffffffff), Buffer.concat([L.u32(1), Buffer.from([0xff])])];
    const b = bodies[x.choose(bodies.length, 'body')];
    x.log.push(`a push of ${b.toString('hex')}`);
    srv.send(srv.sock, Buffer.concat([L.frame(3, 0, 0, b), after]));
    await w.settle();
  } else if (kind === 1) {
    const ty = [0, 1, 4, 255][x.choose(4, 'type')], meta = [0, 255][x.choose(2, 'meta')], b = BODIES[x.choose(BODIES.length, 'body')];
    x.log.push(`a frame of type ${ty} with ${Buffer.from(b).toString('hex')}`);
    srv.send(srv.sock, Buffer.concat([L.frame(ty, meta, 1, b), after]));
    await w.settle();
  } else {
    const ops = [['get', (c) => c.store.map.get('k'), L.val({ a: 1 })], ['set', (c) => c.store.map.set('k', 1), []], ['exists', (c) => c.queue('q').exists(), []], ['peek', (c) => c.queue('q').dlq.peek(), Buffer.concat([L.u32(2), L.u32(1), L.uuid(1), L.u32(3), L.val(77), L.u32(1), L.str('why')])], ['move', (c) => c.queue('q').dlq.moveToQueue(L.uuid(1).toString('hex')), [1]], ['purge', (c) => c.queue('q').dlq.purge(), L.u32(4)], ['publish', (c) => c.stream('s').publish(1), L.u64(1)]];
    const [name, f, full] = ops[x.choose(ops.length, 'operation')];
    const status = x.choose(6, 'status');
    const alt = [...Array(full.length + 1).keys()].map((k) => Buffer.from(full).subarray(0, k)).concat(BODIES.map((b) => Buffer.from(b)), [L.u32(0xffffffff), Buffer.concat([L.u32(1), L.u32(0xffffffff)])]);
    const b = alt[x.choose(alt.length, 'answer')];
    x.log.push(`${name} answered with status ${status} and ${b.toString('hex')}`);
    const from = srv.requests.length;
    const p = watch((async () => f(client))()), other = watch(client.store.map.get('other'));
    await w.settle();
    const [r, o] = srv.requests.slice(from);
    srv.send(srv.sock, Buffer.concat([L.frame(2, status, r.num, b), L.frame(2, 3, o.num, L.val('fine')), after]));
    await w.settle();
    srv.check();
    ensure(p.state !== 'pending', 'hangs', `${name} never ends`);
    ensure(other.state === 'done' && other.value === 'fine', 'other', `another call: ${other.state} ${other.error || ''}`);
  }
  x.note(x.log.join());
  srv.check();
  ensure(seen.filter(([t, d]) => t === 't' && d === 'after').length === 1 && seen.filter(([t, d]) => t === '#' && d === 'after').length === 1, 'after', `the push behind it calls ${show(seen)}`);
  ensure(({}).x === undefined, 'prototype', 'prototype polluted');
  srv.hold = false;
  const p = watch(client.store.map.del('x')); await w.settle();
  ensure(p.state === 'done' && srv.sock, 'use', `afterwards a request is ${p.state}`);
  client.disconnect();
}
module.exports = {
  matching: { what: 'every pattern of up to three levels beside another, with a handler failing or not, against every topic of up to three levels', run: matching },
  handlers: { what: 'all histories of subscribing and unsubscribing, accepted, refused or under way, with pushes in between', run: handlers },
  malformed: { what: 'every truncation and oddity of pushes, frames and answers, with a good one behind it', run: malformed },
};
