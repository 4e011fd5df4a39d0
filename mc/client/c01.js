'use strict';
// C01: what the client writes is what was meant, and what it reads is what was sent.
const L = require('./load');
const { Server, watch, connected, same, show } = require('./common');
const { ensure } = L;
const VALUES = [
  null, undefined, true, false, 0, -0, 1, -1, 1.5, 1e300, -1e-7, 2 ** 53, NaN, '', 'a', 'é', '€', '😀', 'a\u0000b', '"\\\n', '\ufeff', 'null', '{}', '\u2028',
  Buffer.alloc(0), Buffer.from([0]), Buffer.from([1, 2, 255]), Buffer.from('{"a":1}'), [], {}, [null], { a: undefined, b: [1, { c: 'é' }] }, { '': '' }, [[[[]]]], { n: 1e21 }, new Date(0), [Buffer.from('x')],
];
const norm = (v) => Buffer.isBuffer(v) || typeof v === 'string' ? v : JSON.parse(JSON.stringify(v ?? null));
const NAMES = ['', 'n', 'é😀', 'a/b', '\u0000', '{"x":1}'];
/** what the store, a queue, a topic or a stream was given comes back equal */
async function back(srv, w, client, how, name, v) {
  srv.requests.length = 0;
  let got, body, r;
  const one = (op) => { const m = srv.requests.filter((q) => q.op === op); ensure(m.length === 1, 'requests', `${m.length} requests ${op.toString(16)}`); return m[0]; };
  if (how === 0) {
    const p = watch(client.store.map.set(name, v)); await w.settle(); r = one(0x02); ensure(r.key === name, 'key', `key ${show(r.key)} for ${show(name)}`); body = Buffer.from(r.body); srv.reply(r, 0); await w.settle(); ensure(p.state === 'done', 'set', String(p.error));
    const g = watch(client.store.map.get(name)); await w.settle(); r = one(0x03); ensure(r.key === name, 'key', `key ${show(r.key)} for ${show(name)}`); srv.reply(r, 3, body); await w.settle(); ensure(g.state === 'done', 'get', String(g.error)); got = g.value;
  } else if (how === 1) {
    const q = client.queue(name);
    const p = watch(q.push(v)); await w.settle(); r = one(0x11); ensure(r.name === name && same(r.opts, {}), 'push', `push to ${show(r.name)} with ${show(r.opts)}`); body = Buffer.from(r.body); srv.reply(r, 0); await w.settle(); ensure(p.state === 'done', 'push', String(p.error));
    const k = watch(q.dlq.peek()); await w.settle(); r = one(0x16); ensure(r.name === name && r.limit === 10 && r.offset === 0, 'peek', show(r));
    // twice, with something behind it
    const item = Buffer.concat([L.uuid(7), L.u32(body.length), body, L.u32(3), L.str('wörk')]);
    srv.reply(r, 3, Buffer.concat([L.u32(9), L.u32(2), item, item])); await w.settle(); ensure(k.state === 'done', 'peek', String(k.error));
    ensure(k.value.total === 9 && k.value.items.length === 2 && k.value.items.every((i) => i.attempts === 3 && i.failureReason === 'wörk' && i.id.replace(/-/g, '') === L.uuid(7).toString('hex') && same(i.data, norm(v))), 'peek', `${show(k.value)} for ${show(v)}`);
    got = k.value.items[0].data;
  } else if (how === 2) {
    const seen = [];
    const t = client.pubsub(name);
    const s1 = watch(t.subscribe((d) => seen.push(d))); await w.settle(); r = one(0x22); ensure(r.topic === name, 'topic', `${show(r.topic)} for ${show(name)}`); srv.reply(r, 0); await w.settle(); ensure(s1.state === 'done', 'subscribe', String(s1.error));
    const p = watch(t.publish(v, { retain: true })); await w.settle(); r = one(0x21); ensure(r.topic === name && same(r.opts, { retain: true }), 'publish', show(r)); body = Buffer.from(r.body); srv.reply(r, 0);
    srv.send(r.sock, L.frame(3, 0, 0, Buffer.concat([L.str(name), body]))); await w.settle(); ensure(p.state === 'done' && seen.length === 1, 'push', `${seen.length} pushes received, ${p.error}`); got = seen[0];
  } else {
    const p = watch(client.stream(name).publish(v)); await w.settle(); r = one(0x31); ensure(r.name === name, 'stream', `${show(r.name)} for ${show(name)}`); body = Buffer.from(r.body); srv.reply(r, 3, L.u64(1)); await w.settle(); ensure(p.state === 'done', 'publish', String(p.error));
    const c = new w.sdk.codec.Cursor(Buffer.concat([Buffer.from('..'), body])); c.offset = 2; got = c.decodeAny();
  }
  ensure(body.equals(L.val(v)), 'body', `${show(v)} is written ${body.toString('hex').slice(0, 80)}`);
  ensure(same(Buffer.isBuffer(got) ? Buffer.from(got) : got, norm(v)), 'value', `${show(v)} came back as ${show(got)}`);
}
async function values(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const v = VALUES[x.choose(VALUES.length, 'value')], how = x.choose(4, 'where'), name = NAMES[x.choose(NAMES.length, 'name')];
  x.log.push(`${show(v)} in ${['the store', 'a queue', 'pub/sub', 'a stream'][how]} under ${show(name)}`); x.note(x.log[0]);
  await back(srv, w, client, how, name, v);
  srv.check();
  client.disconnect();
}
/** every size around those at which the client's buffers change */
async function sizes(x, thorough) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const n = x.choose(thorough ? 1100 : 560, 'size'), kind = x.choose(4, 'kind'), big = x.choose(3, 'more');
  const len = n + [0, 3500, 65000][big];
  const v = [() => 'x'.repeat(len), () => 'é'.repeat(len >> 1) + 'x'.repeat(len & 1), () => Buffer.alloc(len, 0xff), () => ({ k: 'y'.repeat(len) })][kind]();
  const name = kind === 1 ? 'ü'.repeat(n % 300) : 'n';
  x.log.push(`${len} bytes, kind ${kind}, name of ${name.length}`); x.note(x.log[0]);
  await back(srv, w, client, len % 4, name, v);
  srv.check();
  client.disconnect();
}
/** every operation asks for what its arguments say */
const OPS = [
  ['queue.create', (c) => c.queue('q').create({ visibilityTimeoutMs: 5, maxRetries: 0 }), 0x10, { name: 'q', opts: { visibilityTimeoutMs: 5, maxRetries: 0 } }, [0], (v, c) => v === c.queue('q')],
  ['queue.create()', (c) => c.queue('q').create(), 0x10, { name: 'q', opts: {} }, [0], (v, c) => v === c.queue('q')],
  ['queue.exists', (c) => c.queue('q').exists(), 0x14, { name: 'q' }, [0], (v) => v === true],
  ['queue.exists not', (c) => c.queue('q').exists(), 0x14, { name: 'q' }, [1, L.str('Queue not found')], (v) => v === false],
  ['queue.delete', (c) => c.queue('q').delete(), 0x15, { name: 'q' }, [0], (v) => v === undefined],
  ['queue.push prio', (c) => c.queue('q').push('v', { priority: 255 }), 0x11, { name: 'q', opts: { priority: 255 }, body: L.val('v') }, [0], (v) => v === undefined],
  ['peek', (c) => c.queue('q').dlq.peek(4294967295, 7), 0x16, { name: 'q', limit: 4294967295, offset: 7 }, [3, Buffer.concat([L.u32(5), L.u32(0)])], (v) => v.total === 5 && v.items.length === 0],
  ['move', (c) => c.queue('q').dlq.moveToQueue('A0a0A0a0-a0a0-a0a0-a0a0-a0a000000109'), 0x17, { name: 'q', id: L.uuid(0x109).toString('hex') }, [3, [1]], (v) => v === true],
  ['move not', (c) => c.queue('q').dlq.moveToQueue(L.uuid(9).toString('hex')), 0x17, { name: 'q', id: L.uuid(9).toString('hex') }, [3, [0]], (v) => v === false],
  ['dlq.delete', (c) => c.queue('q').dlq.delete(L.uuid(0xfffffffe).toString('hex')), 0x18, { name: 'q', id: L.uuid(0xfffffffe).toString('hex') }, [3, [1]], (v) => v === true],
  ['purge', (c) => c.queue('q').dlq.purge(), 0x19, { name: 'q' }, [3, L.u32(4294967295)], (v) => v === 4294967295],
  ['set ttl', (c) => c.store.map.set('k', 1, { ttl: 9 }), 0x02, { key: 'k', opts: { ttl: 9 }, body: L.val(1) }, [0], (v) => v === undefined],
  ['get none', (c) => c.store.map.get('k'), 0x03, { key: 'k' }, [2], (v) => v === null],
  ['del', (c) => c.store.map.del('k'), 0x04, { key: 'k' }, [0], (v) => v === undefined],
  ['publish', (c) => c.pubsub('t').publish('v'), 0x21, { topic: 't', opts: {}, body: L.val('v') }, [0], (v) => v === undefined],
  ['stream.create', (c) => c.stream('s').create({ retention: { maxAgeMs: 0, maxBytes: 7 } }), 0x30, { name: 's', opts: { retention: { maxAgeMs: 0, maxBytes: 7 } } }, [0], (v, c) => v === c.stream('s')],
  ['stream.create()', (c) => c.stream('s').create(), 0x30, { name: 's', opts: {} }, [0], (v, c) => v === c.stream('s')],
  ['stream.exists', (c) => c.stream('s').exists(), 0x35, { name: 's' }, [0], (v) => v === true],
  ['stream.exists not', (c) => c.stream('s').exists(), 0x35, { name: 's' }, [1, L.str('Stream not found')], (v) => v === false],
  ['stream.delete', (c) => c.stream('s').delete(), 0x36, { name: 's' }, [0], (v) => v === undefined],
  ['seek', (c) => c.stream('s').seek('g', 'beginning'), 0x38, { name: 's', group: 'g', target: 0 }, [0], (v) => v === undefined],
  ['seek end', (c) => c.stream('s').seek('g', 'end'), 0x38, { name: 's', group: 'g', target: 1 }, [0], (v) => v === undefined],
];
const IDS = [1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff];
async function operations(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  // after a very long life
  const at = IDS[x.choose(IDS.length, 'number')];
  if (at > 1 && client.conn && typeof client.conn.nextId === 'number') client.conn.nextId = at;
  const seen = new Set();
  for (let k = 0; k < 2; k++) {
    const [name, f, op, args, answer, ok] = OPS[x.choose(OPS.length, 'operation')];
    x.log.push(`${name} (from number ${at})`);
    const from = srv.requests.length;
    const p = watch((async () => f(client))());
    await w.settle();
    const rs = srv.requests.slice(from);
    ensure(rs.length === 1 && rs[0].op === op, 'operation', () => `${name}: requests ${rs.map((r) => r.op.toString(16))} ${p.error || ''}`);
    for (const k of Object.keys(args)) ensure(same(Buffer.isBuffer(rs[0][k]) ? Buffer.from(rs[0][k]) : rs[0][k], args[k]), 'argument', `${name}: ${k} is ${show(rs[0][k])}, not ${show(args[k])}`);
    ensure(!seen.has(rs[0].num), 'number', `two requests carry number ${rs[0].num}`); seen.add(rs[0].num);
    srv.reply(rs[0], ...answer);
    await w.settle();
    ensure(p.state === 'done' && ok(p.value, client), 'result', `${name}: ${p.state} ${show(p.value)} ${p.error || ''}`);
  }
  x.note(x.log.join());
  srv.check();
  client.disconnect();
}
/** what cannot be said is refused, and nothing of it is sent */
async function refused(x) {
  const w = L.world(), srv = new Server(w);
  const client = await connected(w, srv);
  const circular = {}; circular.me = circular;
  const odd = [circular, 10n, () => 1, Symbol('s'), { toJSON() { throw new Error('no'); } }, { a: 1n }];
  const ids = ['', 'a', '0'.repeat(31), '0'.repeat(33), '0'.repeat(34), '0'.repeat(600), 'g'.repeat(32), '-'.repeat(32), '0'.repeat(31) + '-', '0'.repeat(30) + 'é'];
  const nums = [-1, 2 ** 32, Infinity];
  const cases = [
    ...odd.flatMap((v, i) => [['set', (c) => c.store.map.set('k', v)], ['push', (c) => c.queue('q').push(v)], ['publish', (c) => c.pubsub('t').publish(v)], ['stream.publish', (c) => c.stream('s').publish(v)]].map(([n, f]) => [`${n} of odd value ${i}`, f])),
    ...ids.flatMap((v) => [['move', (c) => c.queue('q').dlq.moveToQueue(v)], ['delete', (c) => c.queue('q').dlq.delete(v)]].map(([n, f]) => [`${n} ${show(v)}`, f])),
    ...nums.flatMap((v) => [['peek limit', (c) => c.queue('q').dlq.peek(v)], ['peek offset', (c) => c.queue('q').dlq.peek(1, v)]].map(([n, f]) => [`${n} ${v}`, f])),
  ];
  const [name, f] = cases[x.choose(cases.length, 'call')];
  x.log.push(name); x.note(name);
  const before = watch(client.store.map.get('before'));
  const p = watch((async () => f(client))()), after = watch(client.store.map.get('after'));
  await w.settle(); srv.check();
  ensure(p.state === 'failed' && srv.requests.length === 2, 'refused', `${name}: ${p.state}, ${srv.requests.length - 2} requests`);
  for (const r of srv.requests) srv.reply(r, 3, L.val(r.key));
  await w.settle(); srv.check();
  ensure(before.value === 'before' && after.value === 'after', 'other', `other calls: ${show(before.value)}, ${show(after.value)}`);
  client.disconnect();
}
module.exports = {
  refused: { what: 'every kind of value, message id and number that the formats cannot carry, between two other calls', run: refused },
  values: { what: 'every kind of value in every broker under unusual names, written and read back', run: values },
  sizes: { what: 'every size around those at which buffers grow, as text, bytes and JSON', run: sizes },
  operations: { what: 'every pair of operations with unusual arguments, at every boundary of the request number', run: operations },
};
