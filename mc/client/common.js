'use strict';
const L = require('./load');
const { Violation, ensure } = L;
/** the other end of every socket of a world */
class Server {
  /** auto: dials succeed at once */
  constructor(w, auto = true) {
    this.w = w; this.auto = auto; this.conns = new Map(); this.dials = 0; this.requests = []; this.fault = null;
    w.onDial = (s) => {
      this.dials++;
      for (const o of w.sockets) if (o !== s && (o.mc.state === 'open' || o.mc.state === 'connecting')) this.fail('two-connections', 'a second connection is opened while one is alive');
      if (this.onDial) this.onDial(s);
      if (this.auto) s.mc.acts.push(() => this.accept(s));
    };
    w.onWrite = (s, b) => {
      const c = this.conns.get(s);
      try {
        for (const f of c.parser.push(b)) { const r = L.request(f); r.sock = s; r.at = w.now; this.requests.push(r); c.requests.push(r); if (this.handle) this.handle(r); }
      } catch (e) { if (e instanceof Violation) this.fault = this.fault || e; else throw e; }
    };
    w.onDestroy = (s) => { const c = this.conns.get(s); if (c) c.open = false; if (this.onGone) this.onGone(s); };
  }
  fail(kind, msg) { this.fault = this.fault || new Violation(kind, msg); }
  accept(s) { if (s.mc.state !== 'connecting') return; this.conns.set(s, { parser: new L.Parser(), requests: [], open: true }); s.mcOpen(); }
  refuse(s) { if (s.mc.state === 'connecting') s.mcFail('ECONNREFUSED'); }
  get sock() { return this.w.sockets.find((s) => s.mc.state === 'open') || null; }
  get dialing() { return this.w.sockets.find((s) => s.mc.state === 'connecting') || null; }
  /** queued until the client has returned to its event loop */
  send(s, b) { s.mc.acts.push(() => s.mcData(b)); }
  reply(r, status, body) { this.send(r.sock, L.frame(2, status, r.num, body || [])); }
  drop(how) { const s = this.sock; if (!s) return; if (how === 'reset') s.destroy(Object.assign(new Error('reset'), { code: 'ECONNRESET' })); else s.mcEnd(); }
  check() {
    if (this.fault) throw this.fault;
    if (this.w.errors.length) throw new Violation('uncaught', `an error that nobody handles (the process would end): ${String(this.w.errors[0].stack).split('\n').slice(0, 4).join(' | ')}`);
    for (const s of this.w.sockets) for (const o of s.mc.out) if (!o.ref.equals(o.copy)) throw new Violation('buffer-reused', 'bytes handed to the socket were changed before it could send them');
  }
}
/** a promise whose state can be seen */
function watch(p) {
  const r = { state: 'pending', value: undefined, error: undefined, p };
  p.then((v) => { if (r.state !== 'pending') r.twice = true; r.state = 'done'; r.value = v; }, (e) => { r.state = 'failed'; r.error = e; });
  return r;
}
async function connected(w, srv, opts = {}) {
  const c = watch(w.sdk.NexoClient.connect({ host: 'h', port: 1, logger: () => {}, ...opts }));
  await w.settle();
  if (c.state !== 'done') throw new Violation('connect', `connect() to a willing server: ${c.state} ${c.error}`);
  return c.value;
}
const same = (a, b) => { try { require('assert').deepStrictEqual(a, b); return true; } catch { return false; } };
const show = (x) => { const s = Buffer.isBuffer(x) ? `<${x.toString('hex')}>` : typeof x === 'string' ? JSON.stringify(x) : JSON.stringify(x) ?? String(x); return s.length > 120 ? s.slice(0, 120) + `.. (${s.length})` : s; };
module.exports = { Server, watch, connected, same, show };
