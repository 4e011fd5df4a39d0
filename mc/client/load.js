// The client library, compiled from the repository's current sources, with every
// source of time, input and scheduling replaced.
'use strict';
const path = require('path'), fs = require('fs'), { EventEmitter } = require('events');
const TOOLS = '/opt/veriftools/node/node_modules/';
const SRC = process.env.NEXO_SDK || '/repo/sdk/ts/src';

function compile() {
  const es = require(TOOLS + 'esbuild');
  const r = es.buildSync({
    stdin: { contents: `export * from './index'; export { NexoConnection } from './connection'; export * as codec from './codec'; export { runConcurrent } from './utils/concurrent'; export { Logger } from './utils/logger'; export { DEFAULT_CONFIG } from './config';`, resolveDir: SRC, loader: 'ts' },
    bundle: true, platform: 'node', format: 'cjs', target: 'node20', write: false, logLevel: 'silent', tsconfigRaw: '{}',
  });
  return r.outputFiles[0].text;
}

/** one world: a clock, sockets, and a server to be scripted */
class World {
  constructor(code) {
    this.now = 1.8e12; this.seq = 0; this.timers = new Map(); this.sockets = []; this.errors = []; this.ticks = [];
    const w = this;
    const timer = (repeat) => (f, ms, ...a) => {
      ms = Math.max(1, Number(ms) || 0);
      const t = { id: ++w.seq, at: w.now + ms, every: repeat ? ms : 0, f: () => f(...a), reffed: true,
        unref() { t.reffed = false; return t; }, ref() { t.reffed = true; return t; }, hasRef: () => t.reffed, refresh() { t.at = w.now + ms; return t; },
        close() { w.timers.delete(t.id); }, [Symbol.toPrimitive]: () => t.id };
      w.timers.set(t.id, t);
      return t;
    };
    const clear = (t) => { if (t) w.timers.delete(typeof t === 'object' ? t.id : t); };
    const setT = timer(false), setI = timer(true);
    const setImm = (f, ...a) => setT(f, 0, ...a);
    const D = class extends Date { constructor(...a) { a.length ? super(...a) : super(w.now); } static now() { return w.now; } };
    class Socket extends EventEmitter {
      constructor() { super(); this.destroyed = false; this.connecting = false; this.writable = true; this.readable = true; this.mc = { id: w.sockets.length, state: 'new', out: [], acts: [] }; w.sockets.push(this); }
      connect(...a) {
        const cb = a.find((x) => typeof x === 'function');
        if (cb) this.once('connect', cb);
        if (this.destroyed) { this.destroyed = false; }
        this.connecting = true; this.mc.state = 'connecting';
        w.onDial && w.onDial(this);
        return this;
      }
      get readyState() { return this.connecting ? 'opening' : this.mc.state === 'open' ? 'open' : 'closed'; }
      get pending() { return this.mc.state !== 'open'; }
      setNoDelay() { return this; } setKeepAlive() { return this; } setTimeout() { return this; } ref() { return this; } unref() { return this; } pause() { return this; } resume() { return this; } cork() {} uncork() {}
      setEncoding() { throw new Error('machinery: encoding'); }
      address() { return {}; }
      write(b, enc, cb) {
        cb = [enc, cb].find((x) => typeof x === 'function');
        const copy = Buffer.from(b);
        if (this.destroyed || this.mc.state === 'closed') { if (cb) queueMicrotask(() => cb(Object.assign(new Error('write after end'), { code: 'ERR_STREAM_DESTROYED' }))); return false; }
        // the socket keeps the buffer until it is sent
        this.mc.out.push({ ref: b, copy });
        if (this.mc.state === 'open') w.onWrite && w.onWrite(this, copy);
        if (cb) queueMicrotask(() => cb());
        return true;
      }
      end() { return this.destroy(); }
      destroySoon() { return this.destroy(); }
      resetAndDestroy() { return this.destroy(); }
      destroy(err) {
        if (this.destroyed) return this;
        this.destroyed = true; this.connecting = false; this.writable = false;
        const was = this.mc.state;
        this.mc.state = 'closed';
        w.onDestroy && w.onDestroy(this, was);
        this.mc.acts.push(() => { if (err) this.emit('error', err); this.emit('close', !!err); });
        return this;
      }
      // ---- what the other side and the network do
      mcOpen() { this.connecting = false; this.mc.state = 'open'; const q = this.mc.out.map((x) => x.copy); this.emit('connect'); this.emit('ready'); for (const b of q) w.onWrite && w.onWrite(this, b); }
      mcFail(code) { this.connecting = false; this.destroyed = true; this.mc.state = 'closed'; const e = Object.assign(new Error(code), { code }); this.mc.acts.push(() => this.emit('close', true)); if (this.listenerCount('error') === 0) throw e; this.emit('error', e); }
      mcData(b) { if (this.mc.state === 'open') this.emit('data', Buffer.from(b)); }
      mcEnd() { this.emit('end'); this.destroy(); }
    }
    const net = { Socket, createConnection: (...a) => new Socket().connect(...a), connect: (...a) => new Socket().connect(...a), isIP: () => 4 };
    net.default = net; net.__esModule = true;
    const sleep = (ms, v) => new Promise((r) => setT(() => r(v), ms));
    const timers = { setTimeout: setT, setInterval: setI, clearTimeout: clear, clearInterval: clear, setImmediate: setImm, clearImmediate: clear };
    const req = (m) => {
      m = m.replace(/^node:/, '');
      if (m === 'net') return net;
      if (m === 'timers') return timers;
      if (m === 'timers/promises') return { setTimeout: sleep, setImmediate: (v) => sleep(0, v) };
      if (m === 'perf_hooks') return { performance: { now: () => w.now - 1.8e12 } };
      if (['events', 'util', 'buffer', 'assert', 'string_decoder', 'stream', 'crypto', 'os', 'path'].includes(m)) return require(m);
      throw new Error('machinery: the client requires ' + m);
    };
    const proc = { env: {}, on() {}, once() {}, off() {}, removeListener() {}, listenerCount: () => 0, nextTick: (f, ...a) => process.nextTick(f, ...a), exit: () => { throw new Error('machinery: process.exit'); }, hrtime: process.hrtime, emitWarning() {}, pid: 1, platform: 'linux', version: process.version, versions: process.versions };
    const con = { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {} };
    const module = { exports: {} };
    code(req, module, module.exports, setT, clear, setI, clear, setImm, clear, D, proc, con, { now: () => w.now - 1.8e12 });
    this.sdk = module.exports;
  }
  /** something of the server's own */
  later(ms, f) { const id = ++this.seq; this.timers.set(id, { id, at: this.now + ms, every: 0, f, reffed: false }); }
  /** everything that runs without further input */
  async settle() {
    for (let i = 0; ; i++) {
      await new Promise((r) => setImmediate(r));
      let did = false;
      for (const s of this.sockets) while (s.mc.acts.length) { did = true; this.guard(s.mc.acts.shift()); }
      if (!did) return;
      if (i > 1000) throw new Violation('endless', 'the client goes on for ever without any time passing');
    }
  }
  guard(f) { try { f(); } catch (e) { this.errors.push(e); } }
  /** the next timer, if any */
  next() { let b = null; for (const t of this.timers.values()) if (!b || t.at < b.at || (t.at === b.at && t.id < b.id)) b = t; return b; }
  fire(t) { this.now = Math.max(this.now, t.at); if (t.every) t.at += t.every; else this.timers.delete(t.id); this.guard(t.f); }
  async pass(ms) {
    const until = this.now + ms;
    for (let n = 0; ; n++) {
      await this.settle();
      const t = this.next();
      if (!t || t.at > until) break;
      this.fire(t);
      if (n > 100000) throw new Violation('endless', `the client sets timers without end within ${ms} ms`);
    }
    this.now = until;
    await this.settle();
  }
}
const ARGS = ['require', 'module', 'exports', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'clearImmediate', 'Date', 'process', 'console', 'performance'];
let compiled = null;
function world() { if (!compiled) compiled = new Function(...ARGS, compile()); return new World(compiled); }

// ---------------------------------------------------------------- frames
const frame = (ty, meta, id, p) => { p = Buffer.from(p); const h = Buffer.alloc(10); h[0] = ty; h[1] = meta; h.writeUInt32BE(id >>> 0, 2); h.writeUInt32BE(p.length, 6); return Buffer.concat([h, p]); };
const u32 = (n) => { const b = Buffer.alloc(4); b.writeUInt32BE(n); return b; };
const u64 = (n) => { const b = Buffer.alloc(8); b.writeBigUInt64BE(BigInt(n)); return b; };
const str = (s) => Buffer.concat([u32(Buffer.byteLength(s)), Buffer.from(s)]);
const val = (x) => Buffer.isBuffer(x) ? Buffer.concat([Buffer.from([0]), x]) : typeof x === 'string' ? Buffer.concat([Buffer.from([1]), Buffer.from(x)]) : Buffer.concat([Buffer.from([2]), Buffer.from(JSON.stringify(x ?? null))]);
const uuid = (n) => { const b = Buffer.alloc(16, 0xA0); b.writeUInt32BE(n, 12); return b; };
/** the server's view of what arrives on a socket */
class Parser {
  constructor() { this.b = Buffer.alloc(0); }
  push(b) {
    this.b = Buffer.concat([this.b, b]);
    const v = [];
    while (this.b.length >= 10 && this.b.length >= 10 + this.b.readUInt32BE(6)) { const n = 10 + this.b.readUInt32BE(6); v.push({ ty: this.b[0], op: this.b[1], id: this.b.readUInt32BE(2), p: this.b.subarray(10, n) }); this.b = this.b.subarray(n); }
    return v;
  }
}
/** reads a request as the server does; throws when it would be refused */
function request(f) {
  let o = 0; const p = f.p;
  const need = (n) => { if (o + n > p.length) throw new Violation('request-form', `request ${f.op.toString(16)} is too short: ${p.toString('hex')}`); o += n; return p.subarray(o - n, o); };
  const R = { u8: () => need(1)[0], u32: () => need(4).readUInt32BE(0), u64: () => need(8).readBigUInt64BE(0), str: () => { const n = R.u32(); const b = need(n); const s = b.toString('utf8'); if (!Buffer.from(s).equals(b)) throw new Violation('request-form', 'not UTF-8'); return s; }, uuid: () => need(16).toString('hex'), json: () => JSON.parse(R.str()), rest: () => need(p.length - o) };
  const L = { 0x02: ['key:str', 'opts:json', 'body:rest'], 0x03: ['key:str'], 0x04: ['key:str'], 0x10: ['name:str', 'opts:json'], 0x11: ['name:str', 'opts:json', 'body:rest'], 0x12: ['name:str', 'opts:json'], 0x13: ['id:uuid', 'name:str'], 0x14: ['name:str'], 0x15: ['name:str'], 0x16: ['name:str', 'limit:u32', 'offset:u32'], 0x17: ['name:str', 'id:uuid'], 0x18: ['name:str', 'id:uuid'], 0x19: ['name:str'], 0x1A: ['id:uuid', 'name:str', 'reason:str'],
    0x21: ['topic:str', 'opts:json', 'body:rest'], 0x22: ['topic:str'], 0x23: ['topic:str'], 0x30: ['name:str', 'opts:json'], 0x31: ['name:str', 'body:rest'], 0x32: ['name:str', 'group:str', 'member:str', 'gen:u64', 'limit:u32', 'wait:u32'], 0x33: ['group:str', 'name:str'], 0x34: ['name:str', 'group:str', 'member:str', 'gen:u64', 'seq:u64'], 0x35: ['name:str'], 0x36: ['name:str'], 0x38: ['name:str', 'group:str', 'target:u8'], 0x39: ['name:str', 'group:str', 'member:str', 'gen:u64'] }[f.op];
  if (f.ty !== 1 || !L) throw new Violation('request-form', `frame of type ${f.ty}, opcode ${f.op}`);
  const r = { op: f.op, num: f.id };
  for (const x of L) { const [k, t] = x.split(':'); r[k] = R[t](); }
  if (o !== p.length) throw new Violation('request-form', `request ${f.op.toString(16)} has ${p.length - o} bytes too many`);
  return r;
}
class Violation extends Error { constructor(kind, msg) { super(msg); this.kind = kind; } }
const ensure = (c, kind, msg) => { if (!c) throw new Violation(kind, typeof msg === 'function' ? msg() : msg); };

module.exports = { world, frame, u32, u64, str, val, uuid, Parser, request, Violation, ensure };
