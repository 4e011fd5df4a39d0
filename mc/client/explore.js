// Depth-first enumeration of every sequence of choices, spread over processes.
'use strict';
const { fork } = require('child_process'), fs = require('fs'), os = require('os'), path = require('path');
const { Violation } = require('./load');
class Skip extends Error {}
class Exec {
  constructor(prefix, mine) { this.prefix = prefix; this.made = []; this.mine = mine; this.log = []; this.state = null; }
  choose(n, what) {
    const k = this.made.length;
    const i = k < this.prefix.length ? this.prefix[k][1] : 0;
    if (k < this.prefix.length && this.prefix[k][0] !== n) throw new Error(`machinery: choice ${k} (${what}) had ${this.prefix[k][0]} options, now ${n}`);
    this.made.push([n, i]);
    if (this.mine && this.made.length === DEPTH && !this.mine(this.made)) throw new Skip();
    return i;
  }
  /** one of the named alternatives; those that are absent (null) cannot happen now */
  pick(what, opts) { const o = opts.filter((x) => x); const i = this.choose(o.length, what); const [name, f] = o[i]; this.log.push(name); return f; }
  note(x) { this.state = x; }
}
const DEPTH = 3;
let current = null;
let strays = [];
process.on('unhandledRejection', (e) => strays.push(e));
process.on('uncaughtException', (e) => strays.push(e));
async function one(body, x) {
  strays = [];
  try {
    await body(x);
    await new Promise((r) => setImmediate(r));
    if (strays.length) { const e = strays[0]; if (e instanceof Violation) throw e; throw new Violation('uncaught', `an error that nobody handles (the process would end): ${e && e.stack ? e.stack.split('\n').slice(0, 4).join(' | ') : e}`); }
    return null;
  } catch (e) {
    if (e instanceof Skip) return 'skip';
    if (e instanceof Violation) return { kind: e.kind, msg: `${e.message}\n    history: ${x.log.join('; ')}` };
    throw e;
  }
}
async function work(body, w, n) {
  const mine = n > 1 ? (made) => { let h = 0; for (const [, i] of made) h = (h * 31 + i + 7) >>> 0; return h % n === w; } : null;
  const r = { execs: 0, points: 0, depth: 0, states: new Set(), found: {} };
  let prefix = [];
  for (;;) {
    const x = new Exec(prefix, mine);
    const v = await one(body, x);
    const short = mine && x.made.length < DEPTH; // every process meets these
    if (v !== 'skip' && (!short || w === 0)) {
      r.execs++; r.points += x.made.length; r.depth = Math.max(r.depth, x.made.length);
      if (x.state) r.states.add(x.state);
      if (v && !r.found[v.kind]) r.found[v.kind] = { kind: v.kind, msg: v.msg, choices: x.made.map((c) => c[1]) };
    }
    let m = x.made;
    while (m.length && m[m.length - 1][1] + 1 >= m[m.length - 1][0]) m.pop();
    if (!m.length) break;
    m[m.length - 1][1]++;
    prefix = m;
  }
  r.states = r.states.size;
  return r;
}
async function replay(body, choices) {
  const x = new Exec(choices.map((c) => [0, c]), null);
  x.prefix = { length: choices.length }; x.choose = function (n, what) { const k = this.made.length; const i = k < choices.length ? choices[k] : 0; this.made.push([n, i]); return i; };
  return one(body, x);
}
module.exports = { work, replay };
