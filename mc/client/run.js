'use strict';
const fs = require('fs'), path = require('path'), { fork } = require('child_process');
const { work, replay } = require('./explore');
const PROPS = { C01: './c01', C02: './c02', C03: './c03', C04: './c04', C05: './c05', C06: './c06' };
const HOME = process.env.VERIF_DIR || path.resolve(__dirname, '../..');
function props() { const r = {}; for (const [k, f] of Object.entries(PROPS)) if (fs.existsSync(path.join(__dirname, f + '.js'))) r[k] = require(f); return r; }
async function main() {
  const [mode, id, tier, only] = process.argv.slice(2);
  if (mode === 'worker') {
    const s = props()[id][only];
    const [w, n] = process.argv.slice(6).map(Number);
    const r = await work((x) => s.run(x, tier === 'thorough'), w, n);
    process.send(r, () => process.exit(0));
    return;
  }
  if (mode === 'replay') {
    const j = JSON.parse(fs.readFileSync(id));
    const v = await replay((x) => props()[j.property][j.scenario].run(x, j.tier === 'thorough'), j.choices);
    console.log(v ? `--- ${j.scenario} [${v.kind}] ${v.msg}` : 'no violation on this tree');
    if (v) console.log(`VIOLATION property=${j.property} replay=${id}`);
    process.exit(v ? 1 : 0);
  }
  const t0 = Date.now();
  const P = props()[id];
  if (!P) { console.error('no such property'); process.exit(2); }
  const N = 8, ev = [], bad = [];
  for (const [name, s] of Object.entries(P)) {
    if (only && !name.includes(only)) continue;
    const t = Date.now();
    const rs = await Promise.all([...Array(N).keys()].map((w) => new Promise((ok) => {
      const c = fork(__filename, ['worker', id, tier, name, String(w), String(N)], { execArgv: ['--no-warnings', '--stack-trace-limit=6'] });
      let r = null;
      c.on('message', (m) => { r = m; });
      c.on('exit', (code) => { if (!r) { console.error(`a worker of ${id} ${name} ended with ${code}`); process.exit(2); } ok(r); });
    })));
    const sum = (k) => rs.reduce((a, r) => a + r[k], 0);
    const found = {};
    for (const r of rs) for (const v of Object.values(r.found)) if (!found[v.kind] || v.choices.length < found[v.kind].choices.length) found[v.kind] = v;
    const e = { scenario: name, what: s.what, executions: sum('execs'), choice_points: sum('points'), distinct_histories: sum('states'), longest: Math.max(...rs.map((r) => r.depth)), wall_s: (Date.now() - t) / 1000 };
    ev.push(e);
    console.log(`${id} ${name.padEnd(22)} execs=${e.executions} points=${e.choice_points} states=${e.distinct_histories} longest=${e.longest} ${e.wall_s.toFixed(1)}s found=${Object.keys(found).length}`);
    for (const v of Object.values(found)) bad.push({ ...v, scenario: name });
  }
  const known = fs.existsSync(path.join(HOME, 'known_findings.txt')) ? fs.readFileSync(path.join(HOME, 'known_findings.txt'), 'utf8').split('\n').filter((l) => l.startsWith(`finding: property=${id} `)) : [];
  let n = 0;
  const dir = path.join(HOME, 'evidence', 'replay');
  fs.mkdirSync(dir, { recursive: true });
  for (const v of bad) {
    const k = known.find((l) => l.includes(` scenario=${v.scenario} `) && l.includes(` sig=${v.kind} `));
    console.log(`--- ${v.scenario} [${v.kind}] ${v.msg}`);
    if (k) { console.log(`KNOWN-FINDING: property=${id} ${k.split(' :: ')[1]}`); continue; }
    const f = path.join(dir, `${id}-${v.scenario}-${n++}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: id, scenario: v.scenario, tier, choices: v.choices, kind: v.kind, message: v.msg }));
    console.log(`VIOLATION property=${id} replay=${f}`);
  }
  const tot = (k) => ev.reduce((a, r) => a + r[k], 0);
  const wall = (Date.now() - t0) / 1000;
  if (!only) fs.writeFileSync(path.join(HOME, 'evidence', id + '.json'), JSON.stringify({
    property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
    coverage: { states: tot('distinct_histories'), transitions: tot('choice_points'), traces_validated_against_impl: tot('executions'), executions: tot('executions'), samples: ev, exhaustive: true,
      explanation: 'every execution is of the client library itself, compiled from /repo/sdk/ts/src; states are distinct histories reached, transitions are choices taken' },
    assumptions: ['sockets, timers and the clock behave as the substitutes in /verif/mc/client do (Node delivers events one at a time and runs all promise callbacks between them)', 'the simulated server answers in the layouts that W06 verifies for the real one'],
    wall_s: wall, violations: n }, null, 1));
  console.log(`${id} ${tier} executions=${tot('executions')} wall=${wall.toFixed(1)}s violations=${n}`);
  process.exit(n ? 1 : 0);
}
main().catch((e) => { console.error(e); process.exit(2); });
