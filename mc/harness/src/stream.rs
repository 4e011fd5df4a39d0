//! Streams (T01–T09).
use bytes::Bytes;
use harness::*;
use mcrt::io::IoOp;
use nexo::brokers::stream::config::SystemStreamConfig;
use nexo::brokers::stream::domain::message::Message;
use nexo::brokers::stream::options::{RetentionOptions, SeekTarget, StreamCreateOptions};
use nexo::brokers::stream::StreamManager;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;

const FLUSH: u64 = 20;
const SAVE: u64 = FLUSH * 10;
const EVICT: u64 = 30;
/// redelivery is looked for this often
const SWEEP: u64 = 100;
const FOREVER: u64 = 1 << 40;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
struct C { seg: u64, ram: usize, wait: u64, cap: usize, maxd: u32, bytes: u64, age: u64, check: u64, files: usize }
const BASE: C = C { seg: 70, ram: 1, wait: 150, cap: 3, maxd: 2, bytes: FOREVER, age: FOREVER, check: FOREVER, files: 8 };

fn conf(c: C, path: &str) -> Arc<SystemStreamConfig> {
    Arc::new(SystemStreamConfig {
        persistence_path: path.to_string(), default_flush_ms: FLUSH, max_segment_size: c.seg, retention_check_interval_ms: c.check,
        default_retention_bytes: c.bytes, default_retention_age_ms: c.age, eviction_interval_ms: EVICT, ram_soft_limit: c.ram, ram_hard_limit: 1000,
        max_ack_pending: c.cap, max_open_files: c.files, ack_wait_ms: c.wait, max_deliveries: c.maxd,
    })
}
async fn mk(c: C) -> StreamManager { StreamManager::new(conf(c, root().join("s").to_str().unwrap())).await }
/// nothing can be stored here: the same code without the disk
async fn mk_mem(c: C) -> StreamManager {
    let mut x = (*conf(c, "/dev/null/s")).clone();
    x.default_flush_ms = FOREVER;
    StreamManager::new(Arc::new(x)).await
}
fn ms() -> u64 { now_ns() / 1_000_000 }
async fn create(m: &StreamManager, t: &str) -> R<()> {
    let r = m.create_topic(t.into(), StreamCreateOptions::default()).await;
    ensure!(r.is_ok(), "create", "creating {:?} failed: {:?}", t, r);
    quiesce().await;
    Ok(())
}
/// long enough for everything published to be on disk and evicted from memory
async fn settle() { sleep_ms(FLUSH + EVICT + 15).await; quiesce().await; }

// ---------------------------------------------------------------- the log
fn body(k: u64, n: usize) -> Vec<u8> { (0..n).map(|j| (k as usize * 37 + j * 11 + n) as u8).collect() }
/// What a stream must contain; message number `s` is `v[s-1]`.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Log { v: Vec<(u64, Vec<u8>)>, head: u64 }
impl Log {
    fn new() -> Log { Log { v: vec![], head: 1 } }
    fn last(&self) -> u64 { self.v.len() as u64 }
    fn from(&self, s: u64) -> &[(u64, Vec<u8>)] { let s = s.max(self.head).max(1) - 1; if s >= self.last() { &[] } else { &self.v[s as usize..] } }
    fn cut(&self, n: u64) -> Log { Log { v: self.v[..n as usize].to_vec(), head: self.head } }
    fn bytes(&self, from: u64) -> u64 { self.from(from).iter().map(|m| 24 + m.1.len() as u64).sum() }
    async fn publish(&mut self, m: &StreamManager, t: &str, n: usize, when: &str) -> R<()> {
        let b = body(self.last() + 1, n);
        let lo = wall();
        let r = m.publish(t, Bytes::from(b.clone())).await;
        let hi = wall();
        ensure!(r == Ok(self.last() + 1), "number", "{}: the message after {} got number {:?}", when, self.last(), r);
        let s = self.last() + 1;
        let x = m.read(t, s, 1).await;
        ensure!(x.len() == 1 && x[0].seq == s && x[0].payload == b[..], "read-own", "{}: message {} just published reads as {:?}", when, s, x);
        ensure!(x[0].timestamp >= lo && x[0].timestamp <= hi, "timestamp", "{}: message {} published between {} and {} is dated {}", when, s, lo, hi, x[0].timestamp);
        self.v.push((x[0].timestamp, b));
        Ok(())
    }
}
fn wall() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
fn is_run(got: &[Message], log: &Log, from: u64) -> bool {
    let want = log.from(from);
    let s0 = from.max(log.head).max(1);
    got.len() <= want.len() && got.iter().zip(want).enumerate().all(|(i, (g, w))| g.seq == s0 + i as u64 && g.timestamp == w.0 && g.payload == w.1[..])
}
fn show(v: &[Message]) -> String { format!("{:?}", v.iter().map(|m| (m.seq, m.timestamp, m.payload.len(), m.payload.first().copied())).collect::<Vec<_>>()) }
async fn read_ok(m: &StreamManager, t: &str, log: &Log, from: u64, limit: usize, when: &str) -> R<usize> {
    let r = m.read(t, from, limit).await;
    ensure!(r.len() <= limit, "limit", "{}: read from {} with limit {} returned {} messages", when, from, limit, r.len());
    ensure!(is_run(&r, log, from), "read", "{}: read from {} (limit {}) returned {}, expected a run of {:?}", when, from, limit, show(&r), log.from(from).iter().map(|x| (x.0, x.1.len(), x.1.first().copied())).collect::<Vec<_>>());
    ensure!(!r.is_empty() || limit == 0 || log.from(from).is_empty(), "read-empty", "{}: read from {} (limit {}) returned nothing, there are {} messages", when, from, limit, log.from(from).len());
    Ok(r.len())
}
/// every position, several limits, and the whole log in steps
async fn check_log(m: &StreamManager, t: &str, log: &Log, when: &str) -> R<()> {
    for from in 0..=log.last() + 2 { for l in [1, 2, 1000] { read_ok(m, t, log, from, l, when).await?; } }
    read_ok(m, t, log, u64::MAX, 10, when).await?;
    read_ok(m, t, log, 1, 0, when).await?;
    all(m, t, log, when).await
}
async fn all(m: &StreamManager, t: &str, log: &Log, when: &str) -> R<()> {
    let mut s = log.head;
    while s <= log.last() { s += read_ok(m, t, log, s, 1000, when).await? as u64; }
    read_ok(m, t, log, s, 1000, when).await?;
    let sn = m.get_snapshot().await;
    let Some(x) = sn.topics.iter().find(|x| x.name == t) else { return viol("snapshot", format!("{}: stream {:?} is not listed", when, t)) };
    ensure!(x.last_seq == log.last(), "snapshot", "{}: listing says last number {}, expected {}", when, x.last_seq, log.last());
    Ok(())
}

/// Start the server on the storage left after `upto` operations and judge it.
fn restart<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, later: u64, f: impl FnOnce() -> BoxFut<R<()>> + Send + 'static) -> (Vec<Violation>, std::path::PathBuf, u64) {
    let dir = e.fresh_dir("r");
    mcrt::io::materialize_at(&dir, &e.out.io.log[..upto], &e.out.io.times, torn);
    let at = e.out.io.times[..upto].last().copied().unwrap_or(0) + later * 1_000_000;
    let (v, end) = run_on(e, &dir, at, f);
    (v, dir, end)
}
fn run_on<T>(e: &Exec<'_, T>, dir: &Path, at: u64, f: impl FnOnce() -> BoxFut<R<()>> + Send + 'static) -> (Vec<Violation>, u64) {
    let o = e.sub(dir, at, f);
    let own = match &o.result { Some(Err(v)) => vec![v.clone()], _ => vec![] };
    (match mcrt::judge(&o, true, own) { Ok(v) => v, Err(e) => vec![Violation { sig: "machinery".into(), msg: e }] }, o.now_ns)
}

// ---------------------------------------------------------------- T01
fn log_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(5, 7);
    ctx.run2(Plan::default().log(), move || async move {
        let c = C { ram: choose(3, "ram"), seg: [70, 1][choose(2, "segment")], ..BASE };
        let m = mk(c).await;
        create(&m, "t").await?;
        let mut log = Log::new();
        for i in 0..depth {
            let op = choose(4, "op");
            let when = format!("step {} ({}; memory {}, files of {})", i, ["publish 0 bytes", "publish 8 bytes", "publish 100 bytes", "wait"][op], c.ram, c.seg);
            log_event(when.clone());
            if op == 3 { settle().await; } else { log.publish(&m, "t", [0, 8, 100][op], &when).await?; }
            check_log(&m, "t", &log, &when).await?;
            note_state(&(&log.v.iter().map(|x| x.1.len()).collect::<Vec<_>>(), op));
        }
        settle().await;
        check_log(&m, "t", &log, "at the end").await?;
        Ok((c, log))
    }, |e, (c, log)| {
        let (c, log) = (*c, log.clone());
        restart(e, e.out.io.log.len(), None, 0, move || Box::pin(async move {
            let m = mk(c).await;
            check_log(&m, "t", &log, "after a restart").await?;
            settle().await;
            check_log(&m, "t", &log, "a while after a restart").await
        })).0
    })
}

/// Publishers, readers and everything that moves messages to disk at once.
fn race(ctx: &Ctx, disk: bool) -> Report {
    let b = if disk { ctx.pick(2, 3) } else { ctx.pick(2, 3) };
    let mut plan = Plan::default().budget(b).no_time();
    if disk { plan = plan.log(); }
    ctx.run2(plan, move || async move {
        let c = C { ram: choose(2, "ram"), ..BASE };
        let m = if disk { mk(c).await } else { mk_mem(c).await };
        create(&m, "t").await?;
        let pre = if disk { 2 } else { choose(2, "pre") as u64 };
        let mut log = Log::new();
        for _ in 0..pre { log.publish(&m, "t", 8, "setup").await?; }
        let (np, each) = if disk { (2, 2) } else { (2 + choose(2, "publishers"), 2) };
        // everything wakes up when the flush and the eviction round are due together
        if disk { sleep_ms(59 - ms() % 60).await; quiesce().await; }
        let h = History::new();
        let mut p = par();
        set_explore(true);
        for k in 0..np {
            let (m, h) = (m.clone(), h.clone());
            p.go(async move {
                sleep_ms(1).await;
                for j in 0..each {
                    let id = (10 + k * 10 + j) as u64;
                    let i = h.begin(id);
                    match m.publish("t", Bytes::from(body(id, 8))).await { Ok(s) => h.end(i, s), Err(e) => return viol("publish", e) }
                    sched_point("between operations");
                }
                Ok(())
            });
        }
        let (m2, h2) = (m.clone(), h.clone());
        let log2 = log.clone();
        p.go(async move {
            sleep_ms(1).await;
            let mut seen: Vec<(u64, u64, Bytes)> = vec![];
            for _ in 0..2 {
                // what was published before this read began must be in it
                let min = h2.with(|h| h.ops.iter().filter_map(|o| o.ret).max().unwrap_or(pre));
                let mut s = 1;
                let mut got: Vec<Message> = vec![];
                loop {
                    let r = m2.read("t", s, 100).await;
                    if r.is_empty() { break; }
                    s = r.last().unwrap().seq + 1;
                    got.extend(r);
                }
                ensure!(got.iter().enumerate().all(|(i, g)| g.seq == i as u64 + 1), "dense", "a read during publishing returned {}", show(&got));
                ensure!(is_run(&got[..got.len().min(pre as usize)], &log2, 1), "read", "old messages read as {}", show(&got));
                ensure!(got.len() as u64 >= min, "missing", "message {} was published before a read that returned {}", min, show(&got));
                ensure!(got.len() >= seen.len() && got.iter().zip(&seen).all(|(g, s)| (g.seq, g.timestamp, &g.payload) == (s.0, s.1, &s.2)), "changed", "messages changed between two reads: {:?} then {}", seen, show(&got));
                seen = got.iter().map(|g| (g.seq, g.timestamp, g.payload.clone())).collect();
                sched_point("between reads");
            }
            Ok(())
        });
        p.join(60_000, "publishing and reading").await?;
        set_explore(false);
        quiesce().await;
        let ops = h.with(|h| h.ops.clone());
        let mut nums: Vec<u64> = ops.iter().map(|o| o.ret.unwrap()).collect();
        for a in &ops { for b in &ops { ensure!(!(a.end < b.start && a.ret > b.ret), "order", "a publish that followed another got the smaller number: {:?} {:?}", a, b); } }
        nums.sort();
        ensure!(nums == (pre + 1..=pre + ops.len() as u64).collect::<Vec<_>>(), "number", "numbers given: {:?}", nums);
        let mut by: Vec<_> = ops.iter().map(|o| (o.ret.unwrap(), o.op)).collect();
        by.sort();
        let mut now = vec![];
        let mut s = pre + 1;
        loop { let r = m.read("t", s, 100).await; if r.is_empty() { break; } s = r.last().unwrap().seq + 1; now.extend(r); }
        for (n, id) in by { let ts = now.iter().find(|x| x.seq == n).map(|x| x.timestamp).unwrap_or(0); log.v.push((ts, body(id, 8))); }
        check_log(&m, "t", &log, "after publishing").await?;
        if disk { settle().await; check_log(&m, "t", &log, "after publishing and eviction").await?; }
        note_state(&log);
        Ok((c, log))
    }, move |e, (c, log)| {
        if !disk { return vec![]; }
        let (c, log) = (*c, log.clone());
        restart(e, e.out.io.log.len(), None, 0, move || Box::pin(async move { let m = mk(c).await; check_log(&m, "t", &log, "after a restart").await })).0
    })
}

// ---------------------------------------------------------------- T02
/// The log after a crash: a prefix of `full` with at least `durable` messages.
/// Then it must go on working, also over another crash.
fn recover_log<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, c: C, full: &BTreeMap<&'static str, (Log, u64, u64)>, when: String) -> Vec<Violation> {
    let want = full.clone();
    let got: Arc<std::sync::Mutex<BTreeMap<&'static str, Log>>> = Default::default();
    let g2 = got.clone();
    let w2 = when.clone();
    let (v, dir, end) = restart(e, upto, torn, 0, move || Box::pin(async move {
        let m = mk(c).await;
        let mut logs = BTreeMap::new();
        for (t, (log, durable, done)) in &want {
            let sn = m.get_snapshot().await;
            let Some(x) = sn.topics.iter().find(|x| x.name == *t) else { return viol("gone", format!("{}: stream {:?} is gone", w2, t)) };
            let n = x.last_seq;
            ensure!(n >= *durable, "lost", "{}: the log of {:?} ends at {}, but {} messages were on disk", w2, t, n, durable);
            ensure!(n <= *done, "invented", "{}: the log of {:?} ends at {}, only {} messages were published", w2, t, n, done);
            let mut l = log.cut(n);
            check_log(&m, t, &l, &w2).await?;
            for _ in 0..2 { l.publish(&m, t, 9, &w2).await?; }
            all(&m, t, &l, &format!("{}, published more", w2)).await?;
            logs.insert(*t, l);
        }
        settle().await;
        for (t, l) in &logs { check_log(&m, t, l, &format!("{}, published more and waited", w2)).await?; }
        *g2.lock().unwrap() = logs;
        Ok(())
    }));
    if !v.is_empty() { return v; }
    let logs = got.lock().unwrap().clone();
    run_on(e, &dir, end, move || Box::pin(async move {
        let m = mk(c).await;
        for (t, l) in &logs { let mut l = l.clone(); check_log(&m, t, &l, &format!("{}, published more, second restart", when)).await?; l.publish(&m, t, 9, &when).await?; all(&m, t, &l, &format!("{}, published after the second restart", when)).await?; }
        Ok(())
    })).0
}
/// byte counts at which the last write may be cut: everywhere, or around the
/// fields of the record format and in the middle
fn cuts(len: usize, every: bool) -> Vec<usize> {
    if every || len <= 4 { return (1..len).collect(); }
    let mut v: Vec<usize> = [1, 4, 8, 16, 24, 25, 32, 33, len / 2, len - 1].into_iter().filter(|n| *n < len).collect();
    v.sort();
    v.dedup();
    v
}
fn crash_points<T>(e: &Exec<'_, R<T>>, c: C, logs: &BTreeMap<&'static str, Log>, marks: &[BTreeMap<&'static str, u64>], every: Option<bool>) -> Vec<Violation> {
    let log = &e.out.io.log;
    let (mut done, mut durable) = (0usize, 0usize);
    let mut on = false;
    for p in 1..=log.len() {
        match &log[p - 1] {
            IoOp::Mark(k) if *k >= 1000 => { durable = (*k - 1000) as usize; done = durable; on = true; }
            IoOp::Mark(k) => { done = *k as usize; continue; }
            _ => {}
        }
        if !on { continue; }
        let hi = (done + 1).min(marks.len() - 1);
        let full: BTreeMap<&'static str, (Log, u64, u64)> = logs.iter().map(|(t, l)| (*t, (l.clone(), marks[durable][t], marks[hi][t]))).collect();
        let mut torn = vec![None];
        if let (IoOp::Write { data, .. }, Some(every)) = (&log[p - 1], every) { torn.extend(cuts(data.len(), every).into_iter().map(Some)); }
        for t in torn {
            let v = recover_log(e, p, t, c, &full, format!("crash after storage operation {} of {}{}", p, log.len(), t.map(|t| format!(", the last write cut after {} bytes", t)).unwrap_or_default()));
            if !v.is_empty() { return v; }
        }
    }
    vec![]
}
fn crash_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 5);
    let every = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        let c = C { ram: 1, seg: [70, 1][choose(2, "segment")], ..BASE };
        let m = mk(c).await;
        create(&m, "t").await?;
        quiesce().await;
        let mut log = Log::new();
        let mut marks: Vec<BTreeMap<&'static str, u64>> = vec![[("t", 0)].into()];
        mcrt::io::mark(1000);
        for i in 0..depth {
            let op = choose(4, "op");
            log_event(format!("{}", ["publish 0 bytes", "publish 8 bytes", "publish 100 bytes", "wait"][op]));
            if op == 3 { settle().await; mcrt::io::mark(1000 + marks.len() as u64 - 1); }
            else { log.publish(&m, "t", [0, 8, 100][op], &format!("step {}", i)).await?; marks.push([("t", log.last())].into()); mcrt::io::mark(marks.len() as u64 - 1); }
        }
        settle().await;
        mcrt::io::mark(1000 + marks.len() as u64 - 1);
        note_state(&log);
        let logs: BTreeMap<&'static str, Log> = [("t", log)].into();
        Ok((c, logs, marks))
    }, move |e, (c, logs, marks)| crash_points(e, *c, logs, marks, Some(every)))
}
/// Two streams sharing few open files.
fn crash_two(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 6);
    ctx.run2(Plan::default().log(), move || async move {
        let c = C { ram: 0, files: 1 + choose(2, "open files"), ..BASE };
        let m = mk(c).await;
        create(&m, "t").await?;
        create(&m, "u").await?;
        let mut logs: BTreeMap<&'static str, Log> = [("t", Log::new()), ("u", Log::new())].into();
        let mut marks: Vec<BTreeMap<&'static str, u64>> = vec![[("t", 0), ("u", 0)].into()];
        mcrt::io::mark(1000);
        for i in 0..depth {
            let op = choose(3, "op");
            log_event(format!("{}", ["publish to t", "publish to u", "wait"][op]));
            if op == 2 { settle().await; mcrt::io::mark(1000 + marks.len() as u64 - 1); }
            else { let t = ["t", "u"][op]; logs.get_mut(t).unwrap().publish(&m, t, 8, &format!("step {}", i)).await?; let mut k = marks.last().unwrap().clone(); *k.get_mut(t).unwrap() += 1; marks.push(k); mcrt::io::mark(marks.len() as u64 - 1); }
            for (t, l) in &logs { check_log(&m, t, l, &format!("step {}", i)).await?; }
        }
        settle().await;
        mcrt::io::mark(1000 + marks.len() as u64 - 1);
        for (t, l) in &logs { check_log(&m, t, l, "at the end").await?; }
        note_state(&logs);
        Ok((c, logs, marks))
    }, move |e, (c, logs, marks)| crash_points(e, *c, logs, marks, Some(false)))
}
/// A crash while several clients publish.
fn crash_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    let every = ctx.thorough;
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let c = C { ram: 0, ..BASE };
        let m = mk(c).await;
        create(&m, "t").await?;
        let mut log = Log::new();
        log.publish(&m, "t", 8, "setup").await?;
        sleep_ms(59 - ms() % 60).await;
        quiesce().await;
        mcrt::io::mark(1000);
        let h = History::new();
        let mut p = par();
        set_explore(true);
        for k in 0..2u64 {
            let (m, h) = (m.clone(), h.clone());
            p.go(async move {
                sleep_ms(1).await;
                for j in 0..2u64 { let id = 10 + k * 10 + j; let i = h.begin(id); match m.publish("t", Bytes::from(body(id, 8))).await { Ok(s) => h.end(i, s), Err(e) => return viol("publish", e) } sched_point("between operations"); }
                Ok(())
            });
        }
        p.join(60_000, "publishing").await?;
        set_explore(false);
        quiesce().await;
        let r = m.read("t", 2, 100).await;
        let mut by: Vec<_> = h.with(|h| h.ops.iter().map(|o| (o.ret.unwrap(), o.op)).collect());
        by.sort();
        for (i, (_, id)) in by.iter().enumerate() { log.v.push((r.get(i).map(|x| x.timestamp).unwrap_or(0), body(*id, 8))); }
        settle().await;
        mcrt::io::mark(1001);
        note_state(&log);
        let logs: BTreeMap<&'static str, Log> = [("t", log)].into();
        Ok((c, logs, vec![[("t", 1)].into(), [("t", 5)].into()]))
    }, move |e, (c, logs, marks)| crash_points(e, *c, logs, marks, Some(every)))
}


// ---------------------------------------------------------------- groups
/// A consumer group as the statements describe it.  `pend`: number → (holder,
/// deadline, deliveries); `again`: to be delivered again → deliveries so far.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct G { members: BTreeSet<usize>, next: u64, pend: BTreeMap<u64, (usize, u64, u32)>, again: BTreeMap<u64, u32>, floor: u64 }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct St { last: u64, head: u64, cap: usize, maxd: u32, wait: u64, g: BTreeMap<&'static str, G> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Pub,
    Fetch { g: &'static str, c: usize, lim: usize, wait: u64 },
    Ack { g: &'static str, c: usize, seq: u64 },
    Join { g: &'static str, c: usize, client: &'static str },
    Leave { g: &'static str, c: usize },
    /// the client's members in every group, as (group, consumer)
    Gone { client: &'static str, who: Vec<(&'static str, usize)> },
    Begin(&'static str),
    End(&'static str),
    /// a request with a generation that never existed
    Forged { g: &'static str, c: usize, what: u8, seq: u64 },
    /// the sweep finds this message overdue
    Expire { g: &'static str, seq: u64 },
    /// retention moved the start of the log
    Head(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ret { Unit, Refused, Msgs(Vec<u64>), Floor(u64), Num(u64) }

impl G {
    fn advance(&mut self) { while self.floor + 1 < self.next && !self.pend.contains_key(&(self.floor + 1)) && !self.again.contains_key(&(self.floor + 1)) { self.floor += 1; } }
    fn release(&mut self, seq: u64, maxd: u32) { if let Some((_, _, n)) = self.pend.remove(&seq) { if n < maxd { self.again.insert(seq, n); } } self.advance(); }
    fn drop_member(&mut self, c: usize, maxd: u32) -> bool {
        if !self.members.remove(&c) { return false; }
        for s in self.pend.iter().filter(|(_, p)| p.0 == c).map(|(s, _)| *s).collect::<Vec<_>>() { self.release(s, maxd); }
        true
    }
    fn seek(&mut self, next: u64) { *self = G { members: BTreeSet::new(), next, pend: BTreeMap::new(), again: BTreeMap::new(), floor: next - 1 }; }
    fn clamp(&mut self, head: u64) {
        self.floor = self.floor.max(head - 1);
        self.next = self.next.max(head);
        self.pend.retain(|s, _| *s >= head);
        self.again.retain(|s, _| *s >= head);
        self.advance();
    }
    fn available(&self, last: u64) -> bool { !self.again.is_empty() || self.next <= last }
}
impl St {
    fn new(c: C) -> St { St { last: 0, head: 1, cap: c.cap, maxd: c.maxd, wait: c.wait, g: BTreeMap::new() } }
    fn fresh(&self) -> G { G { members: BTreeSet::new(), next: self.head, pend: BTreeMap::new(), again: BTreeMap::new(), floor: self.head - 1 } }
    /// The state after `op` returned `ret` at `now`, if that may happen.  With
    /// `strict` a fetch must not come back empty when something is available.
    fn apply(&self, op: &Op, ret: &Ret, now: u64, strict: bool) -> Option<St> {
        let mut s = self.clone();
        let (cap, maxd, wait, last, head) = (s.cap, s.maxd, s.wait, s.last, s.head);
        match op {
            Op::Pub => { s.last += 1; if *ret != Ret::Num(s.last) { return None; } }
            Op::Fetch { g, c, lim, wait: w } => {
                let Some(g) = s.g.get_mut(g) else { return (*ret == Ret::Refused).then_some(s) };
                if !g.members.contains(c) { return (*ret == Ret::Refused || (!strict && *w > 0 && *ret == Ret::Msgs(vec![]))).then_some(s); }
                let Ret::Msgs(v) = ret else { return None };
                let room = (*lim).min(cap.saturating_sub(g.pend.len()));
                if v.len() > room { return None; }
                if strict && v.is_empty() && room > 0 && g.available(last) { return None; }
                for x in v {
                    let n = match g.again.remove(x) { Some(n) => n, None => { if *x != g.next || *x > last { return None; } g.next += 1; 0 } };
                    g.pend.insert(*x, (*c, now + wait, n + 1));
                }
            }
            Op::Ack { g, c, seq } => {
                let ok = s.g.get(g).map(|g| g.members.contains(c) && g.pend.get(seq).map(|p| p.0 == *c).unwrap_or(false)).unwrap_or(false);
                if ok != (*ret == Ret::Unit) { return None; }
                if ok { let g = s.g.get_mut(g).unwrap(); g.pend.remove(seq); g.advance(); }
            }
            Op::Join { g, c, .. } => {
                let f = s.fresh();
                let g = s.g.entry(g).or_insert(f);
                g.members.insert(*c);
                if *ret != Ret::Floor(g.floor) { return None; }
            }
            Op::Leave { g, c } => {
                let ok = s.g.get_mut(g).map(|g| g.drop_member(*c, maxd)).unwrap_or(false);
                if ok != (*ret == Ret::Unit) { return None; }
            }
            Op::Gone { who, .. } => for (g, c) in who { if let Some(g) = s.g.get_mut(g) { g.drop_member(*c, maxd); } },
            Op::Begin(g) => { let f = s.fresh(); s.g.entry(g).or_insert(f).seek(head); if *ret != Ret::Unit { return None; } }
            Op::End(g) => { let f = s.fresh(); s.g.entry(g).or_insert(f).seek(last + 1); if *ret != Ret::Unit { return None; } }
            Op::Forged { .. } => if *ret != Ret::Refused { return None; },
            Op::Expire { g, seq } => { let g = s.g.get_mut(g)?; if g.pend.get(seq).map(|p| p.1 < now).unwrap_or(false) { g.release(*seq, maxd); } }
            Op::Head(h) => { s.head = *h; for g in s.g.values_mut() { g.clamp(*h); } }
        }
        Some(s)
    }
    fn expire_all(&mut self, now: u64) {
        let maxd = self.maxd;
        for g in self.g.values_mut() { for s in g.pend.iter().filter(|(_, p)| p.1 < now).map(|(s, _)| *s).collect::<Vec<_>>() { g.release(s, maxd); } }
    }
    fn view(&self) -> BTreeMap<String, (u64, usize)> { self.g.iter().map(|(n, g)| (n.to_string(), (g.floor, g.pend.len()))).collect() }
}

#[derive(Clone, Debug)]
struct Con { id: String, gen: u64 }
#[derive(Clone)]
struct Drv { m: StreamManager, t: &'static str, size: usize, cons: Arc<Shared<BTreeMap<usize, Con>>>, sent: Arc<Shared<BTreeMap<u64, Vec<u8>>>>, seen: Arc<Shared<BTreeMap<u64, Bytes>>>, n: Arc<Shared<u64>> }
impl Drv {
    fn new(m: &StreamManager, t: &'static str) -> Drv { Drv { m: m.clone(), t, size: 8, cons: Shared::new(BTreeMap::new()), sent: Shared::new(BTreeMap::new()), seen: Shared::new(BTreeMap::new()), n: Shared::new(0) } }
    fn con(&self, c: usize) -> Con { self.cons.with(|v| v.get(&c).cloned()).unwrap_or(Con { id: "nobody".into(), gen: 1 }) }
    async fn exec(&self, op: &Op) -> R<Ret> {
        let m = &self.m;
        Ok(match op {
            Op::Pub => {
                let k = self.n.with(|n| { *n += 1; *n });
                let b = body(k + 50, self.size);
                match m.publish(self.t, Bytes::from(b.clone())).await { Ok(s) => { self.sent.with(|v| v.insert(s, b)); Ret::Num(s) } Err(e) => return viol("publish", e) }
            }
            Op::Fetch { g, c, lim, wait } => {
                let k = self.con(*c);
                match m.fetch(g, &k.id, k.gen, *lim, self.t, *wait).await {
                    Ok(v) => { for x in &v { let old = self.seen.with(|s| s.insert(x.seq, x.payload.clone())); ensure!(old.map(|o| o == x.payload).unwrap_or(true), "content", "message {} was delivered with different contents", x.seq); } Ret::Msgs(v.iter().map(|x| x.seq).collect()) }
                    Err(_) => Ret::Refused,
                }
            }
            Op::Ack { g, c, seq } => { let k = self.con(*c); if m.ack(g, self.t, &k.id, k.gen, *seq).await.is_ok() { Ret::Unit } else { Ret::Refused } }
            Op::Join { g, c, client } => match m.join_group(g, self.t, client).await {
                Ok(j) => {
                    ensure!(self.cons.with(|v| v.values().all(|x| x.id != j.consumer_id)), "identity", "two members have the id {}", j.consumer_id);
                    self.cons.with(|v| v.insert(*c, Con { id: j.consumer_id, gen: j.generation }));
                    Ret::Floor(j.ack_floor)
                }
                Err(_) => Ret::Refused,
            },
            Op::Leave { g, c } => { let k = self.con(*c); if m.leave_group(g, self.t, &k.id, k.gen).await.is_ok() { Ret::Unit } else { Ret::Refused } }
            Op::Gone { client, .. } => { m.disconnect(client.to_string()).await; Ret::Unit }
            Op::Begin(g) => if m.seek(g, self.t, SeekTarget::Beginning).await.is_ok() { Ret::Unit } else { Ret::Refused },
            Op::End(g) => if m.seek(g, self.t, SeekTarget::End).await.is_ok() { Ret::Unit } else { Ret::Refused },
            Op::Forged { g, c, what, seq } => {
                let k = self.con(*c);
                let bad = k.gen + 7;
                let r = match what { 0 => m.fetch(g, &k.id, bad, 5, self.t, 0).await.map(|_| ()), 1 => m.ack(g, self.t, &k.id, bad, *seq).await, 2 => m.leave_group(g, self.t, &k.id, bad).await, _ => m.fetch(g, "nobody", k.gen, 5, self.t, 0).await.map(|_| ()) };
                if r.is_ok() { Ret::Unit } else { Ret::Refused }
            }
            Op::Expire { .. } | Op::Head(_) => Ret::Unit,
        })
    }
    fn contents(&self) -> R<()> {
        for (s, b) in self.seen.with(|s| s.clone()) { let w = self.sent.with(|v| v.get(&s).cloned()); ensure!(w.as_deref() == Some(&b[..]), "content", "message {} was delivered as {:?}, published as {:?}", s, b, w); }
        Ok(())
    }
    async fn view(&self) -> R<BTreeMap<String, (u64, usize)>> {
        let sn = self.m.get_snapshot().await;
        let Some(x) = sn.topics.iter().find(|x| x.name == self.t) else { return viol("snapshot", format!("stream {:?} is not listed", self.t)) };
        Ok(x.groups.iter().map(|g| (g.id.clone(), (g.ack_floor, g.pending_count))).collect())
    }
}
/// The states the groups may be in, given everything observed so far.
#[derive(Clone)]
struct Tr { d: Drv, s: Vec<St> }
impl Tr {
    fn one(&self) -> &St { &self.s[0] }
    async fn step(&mut self, op: &Op, when: &str) -> R<Ret> {
        let r = self.d.exec(op).await?;
        let n: Vec<St> = self.s.iter().filter_map(|s| s.apply(op, &r, ms(), true)).collect();
        ensure!(!n.is_empty(), "result", "{}: {:?} returned {:?} in state {:?}", when, op, r, self.s);
        self.s = n;
        self.s.sort();
        self.s.dedup();
        Ok(r)
    }
    async fn look(&mut self, when: &str) -> R<()> {
        let v = self.d.view().await?;
        let n: Vec<St> = self.s.iter().filter(|s| s.view() == v).cloned().collect();
        ensure!(!n.is_empty(), "state", "{}: groups are at (acknowledged up to, unacknowledged) {:?}, expected {:?}", when, v, self.s.iter().map(|s| s.view()).collect::<Vec<_>>());
        self.s = n;
        self.d.contents()
    }
    async fn wait(&mut self, t: u64) { sleep_ms(t).await; quiesce().await; for s in &mut self.s { s.expire_all(ms()); } self.s.sort(); self.s.dedup(); }
    /// Everything outstanding reaches a new member and can be acknowledged.
    async fn drain(&mut self, g: &'static str, when: &str) -> R<()> {
        self.wait(LONG).await;
        self.look(&format!("{}, after the ack wait", when)).await?;
        let c = 90;
        self.step(&Op::Join { g, c, client: "last" }, when).await?;
        for _ in 0..20 {
            let Ret::Msgs(v) = self.step(&Op::Fetch { g, c, lim: 2, wait: 0 }, when).await? else { return viol("refused", format!("{}: a new member was refused", when)) };
            if v.is_empty() { break; }
            for seq in v { self.step(&Op::Ack { g, c, seq }, when).await?; }
        }
        self.look(&format!("{}, after acknowledging everything", when)).await?;
        let s = self.one();
        ensure!(s.g[g].floor == s.last, "unfinished", "{}: everything is acknowledged or parked up to {}, the log ends at {}", when, s.g[g].floor, s.last);
        self.step(&Op::Pub, when).await?;
        let want = self.one().last;
        let r = self.step(&Op::Fetch { g, c, lim: 2, wait: 0 }, when).await?;
        ensure!(r == Ret::Msgs(vec![want]), "next", "{}: a new message {} was delivered as {:?}", when, want, r);
        Ok(())
    }
}
const LONG: u64 = 300;
const SHORT: u64 = 30;

async fn groups(c: C, disk: bool, msgs: u64, members: &[(&'static str, usize, &'static str)]) -> R<Tr> {
    let m = if disk { mk(c).await } else { mk_mem(c).await };
    create(&m, "t").await?;
    let mut t = Tr { d: Drv::new(&m, "t"), s: vec![St::new(c)] };
    for _ in 0..msgs { t.step(&Op::Pub, "setup").await?; }
    if disk { settle().await; }
    for (g, c, client) in members { t.step(&Op::Join { g, c: *c, client }, "setup").await?; }
    Ok(t)
}

/// What can be done to group `g` in state `s`; consumers are numbered as they join.
fn group_ops(s: &St, g: &'static str, n: usize, few: bool) -> Vec<Op> {
    let mut v = vec![];
    let Some(x) = s.g.get(g) else { return vec![Op::Join { g, c: n, client: "x" }] };
    for (i, c) in x.members.iter().enumerate() {
        v.push(Op::Fetch { g, c: *c, lim: if few { 2 } else { 1 }, wait: 0 });
        if i == 0 && !few { v.push(Op::Fetch { g, c: *c, lim: 9, wait: 0 }); }
    }
    if let Some((q, p)) = x.pend.iter().next() { v.push(Op::Ack { g, c: p.0, seq: *q }); if let Some(o) = x.members.iter().find(|o| **o != p.0) { v.push(Op::Ack { g, c: *o, seq: *q }); } }
    if x.pend.len() > 1 { let (q, p) = x.pend.iter().last().unwrap(); v.push(Op::Ack { g, c: p.0, seq: *q }); }
    if let (Some(q), Some(c)) = (x.again.keys().next(), x.members.iter().next()) { v.push(Op::Ack { g, c: *c, seq: *q }); }
    if x.members.len() < 2 { v.push(Op::Join { g, c: n, client: ["x", "y"][n % 2] }); }
    for c in &x.members { v.push(Op::Leave { g, c: *c }); }
    v
}
fn group_histories(ctx: &Ctx, disk: bool) -> Report {
    let depth = if disk { ctx.pick(5, 6) } else { ctx.pick(5, 6) };
    let mut plan = Plan::default();
    if disk { plan = plan.disk(); }
    ctx.run_checked(plan, move || async move {
        let two = choose(2, "members") == 1;
        let c = C { cap: 2 + choose(2, "cap"), maxd: 2, ram: if disk { choose(2, "ram") } else { 1 }, ..BASE };
        let mut t = groups(c, disk, if disk { 4 } else { 3 }, if two { &[("g", 0, "x"), ("g", 1, "y")] } else { &[("g", 0, "x")] }).await?;
        let mut n = 2;
        let mut shorts = 0;
        for i in 0..depth {
            let s = t.one().clone();
            let mut ops: Vec<Option<Op>> = group_ops(&s, "g", n, disk).into_iter().map(Some).collect();
            if s.last < if disk { 5 } else { 4 } { ops.push(Some(Op::Pub)); }
            if s.g["g"].pend.len() > 0 { ops.push(None); if shorts < 3 && !disk { ops.push(None); } }
            let k = choose(ops.len(), "op");
            let when = format!("step {}", i);
            match &ops[k] {
                Some(op) => { log_event(format!("{:?}", op)); if let Op::Join { .. } = op { n += 1; } t.step(op, &when).await?; }
                None if k + 1 == ops.len() && ops.len() > 1 && ops[k - 1].is_none() => { log_event("short wait".into()); shorts += 1; t.wait(SHORT).await; }
                None => { log_event("long wait".into()); t.wait(LONG).await; }
            }
            t.look(&when).await?;
            note_state(t.one());
        }
        t.drain("g", "at the end").await
    })
}
/// Two groups on one stream do not see each other.
fn two_groups(ctx: &Ctx) -> Report {
    let depth = ctx.pick(5, 6);
    ctx.run_checked(Plan::default(), move || async move {
        let c = C { cap: 2, maxd: 2, ..BASE };
        let mut t = groups(c, false, 3, &[("g", 0, "x"), ("h", 1, "x")]).await?;
        let mut n = 2;
        for i in 0..depth {
            let s = t.one().clone();
            let mut ops: Vec<Option<Op>> = vec![None, Some(Op::Begin("g"))];
            for g in ["g", "h"] {
                let x = &s.g[g];
                if let Some(c) = x.members.iter().next() { ops.push(Some(Op::Fetch { g, c: *c, lim: 2, wait: 0 })); } else { ops.push(Some(Op::Join { g, c: n, client: "x" })); }
                if let Some((q, p)) = x.pend.iter().next() { ops.push(Some(Op::Ack { g, c: p.0, seq: *q })); let o = if g == "g" { "h" } else { "g" }; ops.push(Some(Op::Ack { g: o, c: p.0, seq: *q })); }
            }
            if let Some(c) = s.g["h"].members.iter().next() { ops.push(Some(Op::Leave { g: "h", c: *c })); ops.push(Some(Op::Leave { g: "g", c: *c })); }
            if s.last < 4 { ops.push(Some(Op::Pub)); }
            let when = format!("step {}", i);
            match &ops[choose(ops.len(), "op")] {
                Some(op) => { log_event(format!("{:?}", op)); if let Op::Join { .. } = op { n += 1; } t.step(op, &when).await?; }
                None => { log_event("long wait".into()); t.wait(LONG).await; }
            }
            t.look(&when).await?;
            note_state(t.one());
        }
        t.drain("g", "at the end").await?;
        t.s[0].last = t.one().last;
        Ok(())
    })
}

/// What a task of a concurrent scenario does; `Mine`: the oldest message it got.
#[derive(Clone, Debug)]
enum Act { Op(Op), AckMine(&'static str, usize) }
type Hist = Arc<Shared<History<Op, Ret>>>;
async fn run_task(d: Drv, h: Hist, acts: Vec<Act>) -> R<()> {
    let mut mine: Vec<u64> = vec![];
    for a in acts {
        let op = match a { Act::Op(o) => o, Act::AckMine(g, c) => { if mine.is_empty() { continue; } Op::Ack { g, c, seq: mine.remove(0) } } };
        let i = h.begin(op.clone());
        let r = d.exec(&op).await?;
        if let Ret::Msgs(v) = &r { mine.extend(v); }
        h.end(i, r);
        sched_point("between operations");
    }
    Ok(())
}
/// Every state some order of the operations, consistent with real time, leads to.
fn finals(s0: &[St], h: &Hist, now: u64) -> Vec<St> {
    let ops: Vec<HOp<(Op, Ret), ()>> = h.with(|h| h.ops.iter().map(|o| HOp { op: (o.op.clone(), o.ret.clone().unwrap_or(Ret::Unit)), ret: o.ret.as_ref().map(|_| ()), start: o.start, end: o.end }).collect());
    let out = std::cell::RefCell::new(BTreeSet::new());
    for s in s0 { linearizable(&ops, s, &|s: &St, o: &(Op, Ret)| s.apply(&o.0, &o.1, now, false).map(|s| ((), s)).into_iter().collect(), &|s| { out.borrow_mut().insert(s.clone()); false }); }
    out.into_inner().into_iter().collect()
}
async fn explained(t: &mut Tr, h: &Hist, what: &str) -> R<()> {
    let s = finals(&t.s, h, ms());
    ensure!(!s.is_empty(), "not-atomic", "{}: no order of {:?} explains the results, starting from {:?}", what, h.with(|h| h.ops.iter().map(|o| (o.op.clone(), o.ret.clone())).collect::<Vec<_>>()), t.s);
    let before = std::mem::replace(&mut t.s, s);
    if let Err(v) = t.look(what).await { return viol(v.sig, format!("{} after {:?} from {:?}", v.msg, h.with(|h| h.ops.iter().map(|o| (o.op.clone(), o.ret.clone())).collect::<Vec<_>>()), before)); }
    Ok(())
}
fn f(g: &'static str, c: usize, lim: usize) -> Act { Act::Op(Op::Fetch { g, c, lim, wait: 0 }) }

/// Members fetching and acknowledging, a publisher, members leaving, the sweep.
fn group_race(ctx: &Ctx, disk: bool) -> Report {
    let b = if disk { ctx.pick(2, 3) } else { ctx.pick(2, 3) };
    let mut plan = Plan::default().budget(b).no_time();
    if disk { plan = plan.disk(); }
    ctx.run_checked(plan, move || async move {
        let c = C { cap: 3, maxd: [2, 1][choose(2, "deliveries")], ram: 0, ..BASE };
        let mut t = groups(c, disk, 3, &[("g", 0, "x"), ("g", 1, "y")]).await?;
        let tick = choose(2, "sweep") == 1;
        if tick {
            // delivered now, overdue at the sweep 200 ms later
            let x = (SWEEP - ms() % SWEEP) % SWEEP;
            t.wait(x + 1).await;
            t.step(&Op::Fetch { g: "g", c: 0, lim: 2, wait: 0 }, "setup").await?;
            sleep_ms(SWEEP * 2 - 2).await;
            quiesce().await;
        }
        let which = choose(4, "ops");
        let sets: [Vec<Vec<Act>>; 4] = [
            vec![vec![f("g", 0, 2), Act::AckMine("g", 0), f("g", 0, 1)], vec![f("g", 1, 1), Act::AckMine("g", 1), f("g", 1, 2)], vec![Act::Op(Op::Pub)]],
            vec![vec![f("g", 0, 1), f("g", 0, 1), Act::AckMine("g", 0)], vec![Act::Op(Op::Leave { g: "g", c: 1 })], vec![f("g", 1, 2), Act::AckMine("g", 1)]],
            vec![vec![f("g", 1, 9), Act::AckMine("g", 1), Act::AckMine("g", 1)], vec![Act::Op(Op::Gone { client: "x", who: vec![("g", 0)] })], vec![f("g", 0, 1), Act::AckMine("g", 0)]],
            vec![vec![Act::Op(Op::Join { g: "g", c: 2, client: "z" }), f("g", 2, 2), Act::AckMine("g", 2)], vec![Act::Op(Op::Ack { g: "g", c: 0, seq: 1 }), f("g", 0, 1)], vec![Act::Op(Op::Pub), Act::Op(Op::Leave { g: "g", c: 0 })]],
        ];
        let h: Hist = History::new();
        if tick { for s in t.one().g["g"].pend.keys() { h.begin(Op::Expire { g: "g", seq: *s }); } }
        let mut p = par();
        set_explore(true);
        for a in sets[which].clone() { let (d, h) = (t.d.clone(), h.clone()); p.go(async move { if tick { sleep_ms(1).await; } run_task(d, h, a).await }); }
        p.join(60_000, "group operations").await?;
        quiesce().await;
        set_explore(false);
        explained(&mut t, &h, "concurrent use").await?;
        note_state(&(&t.s, tick));
        t.drain("g", "after concurrent use").await
    })
}


// ---------------------------------------------------------------- T04
/// One group's durable position over time: (acknowledged up to, end of log).
fn resume_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(5, 6);
    let thorough = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        // nothing overdue; overdue ones are parked; a second member holds the first message; overdue ones are delivered again
        let kind = choose(4, "kind");
        let c = C { cap: 9, maxd: if kind == 1 { 1 } else { 5 }, wait: if kind & 1 == 1 { 150 } else { 600_000 }, ram: 0, ..BASE };
        let mut t = groups(c, true, 3, &[("g", 0, "x"), ("h", 1, "x")]).await?;
        t.step(&Op::Fetch { g: "h", c: 1, lim: 1, wait: 0 }, "setup").await?;
        t.step(&Op::Ack { g: "h", c: 1, seq: 1 }, "setup").await?;
        let mut n = 2;
        if kind >= 2 {
            t.step(&Op::Join { g: "g", c: n, client: "y" }, "setup").await?;
            if kind == 2 { t.step(&Op::Fetch { g: "g", c: n, lim: 1, wait: 0 }, "setup").await?; }
            n += 1;
        }
        t.wait(2 * SAVE).await;
        let mut states = vec![t.one().clone()];
        mcrt::io::mark(1000);
        for i in 0..depth {
            let s = t.one().clone();
            let x = &s.g["g"];
            let mut ops: Vec<Option<Op>> = vec![None];
            match x.members.iter().next() { Some(c) => ops.push(Some(Op::Fetch { g: "g", c: *c, lim: 2, wait: 0 })), None => ops.push(Some(Op::Join { g: "g", c: n, client: "x" })) }
            if let Some((q, p)) = x.pend.iter().next() { ops.push(Some(Op::Ack { g: "g", c: p.0, seq: *q })); }
            if x.pend.len() > 1 { let (q, p) = x.pend.iter().last().unwrap(); ops.push(Some(Op::Ack { g: "g", c: p.0, seq: *q })); }
            if s.last < 5 { ops.push(Some(Op::Pub)); }
            if kind >= 2 {
                if let Some(c) = x.members.iter().last() { ops.push(Some(Op::Leave { g: "g", c: *c })); if x.members.len() > 1 { ops.push(Some(Op::Fetch { g: "g", c: *c, lim: 1, wait: 0 })); } }
                if kind == 3 && !x.pend.is_empty() { ops.push(Some(Op::Expire { g: "", seq: 0 })); }
            } else {
                ops.push(Some(Op::Begin("g")));
                ops.push(Some(Op::End("g")));
            }
            let when = format!("step {}", i);
            match &ops[choose(ops.len(), "op")] {
                Some(Op::Expire { .. }) => {
                    log_event("a while".into());
                    t.wait(2 * SWEEP - ms() % SWEEP + 1).await;
                    if t.one() != states.last().unwrap() { states.push(t.one().clone()); mcrt::io::mark(states.len() as u64 - 1); }
                }
                Some(op) => {
                    log_event(format!("{:?}", op));
                    if let Op::Join { .. } = op { n += 1; }
                    t.step(op, &when).await?;
                    // a fetch is followed by nothing durable; acknowledge at once to reach deeper
                    if t.one() != states.last().unwrap() { states.push(t.one().clone()); mcrt::io::mark(states.len() as u64 - 1); }
                }
                None => {
                    log_event("wait".into());
                    t.wait(2 * SAVE + LONG).await;
                    if t.one() != states.last().unwrap() { states.push(t.one().clone()); mcrt::io::mark(states.len() as u64 - 1); }
                    sleep_ms(SAVE + FLUSH).await;
                    quiesce().await;
                    mcrt::io::mark(1000 + states.len() as u64 - 1);
                }
            }
        }
        t.wait(2 * SAVE + LONG).await;
        states.push(t.one().clone());
        sleep_ms(SAVE + FLUSH).await;
        quiesce().await;
        mcrt::io::mark(1000 + states.len() as u64 - 1);
        note_state(&states);
        let sent = t.d.sent.with(|s| s.clone());
        Ok((c, states, sent))
    }, move |e, (c, states, sent)| {
        let log = &e.out.io.log;
        let (mut done, mut durable) = (0usize, 0usize);
        let mut on = false;
        for p in 1..=log.len() {
            match &log[p - 1] {
                IoOp::Mark(k) if *k >= 1000 => { durable = (*k - 1000) as usize; done = durable; on = true; }
                IoOp::Mark(k) => { done = *k as usize; continue; }
                _ => {}
            }
            if !on { continue; }
            let hi = (done + 1).min(states.len() - 1);
            let ok = states[durable..=hi].to_vec();
            let mut torn = vec![None];
            if let IoOp::Write { data, .. } = &log[p - 1] { if thorough { torn.extend(cuts(data.len(), false).into_iter().map(Some)); } else { torn.push(Some(data.len() / 2)); torn.push(Some(data.len() - 1)); } }
            for t in torn {
                let v = resume(e, p, t, *c, ok.clone(), sent.clone(), format!("crash after storage operation {} of {}{}", p, log.len(), t.map(|t| format!(", the last write cut after {} bytes", t)).unwrap_or_default()));
                if !v.is_empty() { return v; }
            }
        }
        vec![]
    })
}
fn resume<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, c: C, ok: Vec<St>, sent: BTreeMap<u64, Vec<u8>>, when: String) -> Vec<Violation> {
    restart(e, upto, torn, 0, move || Box::pin(async move {
        let m = mk(c).await;
        let d = Drv::new(&m, "t");
        d.sent.with(|s| *s = sent);
        let sn = m.get_snapshot().await;
        let Some(x) = sn.topics.iter().find(|x| x.name == "t") else { return viol("gone", format!("{}: the stream is gone", when)) };
        let n = x.last_seq;
        ensure!(n >= ok[0].last && n <= ok.last().unwrap().last, "log", "{}: the log ends at {}, expected {} to {}", when, n, ok[0].last, ok.last().unwrap().last);
        let v = d.view().await?;
        let mut s = St::new(c);
        s.last = n;
        for g in ok[0].g.keys() {
            let Some((floor, pending)) = v.get(*g) else { return viol("group-gone", format!("{}: group {:?} is gone", when, g)) };
            let may: BTreeSet<u64> = ok.iter().map(|s| s.g[g].floor.min(n)).collect();
            ensure!(may.contains(floor) && *pending == 0, "position", "{}: group {:?} resumes after {} ({} unacknowledged), allowed: {:?}; the log ends at {}", when, g, floor, pending, may, n);
            let mut x = s.fresh();
            x.seek(*floor + 1);
            s.g.insert(g, x);
        }
        let mut t = Tr { d, s: vec![s] };
        // exactly the rest is delivered, in order, and then new messages
        for (i, g) in ok[0].g.keys().enumerate() {
            t.step(&Op::Join { g, c: i, client: "x" }, &when).await?;
            let mut v = vec![];
            let lo = t.one().g[g].floor + 1;
            loop { match t.step(&Op::Fetch { g, c: i, lim: 9, wait: 0 }, &when).await? { Ret::Msgs(w) if !w.is_empty() => v.extend(w), Ret::Msgs(_) => break, _ => return viol("refused", when) } }
            ensure!(v == (lo..=t.one().last).collect::<Vec<_>>(), "resume", "{}: group {:?} at {} of {} was delivered {:?}", when, g, lo - 1, t.one().last, v);
            t.step(&Op::Pub, &when).await?;
            let last = t.one().last;
            let r = t.step(&Op::Fetch { g, c: i, lim: 9, wait: 0 }, &when).await?;
            ensure!(r == Ret::Msgs(vec![last]), "resume-new", "{}: group {:?} then was delivered {:?}", when, g, r);
        }
        t.look(&when).await
    })).0
}
/// Group names of every kind: each keeps its own position over a restart.
fn group_names(ctx: &Ctx) -> Report {
    ctx.run2(Plan::default().log(), move || async move {
        let c = C { cap: 9, ram: 1, ..BASE };
        let m = mk(c).await;
        create(&m, "t").await?;
        let mut log = Log::new();
        for _ in 0..3 { log.publish(&m, "t", 8, "setup").await?; }
        let names = group_name_list();
        let pick = choose(names.len(), "name");
        let mut want: BTreeMap<String, u64> = BTreeMap::new();
        for (i, g) in ["plain".to_string(), names[pick].clone(), "zz".to_string()].into_iter().enumerate() {
            // refused or fully working
            let Ok(j) = m.join_group(&g, "t", "x").await else { continue };
            for k in 0..=i.min(2) as u64 {
                let v = m.fetch(&g, &j.consumer_id, j.generation, 1, "t", 0).await;
                ensure!(v.as_ref().map(|v| v.len() == 1 && v[0].seq == k + 1).unwrap_or(false), "fetch", "group {:?} (length {}): {:?}", g.get(..20), g.len(), v);
                let r = m.ack(&g, "t", &j.consumer_id, j.generation, k + 1).await;
                ensure!(r.is_ok(), "ack", "group {:?}: {:?}", g.get(..20), r);
                want.insert(g.clone(), k + 1);
            }
        }
        sleep_ms(2 * SAVE + 50).await;
        quiesce().await;
        note_state(&want);
        Ok((c, want))
    }, |e, (c, want)| {
        let (c, want) = (*c, want.clone());
        restart(e, e.out.io.log.len(), None, 0, move || Box::pin(async move {
            let m = mk(c).await;
            let v: BTreeMap<String, u64> = Drv::new(&m, "t").view().await?.into_iter().map(|(k, v)| (k, v.0)).collect();
            ensure!(v == want, "position", "groups (name start, length, position) {:?} came back as {:?}", want.iter().map(|(k, v)| (k.chars().take(10).collect::<String>(), k.len(), *v)).collect::<Vec<_>>(), v.iter().map(|(k, v)| (k.chars().take(10).collect::<String>(), k.len(), *v)).collect::<Vec<_>>());
            Ok(())
        })).0
    })
}
fn group_name_list() -> Vec<String> {
    vec!["".into(), "a/b".into(), "../x".into(), "grüße \u{1F600}".into(), "nul\0nul".into(), "x".repeat(65535), "x".repeat(65536), "x".repeat(65537), "x".repeat(70_000), "ü".repeat(40_000)]
}

// ---------------------------------------------------------------- T05
fn fence_histories(ctx: &Ctx, disk: bool) -> Report {
    let depth = if disk { ctx.pick(4, 5) } else { ctx.pick(5, 6) };
    let mut plan = Plan::default();
    if disk { plan = plan.disk(); }
    ctx.run_checked(plan, move || async move {
        let c = C { cap: 2, maxd: 3, ram: 0, ..BASE };
        let mut t = groups(c, disk, 3, &[("g", 0, "x"), ("g", 1, "y")]).await?;
        let mut n = 2;
        let mut clients: Vec<(&'static str, usize)> = vec![("x", 0), ("y", 1)];
        for i in 0..depth {
            let s = t.one().clone();
            let x = &s.g["g"];
            let mut ops: Vec<Option<Op>> = vec![Some(Op::Begin("g")), Some(Op::End("g"))];
            if !x.pend.is_empty() { ops.push(None); }
            if let Some(c) = x.members.iter().next() { ops.push(Some(Op::Fetch { g: "g", c: *c, lim: 2, wait: 0 })); }
            if let Some(c) = x.members.iter().nth(1) { ops.push(Some(Op::Fetch { g: "g", c: *c, lim: 1, wait: 0 })); }
            if let Some((q, p)) = x.pend.iter().next() { ops.push(Some(Op::Ack { g: "g", c: p.0, seq: *q })); ops.push(Some(Op::Forged { g: "g", c: p.0, what: 1, seq: *q })); }
            if let Some(c) = x.members.iter().last() { ops.push(Some(Op::Leave { g: "g", c: *c })); if i == 2 { for what in [0, 2, 3] { ops.push(Some(Op::Forged { g: "g", c: *c, what, seq: 1 })); } } }
            if x.members.len() < 2 { ops.push(Some(Op::Join { g: "g", c: n, client: ["x", "y"][n % 2] })); }
            if let Some(old) = (0..n).rev().find(|c| !x.members.contains(c)) {
                ops.push(Some(Op::Fetch { g: "g", c: old, lim: 9, wait: 0 }));
                ops.push(Some(Op::Fetch { g: "g", c: old, lim: 9, wait: 50 }));
                ops.push(Some(Op::Ack { g: "g", c: old, seq: x.pend.keys().next().copied().unwrap_or(1) }));
                ops.push(Some(Op::Leave { g: "g", c: old }));
            }
            ops.push(Some(Op::Gone { client: "x", who: clients.iter().filter(|x| x.0 == "x").map(|x| ("g", x.1)).collect() }));
            if s.last < 4 { ops.push(Some(Op::Pub)); }
            let when = format!("step {}", i);
            match &ops[choose(ops.len(), "op")] {
                Some(op) => { log_event(format!("{:?}", op)); if let Op::Join { client, c, .. } = op { n += 1; clients.push((client, *c)); } t.step(op, &when).await?; }
                None => { log_event("long wait".into()); t.wait(LONG).await; }
            }
            t.look(&when).await?;
            note_state(t.one());
        }
        t.drain("g", "at the end").await
    })
}
fn fence_race(ctx: &Ctx, disk: bool) -> Report {
    let b = ctx.pick(2, 3);
    let mut plan = Plan::default().budget(b).no_time();
    if disk { plan = plan.disk(); }
    ctx.run_checked(plan, move || async move {
        let c = C { cap: 3, maxd: 3, ram: 0, ..BASE };
        let mut t = groups(c, disk, 3, &[("g", 0, "x"), ("g", 1, "y")]).await?;
        let which = choose(5, "ops");
        let tick = which == 1 || which == 2 && choose(2, "sweep") == 1;
        if tick {
            let x = (SWEEP - ms() % SWEEP) % SWEEP;
            t.wait(x + 1).await;
            t.step(&Op::Fetch { g: "g", c: 0, lim: 2, wait: 0 }, "setup").await?;
            sleep_ms(SWEEP * 2 - 2).await;
            quiesce().await;
        }
        let o = |o: Op| Act::Op(o);
        let sets: [Vec<Vec<Act>>; 5] = [
            vec![vec![o(Op::Begin("g"))], vec![f("g", 0, 2), Act::AckMine("g", 0), f("g", 0, 1)], vec![o(Op::Join { g: "g", c: 2, client: "z" }), f("g", 2, 1), Act::AckMine("g", 2)]],
            vec![vec![o(Op::Begin("g"))], vec![o(Op::Ack { g: "g", c: 0, seq: 1 }), f("g", 0, 1)], vec![o(Op::Join { g: "g", c: 2, client: "z" }), f("g", 2, 2)]],
            vec![vec![o(Op::End("g")), o(Op::Join { g: "g", c: 2, client: "z" }), f("g", 2, 2)], vec![f("g", 1, 1), Act::AckMine("g", 1)], vec![o(Op::Pub)]],
            vec![vec![o(Op::Begin("g")), o(Op::Join { g: "g", c: 2, client: "z" }), f("g", 2, 1)], vec![o(Op::End("g"))], vec![f("g", 1, 2), o(Op::Leave { g: "g", c: 1 })]],
            vec![vec![o(Op::Gone { client: "x", who: vec![("g", 0), ("g", 2)] })], vec![o(Op::Join { g: "g", c: 2, client: "x" }), f("g", 2, 1), Act::AckMine("g", 2)], vec![f("g", 0, 1), f("g", 1, 2), Act::AckMine("g", 1)]],
        ];
        let h: Hist = History::new();
        if tick { for s in t.one().g["g"].pend.keys() { h.begin(Op::Expire { g: "g", seq: *s }); } }
        let mut p = par();
        set_explore(true);
        for a in sets[which].clone() { let (d, h) = (t.d.clone(), h.clone()); p.go(async move { if tick { sleep_ms(1).await; } run_task(d, h, a).await }); }
        p.join(60_000, "group operations").await?;
        quiesce().await;
        set_explore(false);
        explained(&mut t, &h, "concurrent use").await?;
        note_state(&(&t.s, tick));
        t.drain("g", "after concurrent use").await
    })
}

/// A client that joined many times, groups of two streams mixed: when it is
/// gone all its members are, and nobody else's.
fn many_bindings(ctx: &Ctx) -> Report {
    let n = ctx.pick(4, 6);
    ctx.run_checked(Plan::default(), move || async move {
        let c = C { cap: 99, maxd: 5, wait: 600_000, ..BASE };
        let m = mk_mem(c).await;
        let mut ts: Vec<Tr> = vec![];
        for t in ["t", "u"] { create(&m, t).await?; ts.push(Tr { d: Drv::new(&m, t), s: vec![St::new(c)] }); }
        for k in 0..2 {
            for _ in 0..n + 1 { ts[k].step(&Op::Pub, "setup").await?; }
            ts[k].step(&Op::Join { g: "g", c: 50, client: "y" }, "setup").await?;
            ts[k].step(&Op::Join { g: "h", c: 51, client: "y" }, "setup").await?;
        }
        let mut who: Vec<Vec<(&'static str, usize)>> = vec![vec![]; 2];
        for i in 0..n {
            let (k, g) = [(0, "g"), (0, "h"), (1, "g"), (1, "h")][choose(4, "joins")];
            ts[k].step(&Op::Join { g, c: i, client: "x" }, "join").await?;
            ts[k].step(&Op::Fetch { g, c: i, lim: 1, wait: 0 }, "fetch").await?;
            who[k].push((g, i));
        }
        for k in 0..2 { for (g, c) in [("g", 50), ("h", 51)] { ts[k].step(&Op::Fetch { g, c, lim: 1, wait: 0 }, "fetch").await?; } }
        // it may have left one group before
        if choose(2, "leave") == 1 { let k = if who[0].is_empty() { 1 } else { 0 }; let (g, c) = who[k][0]; ts[k].step(&Op::Leave { g, c }, "leave").await?; }
        let gone = Op::Gone { client: "x", who: who[0].clone() };
        ts[0].step(&gone, "disconnect").await?;
        ts[1].s[0] = ts[1].s[0].apply(&Op::Gone { client: "x", who: who[1].clone() }, &Ret::Unit, ms(), false).into_iter().next().expect("gone");
        for k in 0..2 {
            let when = format!("stream {} after the client is gone", k);
            ts[k].look(&when).await?;
            for (g, c) in who[k].clone() { ts[k].step(&Op::Fetch { g, c, lim: 1, wait: 0 }, &when).await?; }
            for (g, c) in [("g", 50), ("h", 51)] { let r = ts[k].step(&Op::Fetch { g, c, lim: 9, wait: 0 }, &when).await?; ensure!(matches!(r, Ret::Msgs(_)), "refused", "{}: {:?}", when, r); }
            ts[k].look(&when).await?;
        }
        note_state(&(&ts[0].s, &ts[1].s));
        Ok(())
    })
}

// ---------------------------------------------------------------- T07
/// How a message becomes available while consumers wait.
const HOWS: usize = 6;
async fn waiting_setup(c: C, how: usize, consumers: usize) -> R<Tr> {
    let mut t = groups(c, false, 0, &[]).await?;
    for k in 0..consumers { t.step(&Op::Join { g: "g", c: k, client: "w" }, "setup").await?; }
    t.step(&Op::Join { g: "g", c: 10, client: "holder" }, "setup").await?;
    if how >= 2 {
        t.step(&Op::Pub, "setup").await?;
        let r = t.step(&Op::Fetch { g: "g", c: 10, lim: 1, wait: 0 }, "setup").await?;
        ensure!(r == Ret::Msgs(vec![1]), "setup", "{:?}", r);
    }
    Ok(t)
}
async fn make_available(d: &Drv, how: usize) -> R<()> {
    match how {
        0 => { d.exec(&Op::Pub).await?; }
        1 => { d.exec(&Op::Pub).await?; sched_point("op"); d.exec(&Op::Pub).await?; }
        2 => {} // the holder's time runs out
        3 => { d.exec(&Op::Leave { g: "g", c: 10 }).await?; }
        4 => { d.exec(&Op::Gone { client: "holder", who: vec![] }).await?; }
        _ => { d.exec(&Op::Begin("g")).await?; }
    }
    Ok(())
}
/// A consumer as the clients are: fetches again when it comes back empty early.
async fn consume(d: Drv, c: usize, lim: usize, wait: u64, got: Arc<Shared<Vec<(usize, Ret, u64)>>>) -> R<()> {
    let t0 = ms();
    for _ in 0..4 {
        let left = (t0 + wait).saturating_sub(ms());
        let r = d.exec(&Op::Fetch { g: "g", c, lim, wait: left }).await?;
        let stop = r != Ret::Msgs(vec![]) || ms() >= t0 + wait;
        got.with(|g| g.push((c, r.clone(), ms() - t0)));
        if stop { break; }
    }
    Ok(())
}
fn prompt(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let how = choose(HOWS, "how");
        let consumers = 1 + choose(2, "consumers");
        let lim = 1 + choose(2, "limit");
        let t = waiting_setup(C { cap: 4, maxd: 5, wait: if how == 2 { BASE.wait } else { 600_000 }, ..BASE }, how, consumers).await?;
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        for c in 0..consumers { p.go(consume(t.d.clone(), c, lim, 5000, got.clone())); }
        let d2 = t.d.clone();
        p.go(async move { make_available(&d2, how).await });
        sleep_ms(BASE.wait + SWEEP + 10).await;
        quiesce().await;
        let g = got.with(|g| g.clone());
        let served: Vec<u64> = g.iter().flat_map(|x| match &x.1 { Ret::Msgs(v) => v.clone(), _ => vec![] }).collect();
        let want: Vec<u64> = if how == 1 { vec![1, 2] } else { vec![1] };
        let mut u = served.clone();
        u.sort();
        if how < 5 {
            ensure!(u.windows(2).all(|w| w[0] != w[1]), "duplicate", "a message was handed out twice: {:?}", g);
            let room = consumers * lim;
            ensure!(u.len() >= want.len().min(room) || (how == 1 && !u.is_empty() && g.iter().filter(|x| x.1 != Ret::Msgs(vec![])).count() == consumers), "not-woken", "messages {:?} became available, {} waiting consumer(s) with limit {} got {:?}", want, consumers, lim, g);
            ensure!(u.iter().all(|x| want.contains(x)), "wrong", "delivered {:?}", g);
            // nothing but a change in the group's membership sends a consumer away early
            ensure!(how >= 3 || g.iter().all(|x| x.1 != Ret::Msgs(vec![]) || x.2 >= 5000), "early", "a consumer returned empty before its wait time: {:?}", g);
        } else {
            // they belong to the old epoch: told so or sent away; a new member gets the message
            ensure!(g.len() >= consumers, "not-released", "consumers waiting during a seek: {:?}", g);
            t.d.exec(&Op::Join { g: "g", c: 20, client: "n" }).await?;
            let r = t.d.exec(&Op::Fetch { g: "g", c: 20, lim, wait: 0 }).await?;
            ensure!(r == Ret::Msgs(vec![1]) , "seek", "after a seek to the beginning a new member got {:?}; {:?}", r, g);
        }
        set_explore(false);
        p.join(6000, "a waiting consumer").await?;
        let g = got.with(|g| g.clone());
        ensure!(g.iter().all(|x| x.2 <= 5000 + 20), "late", "a consumer returned later than its wait time: {:?}", g);
        t.d.contents()?;
        note_state(&(how, consumers, lim, g));
        Ok(())
    })
}
/// The group is at its limit of unacknowledged messages while consumers wait: only room lets them go on.
fn room(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        // acknowledged, its holder leaves, overdue, nothing happens, given up
        let how = choose(5, "how");
        let consumers = 1 + choose(2, "consumers");
        let cap = 1 + choose(2, "cap");
        let c = C { cap, maxd: if how == 4 { 1 } else { 5 }, wait: if how == 2 || how == 4 { BASE.wait } else { 600_000 }, ..BASE };
        let mut t = groups(c, false, 0, &[]).await?;
        for k in 0..consumers { t.step(&Op::Join { g: "g", c: k, client: "w" }, "setup").await?; }
        t.step(&Op::Join { g: "g", c: 10, client: "holder" }, "setup").await?;
        for _ in 0..cap + 2 { t.step(&Op::Pub, "setup").await?; }
        let held: Vec<u64> = (1..=cap as u64).collect();
        let r = t.step(&Op::Fetch { g: "g", c: 10, lim: 5, wait: 0 }, "setup").await?;
        ensure!(r == Ret::Msgs(held.clone()), "setup", "{:?}", r);
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        for c in 0..consumers { p.go(consume(t.d.clone(), c, 1, 5000, got.clone())); }
        let d2 = t.d.clone();
        p.go(async move {
            match how {
                0 => { d2.exec(&Op::Ack { g: "g", c: 10, seq: 1 }).await?; }
                1 => { d2.exec(&Op::Leave { g: "g", c: 10 }).await?; }
                _ => {}
            }
            Ok(())
        });
        sleep_ms(BASE.wait + SWEEP + 10).await;
        quiesce().await;
        let g = got.with(|g| g.clone());
        let mut u: Vec<u64> = g.iter().flat_map(|x| match &x.1 { Ret::Msgs(v) => v.clone(), _ => vec![] }).collect();
        u.sort();
        let n = match how { 0 => 1, 1 | 2 | 4 => consumers.min(cap), _ => 0 };
        let want: Vec<u64> = match how { 0 => vec![cap as u64 + 1], 4 => (cap as u64 + 1..).take(n).collect(), _ => held.into_iter().take(n).collect() };
        if how == 1 || how == 2 {
            ensure!(u.len() == n && u.windows(2).all(|w| w[0] != w[1]) && u.iter().all(|x| *x <= cap as u64), "not-woken", "{} of {} messages released, {} waiting consumer(s) got {:?}", n, cap, consumers, g);
        } else {
            ensure!(u == want, "not-woken", "room for {:?}, {} waiting consumer(s) got {:?}", want, consumers, g);
        }
        ensure!(how == 1 || g.iter().all(|x| x.1 != Ret::Msgs(vec![])), "early", "a consumer returned empty before its wait time: {:?}", g);
        set_explore(false);
        p.join(6000, "a waiting consumer").await?;
        let g = got.with(|g| g.clone());
        ensure!(g.iter().all(|x| x.2 <= 5000 + 20), "late", "a consumer returned later than its wait time: {:?}", g);
        note_state(&(how, consumers, cap, g));
        Ok(())
    })
}
/// Consumers of several groups wait on one stream: a message concerns each of them.
fn fan_out(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        // published; overdue in both groups
        let how = choose(2, "how");
        let full = choose(2, "a full group") == 1;
        let c = C { cap: 1, maxd: 5, wait: if how == 1 { BASE.wait } else { 600_000 }, ..BASE };
        let mut t = groups(c, false, 0, &[("g", 0, "x"), ("h", 1, "y")]).await?;
        if how == 1 || full { t.step(&Op::Pub, "setup").await?; }
        if how == 1 {
            for (g, c) in [("g", 10), ("h", 11)] { t.step(&Op::Join { g, c, client: "holder" }, "setup").await?; t.step(&Op::Fetch { g, c, lim: 1, wait: 0 }, "setup").await?; }
        } else if full {
            for (g, c) in [("g", 0), ("h", 1)] { t.step(&Op::Fetch { g, c, lim: 1, wait: 0 }, "setup").await?; t.step(&Op::Ack { g, c, seq: 1 }, "setup").await?; }
        }
        let n = if how == 0 && full { 2 } else { 1 };
        if full && how == 0 {
            // this one holds what it may and waits too, before the others
            t.step(&Op::Join { g: "k", c: 20, client: "z" }, "setup").await?;
            t.step(&Op::Join { g: "k", c: 21, client: "z" }, "setup").await?;
            let r = t.step(&Op::Fetch { g: "k", c: 21, lim: 1, wait: 0 }, "setup").await?;
            ensure!(matches!(r, Ret::Msgs(_)), "setup", "{:?}", r);
        }
        let got = Shared::new(vec![]);
        let mut p = par();
        let mut who = vec![("g", 0), ("h", 1)];
        if full && how == 0 && t.one().g["k"].pend.len() == 1 { who.insert(0, ("k", 20)); }
        set_explore(true);
        for (g, c) in who.clone() {
            let (d, got) = (t.d.clone(), got.clone());
            p.go(async move { let r = d.exec(&Op::Fetch { g, c, lim: 1, wait: 5000 }).await?; let at = ms(); got.with(|x| x.push((c, r, at))); Ok(()) });
        }
        let d2 = t.d.clone();
        if how == 0 { p.go(async move { d2.exec(&Op::Pub).await?; Ok(()) }); }
        sleep_ms(BASE.wait + SWEEP + 10).await;
        quiesce().await;
        let mut g = got.with(|g| g.clone());
        g.sort_by_key(|x| x.0);
        ensure!(g.iter().map(|x| (x.0, x.1.clone())).collect::<Vec<_>>() == vec![(0, Ret::Msgs(vec![n])), (1, Ret::Msgs(vec![n]))], "not-woken", "message {} for both groups, their waiting consumers got {:?}", n, g);
        set_explore(false);
        p.join(6000, "a waiting consumer").await?;
        note_state(&(how, full, g));
        Ok(())
    })
}
/// All messages are on disk: each of the waiting consumers gets one, however their reads overlap.
fn cold_prompt(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time().disk(), move || async move {
        let c = C { cap: 4, maxd: 5, ram: 0, wait: 600_000, ..BASE };
        let lim = 1 + choose(2, "limit");
        let t = groups(c, true, 4, &[("g", 0, "x"), ("g", 1, "y")]).await?;
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        for c in 0..2 { p.go(consume(t.d.clone(), c, lim, 5000, got.clone())); }
        sleep_ms(100).await;
        quiesce().await;
        let g = got.with(|g| g.clone());
        let mut u: Vec<u64> = g.iter().flat_map(|x| match &x.1 { Ret::Msgs(v) => v.clone(), _ => vec![] }).collect();
        u.sort();
        ensure!(g.iter().all(|x| x.1 != Ret::Msgs(vec![])), "early", "a consumer returned empty although messages were there: {:?}", g);
        ensure!(g.len() == 2 && u == (1..=u.len() as u64).collect::<Vec<_>>(), "not-woken", "four messages on disk, two waiting consumers with limit {} got {:?}", lim, g);
        set_explore(false);
        p.join(6000, "a waiting consumer").await?;
        note_state(&(lim, g));
        Ok(())
    })
}
/// The same with deadlines racing: whatever happens, nothing is lost or stuck.
fn wakeups(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b), move || async move {
        let how = choose(HOWS - 1, "how");
        let consumers = 1 + choose(2, "consumers");
        let t = waiting_setup(C { cap: 4, maxd: 50, ..BASE }, how, consumers).await?;
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        for c in 0..consumers { p.go(consume(t.d.clone(), c, 1, 1000, got.clone())); }
        let d2 = t.d.clone();
        p.go(async move { make_available(&d2, how).await });
        quiesce().await;
        p.join(1001 + SWEEP, "a waiting consumer").await?;
        set_explore(false);
        quiesce().await;
        let n = if how == 1 { 2u64 } else { 1 };
        everything(&t.d, n, &format!("{:?}", got.with(|g| g.clone()))).await?;
        note_state(&(how, consumers, got.with(|g| g.clone())));
        Ok(())
    })
}
/// After the ack wait a new member gets all of 1..=n that was not acknowledged, once.
async fn everything(d: &Drv, n: u64, what: &str) -> R<()> {
    sleep_ms(LONG).await;
    quiesce().await;
    d.exec(&Op::Join { g: "g", c: 80, client: "last" }).await?;
    let mut all = vec![];
    for _ in 0..n + 3 {
        let Ret::Msgs(v) = within(5000, "a fetch", d.exec(&Op::Fetch { g: "g", c: 80, lim: 2, wait: 100 })).await?? else { return viol("refused", "a new member was refused") };
        for seq in v { let r = d.exec(&Op::Ack { g: "g", c: 80, seq }).await?; ensure!(r == Ret::Unit, "ack", "acknowledging {} was refused", seq); all.push(seq); }
    }
    all.sort();
    ensure!(all == (1..=n).collect::<Vec<_>>(), "lost", "a new member was delivered {:?} of messages 1..={}; before: {}", all, n, what);
    let v = d.view().await?;
    ensure!(v.get("g") == Some(&(n, 0)), "state", "afterwards the group is at {:?}", v);
    d.contents()
}
/// A fetch dropped at any moment, waiting or reading from disk.
fn cancelled(ctx: &Ctx, disk: bool) -> Report {
    let b = if disk { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
    let mut plan = Plan::default().budget(b).no_time();
    if disk { plan = plan.disk(); }
    ctx.run_checked(plan, move || async move {
        let c = C { cap: 4, maxd: 50, ram: 0, ..BASE };
        let other = choose(2, "other") == 1;
        let t = groups(c, disk, if disk { 3 } else { 0 }, &[("g", 0, "x"), ("g", 1, "y")]).await?;
        let mut p = par();
        set_explore(true);
        let d = t.d.clone();
        let victim = tokio::spawn(async move { let k = d.con(0); let _ = d.m.fetch("g", &k.id, k.gen, 2, "t", 1000).await; });
        let got = Shared::new(vec![]);
        if other { let (d, got) = (t.d.clone(), got.clone()); p.go(async move { let r = d.exec(&Op::Fetch { g: "g", c: 1, lim: 1, wait: 200 }).await?; got.with(|g| g.push(r)); Ok(()) }); }
        let d = t.d.clone();
        if !disk { p.go(async move { d.exec(&Op::Pub).await?; d.exec(&Op::Pub).await?; Ok(()) }); }
        p.go(async move { sched_point("cancel"); if disk { sched_point("cancel"); } victim.abort(); Ok(()) });
        p.join(10_000, "consumers").await?;
        set_explore(false);
        quiesce().await;
        everything(&t.d, if disk { 3 } else { 2 }, &format!("{:?}", got.with(|g| g.clone()))).await?;
        note_state(&(other, got.with(|g| g.clone())));
        Ok(())
    })
}
/// Waits and limits of every magnitude.
fn fetch_extremes(ctx: &Ctx) -> Report {
    ctx.run_checked(Plan::default(), move || async move {
        let have = choose(2, "messages") as u64 * 2;
        let lim = [0, 1, 3, 1 << 20, usize::MAX][choose(5, "limit")];
        let wait = [0, 1, 1000, 1 << 40, u64::MAX][choose(5, "wait")];
        let cap = [1, 3, 10_000][choose(3, "cap")];
        let t = groups(C { cap, ..BASE }, false, have, &[("g", 0, "x")]).await?;
        let d = t.d.clone();
        let t0 = ms();
        let h = spawn_local(async move { let r = d.exec(&Op::Fetch { g: "g", c: 0, lim, wait }).await; (r, ms()) });
        let n = (have as usize).min(lim).min(cap);
        if n == 0 && wait > 1000 {
            sleep_ms(2000).await;
            quiesce().await;
            // with a limit of none there is nothing to wait for or to get
            if lim == 0 { h.abort(); return Ok(()); }
            ensure!(!h.is_finished(), "early", "a fetch waiting {} ms returned within two seconds", wait);
            t.d.exec(&Op::Pub).await?;
            let (r, _) = within(1000, "a fetch", h).await?.unwrap();
            ensure!(r? == Ret::Msgs(vec![1]), "not-woken", "a message published");
            return Ok(());
        }
        let (r, at) = within(wait.min(100_000) + 1000, "a fetch", h).await?.unwrap();
        ensure!(r? == Ret::Msgs((1..=n as u64).collect()), "result", "fetch with limit {} and {} messages", lim, have);
        ensure!(n == 0 || at == t0, "late", "messages were there, the fetch took {} ms", at - t0);
        ensure!(n > 0 || lim == 0 || (at >= t0.saturating_add(wait) && at <= t0.saturating_add(wait + 20)), "deadline", "an empty fetch waiting {} ms took {} ms", wait, at - t0);
        note_state(&(have, lim, wait, cap));
        Ok(())
    })
}


/// Acknowledgements while the positions are being saved.
fn save_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let c = C { cap: 9, maxd: 5, wait: 600_000, ram: 1, ..BASE };
        let mut t = groups(c, true, 3, &[("g", 0, "x"), ("h", 1, "x")]).await?;
        t.step(&Op::Fetch { g: "g", c: 0, lim: 3, wait: 0 }, "setup").await?;
        t.step(&Op::Fetch { g: "h", c: 1, lim: 3, wait: 0 }, "setup").await?;
        t.step(&Op::Ack { g: "g", c: 0, seq: 1 }, "setup").await?;
        sleep_ms(SAVE - 1 - ms() % SAVE).await;
        quiesce().await;
        let which = choose(3, "ops");
        let a = |g: &'static str, c: usize, seq: u64| Act::Op(Op::Ack { g, c, seq });
        let sets: [Vec<Vec<Act>>; 3] = [
            vec![vec![a("g", 0, 2), a("g", 0, 3)], vec![a("h", 1, 1)]],
            vec![vec![a("g", 0, 3), a("g", 0, 2)], vec![Act::Op(Op::Begin("h"))]],
            vec![vec![a("g", 0, 2)], vec![Act::Op(Op::End("h")), Act::Op(Op::Pub)]],
        ];
        let h: Hist = History::new();
        let mut p = par();
        set_explore(true);
        for a in sets[which].clone() { let (d, h) = (t.d.clone(), h.clone()); p.go(async move { sleep_ms(1).await; run_task(d, h, a).await }); }
        p.join(60_000, "group operations").await?;
        quiesce().await;
        set_explore(false);
        explained(&mut t, &h, "concurrent use").await?;
        sleep_ms(2 * SAVE).await;
        quiesce().await;
        note_state(&t.s);
        let sent = t.d.sent.with(|s| s.clone());
        Ok((c, t.one().clone(), sent))
    }, |e, (c, s, sent)| resume(e, e.out.io.log.len(), None, *c, vec![s.clone()], sent.clone(), "restart after acknowledging during a save".into()))
}

// ---------------------------------------------------------------- T06
/// bytes of the largest file that can end with message `s`
fn file_ending(log: &Log, s: u64, seg: u64) -> u64 {
    let mut sum = 0;
    let mut k = s;
    while k >= 1 { let n = 24 + log.v[k as usize - 1].1.len() as u64; if sum > 0 && sum + n > seg { break; } sum += n; k -= 1; }
    sum
}
async fn head_of(m: &StreamManager, t: &str) -> u64 { m.read(t, 0, 1).await.first().map(|x| x.seq).unwrap_or(0) }
/// May the start of the log move from `log.head` to `head` now?  With `settled`
/// also: has everything gone that had to?
fn retention_ok(log: &Log, head: u64, c: C, settled: bool, when: &str) -> R<()> {
    let (old, last) = (log.head, log.last());
    ensure!(head >= old && (last == 0 || head <= last || !settled && head == last + 1), "head", "{}: the log of {} messages started at {}, now at {}", when, last, old, head);
    let now = wall();
    if head > old {
        let by_age = log.v[old as usize - 1..head as usize - 1].iter().all(|m| m.0.saturating_add(c.age) < now);
        let by_size = log.bytes(head) + file_ending(log, head - 1, c.seg) > c.bytes && log.bytes(old) > c.bytes;
        ensure!(by_age || by_size, "removed", "{}: messages {}..{} of {} are gone; sizes from there {} -> {} bytes with limit {}, age limit {}", when, old, head - 1, last, log.bytes(old), log.bytes(head), c.bytes, c.age);
    }
    if settled && last > 0 {
        ensure!(log.bytes(head) <= c.bytes || log.bytes(head) <= file_ending(log, last, c.seg), "kept", "{}: {} bytes are kept (messages {}..={}) with limit {}", when, log.bytes(head), head, last, c.bytes);
        let old_kept: Vec<u64> = (head..=last).filter(|s| log.v[*s as usize - 1].0.saturating_add(c.age + 200) < now).collect();
        if let Some(l) = old_kept.last() { let n: u64 = old_kept.iter().map(|s| 24 + log.v[*s as usize - 1].1.len() as u64).sum(); ensure!(n <= file_ending(log, *l, c.seg), "kept-old", "{}: messages {:?} are older than {} ms and still there", when, old_kept, c.age); }
    }
    Ok(())
}
fn retention_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 6);
    let thorough = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        let (bytes, age) = [(130, FOREVER), (100, FOREVER), (FOREVER, 500), (130, 500), (0, 0)][choose(5, "limits")];
        // zero means no limit
        let c = C { seg: 70, bytes: if bytes == 0 { FOREVER } else { bytes }, age: if age == 0 { FOREVER } else { age }, check: 50, ram: choose(2, "ram"), cap: 9, maxd: 9, wait: 600_000, files: 8 };
        let m = StreamManager::new(conf(C { bytes: 1, age: 1, ..c }, root().join("s").to_str().unwrap())).await;
        let r = m.create_topic("t".into(), StreamCreateOptions { retention: Some(RetentionOptions { max_age_ms: Some(age), max_bytes: Some(bytes) }) }).await;
        ensure!(r.is_ok(), "create", "{:?}", r);
        quiesce().await;
        let mut log = Log::new();
        let mut t = Tr { d: Drv::new(&m, "t"), s: vec![St::new(c)] };
        t.step(&Op::Join { g: "g", c: 0, client: "x" }, "setup").await?;
        let mut states = vec![(log.clone(), t.one().clone())];
        mcrt::io::mark(1000);
        for i in 0..depth {
            let s = t.one().clone();
            let x = &s.g["g"];
            let mut ops = vec![0, 1, 2, 3];
            if x.next <= s.last { ops.push(4); }
            if !x.pend.is_empty() { ops.push(5); }
            let op = ops[choose(ops.len(), "op")];
            let when = format!("step {} ({})", i, ["publish 3 x 8 bytes", "publish 100 bytes", "wait", "long wait", "fetch", "ack"][op]);
            log_event(when.clone());
            match op {
                0 | 1 => for _ in 0..[3, 1][op] { log.publish(&m, "t", [8, 100][op], &when).await?; t.s[0].last += 1; let b = log.v.last().unwrap().1.clone(); t.d.sent.with(|s| s.insert(log.last(), b)); },
                2 | 3 => {
                    sleep_ms([130, 800][op - 2]).await;
                    quiesce().await;
                    let h = head_of(&m, "t").await.max(1);
                    retention_ok(&log, h, c, true, &when)?;
                    log.head = h;
                    t.step(&Op::Head(h), &when).await?;
                }
                4 => { t.step(&Op::Fetch { g: "g", c: 0, lim: 2, wait: 0 }, &when).await?; }
                _ => { let q = *x.pend.keys().next().unwrap(); t.step(&Op::Ack { g: "g", c: 0, seq: q }, &when).await?; }
            }
            check_log(&m, "t", &log, &when).await?;
            t.look(&when).await?;
            states.push((log.clone(), t.one().clone()));
            let waited = op == 2 || op == 3;
            mcrt::io::mark(if waited { 1000 } else { 0 } + states.len() as u64 - 1);
            note_state(&(&log, t.one()));
        }
        sleep_ms(250).await;
        quiesce().await;
        let h = head_of(&m, "t").await.max(1);
        retention_ok(&log, h, c, true, "at the end")?;
        log.head = h;
        t.step(&Op::Head(h), "at the end").await?;
        states.push((log.clone(), t.one().clone()));
        mcrt::io::mark(1000 + states.len() as u64 - 1);
        Ok((c, states))
    }, move |e, (c, states)| {
        let log = &e.out.io.log;
        let (mut done, mut durable, mut on) = (0usize, 0usize, false);
        for p in 1..=log.len() {
            match &log[p - 1] {
                IoOp::Mark(k) if *k >= 1000 => { durable = (*k - 1000) as usize; done = durable; on = true; }
                IoOp::Mark(k) => { done = *k as usize; continue; }
                // crash points are where files disappear (all of them in the thorough tier) and the ends of waits
                IoOp::Unlink(_) => {}
                _ if thorough => {}
                _ => continue,
            }
            if !on { continue; }
            let hi = (done + 1).min(states.len() - 1);
            let (lo, hi) = (states[durable].clone(), states[hi].clone());
            let v = after_retention(e, p, *c, lo, hi, format!("restart after storage operation {} of {}", p, log.len()));
            if !v.is_empty() { return v; }
        }
        vec![]
    })
}
/// Restart: the log is a dense run between the two states, numbering goes on,
/// the group continues within it.
fn after_retention<T>(e: &Exec<'_, T>, upto: usize, c: C, lo: (Log, St), hi: (Log, St), when: String) -> Vec<Violation> {
    let dir_again: Arc<std::sync::Mutex<Option<Log>>> = Default::default();
    let d2 = dir_again.clone();
    let w2 = when.clone();
    let cfg = move || conf(C { bytes: 1, age: 1, check: FOREVER, ..c }, root().join("s").to_str().unwrap());
    let (v, dir, end) = restart(e, upto, None, 0, move || Box::pin(async move {
        let m = StreamManager::new(cfg()).await;
        quiesce().await;
        let sn = m.get_snapshot().await;
        let Some(x) = sn.topics.iter().find(|x| x.name == "t") else { return viol("gone", format!("{}: the stream is gone", w2)) };
        let n = x.last_seq;
        ensure!(n >= lo.0.last() && n <= hi.0.last(), "log", "{}: the log ends at {}, expected {} to {}", w2, n, lo.0.last(), hi.0.last());
        let mut log = hi.0.cut(n);
        log.head = lo.0.head;
        // what a crash left unwritten may be all that was to be kept: then the log is empty
        let h = match head_of(&m, "t").await { 0 => n + 1, h => h };
        retention_ok(&log, h, c, false, &w2)?;
        log.head = h;
        check_log(&m, "t", &log, &w2).await?;
        log.publish(&m, "t", 8, &w2).await?;
        log.publish(&m, "t", 8, &w2).await?;
        check_log(&m, "t", &log, &w2).await?;
        // a group goes on inside the log
        if let Some(g) = x.groups.iter().find(|g| g.id == "g") {
            ensure!(g.ack_floor + 1 >= h && g.ack_floor <= n, "position", "{}: the group is listed at {}, the log is {}..={}", w2, g.ack_floor, h, n);
            let j = match m.join_group("g", "t", "x").await { Ok(j) => j, Err(e) => return viol("join", e) };
            ensure!(j.ack_floor + 1 >= h && j.ack_floor <= n, "position", "{}: the group resumes after {}, the log is {}..={}", w2, j.ack_floor, h, n);
            ensure!(j.ack_floor <= hi.1.g["g"].floor.max(h - 1), "skipped", "{}: the group resumes after {} (listed {}), it had acknowledged up to {}; the log starts at {}", w2, j.ack_floor, g.ack_floor, hi.1.g["g"].floor, h);
            let mut got = vec![];
            loop { let v = m.fetch("g", &j.consumer_id, j.generation, 9, "t", 0).await.unwrap_or_default(); if v.is_empty() { break; } got.extend(v.iter().map(|x| x.seq)); }
            let want: Vec<u64> = (j.ack_floor + 1..=log.last()).take(9).collect();
            ensure!(got == want, "resume", "{}: the group at {} was delivered {:?}, expected {:?}", w2, j.ack_floor, got, want);
        }
        settle().await;
        check_log(&m, "t", &log, &w2).await?;
        *d2.lock().unwrap() = Some(log);
        Ok(())
    }));
    if !v.is_empty() { return v; }
    let Some(mut log) = dir_again.lock().unwrap().clone() else { return vec![] };
    run_on(e, &dir, end, move || Box::pin(async move {
        let m = StreamManager::new(cfg()).await;
        quiesce().await;
        let h = head_of(&m, "t").await.max(1);
        retention_ok(&log, h, c, false, &when)?;
        log.head = h;
        check_log(&m, "t", &log, &format!("{}, second restart", when)).await
    })).0
}
/// A crash while the newest file is written, then everything older expires:
/// what is left may be a file without a single message.
fn retention_crash(ctx: &Ctx) -> Report {
    let every = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        let c = C { seg: [1, 70][choose(2, "segment")], age: 300, check: FOREVER, ram: choose(2, "ram"), cap: 9, maxd: 9, wait: 600_000, ..BASE };
        let m = StreamManager::new(conf(c, root().join("s").to_str().unwrap())).await;
        let r = m.create_topic("t".into(), StreamCreateOptions { retention: Some(RetentionOptions { max_age_ms: Some(300), max_bytes: None }) }).await;
        ensure!(r.is_ok(), "create", "{:?}", r);
        quiesce().await;
        let mut log = Log::new();
        let mut t = Tr { d: Drv::new(&m, "t"), s: vec![St::new(c)] };
        t.step(&Op::Join { g: "g", c: 0, client: "x" }, "setup").await?;
        let acked = choose(3, "acknowledged") as u64;
        let mut durable = 0;
        mcrt::io::mark(1000);
        for k in 1..=ctx_pick(every, 3, 4) {
            log.publish(&m, "t", 8, "setup").await?;
            t.s[0].last += 1;
            let b = log.v.last().unwrap().1.clone();
            t.d.sent.with(|s| s.insert(k, b));
            if k == 2 {
                if acked > 0 { t.step(&Op::Fetch { g: "g", c: 0, lim: 9, wait: 0 }, "setup").await?; }
                for seq in 1..=acked { t.step(&Op::Ack { g: "g", c: 0, seq }, "setup").await?; }
                sleep_ms(2 * SAVE).await;
            }
            if k == 1 && choose(2, "one by one") == 1 { continue; }
            settle().await;
            durable = k;
            mcrt::io::mark(1000 + durable);
        }
        settle().await;
        let _ = durable;
        mcrt::io::mark(1000 + log.last());
        note_state(&(&log, acked));
        Ok((c, log, acked))
    }, move |e, (c, full, acked)| {
        let ops = &e.out.io.log;
        let mut durable = 0;
        for p in 1..=ops.len() {
            match &ops[p - 1] { IoOp::Mark(k) if *k >= 1000 => { durable = *k - 1000; } _ => {} }
            let mut torn = vec![None];
            if let IoOp::Write { data, .. } = &ops[p - 1] { torn.extend(cuts(data.len(), every).into_iter().map(Some)); }
            if durable == 0 { continue; }
            for t in torn {
                for more in [false, true] {
                    let when = format!("crash after storage operation {} of {}{}, then everything expires", p, ops.len(), t.map(|t| format!(", the last write cut after {} bytes", t)).unwrap_or_default());
                    let v = expire(e, p, t, *c, full, durable, *acked, more, when);
                    if !v.is_empty() { return v; }
                }
            }
        }
        vec![]
    })
}
fn ctx_pick(thorough: bool, q: u64, t: u64) -> u64 { if thorough { t } else { q } }
/// Restart with retention running, wait until all that may go is gone, restart again.
fn expire<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, c: C, full: &Log, durable: u64, acked: u64, more: bool, when: String) -> Vec<Violation> {
    let kept: Arc<std::sync::Mutex<Option<Log>>> = Default::default();
    let (k2, full, w2) = (kept.clone(), full.clone(), when.clone());
    let cfg = move || conf(C { bytes: FOREVER, age: FOREVER, check: 50, ..c }, root().join("s").to_str().unwrap());
    let (v, dir, end) = restart(e, upto, torn, 0, move || Box::pin(async move {
        let m = StreamManager::new(cfg()).await;
        quiesce().await;
        let sn = m.get_snapshot().await;
        let Some(x) = sn.topics.iter().find(|x| x.name == "t") else { return viol("gone", format!("{}: the stream is gone", w2)) };
        let n = x.last_seq;
        ensure!(n >= durable && n <= full.last(), "log", "{}: the log ends at {}, expected {} to {}", w2, n, durable, full.last());
        let mut log = full.cut(n);
        sleep_ms(1000).await;
        quiesce().await;
        let h = match head_of(&m, "t").await { 0 => n + 1, h => h };
        retention_ok(&log, h, c, h <= n, &w2)?;
        log.head = h;
        check_log(&m, "t", &log, &w2).await?;
        if more { log.publish(&m, "t", 8, &w2).await?; check_log(&m, "t", &log, &w2).await?; settle().await; log.head = head_of(&m, "t").await; }
        check_log(&m, "t", &log, &w2).await?;
        *k2.lock().unwrap() = Some(log);
        Ok(())
    }));
    if !v.is_empty() { return v; }
    let Some(mut log) = kept.lock().unwrap().clone() else { return vec![] };
    let cfg = move || conf(C { bytes: FOREVER, age: FOREVER, check: FOREVER, ..c }, root().join("s").to_str().unwrap());
    run_on(e, &dir, end, move || Box::pin(async move {
        let m = StreamManager::new(cfg()).await;
        quiesce().await;
        let when = format!("{}, second restart", when);
        check_log(&m, "t", &log, &when).await?;
        let sn = m.get_snapshot().await;
        if let Some(g) = sn.topics.iter().find(|x| x.name == "t").and_then(|x| x.groups.iter().find(|g| g.id == "g")) {
            ensure!(g.ack_floor + 1 >= log.head && g.ack_floor <= log.last(), "position", "{}: the group is listed at {}, the log is {}..={}", when, g.ack_floor, log.head, log.last());
            ensure!(g.ack_floor <= acked.max(log.head - 1), "skipped", "{}: the group is listed at {}, it had acknowledged up to {}; the log starts at {}", when, g.ack_floor, acked, log.head);
        }
        log.publish(&m, "t", 8, &when).await?;
        log.publish(&m, "t", 8, &when).await?;
        check_log(&m, "t", &log, &when).await?;
        let j = match m.join_group("g", "t", "x").await { Ok(j) => j, Err(e) => return viol("join", e) };
        let mut got = vec![];
        loop { let v = m.fetch("g", &j.consumer_id, j.generation, 9, "t", 0).await.unwrap_or_default(); if v.is_empty() { break; } got.extend(v.iter().map(|x| x.seq)); if got.len() > 20 { break; } }
        let want: Vec<u64> = (j.ack_floor + 1..=log.last()).take(9).collect();
        ensure!(j.ack_floor + 1 >= log.head && got == want, "resume", "{}: the group at {} was delivered {:?}, the log is {}..={}", when, j.ack_floor, got, log.head, log.last());
        settle().await;
        check_log(&m, "t", &log, &when).await
    })).0
}
/// Files disappear while members fetch, acknowledge, readers read and a client publishes.
fn retention_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().disk().budget(b).no_time(), move || async move {
        let c = C { seg: 70, bytes: 70, check: 60, ram: choose(2, "ram"), cap: 4, maxd: 9, wait: 600_000, ..BASE };
        let mut t = groups(c, true, 0, &[("g", 0, "x"), ("g", 1, "y")]).await?;
        // after one round of retention, on disk before the next
        sleep_ms(61 - ms() % 60).await;
        quiesce().await;
        let mut log = Log::new();
        for _ in 0..5 { log.publish(&t.d.m, "t", 8, "setup").await?; t.s[0].last += 1; }
        for (i, m) in log.v.iter().enumerate() { t.d.sent.with(|s| s.insert(i as u64 + 1, m.1.clone())); }
        let which = choose(4, "ops");
        if which != 1 { t.step(&Op::Fetch { g: "g", c: 0, lim: 2, wait: 0 }, "setup").await?; }
        sleep_ms(59 - ms() % 60).await;
        quiesce().await;
        ensure!(head_of(&t.d.m, "t").await == 1, "machinery", "retention ran early");
        let sets: [Vec<Vec<Act>>; 4] = [
            vec![vec![Act::Op(Op::Ack { g: "g", c: 0, seq: 1 }), f("g", 0, 1)], vec![f("g", 1, 2), Act::AckMine("g", 1)]],
            vec![vec![f("g", 0, 2), Act::AckMine("g", 0)], vec![f("g", 1, 9)]],
            vec![vec![Act::Op(Op::Begin("g")), Act::Op(Op::Join { g: "g", c: 2, client: "z" }), f("g", 2, 3)], vec![f("g", 1, 1)]],
            vec![vec![Act::Op(Op::Pub)], vec![Act::Op(Op::Leave { g: "g", c: 0 }), f("g", 1, 2)]],
        ];
        let h: Hist = History::new();
        let mut p = par();
        set_explore(true);
        for a in sets[which].clone() { let (d, h) = (t.d.clone(), h.clone()); p.go(async move { sleep_ms(1).await; run_task(d, h, a).await }); }
        let (m2, l2) = (t.d.m.clone(), log.clone());
        p.go(async move {
            sleep_ms(1).await;
            let mut s = 0;
            let mut got: Vec<Message> = vec![];
            for _ in 0..9 { let r = m2.read("t", s, 2).await; if r.is_empty() { break; } s = r.last().unwrap().seq + 1; got.extend(r); }
            // the start may move while reading, after that it is dense
            let mut jumps = 0;
            for w in got.windows(2) { ensure!(w[1].seq > w[0].seq, "order", "a read during retention returned {}", show(&got)); if w[1].seq != w[0].seq + 1 { jumps += 1; } }
            ensure!(jumps <= 1 && got.last().map(|x| x.seq >= 5).unwrap_or(false), "dense", "a read during retention returned {}", show(&got));
            ensure!(got.iter().all(|g| g.seq > 5 || { let w = &l2.v[g.seq as usize - 1]; g.timestamp == w.0 && g.payload == w.1[..] }), "content", "a read during retention returned {}", show(&got));
            Ok(())
        });
        p.join(60_000, "group operations").await?;
        sleep_ms(5).await;
        quiesce().await;
        set_explore(false);
        let hd = head_of(&t.d.m, "t").await;
        if which == 3 { let b = t.d.sent.with(|s| s[&6].clone()); let r = t.d.m.read("t", 6, 1).await; ensure!(r.len() == 1, "dense", "a published message cannot be read: {}", show(&r)); log.v.push((r[0].timestamp, b)); }
        retention_ok(&log, hd, c, true, "after retention")?;
        log.head = hd;
        h.begin(Op::Head(hd));
        h.with(|h| h.ops.last_mut().unwrap().start = 0);
        check_log(&t.d.m, "t", &log, "after retention").await?;
        t.s = finals(&t.s, &h, ms()).into_iter().filter(|s| s.head == hd).collect();
        ensure!(!t.s.is_empty(), "not-atomic", "no order of {:?} explains the results", h.with(|h| h.ops.iter().map(|o| (o.op.clone(), o.ret.clone())).collect::<Vec<_>>()));
        t.look("after retention").await?;
        note_state(&t.s);
        // the rest reaches a new member; retention may go on removing what it publishes
        let cands = t.s.clone();
        let mut d = t;
        d.s = cands;
        d.step(&Op::Begin("g"), "afterwards").await?;
        d.step(&Op::Join { g: "g", c: 60, client: "n" }, "afterwards").await?;
        let mut got = vec![];
        for _ in 0..9 { if let Ret::Msgs(v) = d.step(&Op::Fetch { g: "g", c: 60, lim: 2, wait: 0 }, "afterwards").await? { if v.is_empty() { break; } for seq in v { d.step(&Op::Ack { g: "g", c: 60, seq }, "afterwards").await?; got.push(seq); } } }
        ensure!(got == (hd..=log.last()).collect::<Vec<_>>(), "afterwards", "a group at the beginning was delivered {:?}, the log is {}..={}", got, hd, log.last());
        Ok(())
    })
}

// ---------------------------------------------------------------- T08
/// What a stream must be: its settings (age limit given at creation), messages, group positions.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct S { age: u64, log: Log, g: BTreeMap<String, u64> }
type World = BTreeMap<&'static str, S>;
const ALL: [&str; 4] = ["a", "b", "ab", "a.tmp"];
fn aged(age: u64) -> StreamCreateOptions { StreamCreateOptions { retention: Some(RetentionOptions { max_age_ms: Some(age), max_bytes: Some(age + 1) }) } }
const LC: C = C { ram: 1, seg: 40, cap: 9, maxd: 9, wait: 600_000, ..BASE };
/// publish one message, take it as a member of group g and acknowledge it
async fn use_stream(m: &StreamManager, x: &'static str, s: &mut S, when: &str) -> R<()> {
    s.log.publish(m, x, 8, when).await?;
    let f = s.g.entry("g".into()).or_insert(0);
    let j = match m.join_group("g", x, "cl").await { Ok(j) => j, Err(e) => return viol("join", e) };
    ensure!(j.ack_floor == *f, "group", "{}: joined at {}, expected {}", when, j.ack_floor, f);
    let v = m.fetch("g", &j.consumer_id, j.generation, 1, x, 0).await;
    ensure!(v.as_ref().map(|v| v.len() == 1 && v[0].seq == *f + 1).unwrap_or(false), "fetch", "{}: a member at {} was given {:?}", when, f, v.map(|v| show(&v)));
    let r = m.ack("g", x, &j.consumer_id, j.generation, *f + 1).await;
    ensure!(r.is_ok(), "ack", "{}: {:?}", when, r);
    *f += 1;
    let r = m.leave_group("g", x, &j.consumer_id, j.generation).await;
    ensure!(r.is_ok(), "leave", "{}: {:?}", when, r);
    Ok(())
}
/// `lo`/`hi`: each stream present in one of them; in both: anything between.
async fn check_between(m: &StreamManager, lo: &World, hi: &World, when: &str) -> R<World> { check_upto(m, lo, hi, lo, when).await }
/// `most`: what a stream that `hi` has no longer may still be
async fn check_upto(m: &StreamManager, lo: &World, hi: &World, most: &World, when: &str) -> R<World> {
    let sn = m.get_snapshot().await;
    let mut names: Vec<String> = sn.topics.iter().map(|s| s.name.clone()).collect();
    names.sort();
    let mut now: World = BTreeMap::new();
    for x in ALL {
        let is = sn.topics.iter().find(|t| t.name == x);
        let (l, h) = (lo.get(x), hi.get(x));
        ensure!(m.exists(x).await == is.is_some(), "exists", "{}: stream {:?} listed: {}, exists: {}", when, x, is.is_some(), m.exists(x).await);
        let Some(is) = is else {
            ensure!(l.is_none() || h.is_none(), "gone", "{}: stream {:?} is gone; listed: {:?}", when, x, names);
            refused(m, x, when).await?;
            continue;
        };
        let Some(want) = h.or(l) else { return viol("appeared", format!("{}: stream {:?} exists; listed: {:?}", when, x, names)) };
        let r = (is.config.retention.max_age_ms, is.config.retention.max_bytes);
        ensure!(r == (Some(want.age), Some(want.age + 1)), "settings", "{}: stream {:?} has limits {:?}, created with {:?}", when, x, r, want.age);
        // one that is being created is empty, one that is being deleted complete
        let (l, h) = (l.unwrap_or(want), h.or(most.get(x)).unwrap_or(want));
        let n = is.last_seq;
        ensure!(n >= l.log.last() && n <= h.log.last(), "log", "{}: stream {:?} ends at {}, expected {} to {}", when, x, n, l.log.last(), h.log.last());
        let log = h.log.cut(n);
        check_log(m, x, &log, &format!("{}, stream {:?}", when, x)).await?;
        let g: BTreeMap<String, u64> = is.groups.iter().map(|g| (g.id.clone(), g.ack_floor)).collect();
        ensure!(l.g.iter().all(|(k, v)| g.get(k).map(|f| f >= v).unwrap_or(false)) && g.iter().all(|(k, f)| h.g.get(k).map(|v| f <= v).unwrap_or(false)), "groups", "{}: stream {:?} has groups {:?}, expected {:?} to {:?}", when, x, g, l.g, h.g);
        now.insert(x, S { age: want.age, log, g });
    }
    ensure!(now.len() == names.len(), "which", "{}: streams {:?} exist, expected {:?}", when, names, now.keys());
    Ok(now)
}
async fn refused(m: &StreamManager, x: &str, when: &str) -> R<()> {
    let r = [
        ("publish", m.publish(x, Bytes::from_static(b"x")).await.is_err()),
        ("read", m.read(x, 0, 5).await.is_empty()),
        ("fetch", m.fetch("g", "g-1", 1, 5, x, 0).await.is_err()),
        ("fetch", m.fetch("g", "g-1", 1, 5, x, 30).await.is_err()),
        ("ack", m.ack("g", x, "g-1", 1, 1).await.is_err()),
        ("seek", m.seek("g", x, SeekTarget::Beginning).await.is_err()),
        ("join", m.join_group("g", x, "cl").await.is_err()),
        ("leave", m.leave_group("g", x, "g-1", 1).await.is_err()),
    ];
    for (what, ok) in r { ensure!(ok, "missing-stream", "{}: {} on the missing stream {:?} was accepted", when, what, x); }
    ensure!(!m.exists(x).await, "missing-stream", "{}: using the missing stream {:?} made it exist", when, x);
    Ok(())
}
/// Restart, judge, create what is missing, use everything, restart again.
fn restart_world<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, lo: World, hi: World, most: World, when: String) -> Vec<Violation> {
    let kept: Arc<std::sync::Mutex<Option<World>>> = Default::default();
    let k2 = kept.clone();
    let w2 = when.clone();
    let (v, dir, end) = restart(e, upto, torn, 0, move || Box::pin(async move {
        let m = mk(LC).await;
        quiesce().await;
        let mut w = check_upto(&m, &lo, &hi, &most, &w2).await?;
        for x in ["a", "b"] {
            if !w.contains_key(x) {
                let r = m.create_topic(x.into(), aged(777_777)).await;
                ensure!(r.is_ok(), "create", "{}: creating {:?} failed: {:?}", w2, x, r);
                w.insert(x, S { age: 777_777, log: Log::new(), g: BTreeMap::new() });
                check_between(&m, &w, &w, &format!("{}, {:?} created anew", w2, x)).await?;
            }
            use_stream(&m, x, w.get_mut(x).unwrap(), &w2).await?;
        }
        sleep_ms(SAVE * 2).await;
        quiesce().await;
        check_between(&m, &w, &w, &format!("{}, used again", w2)).await?;
        *k2.lock().unwrap() = Some(w);
        Ok(())
    }));
    if !v.is_empty() { return v; }
    let Some(w) = kept.lock().unwrap().clone() else { return vec![] };
    run_on(e, &dir, end, move || Box::pin(async move { let m = mk(LC).await; check_between(&m, &w, &w, &format!("{}, used again, second restart", when)).await.map(|_| ()) })).0
}
fn lifecycle_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 5);
    let every = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        let m = mk(LC).await;
        let pair: [&'static str; 2] = [["a", "b"], ["a", "ab"], ["a", "a.tmp"]][choose(if every { 3 } else { 2 }, "names")];
        let mut w: World = BTreeMap::new();
        if choose(2, "one is there") == 1 {
            // with messages in several files
            let r = m.create_topic("a".into(), aged(400_000)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            let mut s = S { age: 400_000, log: Log::new(), g: BTreeMap::new() };
            for _ in 0..3 { use_stream(&m, "a", &mut s, "setup").await?; }
            w.insert("a", s);
            sleep_ms(2 * SAVE).await;
            quiesce().await;
        }
        let mut states = vec![w.clone()];
        mcrt::io::mark(0);
        for i in 0..depth {
            let ops: Vec<(&'static str, usize)> = pair.iter().flat_map(|x| if w.contains_key(x) { vec![(*x, 1), (*x, 2), (*x, 3)] } else { vec![(*x, 0), (*x, 2)] }).collect();
            let (x, op) = ops[choose(ops.len(), "op")];
            let when = format!("step {} ({} {:?})", i, ["create", "create again", "delete", "use"][op], x);
            log_event(when.clone());
            match op {
                0 | 1 => {
                    let age = [500_000 + i as u64, 600_000][op];
                    let r = within(10_000, "creating a stream", m.create_topic(x.into(), aged(age))).await?;
                    ensure!(r.is_ok(), "create", "{}: {:?}", when, r);
                    w.entry(x).or_insert_with(|| S { age, log: Log::new(), g: BTreeMap::new() });
                }
                2 => {
                    let _ = within(10_000, "deleting a stream", m.delete_topic(x.into())).await?;
                    w.remove(x);
                    ensure!(!root().join("s").join(x).exists(), "files-left", "{}: the files of {:?} are still there: {:?}", when, x, std::fs::read_dir(root().join("s").join(x)).map(|r| r.flatten().map(|f| f.path()).collect::<Vec<_>>()));
                }
                _ => { let mut s = w.remove(x).unwrap(); use_stream(&m, x, &mut s, &when).await?; w.insert(x, s); }
            }
            check_between(&m, &w, &w, &when).await?;
            // positions are saved and messages stored and out of memory, or nothing of it yet
            if op != 3 || choose(2, "settle") == 1 || i + 1 == depth { sleep_ms(2 * SAVE).await; quiesce().await; check_between(&m, &w, &w, &format!("{}, a while later", when)).await?; states.push(w.clone()); mcrt::io::mark(1000 + states.len() as u64 - 1); }
            else { states.push(w.clone()); mcrt::io::mark(states.len() as u64 - 1); }
            if op == 2 { ensure!(!root().join("s").join(x).exists(), "files-left", "{}: a while later files of {:?} are there again", when, x); }
            note_state(&w);
        }
        Ok(states)
    }, move |e, states| {
        let log = &e.out.io.log;
        // the points within earlier steps belong to shorter histories
        let from = log.iter().enumerate().filter(|(_, o)| matches!(o, IoOp::Mark(k) if *k % 1000 == states.len() as u64 - 2)).map(|x| x.0).last().unwrap_or(0);
        let mut durable = 0;
        for p in 1..=log.len() {
            if let IoOp::Mark(k) = &log[p - 1] { if *k >= 1000 { durable = (*k - 1000) as usize; } }
            if p <= from { continue; }
            let mut torn = vec![None];
            if let IoOp::Write { data, .. } = &log[p - 1] { torn.extend(cuts(data.len(), every).into_iter().map(Some)); }
            // the last step and anything not stored before it
            let hi = states.last().unwrap().clone();
            let mut lo = states[durable].clone();
            let before = &states[states.len() - 2];
            lo.retain(|k, s| before.get(k).map(|b| b.age == s.age).unwrap_or(false) || hi.get(k) == Some(s));
            for (k, s) in before { lo.entry(k).or_insert_with(|| S { age: s.age, log: Log::new(), g: BTreeMap::new() }); }
            for t in torn {
                let v = restart_world(e, p, t, lo.clone(), hi.clone(), before.clone(), format!("crash after storage operation {} of {}{}", p, log.len(), t.map(|t| format!(", the last write cut after {} bytes", t)).unwrap_or_default()));
                if !v.is_empty() { return v; }
            }
        }
        vec![]
    })
}
/// Creation, deletion and use of one stream at the same time.
fn lifecycle_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        // retention runs together with the saving of positions
        let c = C { check: SAVE, seg: 40, ram: 0, ..LC };
        let m = mk(c).await;
        quiesce().await;
        let mut w: World = BTreeMap::new();
        let r = m.create_topic("b".into(), aged(500_000)).await;
        ensure!(r.is_ok(), "create", "{:?}", r);
        w.insert("b", S { age: 500_000, log: Log::new(), g: BTreeMap::new() });
        use_stream(&m, "b", w.get_mut("b").unwrap(), "setup").await?;
        let pre = choose(2, "pre") == 1;
        let mut old = S { age: 400_000, log: Log::new(), g: BTreeMap::new() };
        let mut j = None;
        if pre {
            let r = m.create_topic("a".into(), aged(400_000)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            for _ in 0..2 { use_stream(&m, "a", &mut old, "setup").await?; }
            sleep_ms(2 * SAVE).await;
            j = m.join_group("g", "a", "cl").await.ok();
        }
        // together with the periodic work, or with a third client
        let which = choose(if pre { 6 } else { 4 }, "ops");
        sleep_ms(if which == 0 { SAVE - 1 - ms() % SAVE } else { 1 }).await;
        quiesce().await;
        // something to save
        if pre { let r = m.join_group("h", "a", "cl2").await; ensure!(r.is_ok(), "join", "a member was refused"); old.g.insert("h".into(), 0); }
        let sent: Arc<Shared<Vec<(u64, u64)>>> = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        let m1 = m.clone();
        p.go(async move { sleep_ms(1).await; let r = m1.delete_topic("a".into()).await; ensure!(r.is_ok(), "delete", "{:?}", r); Ok(()) });
        let (m2, s2) = (m.clone(), sent.clone());
        p.go(async move {
            sleep_ms(1).await;
            let r = m2.create_topic("a".into(), aged(300_000)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            if which != 2 { if let Ok(n) = m2.publish("a", Bytes::from(body(70, 8))).await { s2.with(|s| s.push((70, n))); } }
            Ok(())
        });
        let (m3, s3) = (m.clone(), sent.clone());
        let end = ms() + 61;
        let got: Arc<Shared<Vec<Message>>> = Shared::new(vec![]);
        let g3 = got.clone();
        if which > 0 { p.go(async move {
            sleep_ms(1).await;
            match which - 1 {
                0 => if let Ok(n) = m3.publish("a", Bytes::from(body(71, 8))).await { s3.with(|s| s.push((71, n))); },
                1 => { let r = m3.create_topic("a".into(), aged(200_000)).await; ensure!(r.is_ok(), "create", "{:?}", r); }
                2 => { let r = m3.delete_topic("a".into()).await; ensure!(r.is_ok(), "delete", "{:?}", r); }
                3 => { let v = m3.read("a", 1, 9).await; g3.with(|g| g.extend(v)); }
                _ => { let j = j.unwrap(); let v = m3.fetch("g", &j.consumer_id, j.generation, 9, "a", 60).await; if let Ok(v) = v { g3.with(|g| g.extend(v)); } ensure!(ms() <= end, "deadline", "a waiting fetch ended {} ms late", ms() - end); }
            }
            Ok(())
        }); }
        p.join(60_000, "creating and deleting a stream").await?;
        set_explore(false);
        quiesce().await;
        let sn = m.get_snapshot().await;
        let sent = sent.with(|s| s.clone());
        // whichever came last, the stream is of one incarnation
        if let Some(x) = sn.topics.iter().find(|x| x.name == "a") {
            let age = x.config.retention.max_age_ms.unwrap_or(0);
            let is_old = pre && age == 400_000;
            ensure!(is_old || age == 300_000 || (which == 2 && age == 200_000), "settings", "the stream has age limit {}", age);
            let mut s = if is_old { old.clone() } else { S { age, log: Log::new(), g: BTreeMap::new() } };
            let n0 = s.log.last();
            for k in n0 + 1..=x.last_seq {
                let v = m.read("a", k, 1).await;
                let Some(v) = v.first() else { return viol("read", format!("message {} of {} cannot be read", k, x.last_seq)) };
                let id = [70, 71].into_iter().find(|i| v.payload == body(*i, 8)[..] && sent.contains(&(*i, k)));
                ensure!(v.seq == k && id.is_some(), "foreign", "message {} of the stream is {:?}; published to it: {:?}", k, v, sent);
                s.log.v.push((v.timestamp, v.payload.to_vec()));
            }
            w.insert("a", s);
        } else {
            ensure!(!root().join("s").join("a").exists(), "files-left", "the stream is deleted, its files are there");
        }
        check_between(&m, &w, &w, "after creation met deletion").await?;
        // nothing of another incarnation comes up later
        sleep_ms(3 * SAVE).await;
        quiesce().await;
        check_between(&m, &w, &w, "a while after creation met deletion").await?;
        if w.contains_key("a") { use_stream(&m, "a", w.get_mut("a").unwrap(), "afterwards").await?; } else { ensure!(!root().join("s").join("a").exists(), "files-left", "the stream is deleted, a while later its files are there"); }
        // what was read or delivered during it were the stream's messages
        for x in got.with(|g| g.clone()) { let ok = old.log.v.get(x.seq as usize - 1).map(|o| x.payload == o.1[..]).unwrap_or(false) || sent.iter().any(|(i, n)| x.seq == *n && x.payload == body(*i, 8)[..]); ensure!(ok, "foreign", "message {:?} was delivered", x); }
        sleep_ms(2 * SAVE).await;
        quiesce().await;
        check_between(&m, &w, &w, "used after creation met deletion").await?;
        note_state(&(&w.get("a"), pre, which));
        Ok(w)
    }, |e, w| restart_world(e, e.out.io.log.len(), None, w.clone(), w.clone(), w.clone(), "restart after creation met deletion".into()))
}
/// A stream is deleted and created again with wider limits while files are removed under the old ones.
fn lifecycle_retention(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 3);
    ctx.run_checked(Plan::default().disk().budget(b).no_time(), move || async move {
        // every message takes a file
        let c = C { check: SAVE, seg: 40, ram: choose(2, "ram"), ..LC };
        let m = mk(c).await;
        quiesce().await;
        let tight = StreamCreateOptions { retention: Some(RetentionOptions { max_age_ms: None, max_bytes: Some(1) }) };
        let r = m.create_topic("a".into(), tight).await;
        ensure!(r.is_ok(), "create", "{:?}", r);
        sleep_ms(1 + SAVE - ms() % SAVE).await;
        quiesce().await;
        let mut old = Log::new();
        let had = choose(3, "had");
        for _ in 0..had { old.publish(&m, "a", 8, "setup").await?; }
        sleep_ms(SAVE - 1 - ms() % SAVE).await;
        quiesce().await;
        let two = choose(2, "publishers") == 1;
        let mut p = par();
        set_explore(true);
        let m1 = m.clone();
        let sent: Arc<Shared<Vec<(u64, u64)>>> = Shared::new(vec![]);
        let s1 = sent.clone();
        p.go(async move {
            sleep_ms(1).await;
            let r = m1.delete_topic("a".into()).await;
            ensure!(r.is_ok(), "delete", "{:?}", r);
            let r = m1.create_topic("a".into(), aged(300_000)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            for i in 70..if two { 72 } else { 73 } { let r = m1.publish("a", Bytes::from(body(i, 8))).await; ensure!(r.is_ok(), "publish", "{:?}", r); s1.with(|s| s.push((r.unwrap(), i))); }
            Ok(())
        });
        if two {
            let (m2, s2, n) = (m.clone(), sent.clone(), had as u64);
            p.go(async move {
                sleep_ms(1).await;
                let r = m2.publish("a", Bytes::from(body(72, 8))).await;
                // of the new stream, or of the one that is deleted, or of none
                if let Ok(k) = r { if k <= n || s2.with(|s| !s.is_empty()) { s2.with(|s| s.push((k, 72))); } else { s2.with(|s| s.push((k, 172))); } }
                Ok(())
            });
        }
        p.join(60_000, "creating and deleting a stream").await?;
        set_explore(false);
        for when in ["after it was created again", "a while after it was created again"] {
            quiesce().await;
            let v = m.read("a", 0, 99).await;
            let sent = sent.with(|s| s.clone());
            let must: Vec<u64> = sent.iter().filter(|x| x.1 < 72).map(|x| x.0).collect();
            ensure!(v.iter().enumerate().all(|(i, x)| x.seq == i as u64 + 1) && must.iter().all(|k| v.iter().any(|x| x.seq == *k)), "lost", "{}: published to the stream {:?}, read from its start: {}", when, sent, show(&v));
            for x in &v { ensure!(sent.iter().any(|s| s.0 == x.seq && body(if s.1 > 100 { s.1 - 100 } else { s.1 }, 8)[..] == x.payload), "foreign", "{}: message {} of the stream is {:?}; published to it: {:?}", when, x.seq, x, sent); }
            let h = head_of(&m, "a").await;
            ensure!(h <= 1, "head", "{}: the stream starts at {}", when, h);
            note_state(&(had, two, sent));
            sleep_ms(3 * SAVE).await;
        }
        Ok(())
    })
}
/// A creation or deletion whose caller goes away at any moment.
fn lifecycle_cancelled(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk(LC).await;
        quiesce().await;
        let del = choose(2, "delete") == 1;
        let mut w: World = BTreeMap::new();
        let mut s = S { age: 400_000, log: Log::new(), g: BTreeMap::new() };
        if del {
            let r = m.create_topic("a".into(), aged(400_000)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            use_stream(&m, "a", &mut s, "setup").await?;
            sleep_ms(2 * SAVE).await;
        }
        let again = choose(3, "again");
        quiesce().await;
        let m1 = m.clone();
        set_explore(true);
        let mut p = par();
        let h = tokio::spawn(async move { if del { let _ = m1.delete_topic("a".into()).await; } else { let _ = m1.create_topic("a".into(), aged(400_000)).await; } });
        p.go(async move { sched_point("cancel"); h.abort(); Ok(()) });
        p.join(60_000, "the caller going away").await?;
        if again == 0 { quiesce().await; set_explore(false); }
        if again > 0 { let r = within(10_000, "creating a stream", m.create_topic("a".into(), aged(300_000))).await?; ensure!(r.is_ok(), "create", "{:?}", r); }
        if again == 2 { let r = within(10_000, "deleting a stream", m.delete_topic("a".into())).await?; ensure!(r.is_ok(), "delete", "{:?}", r); }
        set_explore(false);
        quiesce().await;
        if let Some(x) = m.get_snapshot().await.topics.iter().find(|x| x.name == "a") {
            let age = x.config.retention.max_age_ms.unwrap_or(0);
            ensure!(again != 2 || !del, "deleted", "the stream exists after its deletion");
            // the abandoned creation may take effect later than the following requests
            w.insert("a", if age == 400_000 { s } else { S { age, log: Log::new(), g: BTreeMap::new() } });
        }
        ensure!(again != 1 || w.contains_key("a") || del, "created", "the stream does not exist after its creation");
        check_between(&m, &w, &w, "after the caller went away").await?;
        if w.contains_key("a") { use_stream(&m, "a", w.get_mut("a").unwrap(), "afterwards").await?; }
        sleep_ms(2 * SAVE).await;
        quiesce().await;
        check_between(&m, &w, &w, "a while after the caller went away").await?;
        note_state(&(&w, del, again));
        Ok(w)
    }, |e, w| restart_world(e, e.out.io.log.len(), None, w.clone(), w.clone(), w.clone(), "restart after the caller of a creation or deletion went away".into()))
}
/// Two streams used at the same time, a third created and deleted, by the same client in groups of the same name.
fn stream_isolation(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    let thorough = ctx.thorough;
    ctx.run_checked(Plan::default().disk().budget(b).no_time(), move || async move {
        let c = C { cap: 3, ram: 0, files: 1, wait: 600_000, ..BASE };
        let m = mk(c).await;
        quiesce().await;
        let mut ts = vec![];
        for x in ["a", "b"] {
            create(&m, x).await?;
            let mut t = Tr { d: Drv::new(&m, x), s: vec![St::new(c)] };
            t.d.size = 8 + x.as_bytes()[0] as usize % 2;
            for _ in 0..2 { t.step(&Op::Pub, "setup").await?; }
            t.step(&Op::Join { g: "g", c: 0, client: "x" }, "setup").await?;
            t.step(&Op::Fetch { g: "g", c: 0, lim: 1, wait: 0 }, "setup").await?;
            ts.push(t);
        }
        create(&m, "c").await?;
        let _ = m.publish("c", Bytes::from_static(b"c")).await;
        sleep_ms(SAVE - 1 - ms() % SAVE).await;
        quiesce().await;
        let which = if thorough { choose(3, "ops") } else { 2 * choose(2, "ops") };
        let o = |o: Op| Act::Op(o);
        let a = [vec![f("g", 0, 2), Act::AckMine("g", 0), o(Op::Pub)], vec![o(Op::Leave { g: "g", c: 0 }), o(Op::Join { g: "g", c: 1, client: "x" }), f("g", 1, 1)], vec![o(Op::End("g")), o(Op::Pub)]][which].clone();
        let bb = vec![o(Op::Ack { g: "g", c: 0, seq: 1 }), f("g", 0, 2), o(Op::Pub)];
        let hs: [Hist; 2] = [History::new(), History::new()];
        let mut p = par();
        set_explore(true);
        for (i, acts) in [a, bb].into_iter().enumerate() { let (d, h) = (ts[i].d.clone(), hs[i].clone()); p.go(async move { sleep_ms(1).await; run_task(d, h, acts).await }); }
        let m3 = m.clone();
        p.go(async move { sleep_ms(1).await; let _ = m3.delete_topic("c".into()).await; let _ = m3.create_topic("c".into(), aged(300_000)).await; Ok(()) });
        p.join(60_000, "stream operations").await?;
        set_explore(false);
        quiesce().await;
        for i in 0..2 { let t = &mut ts[i]; explained(t, &hs[i], "two streams").await?; note_state(&(i, &t.s)); }
        settle().await;
        for t in &mut ts { t.look("two streams, later").await?; for (s, b) in t.d.sent.with(|s| s.clone()) { let v = m.read(t.d.t, s, 1).await; ensure!(v.len() == 1 && v[0].seq == s && v[0].payload == b[..], "content", "message {} of stream {:?} reads as {:?}", s, t.d.t, v); } }
        let v = m.read("c", 0, 9).await;
        ensure!(v.is_empty(), "resurrected", "the stream created anew holds {}", show(&v));
        for t in &mut ts { t.step(&Op::Begin("g"), "two streams").await?; t.drain("g", "two streams").await?; }
        Ok(())
    })
}

// ---------------------------------------------------------------- T09
fn faults(on: bool) { mcrt::io::set_fault_kinds(on, on); mcrt::io::set_faults(on); }
/// Any storage operation failing, wholly or half way, while messages are stored.
fn log_faults(ctx: &Ctx) -> Report {
    let (b, depth, thorough) = (ctx.pick(1, 2), 3, ctx.thorough);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let two = choose(2, "streams") == 1;
        let c = C { ram: choose(2, "ram"), seg: [70, 1][choose(2, "segment")], files: if two { 1 } else { 8 }, ..BASE };
        let m = mk(c).await;
        create(&m, "t").await?;
        let mut logs: BTreeMap<&'static str, Log> = [("t", Log::new())].into();
        if two { create(&m, "u").await?; logs.insert("u", Log::new()); }
        let pre = choose(2, "pre");
        for l in ["t", "u", "t"] { if pre == 1 { if let Some(g) = logs.get_mut(l) { g.publish(&m, l, 8, "setup").await?; } } }
        settle().await;
        let count = |logs: &BTreeMap<&'static str, Log>| logs.iter().map(|(t, l)| (*t, l.last())).collect::<BTreeMap<_, _>>();
        let mut marks = vec![count(&logs)];
        mcrt::io::mark(1000);
        let fault = |n| if n == 0 { "no storage operation failed yet" } else { "a storage operation failed" };
        for i in 0..depth {
            let op = choose(if two { 3 } else { 2 }, "op");
            let when = format!("step {} ({})", i, ["publish", "a while", "publish to the other"][op]);
            log_event(when.clone());
            faults(true);
            match op { 1 => { sleep_ms(FLUSH).await; quiesce().await; } k => {
                let t = ["t", "", "u"][k];
                logs.get_mut(t).unwrap().publish(&m, t, 8, &when).await?;
                quiesce().await;
                marks.push(count(&logs));
                mcrt::io::mark(marks.len() as u64 - 1);
            } }
            faults(false);
            let n = mcrt::io::with_io(|i| i.faults.len());
            for (t, l) in &logs { check_log(&m, t, l, &format!("{}, {}", when, fault(n))).await?; }
        }
        faults(true);
        sleep_ms(FLUSH).await;
        quiesce().await;
        sleep_ms(EVICT + 5).await;
        quiesce().await;
        faults(false);
        let when = format!("after the failures {:?}", mcrt::io::with_io(|i| i.faults.clone()));
        for (t, l) in &logs { check_log(&m, t, l, &when).await?; }
        if choose(2, "more") == 1 { logs.get_mut("t").unwrap().publish(&m, "t", 9, &when).await?; marks.push(count(&logs)); mcrt::io::mark(marks.len() as u64 - 1); }
        settle().await;
        settle().await;
        mcrt::io::mark(1000 + marks.len() as u64 - 1);
        for (t, l) in &logs { check_log(&m, t, l, &when).await?; }
        note_state(&logs);
        Ok((c, logs, marks))
    }, move |e, (c, logs, marks)| crash_points(e, *c, logs, marks, if thorough { Some(false) } else { None }).into_iter().map(|v| Violation { sig: v.sig, msg: format!("{}; failures: {:?}", v.msg, e.out.io.faults) }).collect())
}
/// Reading from disk fails: a reader or member gets less, never a later message first.
fn cold_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run_checked(Plan::default().disk().budget(b), move || async move {
        let c = C { ram: 0, cap: 9, seg: [70, 1][choose(2, "segment")], ..BASE };
        let mut t = groups(c, true, 5, &[("g", 0, "x")]).await?;
        let mut log = Log::new();
        for x in t.d.m.read("t", 1, 100).await { log.v.push((x.timestamp, x.payload.to_vec())); }
        ensure!(log.last() == 5, "setup", "only {} messages", log.last());
        let from = 1 + choose(4, "from") as u64;
        let lim = [2, 9][choose(2, "limit")];
        faults(true);
        let r = t.d.m.read("t", from, lim).await;
        faults(false);
        let failed = mcrt::io::with_io(|i| i.faults.clone());
        ensure!(r.len() <= lim && is_run(&r, &log, from), "read", "failures {:?}: a read from {} returned {}", failed, from, show(&r));
        for i in 0..2 {
            let op = Op::Fetch { g: "g", c: 0, lim, wait: [0, 100][choose(2, "wait")] };
            faults(true);
            let r = t.d.exec(&op).await?;
            faults(false);
            let failed = mcrt::io::with_io(|i| i.faults.clone());
            let n: Vec<St> = t.s.iter().filter_map(|s| if failed.is_empty() { s.apply(&op, &r, ms(), true) } else if r == Ret::Refused { Some(s.clone()) } else { s.apply(&op, &r, ms(), false) }).collect();
            ensure!(!n.is_empty(), "result", "failures {:?}: {:?} returned {:?} in state {:?}", failed, op, r, t.s);
            t.s = n;
            t.look(&format!("fetch {}, failures {:?}", i, failed)).await?;
        }
        note_state(t.one());
        check_log(&t.d.m, "t", &log, "afterwards").await?;
        t.drain("g", "afterwards").await
    })
}
/// Removing a file fails: what is left has no hole.
fn retention_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 3);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let (bytes, age) = [(130, FOREVER), (FOREVER, 500), (130, 500)][choose(3, "limits")];
        let c = C { seg: [70, 1][choose(2, "segment")], bytes, age, check: 50, ram: choose(2, "ram"), cap: 9, maxd: 9, wait: 600_000, files: 8 };
        let m = mk(c).await;
        create(&m, "t").await?;
        let mut log = Log::new();
        let mut t = Tr { d: Drv::new(&m, "t"), s: vec![St::new(c)] };
        t.step(&Op::Join { g: "g", c: 0, client: "x" }, "setup").await?;
        for _ in 0..6 { log.publish(&m, "t", 8, "setup").await?; }
        let done = choose(2, "stored before") == 1;
        if done { sleep_ms(FLUSH).await; quiesce().await; }
        faults(true);
        sleep_ms(if age == FOREVER { 60 } else { 600 }).await;
        quiesce().await;
        faults(false);
        for k in 0..2 {
            let failed = mcrt::io::with_io(|i| i.faults.clone());
            let when = format!("failures {:?}{}", failed, ["", ", later"][k]);
            let h = head_of(&m, "t").await.max(1);
            retention_ok(&log, h, c, k == 1 || failed.is_empty(), &when)?;
            log.head = h;
            check_log(&m, "t", &log, &when).await?;
            if k == 1 { break; }
            settle().await;
            sleep_ms(60).await;
            quiesce().await;
        }
        // a member reads all of it
        let Ret::Msgs(v) = t.d.exec(&Op::Fetch { g: "g", c: 0, lim: 9, wait: 0 }).await? else { return viol("refused", "a member was refused") };
        let mut v = v;
        while let Ret::Msgs(w) = t.d.exec(&Op::Fetch { g: "g", c: 0, lim: 9, wait: 0 }).await? { if w.is_empty() { break; } v.extend(w); }
        ensure!(v == (log.head..=log.last()).collect::<Vec<_>>(), "member", "the log is {}..={}, a member was delivered {:?}", log.head, log.last(), v);
        note_state(&log);
        Ok((c, log))
    }, |e, (c, log)| {
        let (c, log) = (C { bytes: FOREVER, age: FOREVER, ..*c }, log.clone());
        let f = e.out.io.faults.clone();
        restart(e, e.out.io.log.len(), None, 0, move || Box::pin(async move {
            let m = mk(C { check: FOREVER, ..c }).await;
            check_log(&m, "t", &log, &format!("restart after the failures {:?}", f)).await
        })).0
    })
}
/// Saving positions fails: they are saved later.
fn position_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let c = C { cap: 9, maxd: 5, wait: 600_000, ram: choose(2, "ram"), ..BASE };
        let mut t = groups(c, true, 3, &[("g", 0, "x"), ("h", 1, "x")]).await?;
        t.step(&Op::Fetch { g: "g", c: 0, lim: 3, wait: 0 }, "setup").await?;
        t.step(&Op::Ack { g: "g", c: 0, seq: 1 }, "setup").await?;
        if choose(2, "saved before") == 1 { sleep_ms(2 * SAVE).await; quiesce().await; t.step(&Op::Ack { g: "g", c: 0, seq: 2 }, "setup").await?; }
        let what = choose(5, "what");
        let mut states = vec![t.one().clone()];
        faults(true);
        sleep_ms(SAVE + 5).await;
        quiesce().await;
        faults(false);
        match what { 0 => {} 1 => { t.step(&Op::Ack { g: "g", c: 0, seq: 3 }, "then").await?; } 2 => { t.step(&Op::Begin("g"), "then").await?; } 3 => { t.step(&Op::Pub, "then").await?; }
            _ => {
                // the positions that could not be saved are those of a stream that is gone
                let r = t.d.m.delete_topic("t".into()).await;
                ensure!(r.is_ok(), "delete", "{:?}", r);
                create(&t.d.m, "t").await?;
                sleep_ms(2 * SAVE).await;
                quiesce().await;
                for _ in 0..3 { let r = t.d.m.publish("t", Bytes::from_static(b"new")).await; ensure!(r.is_ok(), "publish", "{:?}", r); }
                settle().await;
                return Ok((c, None, Default::default()));
            }
        }
        states.push(t.one().clone());
        t.look("after the failure").await?;
        sleep_ms(2 * SAVE).await;
        quiesce().await;
        note_state(t.one());
        let sent = t.d.sent.with(|s| s.clone());
        Ok((c, Some(t.one().clone()), sent))
    }, |e, (c, s, sent)| {
        let when = format!("restart after the failures {:?}", e.out.io.faults);
        let c = *c;
        match s {
            Some(s) => resume(e, e.out.io.log.len(), None, c, vec![s.clone()], sent.clone(), when),
            None => restart(e, e.out.io.log.len(), None, 0, move || Box::pin(async move {
                let m = mk(c).await;
                let sn = m.get_snapshot().await;
                let Some(x) = sn.topics.iter().find(|x| x.name == "t") else { return viol("gone", format!("{}: the stream created anew is gone", when)) };
                ensure!(x.groups.is_empty() && x.last_seq == 3, "groups", "{}: a stream created anew with three messages ends at {} and has {} groups", when, x.last_seq, x.groups.len());
                Ok(())
            })).0,
        }
    })
}
/// Deleting fails half way: it says so and can be repeated, or it is done for good.
fn delete_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let c = C { ram: 0, ..BASE };
        let m = mk(c).await;
        let mut logs: BTreeMap<&'static str, Log> = BTreeMap::new();
        for t in ["t", "u"] { create(&m, t).await?; let mut l = Log::new(); for _ in 0..3 { l.publish(&m, t, 8, "setup").await?; } logs.insert(t, l); }
        let stored = choose(2, "stored") == 1;
        if stored { settle().await; }
        faults(true);
        let r = m.delete_topic("t".into()).await;
        quiesce().await;
        faults(false);
        let failed = mcrt::io::with_io(|i| i.faults.clone());
        ensure!(r.is_ok() || !failed.is_empty(), "delete", "deleting failed: {:?}", r);
        if r.is_err() { let r = m.delete_topic("t".into()).await; ensure!(r.is_ok(), "delete", "failures {:?}: deleting again failed: {:?}", failed, r); }
        ensure!(m.publish("t", Bytes::from("x")).await.is_err() && !m.exists("t").await, "deleted", "failures {:?}: the deleted stream still takes messages", failed);
        settle().await;
        let again = choose(2, "again") == 1;
        logs.insert("t", Log::new());
        if again { create(&m, "t").await?; let mut l = Log::new(); check_log(&m, "t", &l, "created again").await?; l.publish(&m, "t", 9, "created again").await?; logs.insert("t", l); settle().await; }
        for (t, l) in &logs { if *t == "u" || again { check_log(&m, t, l, &format!("failures {:?}", failed)).await?; } }
        note_state(&(again, failed.len()));
        Ok((c, logs, again))
    }, |e, (c, logs, again)| {
        let (c, logs, again, f) = (*c, logs.clone(), *again, e.out.io.faults.clone());
        restart(e, e.out.io.log.len(), None, 0, move || Box::pin(async move {
            let m = mk(c).await;
            let when = format!("restart after the failures {:?}", f);
            if !again { ensure!(!m.exists("t").await, "revived", "{}: the deleted stream is back", when); }
            for (t, l) in &logs { if *t == "u" || again { check_log(&m, t, l, &when).await?; } }
            Ok(())
        })).0
    })
}
/// The storage cannot be read, or repaired, when the server starts: the stream
/// is either served completely or not at all, and nothing of it is lost.
fn startup_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let c = C { cap: 9, ram: choose(2, "ram"), seg: [70, 1][choose(2, "segment")], wait: 600_000, maxd: 9, ..BASE };
        let torn = choose(2, "torn") == 1;
        let mut t = Tr { d: Drv::new(&mk(c).await, "t"), s: vec![St::new(c)] };
        let ret = RetentionOptions { max_age_ms: Some(777_000), max_bytes: Some(12_345) };
        let r = t.d.m.create_topic("t".into(), StreamCreateOptions { retention: Some(ret.clone()) }).await;
        ensure!(r.is_ok(), "create", "{:?}", r);
        quiesce().await;
        t.step(&Op::Join { g: "g", c: 0, client: "x" }, "setup").await?;
        for _ in 0..3 { t.step(&Op::Pub, "setup").await?; }
        t.step(&Op::Fetch { g: "g", c: 0, lim: 3, wait: 0 }, "setup").await?;
        t.step(&Op::Ack { g: "g", c: 0, seq: 1 }, "setup").await?;
        sleep_ms(2 * SAVE).await;
        quiesce().await;
        let mut log = Log::new();
        for x in t.d.m.read("t", 1, 100).await { log.v.push((x.timestamp, x.payload.to_vec())); }
        ensure!(log.last() == 3, "setup", "only {} messages", log.last());
        let stop = |m: &StreamManager| m.shutdown();
        stop(&t.d.m);
        drop(t);
        sleep_ms(1).await;
        quiesce().await;
        if torn {
            // as a crash leaves it
            let f = root().join("s").join("t").join("3.log");
            let mut b = std::fs::read(&f).expect("the last file");
            b.extend([0, 0, 0, 24, 9, 9, 9]);
            std::fs::write(&f, b).expect("the last file");
        }
        faults(true);
        let m = mk(c).await;
        quiesce().await;
        faults(false);
        let failed = mcrt::io::with_io(|i| i.faults.clone());
        let when = format!("failures {:?}", failed);
        let mut created = false;
        if !m.exists("t").await {
            ensure!(!failed.is_empty(), "gone", "the stream is not there");
            let r = m.publish("t", Bytes::from("x")).await;
            ensure!(r.is_err(), "published", "{}: the stream is not there and takes messages: {:?}", when, r);
            if choose(2, "create") == 1 {
                let r = m.create_topic("t".into(), StreamCreateOptions::default()).await;
                ensure!(r.is_ok(), "create", "{}: {:?}", when, r);
                created = true;
            }
        }
        let check = move |m: StreamManager, log: Log, when: String| async move {
            check_log(&m, "t", &log, &when).await?;
            let sn = m.get_snapshot().await;
            let Some(x) = sn.topics.iter().find(|x| x.name == "t") else { return viol("gone", when) };
            ensure!(x.config.retention.max_age_ms == Some(777_000) && x.config.retention.max_bytes == Some(12_345), "settings", "{}: the stream has the limits {:?}", when, x.config.retention);
            let g: Vec<_> = x.groups.iter().map(|g| (g.id.clone(), g.ack_floor)).collect();
            ensure!(g == vec![("g".to_string(), 1)], "position", "{}: the groups are at {:?}", when, g);
            Ok(())
        };
        if m.exists("t").await {
            check(m.clone(), log.clone(), when.clone()).await?;
            for _ in 0..2 { log.publish(&m, "t", 9, &when).await?; }
            settle().await;
            check(m.clone(), log.clone(), format!("{}, published more", when)).await?;
        }
        sleep_ms(SAVE * 2).await;
        stop(&m);
        drop(m);
        sleep_ms(1).await;
        quiesce().await;
        let m = mk(c).await;
        let when = format!("{}, restart", when);
        ensure!(m.exists("t").await, "gone", "{}: the stream is gone", when);
        check(m.clone(), log.clone(), when.clone()).await?;
        log.publish(&m, "t", 9, &when).await?;
        note_state(&(log.last(), created));
        settle().await;
        check(m, log, when).await
    }, |_, _| vec![])
}

fn main() {
    main_with("h_stream", vec![
        Prop { id: "T01", assumptions: vec!["up to 7 messages per history, of three sizes, files of one or two messages; up to three publishers of two messages"], scenarios: vec![
            scn("log_histories", "all short histories of publishes and waits; every position read after every step, and after a restart", log_histories),
            scn("publish_race", "interleavings of publishers and a reader, in memory", |c| race(c, false)),
            scn("disk_race", "interleavings of publishers, a reader, the flush and the eviction round, then a restart", |c| race(c, true)),
        ]},
        Prop { id: "T02", assumptions: vec!["storage operations reach the disk in order; the last one may be torn at any byte"], scenarios: vec![
            scn("crash_histories", "every crash point and torn write of every short history, then more messages and a second restart", crash_histories),
            scn("crash_two", "the same for two streams sharing few open files", crash_two),
            scn("crash_race", "every crash point while several clients publish", crash_race),
        ]},
        Prop { id: "T03", assumptions: vec!["one stream, two groups, up to three members at once, up to five messages; overdue messages are noticed up to 100 ms late", "the order among messages to be delivered again is not prescribed"], scenarios: vec![
            scn("group_histories", "all short histories of publish, fetch, ack, join, leave and waits against a reference group", |c| group_histories(c, false)),
            scn("cold_histories", "the same with all messages already on disk only", |c| group_histories(c, true)),
            scn("two_groups", "all short histories of two groups", two_groups),
            scn("group_race", "interleavings of members, publishers, departures and the redelivery sweep; some order must explain every outcome", |c| group_race(c, false)),
            scn("cold_race", "the same while messages are read from disk", |c| group_race(c, true)),
        ]},
        Prop { id: "T04", assumptions: vec!["two groups, up to five messages; positions are saved at intervals, a crash may lose what was acknowledged since", "storage operations reach the disk in order; the last one may be torn"], scenarios: vec![
            scn("resume_histories", "every crash point of every short history of fetches, acks, seeks, publishes and saves", resume_histories),
            scn("save_race", "acknowledgements and seeks while positions are saved, then a restart", save_race),
            scn("group_names", "group names of every kind over a restart", group_names),
        ]},
        Prop { id: "T05", assumptions: vec!["one stream, one group, two clients, up to three members; up to four messages"], scenarios: vec![
            scn("fence_histories", "all short histories with seeks, departures and requests of former members", |c| fence_histories(c, false)),
            scn("cold_fence_histories", "the same with all messages on disk only", |c| fence_histories(c, true)),
            scn("many_bindings", "a client with many memberships in two groups of two streams goes away", many_bindings),
            scn("fence_race", "seeks and departures racing with fetches, acks and joins", |c| fence_race(c, false)),
            scn("cold_fence_race", "the same while messages are read from disk", |c| fence_race(c, true)),
        ]},
        Prop { id: "T06", assumptions: vec!["records take 24 bytes beside the payload; files hold one or two messages; the newest file is never removed", "file modification times follow the clock"], scenarios: vec![
            scn("retention_histories", "all short histories of publishes, waits, fetches and acks under size and age limits, with a restart at every removal", retention_histories),
            scn("retention_crash", "every crash point and torn write while files are filled, then the rest expires, then another restart", retention_crash),
            scn("retention_race", "retention removing files while members, readers and a publisher are active", retention_race),
        ]},
        Prop { id: "T07", assumptions: vec!["up to two waiting consumers and two messages; an overdue message is noticed up to 100 ms late"], scenarios: vec![
            scn("prompt", "a message becoming available in every way while consumers wait: served at once, not at the deadline", prompt),
            scn("wakeups", "the same with the deadlines racing", wakeups),
            scn("cancelled", "a waiting fetch dropped at every moment", |c| cancelled(c, false)),
            scn("cold_cancelled", "a fetch dropped at every moment of reading from disk", |c| cancelled(c, true)),
            scn("room", "consumers waiting while their group is at its limit of unacknowledged messages: they stay until there is room and then go on at once", room),
            scn("fan_out", "consumers of several groups waiting on one stream: a message reaches each", fan_out),
            scn("cold_prompt", "several consumers waiting for messages that are on disk: each is served, none sent away empty", cold_prompt),
            scn("fetch_extremes", "waits, limits and capacities of every magnitude", fetch_extremes),
        ]},
        Prop { id: "T08", assumptions: vec!["up to three streams; other name shapes are in W04", "storage operations reach the disk in order; the last one may be torn"], scenarios: vec![
            scn("lifecycle_histories", "all short histories of create, create again, delete and use of two streams; every crash point and torn write of the last step", lifecycle_histories),
            scn("lifecycle_race", "deletion, creation and use of one stream at the same time, while positions are saved and retention runs; then a restart", lifecycle_race),
            scn("lifecycle_retention", "a stream deleted, created again with wider limits and written to, while files are removed under the old limits", lifecycle_retention),
            scn("lifecycle_cancelled", "a creation or deletion whose caller goes away at every moment", lifecycle_cancelled),
            scn("stream_isolation", "two streams used while a third is deleted and created", stream_isolation),
        ]},
        Prop { id: "T09", assumptions: vec!["one storage operation fails (two, or three removals, in the thorough tier): opening, creating, reading, writing (wholly or half way), cutting, renaming or removing a file; later ones work"], scenarios: vec![
            scn("log_faults", "every storage operation of short histories failing once while messages are stored; every crash point of it", log_faults),
            scn("cold_faults", "every operation failing while messages are read from disk", cold_faults),
            scn("retention_faults", "every operation failing while files are removed", retention_faults),
            scn("position_faults", "every operation failing while positions are saved", position_faults),
            scn("delete_faults", "every operation failing while a stream is deleted", delete_faults),
            scn("startup_faults", "every operation failing while the server starts", startup_faults),
        ]},
    ]);
}
