//! Queues (Q01–Q05).
use bytes::Bytes;
use harness::*;
use mcrt::io::IoOp;
use nexo::brokers::queue::config::SystemQueueConfig;
use nexo::brokers::queue::domain::queue::Message;
use nexo::brokers::queue::options::QueueCreateOptions;
use nexo::brokers::queue::QueueManager;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::Arc;
use uuid::Uuid;

const FLUSH: u64 = 30;
/// the sweep for expired messages may be this late
const TICK: u64 = 50;

fn cfg(path: &str) -> Arc<SystemQueueConfig> {
    let mut c = SystemQueueConfig::default();
    c.persistence_path = path.to_string();
    c.default_flush_ms = FLUSH;
    c.writer_batch_size = 64;
    Arc::new(c)
}
fn mk() -> QueueManager { QueueManager::new(cfg(root().join("q").to_str().unwrap())) }
/// nothing can be stored here: the same code without the cost of the database
fn mk_mem() -> QueueManager { QueueManager::new(cfg("/dev/null/q")) }
fn opts(vt: u64, maxr: u32) -> QueueCreateOptions { QueueCreateOptions { visibility_timeout_ms: Some(vt), max_retries: Some(maxr) } }
fn ms() -> u64 { now_ns() / 1_000_000 }

// ---------------------------------------------------------------- model
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M { k: u32, prio: u8, att: u32 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct D { k: u32, prio: u8, att: u32, why: String }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Q { vt: u64, maxr: u32, ready: BTreeMap<u8, Vec<M>>, held: Vec<(M, u64)>, dlq: Vec<D> }
#[derive(Clone, Debug)]
enum Op { Push(u32, u8), Pop, Batch(usize), Ack(u32), Nack(u32, &'static str), Move(u32), Del(u32), Purge, Expire(u32) }
#[derive(Clone, Debug, PartialEq)]
enum Ret { Unit, Msgs(Vec<M>), Bool(bool), Count(usize) }

impl Q {
    fn new(vt: u64, maxr: u32) -> Q { Q { vt, maxr, ready: BTreeMap::new(), held: vec![], dlq: vec![] } }
    fn add(&mut self, m: M) { self.ready.entry(m.prio).or_default().push(m); }
    fn pop(&mut self, now: u64) -> Option<M> {
        let p = *self.ready.iter().rev().find(|(_, v)| !v.is_empty())?.0;
        let mut m = self.ready.get_mut(&p).unwrap().remove(0);
        m.att += 1;
        self.held.push((m.clone(), now.saturating_add(self.vt)));
        self.norm();
        Some(m)
    }
    fn norm(&mut self) { self.ready.retain(|_, v| !v.is_empty()); }
    fn take_ready(&mut self, k: u32) -> Option<M> {
        for v in self.ready.values_mut() { if let Some(i) = v.iter().position(|m| m.k == k) { let m = v.remove(i); self.norm(); return Some(m); } }
        None
    }
    fn take_held(&mut self, k: u32) -> Option<M> { self.held.iter().position(|(m, _)| m.k == k).map(|i| self.held.remove(i).0) }
    fn fail(&mut self, m: M, why: &str) {
        if m.att >= self.maxr { self.dlq.push(D { k: m.k, prio: m.prio, att: m.att, why: why.into() }); } else { self.add(m); }
    }
    /// everything whose time is over, in the order it ran out
    fn expire_all(&mut self, now: u64) {
        let mut e: Vec<_> = self.held.iter().filter(|h| h.1 <= now).cloned().collect();
        self.held.retain(|h| h.1 > now);
        e.sort_by_key(|h| h.1);
        for (m, _) in e { self.fail(m, "Timeout"); }
    }
    fn len(&self) -> usize { self.ready.values().map(|v| v.len()).sum::<usize>() }
    fn heldk(&self) -> Vec<M> { let mut v: Vec<M> = self.held.iter().map(|h| h.0.clone()).collect(); v.sort_by_key(|m| m.k); v }
    fn all(&self) -> Vec<u32> { let mut v: Vec<u32> = self.ready.values().flatten().map(|m| m.k).chain(self.held.iter().map(|h| h.0.k)).chain(self.dlq.iter().map(|d| d.k)).collect(); v.sort(); v }
    /// All (result, next state) pairs the statement of the properties allows.
    fn step(&self, op: &Op, now: u64) -> Vec<(Ret, Q)> {
        let mut q = self.clone();
        match op {
            Op::Push(k, p) => { q.add(M { k: *k, prio: *p, att: 0 }); vec![(Ret::Unit, q)] }
            Op::Pop => { let m = q.pop(now); vec![(Ret::Msgs(m.into_iter().collect()), q)] }
            Op::Batch(n) => { let mut v = vec![]; while v.len() < *n { match q.pop(now) { Some(m) => v.push(m), None => break } } vec![(Ret::Msgs(v), q)] }
            Op::Ack(k) => {
                if q.take_held(*k).is_some() { return vec![(Ret::Bool(true), q)]; }
                // a late acknowledgement of a message that is available again may still count
                let same = (Ret::Bool(false), self.clone());
                if q.take_ready(*k).is_some() { return vec![(Ret::Bool(true), q), same]; }
                vec![same]
            }
            Op::Nack(k, why) => {
                if let Some(m) = q.take_held(*k) { q.fail(m, why); return vec![(Ret::Bool(true), q)]; }
                let mut v = vec![(Ret::Bool(false), self.clone())];
                if let Some(m) = q.ready.values().flatten().find(|m| m.k == *k).cloned() {
                    if m.att >= q.maxr { q.take_ready(*k); q.fail(m, why); }
                    v.push((Ret::Bool(true), q));
                }
                v
            }
            Op::Move(k) => match q.dlq.iter().position(|d| d.k == *k) {
                Some(i) => { let d = q.dlq.remove(i); q.add(M { k: d.k, prio: d.prio, att: 0 }); vec![(Ret::Bool(true), q)] }
                None => vec![(Ret::Bool(false), q)],
            },
            Op::Del(k) => match q.dlq.iter().position(|d| d.k == *k) { Some(i) => { q.dlq.remove(i); vec![(Ret::Bool(true), q)] } None => vec![(Ret::Bool(false), q)] },
            Op::Purge => { let n = q.dlq.len(); q.dlq.clear(); vec![(Ret::Count(n), q)] }
            Op::Expire(k) => {
                if q.held.iter().any(|h| h.0.k == *k && h.1 <= now) { let m = q.take_held(*k).unwrap(); q.fail(m, "Timeout"); }
                vec![(Ret::Unit, q)]
            }
        }
    }
}

// ---------------------------------------------------------------- real side
fn payload(k: u32) -> Bytes { Bytes::from(format!("message-{}", k)) }
fn key(b: &[u8]) -> R<u32> {
    match std::str::from_utf8(b).ok().and_then(|s| s.strip_prefix("message-")).and_then(|s| s.parse().ok()) { Some(k) => Ok(k), None => viol("payload", format!("payload {:?} was never pushed", String::from_utf8_lossy(b))) }
}
fn conv(m: &Message) -> R<M> { Ok(M { k: key(&m.payload)?, prio: m.priority, att: m.attempts }) }

#[derive(Clone)]
struct Drv { m: QueueManager, q: String, ids: Arc<Shared<HashMap<u32, Uuid>>> }
impl Drv {
    fn new(m: &QueueManager, q: &str) -> Drv { Drv { m: m.clone(), q: q.into(), ids: Shared::new(HashMap::new()) } }
    fn id(&self, k: u32) -> Uuid { self.ids.with(|m| m.get(&k).copied()).unwrap_or(Uuid::from_u128(k as u128 + 1)) }
    fn learn(&self, v: &[Message]) -> R<Vec<M>> {
        let mut out = vec![];
        for m in v {
            let c = conv(m)?;
            let old = self.ids.with(|h| h.insert(c.k, m.id));
            ensure!(old.map(|o| o == m.id).unwrap_or(true), "identity", "message {} changed its id", c.k);
            out.push(c);
        }
        Ok(out)
    }
    async fn exec(&self, op: &Op) -> R<Ret> {
        let (m, q) = (&self.m, self.q.clone());
        Ok(match op {
            Op::Push(k, p) => { let r = m.push(q, payload(*k), *p).await; ensure!(r.is_ok(), "push", "push failed: {:?}", r); Ret::Unit }
            Op::Pop => { let r = m.pop(&q).await; Ret::Msgs(self.learn(&r.into_iter().collect::<Vec<_>>())?) }
            Op::Batch(n) => match m.consume_batch(q, Some(*n), Some(0)).await { Ok(v) => Ret::Msgs(self.learn(&v)?), Err(e) => return viol("batch", format!("consume failed: {}", e)) },
            Op::Ack(k) => Ret::Bool(m.ack(&q, self.id(*k)).await),
            Op::Nack(k, w) => Ret::Bool(m.nack(&q, self.id(*k), w.to_string()).await),
            Op::Move(k) => match m.move_to_queue(&q, self.id(*k)).await { Ok(b) => Ret::Bool(b), Err(e) => return viol("dlq", e) },
            Op::Del(k) => match m.delete_dlq(&q, self.id(*k)).await { Ok(b) => Ret::Bool(b), Err(e) => return viol("dlq", e) },
            Op::Purge => match m.purge_dlq(&q).await { Ok(n) => Ret::Count(n), Err(e) => return viol("dlq", e) },
            Op::Expire(_) => Ret::Unit,
        })
    }
    /// What the queue holds according to its listings: available messages in
    /// order, held ones, dead-lettered ones (oldest first).
    async fn observe(&self) -> R<(BTreeMap<u8, Vec<M>>, Vec<M>, Vec<D>)> {
        let mut ready: BTreeMap<u8, Vec<M>> = BTreeMap::new();
        let mut held = vec![];
        for (f, is_ready) in [("pending", true), ("inflight", false)] {
            let Some((n, v)) = self.m.get_messages(self.q.clone(), f.into(), 0, 10_000, None).await else { return viol("gone", format!("queue {:?} does not exist", self.q)) };
            ensure!(n == v.len(), "listing", "listing says {} {} messages and shows {}", n, f, v.len());
            for p in v {
                let m = M { k: key(&p.payload)?, prio: p.priority, att: p.attempts };
                let old = self.ids.with(|h| h.insert(m.k, p.id));
                ensure!(old.map(|o| o == p.id).unwrap_or(true), "identity", "message {} changed its id", m.k);
                if is_ready { ready.entry(m.prio).or_default().push(m) } else { held.push(m) }
            }
        }
        held.sort_by_key(|m| m.k);
        let (n, v) = match self.m.peek_dlq(&self.q, 10_000, 0).await { Ok(x) => x, Err(e) => return viol("gone", e) };
        ensure!(n == v.len(), "dlq", "dead-letter queue says {} messages and shows {}", n, v.len());
        let mut dlq = vec![];
        for d in v.iter().rev() {
            let k = key(&d.payload)?;
            let old = self.ids.with(|h| h.insert(k, d.id));
            ensure!(old.map(|o| o == d.id).unwrap_or(true), "identity", "message {} changed its id", k);
            dlq.push(D { k, prio: d.priority, att: d.attempts, why: d.failure_reason.clone() });
        }
        // each message is in one place only
        let mut all: Vec<u32> = ready.values().flatten().map(|m| m.k).chain(held.iter().map(|m| m.k)).chain(dlq.iter().map(|d| d.k)).collect();
        all.sort();
        ensure!(all.windows(2).all(|w| w[0] != w[1]), "duplicate", "a message is in two places: available {:?} held {:?} dead {:?}", ready, held, dlq);
        let s = self.m.get_snapshot().await;
        let Some(s) = s.iter().find(|s| s.name == self.q) else { return viol("snapshot", format!("queue {:?} is missing in the listing", self.q)) };
        let rn: usize = ready.values().map(|v| v.len()).sum();
        ensure!((s.pending, s.inflight, s.dlq) == (rn, held.len(), dlq.len()), "snapshot", "counts {:?} differ from contents {:?}", (s.pending, s.inflight, s.dlq), (rn, held.len(), dlq.len()));
        Ok((ready, held, dlq))
    }
    async fn matches(&self, q: &Q, when: &str) -> R<()> {
        let (r, h, d) = self.observe().await?;
        ensure!(r == q.ready, "state", "{}: available messages {:?}, expected {:?}", when, r, q.ready);
        ensure!(h == q.heldk(), "state", "{}: held messages {:?}, expected {:?}", when, h, q.heldk());
        ensure!(d == q.dlq, "state", "{}: dead letters {:?}, expected {:?}", when, d, q.dlq);
        Ok(())
    }
    /// do `op`, check the result, move the model along
    async fn step(&self, q: &mut Q, op: &Op, when: &str) -> R<()> {
        let r = self.exec(op).await?;
        let opts = q.step(op, ms());
        match opts.iter().find(|(x, _)| *x == r) {
            Some((_, n)) => *q = n.clone(),
            None => return viol("result", format!("{}: {:?} returned {:?}, expected {:?}", when, op, r, opts.iter().map(|o| &o.0).collect::<Vec<_>>())),
        }
        Ok(())
    }
    async fn drain(&self, q: &mut Q, when: &str) -> R<()> {
        for _ in 0..q.len() + 1 { self.step(q, &Op::Pop, when).await?; }
        Ok(())
    }
}

async fn fresh(m: &QueueManager, vt: u64, maxr: u32) -> R<(Drv, Q)> { fresh_named(m, "jobs", vt, maxr).await }
async fn fresh_named(m: &QueueManager, n: &str, vt: u64, maxr: u32) -> R<(Drv, Q)> {
    let r = m.create_queue(n.into(), opts(vt, maxr)).await;
    ensure!(r.is_ok(), "create", "create failed: {:?}", r);
    quiesce().await;
    Ok((Drv::new(m, n), Q::new(vt, maxr)))
}

// ---------------------------------------------------------------- Q01
fn order_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(6, 8);
    ctx.run_checked(Plan::default(), move || async move {
        let m = mk_mem();
        let (d, mut q) = fresh(&m, 60_000, 3).await?;
        let mut n = 0;
        for i in 0..depth {
            let mut ops = vec![Op::Push(n, 0), Op::Push(n, 7), Op::Push(n, 255), Op::Pop, Op::Batch(2)];
            if let Some(h) = q.held.first() { ops.push(Op::Ack(h.0.k)); ops.push(Op::Nack(h.0.k, "r")); }
            if q.held.len() > 1 { ops.push(Op::Nack(q.held.last().unwrap().0.k, "r")); }
            let op = ops[choose(ops.len(), "op")].clone();
            if let Op::Push(..) = op { n += 1; }
            let when = format!("step {}", i);
            log_event(format!("{} {:?}", when, op));
            d.step(&mut q, &op, &when).await?;
            d.matches(&q, &when).await?;
            note_state(&q);
        }
        d.drain(&mut q, "at the end").await?;
        d.matches(&q, "at the end").await
    })
}

/// Operation sequences of the tasks of a concurrent scenario; `None` means "the
/// message this task got last".
#[derive(Clone, Debug)]
enum Act { Op(Op), AckMine, NackMine }

async fn run_task(d: Drv, h: Arc<Shared<History<Op, Ret>>>, acts: Vec<Act>) -> R<()> {
    let mut mine: Vec<u32> = vec![];
    for a in acts {
        let op = match a {
            Act::Op(o) => o,
            Act::AckMine => match mine.pop() { Some(k) => Op::Ack(k), None => continue },
            Act::NackMine => match mine.pop() { Some(k) => Op::Nack(k, "mine"), None => continue },
        };
        let i = h.begin(op.clone());
        let r = d.exec(&op).await?;
        if let Ret::Msgs(v) = &r { mine.extend(v.iter().map(|m| m.k)); }
        h.end(i, r);
        sched_point("between operations");
    }
    Ok(())
}

/// Some order of the operations explains all results and the final state.
async fn explained(d: &Drv, q0: &Q, h: &Arc<Shared<History<Op, Ret>>>, now: u64, what: &str) -> R<Q> {
    let (r, held, dlq) = d.observe().await?;
    let ops = h.with(|h| h.ops.clone());
    let found = std::cell::RefCell::new(None);
    let ok = linearizable(&ops, q0, &|s: &Q, o: &Op| s.step(o, now), &|s: &Q| {
        let y = s.ready == r && s.heldk() == held && s.dlq == dlq;
        if y { *found.borrow_mut() = Some(s.clone()); }
        y
    });
    ensure!(ok, "not-atomic", "{}: no order of {:?} starting from {:?} leads to available {:?} held {:?} dead {:?}", what, ops.iter().map(|o| (&o.op, &o.ret)).collect::<Vec<_>>(), q0, r, held, dlq);
    let q = found.borrow().clone().unwrap();
    Ok(q)
}

fn concurrent(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        let (d, mut q) = fresh(&m, 60_000, 1).await?;
        for k in 0..choose(3, "pre") as u32 { d.step(&mut q, &Op::Push(k, [0, 3][k as usize]), "setup").await?; }
        let o = |o: Op| Act::Op(o);
        let a = [vec![o(Op::Push(10, 0)), o(Op::Push(11, 3))], vec![o(Op::Push(10, 3)), o(Op::Pop), Act::NackMine]][choose(2, "a")].clone();
        let b = [vec![o(Op::Pop), Act::AckMine, o(Op::Pop)], vec![o(Op::Batch(2)), Act::NackMine, Act::AckMine]][choose(2, "b")].clone();
        let c = [vec![o(Op::Pop), Act::NackMine], vec![o(Op::Batch(1)), o(Op::Batch(2))], vec![o(Op::Push(20, 0)), o(Op::Purge)]][choose(3, "c")].clone();
        let h = History::new();
        let mut p = par();
        set_explore(true);
        for t in [a, b, c] { p.go(run_task(d.clone(), h.clone(), t)); }
        p.join(60_000, "queue operations").await?;
        set_explore(false);
        quiesce().await;
        let mut q = explained(&d, &q, &h, ms(), "concurrent use").await?;
        d.drain(&mut q, "afterwards").await?;
        note_state(&q);
        Ok(())
    })
}

// ---------------------------------------------------------------- Q02
/// Sleeps are such that no deadline falls into the sweep's tolerance.
fn state_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(6, 7);
    ctx.run_checked(Plan::default(), move || async move {
        let m = mk_mem();
        let maxr = [1u32, 2, 0][choose(3, "maxr")];
        let (d, mut q) = fresh(&m, 100, maxr).await?;
        d.step(&mut q, &Op::Push(0, 0), "setup").await?;
        d.step(&mut q, &Op::Push(1, 5), "setup").await?;
        let mut n = 2;
        let mut short = 0;
        let mut gone: Vec<u32> = vec![];
        for i in 0..depth {
            let mut ops: Vec<Option<Op>> = vec![None];
            if n < 4 { ops.push(Some(Op::Push(n, 0))); }
            if q.len() > 0 { ops.push(Some(Op::Pop)); ops.push(Some(Op::Batch(2))); }
            if let Some(h) = q.held.first() { ops.push(Some(Op::Ack(h.0.k))); ops.push(Some(Op::Nack(h.0.k, "bad input"))); }
            if q.held.len() > 1 { ops.push(Some(Op::Nack(q.held[1].0.k, "x"))); }
            if let Some(l) = q.ready.values().flatten().find(|m| m.att > 0) { ops.push(Some(Op::Ack(l.k))); ops.push(Some(Op::Nack(l.k, "late"))); }
            if let Some(x) = q.dlq.first() { ops.push(Some(Op::Move(x.k))); ops.push(Some(Op::Del(x.k))); ops.push(Some(Op::Nack(x.k, "dead"))); }
            if q.dlq.len() > 1 { ops.push(Some(Op::Move(q.dlq[1].k))); ops.push(Some(Op::Purge)); }
            if let Some(g) = gone.first() { ops.push(Some(Op::Ack(*g))); ops.push(Some(Op::Move(*g))); }
            let c = choose(ops.len() + (short < 3) as usize, "op");
            let when = format!("step {}", i);
            if c == ops.len() { log_event(format!("{} sleep 30", when)); short += 1; sleep_ms(30).await; }
            else if let Some(op) = ops[c].clone() {
                log_event(format!("{} {:?}", when, op));
                if let Op::Push(..) = op { n += 1; }
                d.step(&mut q, &op, &when).await?;
                if let Op::Ack(k) | Op::Del(k) = op { gone.push(k); }
            } else { log_event(format!("{} sleep 170", when)); sleep_ms(170).await; }
            quiesce().await;
            q.expire_all(ms());
            d.matches(&q, &when).await?;
            note_state(&(&q, ms()));
        }
        Ok(())
    })
}

/// DLQ paging: every (limit, offset) window is the matching part of the whole.
fn dlq_pages(ctx: &Ctx) -> Report {
    ctx.run_checked(Plan::default(), move || async move {
        let m = mk_mem();
        let (d, mut q) = fresh(&m, 60_000, 0).await?;
        let n = choose(4, "n") as u32;
        for k in 0..n { d.step(&mut q, &Op::Push(k, 0), "setup").await?; d.step(&mut q, &Op::Pop, "setup").await?; d.step(&mut q, &Op::Nack(k, "r"), "setup").await?; }
        let sizes = [0usize, 1, 2, 3, 4, usize::MAX, u32::MAX as usize];
        let (l, o) = (sizes[choose(sizes.len(), "limit")], sizes[choose(sizes.len(), "offset")]);
        let (t, v) = match m.peek_dlq("jobs", l, o).await { Ok(x) => x, Err(e) => return viol("dlq", e) };
        let got: Vec<u32> = v.iter().map(|d| key(&d.payload)).collect::<R<_>>()?;
        let want: Vec<u32> = (0..n).rev().skip(o).take(l).collect();
        ensure!(t == n as usize && got == want, "dlq-page", "page limit={} offset={} of {} dead letters is {:?} (total {}), expected {:?}", l, o, n, got, t, want);
        note_state(&(l, o, n));
        Ok(())
    })
}

fn timeout_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        let maxr = [2u32, 1][choose(2, "maxr")];
        let (d, mut q) = fresh(&m, 100, maxr).await?;
        let two = choose(2, "two") == 1;
        for k in 0..1 + two as u32 { d.step(&mut q, &Op::Push(k, 0), "setup").await?; }
        d.step(&mut q, &Op::Batch(2), "setup").await?;
        sleep_ms(99).await;
        quiesce().await;
        let h = History::new();
        for x in &q.held { h.begin(Op::Expire(x.0.k)); }
        let o = |o: Op| Act::Op(o);
        let a = [vec![o(Op::Ack(0))], vec![o(Op::Nack(0, "r"))], vec![o(Op::Nack(0, "r")), o(Op::Pop)], vec![o(Op::Pop), Act::AckMine]][choose(4, "a")].clone();
        let c = [vec![o(Op::Pop), Act::NackMine], vec![o(Op::Move(0))], vec![o(Op::Purge)], vec![o(Op::Del(0)), o(Op::Ack(0))]][choose(4, "c")].clone();
        let mut p = par();
        set_explore(true);
        for t in [a, c] {
            let (d, h) = (d.clone(), h.clone());
            p.go(async move { sleep_ms(1).await; run_task(d, h, t).await });
        }
        // the sweep runs at the same moment
        p.go(async move { sleep_ms(1).await; Ok(()) });
        p.join(60_000, "queue operations").await?;
        quiesce().await;
        set_explore(false);
        let mut q = explained(&d, &q, &h, ms(), "timeout meeting other operations").await?;
        sleep_ms(200).await;
        quiesce().await;
        q.expire_all(ms());
        d.matches(&q, "later").await?;
        note_state(&(&q, maxr, two));
        Ok(())
    })
}

fn extremes(ctx: &Ctx) -> Report {
    ctx.run_checked(Plan::default(), move || async move {
        let m = mk_mem();
        let big = [0u64, 1, u64::MAX, u64::MAX - 1_800_000_000_000, i64::MAX as u64, 1 << 53];
        let vt = big[choose(big.len(), "vt")];
        let maxr = [0u32, 1, u32::MAX][choose(3, "maxr")];
        let (d, mut q) = fresh(&m, vt, maxr).await?;
        d.step(&mut q, &Op::Push(0, 255), "first").await?;
        d.step(&mut q, &Op::Push(1, 0), "second").await?;
        let n = [1usize, 2, 1000, usize::MAX, usize::MAX / 8, 1 << 40, 0][choose(7, "batch")];
        let wait = [0u64, 5, u64::MAX, i64::MAX as u64][choose(4, "wait")];
        if n > 0 {
            let v = within(1000, "a consumer with messages available", m.consume_batch("jobs".into(), Some(n), Some(wait))).await?;
            let got = match v { Ok(v) => d.learn(&v)?, Err(e) => return viol("batch", e) };
            let (want, nq) = q.step(&Op::Batch(n), ms()).remove(0);
            ensure!(Ret::Msgs(got.clone()) == want, "batch", "batch of {} returned {:?}, expected {:?}", n, got, want);
            q = nq;
        } else {
            let v = within(1000, "a consumer asking for nothing", m.consume_batch("jobs".into(), Some(0), Some(wait.min(5)))).await?;
            ensure!(v.as_ref().map(|v| v.is_empty()).unwrap_or(false), "batch", "batch of 0 returned {:?}", v.map(|v| v.len()));
        }
        // a waiting consumer with an extreme wait time is still served
        if wait > 1000 {
            while !q.ready.is_empty() { d.step(&mut q, &Op::Pop, "drain").await?; }
            let (m2, m3) = (m.clone(), m.clone());
            let j = spawn_local(async move { m2.consume_batch("jobs".into(), Some(1), Some(wait)).await });
            sleep_ms(10).await;
            let _ = m3.push("jobs".into(), payload(9), 1).await;
            let r = within(1000, "a consumer waiting very long", j).await?;
            ensure!(matches!(&r, Ok(Ok(v)) if v.len() == 1), "wait", "a consumer with wait {} ms got {:?}", wait, r.map(|r| r.map(|v| v.len())));
        } else if vt > 1 << 50 {
            sleep_ms(5_000).await;
            q.expire_all(ms());
            d.matches(&q, "later").await?;
        }
        note_state(&(vt, maxr, n, wait));
        Ok(())
    })
}

// ---------------------------------------------------------------- Q03
/// The queue as it must look after a restart at `now`.
async fn same_after_restart(d: &Drv, q: &Q, when: &str) -> R<()> {
    let (r, h, dl) = d.observe().await?;
    let mut all: Vec<u32> = r.values().flatten().map(|m| m.k).chain(h.iter().map(|m| m.k)).chain(dl.iter().map(|d| d.k)).collect();
    all.sort();
    ensure!(all == q.all(), "recovered-set", "{}: messages {:?} came back, expected {:?}", when, all, q.all());
    // messages never handed out keep their order; one that was may have moved
    let fresh = |m: &BTreeMap<u8, Vec<M>>| -> Vec<M> { m.values().flatten().filter(|m| m.att == 0).cloned().collect() };
    let set = |m: &BTreeMap<u8, Vec<M>>| -> Vec<M> { let mut v: Vec<M> = m.values().flatten().cloned().collect(); v.sort_by_key(|m| m.k); v };
    ensure!(set(&r) == set(&q.ready), "recovered-state", "{}: available messages {:?}, expected {:?}", when, r, q.ready);
    ensure!(fresh(&r) == fresh(&q.ready), "recovered-order", "{}: available messages {:?}, expected {:?}", when, r, q.ready);
    ensure!(h == q.heldk(), "recovered-held", "{}: held messages {:?}, expected {:?}", when, h, q.heldk());
    let ds = |v: &[D]| { let mut v = v.to_vec(); v.sort_by_key(|d| d.k); v };
    ensure!(ds(&dl) == ds(&q.dlq), "recovered-dlq", "{}: dead letters {:?}, expected {:?}", when, dl, q.dlq);
    Ok(())
}
async fn settings_are(m: &QueueManager, n: &str, q: &Q, when: &str) -> R<()> {
    let s = m.get_snapshot().await;
    let Some(s) = s.iter().find(|s| s.name == n) else { return viol("gone", format!("{}: queue {:?} is missing in the listing", when, n)) };
    ensure!((s.config.visibility_timeout_ms, s.config.max_retries) == (q.vt, q.maxr), "settings", "{}: the queue has the settings {:?}, expected {:?}", when, (s.config.visibility_timeout_ms, s.config.max_retries), (q.vt, q.maxr));
    Ok(())
}
fn recover_and_check<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, ok: Vec<Q>, later_ms: u64, when: &str) -> Vec<Violation> {
    let dir = e.fresh_dir("r");
    mcrt::io::materialize(&dir, &e.out.io.log[..upto], torn);
    let when = when.to_string();
    let start = e.out.now_ns + later_ms * 1_000_000;
    let o = e.sub(&dir, start, move || Box::pin(async move {
        let m = mk();
        quiesce().await;
        sleep_ms(TICK + 10).await;
        quiesce().await;
        let d = Drv::new(&m, "jobs");
        let mut err = None;
        let mut hit = None;
        for q in &ok {
            let mut q = q.clone();
            q.expire_all(ms());
            match same_after_restart(&d, &q, &when).await { Ok(()) => { hit = Some(q); break; } Err(v) => { err.get_or_insert(v); } }
        }
        let Some(mut q) = hit else { return Err(err.unwrap()) };
        settings_are(&m, "jobs", &q, &when).await?;
        // it goes on working: a new message, all timeouts, everything handed out once
        d.step(&mut q, &Op::Push(900, 0), &when).await?;
        let vt = q.vt;
        sleep_ms(vt + 2 * TICK).await;
        quiesce().await;
        q.expire_all(ms());
        same_after_restart(&d, &q, &format!("{}, after all timeouts", when)).await?;
        let mut want: Vec<u32> = q.ready.values().flatten().map(|m| m.k).collect();
        want.sort();
        let mut got = vec![];
        while let Some(x) = m.pop("jobs").await { got.push(key(&x.payload)?); if got.len() > 50 { break; } }
        got.sort();
        ensure!(got == want, "recovered-delivery", "{}: messages {:?} were handed out, expected {:?}", when, got, want);
        Ok(())
    }));
    let own = match &o.result { Some(Err(v)) => vec![v.clone()], _ => vec![] };
    match mcrt::judge(&o, true, own) { Ok(v) => v, Err(e) => vec![Violation { sig: "machinery".into(), msg: e }] }
}

fn crash_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 5);
    let thorough = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        let m = mk();
        let (vt, maxr) = [(60_000u64, 1u32), (35, 2), (60_000, 2)][choose(3, "settings")];
        let (d, mut q) = fresh(&m, vt, maxr).await?;
        d.step(&mut q, &Op::Push(0, 0), "setup").await?;
        d.step(&mut q, &Op::Push(1, 5), "setup").await?;
        d.step(&mut q, &Op::Pop, "setup").await?;
        // long enough for timeouts to be noticed and stored
        let wait = TICK + 35 + FLUSH * 2 + 5;
        sleep_ms(wait).await;
        quiesce().await;
        q.expire_all(ms());
        let mut states = vec![q.clone()];
        mcrt::io::mark(1000);
        let mut n = 2;
        for i in 0..depth {
            let mut ops: Vec<Option<Op>> = vec![None, Some(Op::Push(n, 0))];
            if q.len() > 0 { ops.push(Some(Op::Pop)); }
            if let Some(h) = q.held.first() { ops.push(Some(Op::Ack(h.0.k))); ops.push(Some(Op::Nack(h.0.k, "r"))); }
            if let Some(x) = q.dlq.first() { ops.push(Some(Op::Move(x.k))); ops.push(Some(Op::Del(x.k))); if thorough { ops.push(Some(Op::Purge)); } }
            match &ops[choose(ops.len(), "op")] {
                Some(op) => {
                    log_event(format!("{:?}", op));
                    if let Op::Push(..) = op { n += 1; }
                    d.step(&mut q, op, &format!("step {}", i)).await?;
                    states.push(q.clone());
                    mcrt::io::mark(states.len() as u64 - 1);
                }
                None => {
                    log_event("wait".into());
                    sleep_ms(wait).await;
                    quiesce().await;
                    q.expire_all(ms());
                    if q != *states.last().unwrap() { states.push(q.clone()); mcrt::io::mark(states.len() as u64 - 1); }
                    mcrt::io::mark(1000 + states.len() as u64 - 1);
                }
            }
        }
        sleep_ms(wait).await;
        quiesce().await;
        q.expire_all(ms());
        states.push(q);
        mcrt::io::mark(1000 + states.len() as u64 - 1);
        note_state(&states);
        Ok(states)
    }, move |e, states| {
        let log = &e.out.io.log;
        let (mut done, mut durable) = (0usize, 0usize);
        let mut on = false;
        for p in 1..=log.len() {
            match &log[p - 1] {
                IoOp::Mark(k) if *k >= 1000 => { durable = (*k - 1000) as usize; done = done.max(durable); on = true; }
                IoOp::Mark(k) => { done = *k as usize; continue; }
                _ => {}
            }
            if !on { continue; }
            let hi = (done + 1).min(states.len() - 1);
            let ok: Vec<Q> = states[durable..=hi].iter().rev().cloned().collect();
            let mut torn = vec![None];
            if let IoOp::Write { data, .. } = &log[p - 1] { if thorough { torn.extend([Some(data.len() / 2), Some(1.min(data.len())), Some(data.len().saturating_sub(1))]); } else { torn.push(Some(data.len() / 2)); } }
            for t in torn {
                let v = recover_and_check(e, p, t, ok.clone(), 0, &format!("crash after storage operation {} of {} {}", p, log.len(), t.map(|t| format!("(last write torn at {})", t)).unwrap_or_default()));
                if !v.is_empty() { return v; }
            }
        }
        let v = recover_and_check(e, log.len(), None, vec![states.last().unwrap().clone()], 70_000, "restart 70 s later");
        if !v.is_empty() { return v; }
        vec![]
    })
}

/// Operations on the same messages at the same time: what is stored is what the
/// queue held in memory.
fn store_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    let thorough = ctx.thorough;
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        let (d, mut q) = fresh(&m, 100, 1).await?;
        for k in 0..3 { d.step(&mut q, &Op::Push(k, 0), "setup").await?; }
        d.step(&mut q, &Op::Pop, "setup").await?;
        d.step(&mut q, &Op::Nack(0, "r"), "setup").await?; // 0 is dead
        d.step(&mut q, &Op::Pop, "setup").await?; // 1 is held
        let which = choose(7, "ops");
        let tick = if thorough { choose(2, "tick") == 1 } else { which >= 3 && which < 6 };
        if tick { sleep_ms(99).await; quiesce().await; } else { sleep_ms(FLUSH * 2).await; }
        let o = |o: Op| Act::Op(o);
        let sets: [(Vec<Act>, Vec<Act>); 7] = [
            (vec![o(Op::Push(10, 9))], vec![o(Op::Pop), Act::AckMine]),
            (vec![o(Op::Push(10, 9))], vec![o(Op::Pop), Act::NackMine]),
            (vec![o(Op::Move(0))], vec![o(Op::Pop), Act::NackMine, o(Op::Pop), Act::AckMine]),
            (vec![o(Op::Nack(1, "r"))], vec![o(Op::Purge)]),
            (vec![o(Op::Nack(1, "r"))], vec![o(Op::Move(1)), o(Op::Pop)]),
            (vec![o(Op::Ack(1))], vec![o(Op::Nack(1, "r")), o(Op::Del(1))]),
            (vec![o(Op::Pop), Act::NackMine], vec![o(Op::Move(2)), o(Op::Move(0))]),
        ];
        let (a, c) = sets[which].clone();
        let h = History::new();
        for x in &q.held { if tick { h.begin(Op::Expire(x.0.k)); } }
        let mut p = par();
        set_explore(true);
        for t in [a, c] { let (d, h) = (d.clone(), h.clone()); p.go(async move { if tick { sleep_ms(1).await; } run_task(d, h, t).await }); }
        p.join(60_000, "queue operations").await?;
        quiesce().await;
        set_explore(false);
        let q = explained(&d, &q, &h, ms(), "concurrent use").await?;
        sleep_ms(FLUSH).await;
        quiesce().await;
        note_state(&(&q, tick));
        Ok(q)
    }, |e, q| recover_and_check(e, e.out.io.log.len(), None, vec![q.clone()], 0, "restart after concurrent use"))
}

fn faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        let (d, mut q) = fresh(&m, 60_000, 0).await?;
        for k in 0..3 { d.step(&mut q, &Op::Push(k, 0), "setup").await?; }
        sleep_ms(FLUSH * 2).await;
        let ops: Vec<Op> = [
            vec![Op::Push(5, 0), Op::Pop, Op::Ack(0), Op::Push(6, 1)],
            vec![Op::Pop, Op::Nack(0, "r"), Op::Pop],
            vec![Op::Pop, Op::Nack(0, "r"), Op::Move(0), Op::Push(5, 0)],
        ][choose(3, "ops")].clone();
        for op in &ops { d.step(&mut q, op, "before the failure").await?; }
        mcrt::io::set_faults(true);
        sleep_ms(FLUSH).await;
        quiesce().await;
        mcrt::io::set_faults(false);
        d.matches(&q, "after a storage failure").await?;
        let more = choose(3, "more");
        match more { 0 => {}, 1 => d.step(&mut q, &Op::Push(7, 0), "after").await?, _ => { d.step(&mut q, &Op::Pop, "after").await?; let k = q.held.last().unwrap().0.k; d.step(&mut q, &Op::Ack(k), "after").await?; } }
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        note_state(&(&q, more));
        Ok(q)
    }, |e, q| recover_and_check(e, e.out.io.log.len(), None, vec![q.clone()], 0, &format!("restart after storage failures {:?}", e.out.io.faults)))
}

// ---------------------------------------------------------------- Q04
fn wakeups(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b), move || async move {
        let m = mk_mem();
        let how = choose(6, "how");
        let (d, mut q) = fresh(&m, if how == 2 { 100 } else { 60_000 }, if how >= 3 && how < 5 { 0 } else { 300 }).await?;
        // what makes a message available while the consumer waits
        match how {
            0 | 5 => {}
            1 | 2 => { d.step(&mut q, &Op::Push(0, 0), "setup").await?; d.step(&mut q, &Op::Pop, "setup").await?; }
            _ => { d.step(&mut q, &Op::Push(0, 0), "setup").await?; d.step(&mut q, &Op::Pop, "setup").await?; d.step(&mut q, &Op::Nack(0, "r"), "setup").await?; }
        }
        let consumers = 1 + choose(2, "consumers");
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        let t0 = ms();
        for c in 0..consumers {
            let (m, d, got) = (m.clone(), d.clone(), got.clone());
            p.go(async move {
                let r = m.consume_batch("jobs".into(), Some(1), Some(1000)).await;
                match r { Ok(v) => { let v = d.learn(&v)?; got.with(|g| g.push((c, v, ms()))); Ok(()) } Err(e) => viol("consume", e) }
            });
        }
        let d2 = d.clone();
        p.go(async move {
            match how {
                0 | 5 => { d2.exec(&Op::Push(0, 0)).await?; if how == 5 { sched_point("op"); d2.exec(&Op::Push(1, 0)).await?; } }
                1 => { d2.exec(&Op::Nack(0, "r")).await?; }
                2 => {}
                _ => { let r = d2.exec(&Op::Move(0)).await?; ensure!(r == Ret::Bool(true), "dlq", "moving the dead letter back failed"); }
            }
            Ok(())
        });
        quiesce().await;
        // every consumer returns, by its deadline at the latest
        p.join(1001 + TICK, "a waiting consumer").await?;
        set_explore(false);
        let n = if how == 5 { 2 } else { 1 };
        let g = got.with(|g| g.clone());
        let served: Vec<_> = g.iter().filter(|x| !x.1.is_empty()).collect();
        // time may have run past the deadlines first; then the messages are still there
        quiesce().await;
        sleep_ms(100 + TICK).await;
        let (r, h, dl) = d.observe().await?;
        let left: usize = r.values().map(|v| v.len()).sum::<usize>() + h.len();
        ensure!(left == n && dl.is_empty(), "lost", "{} messages became available to {} waiting consumers, which got {:?}; now available {:?} held {:?} dead {:?}", n, consumers, g, r, h, dl);
        let mut seen: Vec<u32> = served.iter().flat_map(|x| x.1.iter().map(|m| m.k)).collect();
        seen.sort();
        ensure!(how == 2 || seen.windows(2).all(|w| w[0] != w[1]), "duplicate", "a message was handed out twice: {:?}", g);
        // no later than the message allows
        let _ = t0;
        note_state(&(how, consumers, g.iter().map(|x| (x.0, x.1.clone())).collect::<Vec<_>>()));
        Ok(())
    })
}

/// Same without letting time pass early: the wake-up itself is what serves the
/// consumer, not its deadline.
fn prompt(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        let how = choose(5, "how");
        let (d, mut q) = fresh(&m, if how == 2 { 100 } else { 60_000 }, if how == 3 { 0 } else { 3 }).await?;
        match how {
            0 | 4 => {}
            1 | 2 => { d.step(&mut q, &Op::Push(0, 0), "setup").await?; d.step(&mut q, &Op::Pop, "setup").await?; }
            _ => { d.step(&mut q, &Op::Push(0, 0), "setup").await?; d.step(&mut q, &Op::Pop, "setup").await?; d.step(&mut q, &Op::Nack(0, "r"), "setup").await?; }
        }
        let consumers = 1 + choose(2, "consumers");
        let batch = 1 + choose(2, "batch");
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        for _ in 0..consumers {
            let (m, d, got) = (m.clone(), d.clone(), got.clone());
            p.go(async move {
                let r = m.consume_batch("jobs".into(), Some(batch), Some(5000)).await;
                match r { Ok(v) => { let v = d.learn(&v)?; got.with(|g| g.push((v, ms()))); Ok(()) } Err(e) => viol("consume", e) }
            });
        }
        let d2 = d.clone();
        p.go(async move {
            match how {
                0 => { d2.exec(&Op::Push(0, 0)).await?; }
                1 => { d2.exec(&Op::Nack(0, "r")).await?; }
                2 => {}
                3 => { d2.exec(&Op::Move(0)).await?; }
                _ => { for k in 0..3 { d2.exec(&Op::Push(k, 0)).await?; sched_point("op"); } }
            }
            Ok(())
        });
        sleep_ms(100 + TICK + 10).await;
        quiesce().await;
        let (n, left) = (got.with(|g| g.len()), d.observe().await?.0.values().map(|v| v.len()).sum::<usize>());
        let waiting = consumers - n;
        ensure!(waiting == 0 || left == 0, "not-woken", "{} message(s) available while {} consumer(s) wait", left, waiting);
        ensure!(n >= 1, "not-woken", "a message became available, no consumer got it");
        let g = got.with(|g| g.clone());
        let mut seen: Vec<u32> = g.iter().flat_map(|x| x.0.iter().map(|m| m.k)).collect();
        seen.sort();
        ensure!(seen.windows(2).all(|w| w[0] != w[1]), "duplicate", "a message was handed out twice: {:?}", g);
        ensure!(g.iter().all(|x| x.0.len() <= batch && x.0.windows(2).all(|w| w[0].k < w[1].k)), "batch", "batches {:?}", g);
        set_explore(false);
        p.join(6000, "a waiting consumer").await?;
        let g = got.with(|g| g.clone());
        ensure!(g.iter().all(|x| !x.0.is_empty() || x.1 >= 5000), "early", "a consumer returned empty before its wait time: {:?}", g);
        ensure!(g.iter().all(|x| x.1 <= 5100), "late", "a consumer returned later than its wait time: {:?}", g);
        note_state(&(how, consumers, batch, seen));
        Ok(())
    })
}

/// A consumer dropped at any moment of its wait takes nothing with it.
fn cancelled(ctx: &Ctx) -> Report {
    let b = ctx.pick(3, 4);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        let (d, mut q) = fresh(&m, 200, 5).await?;
        let how = choose(3, "how");
        if how == 1 { d.step(&mut q, &Op::Push(0, 0), "setup").await?; d.step(&mut q, &Op::Pop, "setup").await?; }
        let other = choose(2, "other") == 1;
        let got = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        let (m1, d1, g1) = (m.clone(), d.clone(), got.clone());
        let victim = tokio::spawn(async move {
            let r = m1.consume_batch("jobs".into(), Some(2), Some(5000)).await;
            if let Ok(v) = r { if let Ok(v) = d1.learn(&v) { g1.with(|g| g.extend(v)); } }
        });
        if other {
            let (m2, d2, g2) = (m.clone(), d.clone(), got.clone());
            p.go(async move { match m2.consume_batch("jobs".into(), Some(1), Some(100)).await { Ok(v) => { let v = d2.learn(&v)?; g2.with(|g| g.extend(v)); Ok(()) } Err(e) => viol("consume", e) } });
        }
        let d3 = d.clone();
        p.go(async move { match how { 1 => { d3.exec(&Op::Nack(0, "r")).await?; } _ => { d3.exec(&Op::Push(0, 0)).await?; if how == 2 { d3.exec(&Op::Push(1, 4)).await?; } } } Ok(()) });
        p.go(async move { sched_point("cancel"); victim.abort(); Ok(()) });
        p.join(10_000, "consumers").await?;
        set_explore(false);
        quiesce().await;
        // nothing lost: it is there, or held and there again after its timeout
        sleep_ms(200 + TICK * 2).await;
        quiesce().await;
        let (r, h, dl) = d.observe().await?;
        let have: Vec<u32> = { let mut v: Vec<u32> = r.values().flatten().map(|m| m.k).collect(); v.sort(); v };
        let want: Vec<u32> = if how == 2 { vec![0, 1] } else { vec![0] };
        ensure!(have == want && h.is_empty() && dl.is_empty(), "lost", "after a consumer was cancelled, messages {:?} are available (held {:?}, dead {:?}), expected {:?}", have, h, dl, want);
        note_state(&(how, other, got.with(|g| g.clone())));
        Ok(())
    })
}

// ---------------------------------------------------------------- Q05
fn files(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}
type World = BTreeMap<&'static str, Q>;
async fn check_world(m: &QueueManager, w: &World, when: &str, restarted: bool) -> R<()> {
    let mut names: Vec<String> = m.get_snapshot().await.into_iter().map(|s| s.name).collect();
    names.sort();
    let want: Vec<String> = w.keys().map(|s| s.to_string()).collect();
    ensure!(names == want, "which-queues", "{}: queues {:?} exist, expected {:?}", when, names, want);
    for s in m.get_snapshot().await {
        let q = &w[s.name.as_str()];
        ensure!((s.config.visibility_timeout_ms, s.config.max_retries) == (q.vt, q.maxr), "settings", "{}: queue {:?} has settings {:?}, expected {:?}", when, s.name, (s.config.visibility_timeout_ms, s.config.max_retries), (q.vt, q.maxr));
        let d = Drv::new(m, &s.name);
        if restarted { same_after_restart(&d, q, &format!("{}, queue {:?}", when, s.name)).await?; } else { d.matches(q, &format!("{}, queue {:?}", when, s.name)).await?; }
        ensure!(m.exists(&s.name).await, "exists", "{}: exists({:?}) is false", when, s.name);
    }
    for n in ["a", "b", "B", "B.db", "zz"] {
        if w.contains_key(n) { continue; }
        let id = Uuid::from_u128(5);
        ensure!(!m.exists(n).await, "exists", "{}: exists({:?}) is true", when, n);
        ensure!(m.push(n.into(), payload(1), 0).await.is_err() && m.pop(n).await.is_none() && m.consume_batch(n.into(), Some(1), Some(100)).await.is_err() && !m.ack(n, id).await && !m.nack(n, id, "x".into()).await
            && m.peek_dlq(n, 1, 0).await.is_err() && m.move_to_queue(n, id).await.is_err() && m.delete_dlq(n, id).await.is_err() && m.purge_dlq(n).await.is_err() && m.get_messages(n.into(), "pending".into(), 0, 1, None).await.is_none(), "missing-queue", "{}: an operation on the missing queue {:?} was accepted", when, n);
    }
    Ok(())
}
fn restart_world<T>(e: &Exec<'_, T>, upto: usize, ok: Vec<World>, when: String, _probe: bool) -> Vec<Violation> {
    let dir = e.fresh_dir("r");
    mcrt::io::materialize(&dir, &e.out.io.log[..upto], None);
    let o = e.sub(&dir, e.out.now_ns, move || Box::pin(async move {
        let m = mk();
        quiesce().await;
        let mut err = None;
        let mut hit = None;
        for w in ok { match check_world(&m, &w, &when, true).await { Ok(()) => { hit = Some(w); break; } Err(v) => { err.get_or_insert(v); } } }
        let Some(w) = hit else { return Err(err.unwrap()) };
        {
            // what was deleted starts empty and works
            for n in ["a", "b", "B", "B.db"] {
                if w.contains_key(n) { continue; }
                let r = m.create_queue(n.into(), opts(5000, 4)).await;
                ensure!(r.is_ok(), "create", "{}: creating {:?} failed: {:?}", when, n, r);
                Drv::new(&m, n).matches(&Q::new(5000, 4), &format!("{}: queue {:?} created anew", when, n)).await?;
            }
        }
        Ok(())
    }));
    let own = match &o.result { Some(Err(v)) => vec![v.clone()], _ => vec![] };
    match mcrt::judge(&o, true, own) { Ok(v) => v, Err(e) => vec![Violation { sig: "machinery".into(), msg: e }] }
}

fn lifecycle_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 5);
    ctx.run2(Plan::default().log(), move || async move {
        let m = mk();
        let mut w: World = BTreeMap::new();
        let pair: [&'static str; 2] = [["a", "b"], ["B", "B.db"]][choose(2, "names")];
        let mut n = 0;
        mcrt::io::mark(0);
        let mut states = vec![w.clone()];
        for i in 0..depth {
            let ops: Vec<(&'static str, usize)> = pair.iter().flat_map(|x| if w.contains_key(x) { vec![(*x, 1), (*x, 2), (*x, 3)] } else { vec![(*x, 0), (*x, 2)] }).collect();
            let (x, op) = ops[choose(ops.len(), "op")];
            let when = format!("step {} op {} on {:?}", i, op, x);
            log_event(when.clone());
            match op {
                0 | 1 => {
                    let (vt, maxr) = [(60_000, 2), (70_000, 9)][op];
                    let r = m.create_queue(x.into(), opts(vt, maxr)).await;
                    ensure!(r.is_ok(), "create", "{}: {:?}", when, r);
                    w.entry(x).or_insert_with(|| Q::new(vt, maxr));
                }
                2 => { let _ = within(10_000, "deleting a queue", m.delete_queue(x.into())).await?; w.remove(x); }
                _ => if let Some(q) = w.get_mut(x) {
                    let d = Drv::new(&m, x);
                    d.step(q, &Op::Push(n, 0), &when).await?;
                    if n % 2 == 1 { d.step(q, &Op::Pop, &when).await?; }
                    n += 1;
                },
            }
            quiesce().await;
            check_world(&m, &w, &when, false).await?;
            if op == 2 {
                let f: Vec<String> = files(&root().join("q")).into_iter().filter(|f| [".db", ".db-wal", ".db-shm", ".db-journal", ".config.json"].iter().any(|s| *f == format!("{}{}", x, s))).collect();
                ensure!(f.is_empty(), "files-left", "{}: files {:?} are left", when, f);
            }
            sleep_ms(FLUSH * 2).await;
            quiesce().await;
            states.push(w.clone());
            mcrt::io::mark(i as u64 + 1);
            note_state(&w);
        }
        Ok(states)
    }, move |e, states| {
        // crash between any two storage operations
        let log = &e.out.io.log;
        let mut done = 0;
        let last_mark = states.len() as u64 - 2;
        for p in 1..=log.len() {
            if let IoOp::Mark(k) = &log[p - 1] { done = *k as usize; }
            // points within earlier steps belong to shorter histories
            if (done as u64) < last_mark { continue; }
            let hi = (done + 1).min(states.len() - 1);
            let mut ok: Vec<World> = states[done..=hi].iter().rev().cloned().collect();
            // creating or deleting touches one queue only; its messages may be half way
            let (a, b) = (&states[done], &states[hi]);
            for x in ["a", "b", "B", "B.db"] {
                if a.contains_key(x) && !b.contains_key(x) {
                    // a deletion in progress: still there with all, or gone
                    let _ = x;
                }
                if let (Some(qa), Some(qb)) = (a.get(x), b.get(x)) {
                    // push followed by pop: the state between
                    if qa != qb { let mut m = a.clone(); let k = *qb.all().iter().max().unwrap(); let mut q = qa.clone(); if !qa.all().contains(&k) { q.add(M { k, prio: 0, att: 0 }); m.insert(x, q); ok.push(m); } }
                }
            }
            let v = restart_world(e, p, ok, format!("crash after storage operation {} of {}", p, log.len()), p == log.len());
            if !v.is_empty() { return v; }
        }
        vec![]
    })
}

/// Creation, deletion and use of one queue at the same time.
fn lifecycle_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        quiesce().await;
        let pre = choose(2, "pre") == 1;
        if pre {
            let r = m.create_queue("a".into(), opts(60_000, 2)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            let _ = m.push("a".into(), payload(0), 0).await;
        }
        let _ = m.create_queue("b".into(), opts(50_000, 1)).await;
        let _ = m.push("b".into(), payload(77), 0).await;
        sleep_ms(FLUSH * 2).await;
        quiesce().await;
        let second = choose(3, "second");
        let pushed = Shared::new(vec![]);
        let mut p = par();
        set_explore(true);
        let m1 = m.clone();
        p.go(async move { let _ = m1.delete_queue("a".into()).await; Ok(()) });
        let (m2, pu) = (m.clone(), pushed.clone());
        p.go(async move {
            let r = m2.create_queue("a".into(), opts(40_000, 7)).await;
            ensure!(r.is_ok(), "create", "{:?}", r);
            if second != 1 { if m2.push("a".into(), payload(5), 0).await.is_ok() { pu.with(|p| p.push(5)); } }
            Ok(())
        });
        if second == 2 { let m3 = m.clone(); p.go(async move { let _ = m3.create_queue("a".into(), opts(30_000, 8)).await; Ok(()) }); }
        p.join(60_000, "creating and deleting a queue").await?;
        set_explore(false);
        quiesce().await;
        // settle: what is there now must be durable and stay
        let exists = m.exists("a").await;
        let mut st = None;
        if exists {
            let r = m.push("a".into(), payload(6), 0).await;
            ensure!(r.is_ok(), "push", "{:?}", r);
            sleep_ms(FLUSH * 3).await;
            quiesce().await;
            let (r, h, dl) = Drv::new(&m, "a").observe().await?;
            ensure!(h.is_empty() && dl.is_empty(), "state", "held {:?} dead {:?}", h, dl);
            let s = m.get_snapshot().await;
            let c = &s.iter().find(|s| s.name == "a").unwrap().config;
            let mut q = Q::new(c.visibility_timeout_ms, c.max_retries);
            q.ready = r;
            let have = q.all();
            // the message pushed before the deletion is there exactly if the queue survived from before
            ensure!(have.contains(&0) == (pre && q.vt == 60_000), "resurrected", "after deletion and creation the queue (settings {:?}) holds {:?}", (q.vt, q.maxr), have);
            st = Some(q);
        }
        let mut w: World = BTreeMap::new();
        let mut qb = Q::new(50_000, 1);
        qb.add(M { k: 77, prio: 0, att: 0 });
        w.insert("b", qb);
        if let Some(q) = st { w.insert("a", q); }
        check_world(&m, &w, "afterwards", false).await?;
        note_state(&(&w, pre, second));
        Ok(w)
    }, |e, w| restart_world(e, e.out.io.log.len(), vec![w.clone()], "restart after creation met deletion".into(), true))
}

/// A deletion whose caller goes away at any moment.
fn delete_cancelled(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        let (d, mut q) = fresh_named(&m, "a", 60_000, 2).await?;
        d.step(&mut q, &Op::Push(0, 0), "setup").await?;
        sleep_ms(FLUSH * 2).await;
        quiesce().await;
        let again = choose(2, "again") == 1;
        let m1 = m.clone();
        set_explore(true);
        let mut p = par();
        let h = tokio::spawn(async move { let _ = m1.delete_queue("a".into()).await; });
        p.go(async move { sched_point("cancel"); h.abort(); Ok(()) });
        p.join(60_000, "deleting a queue").await?;
        set_explore(false);
        quiesce().await;
        let mut w: World = BTreeMap::new();
        if m.exists("a").await { w.insert("a", q.clone()); }
        if again {
            let r = within(10_000, "creating a queue", m.create_queue("a".into(), opts(60_000, 2))).await?;
            ensure!(r.is_ok(), "create", "{:?}", r);
            w.entry("a").or_insert_with(|| Q::new(60_000, 2));
            let d = Drv::new(&m, "a");
            d.step(w.get_mut("a").unwrap(), &Op::Push(3, 0), "afterwards").await?;
        }
        check_world(&m, &w, "afterwards", false).await?;
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        note_state(&w);
        Ok(w)
    }, |e, w| restart_world(e, e.out.io.log.len(), vec![w.clone()], "restart after a deletion whose caller went away".into(), true))
}

/// Two queues used at the same time do not see each other.
fn isolation(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        let mut qs = vec![];
        for n in ["a", "b"] { let r = m.create_queue(n.into(), opts(100, 1)).await; ensure!(r.is_ok(), "create", "{:?}", r); qs.push((Drv::new(&m, n), Q::new(100, 1))); }
        for (i, (d, q)) in qs.iter_mut().enumerate() { for k in 0..2 { d.step(q, &Op::Push(k + 10 * i as u32, 0), "setup").await?; } d.step(q, &Op::Pop, "setup").await?; }
        sleep_ms(99).await;
        let which = choose(3, "ops");
        let o = |o: Op| Act::Op(o);
        let a = [vec![o(Op::Nack(0, "r")), o(Op::Pop)], vec![o(Op::Ack(10)), o(Op::Pop)], vec![o(Op::Purge), o(Op::Push(5, 3))]][which].clone();
        let c = vec![o(Op::Nack(10, "r")), o(Op::Move(10)), o(Op::Pop)];
        let mut p = par();
        let hs = [History::new(), History::new()];
        for (i, (_, q)) in qs.iter().enumerate() { for x in &q.held { hs[i].begin(Op::Expire(x.0.k)); } }
        set_explore(true);
        // ids of one queue mean nothing in the other
        for (i, t) in [a, c].into_iter().enumerate() { let (d, h) = (qs[i].0.clone(), hs[i].clone()); let other = qs[1].0.clone(); p.go(async move { sleep_ms(1).await; if i == 0 { let id = other.id(10); ensure!(!d.m.ack("a", id).await, "isolation", "a message of another queue was acknowledged"); } run_task(d, h, t).await }); }
        let m3 = m.clone();
        p.go(async move { sleep_ms(1).await; let _ = m3.create_queue("c".into(), opts(1, 1)).await; let _ = m3.delete_queue("c".into()).await; Ok(()) });
        p.join(60_000, "queue operations").await?;
        quiesce().await;
        set_explore(false);
        for i in 0..2 { let q = explained(&qs[i].0, &qs[i].1, &hs[i], ms(), "two queues").await?; note_state(&q); }
        Ok(())
    })
}

// ---------------------------------------------------------------- Q06
fn all_faults(on: bool) { mcrt::io::set_fault_kinds(on, on); mcrt::io::set_faults(on); }
fn failures() -> Vec<String> { mcrt::io::with_io(|i| i.faults.clone()) }
/// What a process that stops now leaves, as the data of another server.
fn leave_to(a: &str, b: &str) {
    let b = root().join(b);
    std::fs::create_dir_all(&b).expect("scratch");
    for f in files(&root().join(a)) { if !f.ends_with("-shm") { std::fs::write(b.join(&f), std::fs::read(root().join(a).join(&f)).expect("scratch")).expect("scratch"); } }
}
fn mk_in(d: &str) -> QueueManager { QueueManager::new(cfg(root().join(d).to_str().unwrap())) }

/// Any storage operation failing, wholly or half way, while a queue is created and used.
fn use_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        let early = choose(2, "from") == 0;
        if early { all_faults(true); }
        let mut r = m.create_queue("jobs".into(), opts(60_000, 1)).await;
        quiesce().await;
        all_faults(false);
        if r.is_err() {
            ensure!(!failures().is_empty() && !m.exists("jobs").await, "create", "failures {:?}: {:?}", failures(), r);
            r = m.create_queue("jobs".into(), opts(60_000, 1)).await;
        }
        ensure!(r.is_ok(), "create", "failures {:?}: {:?}", failures(), r);
        let (d, mut q) = (Drv::new(&m, "jobs"), Q::new(60_000, 1));
        for op in [Op::Push(0, 0), Op::Push(1, 5), Op::Push(2, 0), Op::Pop, Op::Nack(1, "r"), Op::Pop] { d.step(&mut q, &op, "setup").await?; }
        if !early { sleep_ms(FLUSH * 2).await; quiesce().await; }
        let ops: Vec<Op> = [vec![Op::Push(5, 0), Op::Pop], vec![Op::Purge, Op::Push(5, 1), Op::Ack(0)], vec![Op::Move(1), Op::Nack(1, "s")]][if early { 0 } else { choose(3, "ops") }].clone();
        for op in &ops { d.step(&mut q, op, "while storage fails").await?; }
        all_faults(true);
        sleep_ms(FLUSH).await;
        quiesce().await;
        all_faults(false);
        let when = format!("after the failures {:?}", failures());
        d.matches(&q, &when).await?;
        if choose(2, "more") == 1 { d.step(&mut q, &Op::Push(7, 0), &when).await?; }
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        d.matches(&q, &when).await?;
        note_state(&q);
        Ok(q)
    }, |e, q| if e.out.io.faults.iter().any(|f| f.contains("config.json")) { vec![] } else { recover_and_check(e, e.out.io.log.len(), None, vec![q.clone()], 0, &format!("restart after the failures {:?}", e.out.io.faults)) })
}
/// The storage cannot be read when the server starts: the queue is either there
/// completely or not at all, and nothing of it is lost.
fn startup_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        let (d, mut q) = fresh(&m, 60_000, 1).await?;
        for op in [Op::Push(0, 0), Op::Push(1, 5), Op::Push(2, 0), Op::Pop, Op::Nack(1, "r"), Op::Pop, Op::Push(3, 0)] { d.step(&mut q, &op, "setup").await?; }
        sleep_ms(FLUSH * 2).await;
        quiesce().await;
        leave_to("q", "r");
        all_faults(true);
        let m = mk_in("r");
        quiesce().await;
        all_faults(false);
        let when = format!("start with the failures {:?}", failures());
        if !m.exists("jobs").await {
            ensure!(!failures().is_empty(), "gone", "the queue is not there");
            ensure!(m.push("jobs".into(), payload(9), 0).await.is_err(), "push", "{}: the queue is not there and takes messages", when);
            if choose(2, "create") == 1 {
                let r = m.create_queue("jobs".into(), opts(500, 7)).await;
                ensure!(r.is_ok(), "create", "{}: {:?}", when, r);
            }
        }
        if m.exists("jobs").await {
            let d = Drv::new(&m, "jobs");
            same_after_restart(&d, &q, &when).await?;
            settings_are(&m, "jobs", &q, &when).await?;
            // what happens now is stored as well
            let (r, _, _) = d.observe().await?;
            q.ready = r;
            for op in [Op::Push(5, 0), Op::Move(1), Op::Pop, Op::Ack(1)] { d.step(&mut q, &op, &when).await?; }
        }
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        leave_to("r", "x");
        let m = mk_in("x");
        quiesce().await;
        let when = format!("{}, then started again", when);
        ensure!(m.exists("jobs").await, "gone", "{}: the queue is gone", when);
        same_after_restart(&Drv::new(&m, "jobs"), &q, &when).await?;
        settings_are(&m, "jobs", &q, &when).await?;
        note_state(&q);
        Ok(())
    }, |_, _| vec![])
}
/// Files that cannot be removed: the deletion is reported as failed, and can be repeated.
fn delete_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let m = mk();
        let (d, mut q) = fresh(&m, 60_000, 1).await?;
        let (d2, mut q2) = fresh_named(&m, "b", 70_000, 2).await?;
        for k in 0..2 { d.step(&mut q, &Op::Push(k, 0), "setup").await?; d2.step(&mut q2, &Op::Push(k, 0), "setup").await?; }
        if choose(2, "stored") == 1 { sleep_ms(FLUSH * 2).await; quiesce().await; }
        all_faults(true);
        let r = m.delete_queue("jobs".into()).await;
        quiesce().await;
        all_faults(false);
        let when = format!("failures {:?}", failures());
        ensure!(r.is_ok() || !failures().is_empty(), "delete", "{:?}", r);
        if r.is_err() { let r = m.delete_queue("jobs".into()).await; ensure!(r.is_ok(), "delete", "{}: deleting again failed: {:?}", when, r); }
        ensure!(m.push("jobs".into(), payload(9), 0).await.is_err() && !m.exists("jobs").await, "deleted", "{}: the deleted queue still takes messages", when);
        sleep_ms(FLUSH * 2).await;
        quiesce().await;
        let again = choose(2, "again") == 1;
        let mut q = None;
        if again {
            let (d, mut n) = fresh(&m, 500, 7).await?;
            d.matches(&n, &format!("{}: created again", when)).await?;
            d.step(&mut n, &Op::Push(3, 0), "created again").await?;
            sleep_ms(FLUSH * 2).await;
            quiesce().await;
            q = Some(n);
        }
        d2.matches(&q2, &when).await?;
        note_state(&(again, failures().len()));
        Ok((q, q2))
    }, |e, (q, q2)| {
        let (q, q2, f) = (q.clone(), q2.clone(), e.out.io.faults.clone());
        let dir = e.fresh_dir("r");
        mcrt::io::materialize(&dir, &e.out.io.log, None);
        let o = e.sub(&dir, e.out.now_ns, move || Box::pin(async move {
            let m = mk();
            quiesce().await;
            let when = format!("restart after the failures {:?}", f);
            match &q {
                None => ensure!(!m.exists("jobs").await, "revived", "{}: the deleted queue is back", when),
                Some(q) => { same_after_restart(&Drv::new(&m, "jobs"), q, &when).await?; settings_are(&m, "jobs", q, &when).await?; }
            }
            same_after_restart(&Drv::new(&m, "b"), &q2, &when).await?;
            settings_are(&m, "b", &q2, &when).await
        }));
        let own = match &o.result { Some(Err(v)) => vec![v.clone()], _ => vec![] };
        match mcrt::judge(&o, true, own) { Ok(v) => v, Err(e) => vec![Violation { sig: "machinery".into(), msg: e }] }
    })
}

fn main() {
    main_with("h_queue", vec![
        Prop { id: "Q01", assumptions: vec!["up to 8 messages of three priorities, up to three concurrent tasks of two or three operations"], scenarios: vec![
            scn("order_histories", "all short histories of pushes, pops, batches, acks and nacks against a reference queue", order_histories),
            scn("concurrent", "interleavings of producers and consumers; every outcome must be explained by some order", concurrent),
        ]},
        Prop { id: "Q02", assumptions: vec!["the sweep for expired messages may be up to 50 ms late", "an ack or nack of a message that is available again after its timeout may count or be refused, never duplicate or lose it"], scenarios: vec![
            scn("state_histories", "all short histories with timeouts and dead-letter operations against a reference state machine", state_histories),
            scn("dlq_pages", "every page of the dead-letter listing", dlq_pages),
            scn("timeout_race", "interleavings of the timeout sweep with acks, nacks, pops and dead-letter operations", timeout_race),
            scn("extremes", "settings, batch sizes and waits of every magnitude", extremes),
        ]},
        Prop { id: "Q03", assumptions: vec!["storage operations reach the disk in order; the last one may be torn", "a message that was handed out and returned may change its place among messages of its priority at a restart"], scenarios: vec![
            scn("crash_histories", "every crash point (and torn last write) of every short history", crash_histories),
            scn("store_race", "concurrent operations on the same messages, then a restart", store_race),
            scn("faults", "every storage operation of a flush failing once, then a restart", faults),
        ]},
        Prop { id: "Q04", assumptions: vec!["up to two waiting consumers and three messages"], scenarios: vec![
            scn("wakeups", "a message becoming available in every way while consumers wait, deadlines racing", wakeups),
            scn("prompt", "the same without time passing: served by the wake-up, not the deadline", prompt),
            scn("cancelled", "a consumer dropped at every moment of its wait", cancelled),
        ]},
        Prop { id: "Q05", assumptions: vec!["two queue names, one a prefix of the other's file name; other name shapes are in W04"], scenarios: vec![
            scn("lifecycle_histories", "all short histories of creation, deletion and use, with every crash point of the last step", lifecycle_histories),
            scn("lifecycle_race", "creation, deletion and use of one queue at the same time, then a restart", lifecycle_race),
            scn("delete_cancelled", "a deletion whose caller goes away at any moment, then a restart", delete_cancelled),
            scn("isolation", "two queues used at the same time", isolation),
        ]},
        Prop { id: "Q06", assumptions: vec!["one failing storage operation or a run of them (thorough: two)", "a failure may be whole or, for a write, half way"], scenarios: vec![
            scn("use_faults", "each storage operation failing while a queue is created and used, then a restart", use_faults),
            scn("startup_faults", "each storage operation failing while the server starts, then a restart", startup_faults),
            scn("delete_faults", "each storage operation failing while a queue is deleted, then creation and a restart", delete_faults),
        ]},
    ]);
}
