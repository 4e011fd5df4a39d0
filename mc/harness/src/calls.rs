//! W06: a request does what the client asked for and the answer says what happened.
//! Every history of requests over connections, beside the same calls made directly on a twin.
use super::*;
use nexo::brokers::pub_sub::{ClientId, PubSubMessage};
use nexo::brokers::stream::options::{RetentionOptions, SeekTarget};
use std::collections::BTreeSet;
use tokio::sync::mpsc;
use uuid::Uuid;

/// of a retained message that says nothing about it
pub const TTL: u64 = 5;

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Ok, Err(String), Null, Data(Vec<u8>),
    Msgs(Vec<(Uuid, Vec<u8>)>), Dlq(u32, Vec<(Uuid, Vec<u8>, u32, String)>), Bool(bool), Count(u32),
    Seq(u64), Fetched(Vec<(u64, u64, Vec<u8>)>), Joined(u64, u64, String),
}
struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn n(&mut self, n: usize) -> Option<&'a [u8]> { if self.0.len() < n { return None; } let (a, b) = self.0.split_at(n); self.0 = b; Some(a) }
    fn u8(&mut self) -> Option<u8> { Some(self.n(1)?[0]) }
    fn u32(&mut self) -> Option<u32> { Some(u32::from_be_bytes(self.n(4)?.try_into().unwrap())) }
    fn u64(&mut self) -> Option<u64> { Some(u64::from_be_bytes(self.n(8)?.try_into().unwrap())) }
    fn uuid(&mut self) -> Option<Uuid> { Some(Uuid::from_bytes(self.n(16)?.try_into().unwrap())) }
    fn bytes(&mut self) -> Option<Vec<u8>> { let n = self.u32()? as usize; Some(self.n(n)?.to_vec()) }
    fn str(&mut self) -> Option<String> { String::from_utf8(self.bytes()?).ok() }
    fn done(&self) -> Option<()> { if self.0.is_empty() { Some(()) } else { None } }
}
/// an answer as the client library reads it
fn read(op: u8, f: &F) -> Option<Out> {
    let mut c = Cur(&f.p);
    let o = match f.meta {
        OK => Out::Ok,
        NULL => Out::Null,
        ERR => Out::Err(c.str()?),
        _ => match op {
            0x12 => { let n = c.u32()?; let mut v = vec![]; for _ in 0..n { v.push((c.uuid()?, c.bytes()?)); } Out::Msgs(v) }
            0x16 => { let t = c.u32()?; let n = c.u32()?; let mut v = vec![]; for _ in 0..n { v.push((c.uuid()?, c.bytes()?, c.u32()?, c.str()?)); } Out::Dlq(t, v) }
            0x17 | 0x18 => Out::Bool(match c.u8()? { 0 => false, 1 => true, _ => return None }),
            0x19 => Out::Count(c.u32()?),
            0x31 => Out::Seq(c.u64()?),
            0x32 => { let n = c.u32()?; let mut v = vec![]; for _ in 0..n { v.push((c.u64()?, c.u64()?, c.bytes()?)); } Out::Fetched(v) }
            0x33 => Out::Joined(c.u64()?, c.u64()?, c.str()?),
            _ => Out::Data(c.n(c.0.len())?.to_vec()),
        },
    };
    c.done()?;
    Some(o)
}

/// names differ between the twins; here the first is the one behind the connections
type Two<T> = (T, T);
#[derive(Clone, Debug)]
enum Call {
    Echo(Vec<u8>),
    Set(String, Option<u64>, Vec<u8>), Get(String), Del(String),
    QCreate(String, Option<u64>, Option<u32>), Push(String, Option<u8>, Vec<u8>), Consume(String, Option<usize>, Option<u64>),
    Ack(Two<Uuid>, String), Nack(Two<Uuid>, String, String), QExists(String), QDelete(String),
    Peek(String, u32, u32), Move(String, Two<Uuid>), DelDlq(String, Two<Uuid>), Purge(String),
    Pub(String, Option<bool>, Option<u64>, Vec<u8>), Sub(String), Unsub(String),
    SCreate(String, Option<(Option<u64>, Option<u64>)>), SPub(String, Vec<u8>), Fetch(String, String, Two<String>, u64, u32, u32), Join(String, String),
    SAck(String, String, Two<String>, u64, u64), SExists(String), SDelete(String), Seek(String, String, bool), Leave(String, String, Two<String>, u64),
}
fn opts(v: &[(&str, Option<String>)]) -> Vec<u8> { s(&format!("{{{}}}", v.iter().filter_map(|(k, x)| x.as_ref().map(|x| format!("\"{}\":{}", k, x))).collect::<Vec<_>>().join(","))) }
fn o<T: ToString>(x: &Option<T>) -> Option<String> { x.as_ref().map(|x| x.to_string()) }
impl Call {
    /// the request as the client library writes it
    fn wire(&self) -> (u8, Vec<u8>) {
        use Call::*;
        match self {
            Echo(p) => (0, p.clone()),
            Set(k, ttl, v) => (0x02, cat(&[&s(k), &opts(&[("ttl", o(ttl))]), v])),
            Get(k) => (0x03, s(k)),
            Del(k) => (0x04, s(k)),
            QCreate(n, vt, r) => (0x10, cat(&[&s(n), &opts(&[("visibilityTimeoutMs", o(vt)), ("maxRetries", o(r))])])),
            Push(n, pr, v) => (0x11, cat(&[&s(n), &opts(&[("priority", o(pr))]), v])),
            Consume(n, b, w) => (0x12, cat(&[&s(n), &opts(&[("batchSize", o(b)), ("waitMs", o(w))])])),
            Ack(id, n) => (0x13, cat(&[id.0.as_bytes(), &s(n)])),
            QExists(n) => (0x14, s(n)),
            QDelete(n) => (0x15, s(n)),
            Peek(n, l, of) => (0x16, cat(&[&s(n), &u32b(*l), &u32b(*of)])),
            Move(n, id) => (0x17, cat(&[&s(n), id.0.as_bytes()])),
            DelDlq(n, id) => (0x18, cat(&[&s(n), id.0.as_bytes()])),
            Purge(n) => (0x19, s(n)),
            Nack(id, n, why) => (0x1A, cat(&[id.0.as_bytes(), &s(n), &s(why)])),
            Pub(t, r, ttl, v) => (0x21, cat(&[&s(t), &opts(&[("retain", o(r)), ("ttl", o(ttl))]), v])),
            Sub(t) => (0x22, s(t)),
            Unsub(t) => (0x23, s(t)),
            SCreate(n, ret) => (0x30, cat(&[&s(n), &match ret { None => s("{}"), Some((a, b)) => s(&format!("{{\"retention\":{}}}", String::from_utf8_lossy(&opts(&[("maxAgeMs", o(a)), ("maxBytes", o(b))])[4..]))) }])),
            SPub(n, v) => (0x31, cat(&[&s(n), v])),
            Fetch(n, g, m, gen, l, w) => (0x32, fetch_req(n, g, &m.0, *gen, *l, *w)),
            Join(g, n) => (0x33, cat(&[&s(g), &s(n)])),
            SAck(n, g, m, gen, q) => (0x34, cat(&[&s(n), &s(g), &s(&m.0), &u64b(*gen), &u64b(*q)])),
            SExists(n) => (0x35, s(n)),
            SDelete(n) => (0x36, s(n)),
            Seek(n, g, end) => (0x38, cat(&[&s(n), &s(g), &[*end as u8]])),
            Leave(n, g, m, gen) => (0x39, cat(&[&s(n), &s(g), &s(&m.0), &u64b(*gen)])),
        }
    }
    /// what it means
    async fn direct(self, e: NexoEngine, me: ClientId) -> Out {
        use Call::*;
        let unit = |r: Result<(), String>| match r { Ok(()) => Out::Ok, Err(e) => Out::Err(e) };
        let yes = |b: bool| if b { Out::Ok } else { Out::Err(String::new()) };
        match self {
            Echo(p) => Out::Data(p),
            Set(k, ttl, v) => { e.store.map.set(k, Bytes::from(v), ttl); Out::Ok }
            Get(k) => e.store.map.get(&k).map_or(Out::Null, |v| Out::Data(v.to_vec())),
            Del(k) => { e.store.map.del(&k); Out::Ok }
            QCreate(n, visibility_timeout_ms, max_retries) => unit(e.queue.create_queue(n, QueueCreateOptions { visibility_timeout_ms, max_retries }).await),
            Push(n, pr, v) => unit(e.queue.push(n, Bytes::from(v), pr.unwrap_or(0)).await),
            Consume(n, b, w) => match e.queue.consume_batch(n, b, w).await { Ok(m) => Out::Msgs(m.into_iter().map(|m| (m.id, m.payload.to_vec())).collect()), Err(e) => Out::Err(e) },
            Ack(id, n) => yes(e.queue.ack(&n, id.1).await),
            Nack(id, n, why) => yes(e.queue.nack(&n, id.1, why).await),
            QExists(n) => yes(e.queue.exists(&n).await),
            QDelete(n) => unit(e.queue.delete_queue(n).await),
            Peek(n, l, of) => match e.queue.peek_dlq(&n, l as usize, of as usize).await { Ok((t, v)) => Out::Dlq(t as u32, v.into_iter().map(|m| (m.id, m.payload.to_vec(), m.attempts, m.failure_reason)).collect()), Err(e) => Out::Err(e) },
            Move(n, id) => e.queue.move_to_queue(&n, id.1).await.map_or_else(Out::Err, Out::Bool),
            DelDlq(n, id) => e.queue.delete_dlq(&n, id.1).await.map_or_else(Out::Err, Out::Bool),
            Purge(n) => e.queue.purge_dlq(&n).await.map_or_else(Out::Err, |c| Out::Count(c as u32)),
            Pub(t, r, ttl, v) => { e.pubsub.publish(&t, Bytes::from(v), r.unwrap_or(false), Some(ttl.unwrap_or(TTL))); Out::Ok }
            Sub(t) => { e.pubsub.subscribe(&me, &t); Out::Ok }
            Unsub(t) => { e.pubsub.unsubscribe(&me, &t); Out::Ok }
            SCreate(n, ret) => unit(e.stream.create_topic(n, StreamCreateOptions { retention: ret.map(|(max_age_ms, max_bytes)| RetentionOptions { max_age_ms, max_bytes }) }).await),
            SPub(n, v) => e.stream.publish(&n, Bytes::from(v)).await.map_or_else(Out::Err, Out::Seq),
            Fetch(n, g, m, gen, l, w) => match e.stream.fetch(&g, &m.1, gen, l as usize, &n, w as u64).await { Ok(v) => Out::Fetched(v.into_iter().map(|m| (m.seq, m.timestamp, m.payload.to_vec())).collect()), Err(e) => Out::Err(e) },
            Join(g, n) => e.stream.join_group(&g, &n, &me.0).await.map_or_else(Out::Err, |j| Out::Joined(j.ack_floor, j.generation, j.consumer_id)),
            SAck(n, g, m, gen, q) => unit(e.stream.ack(&g, &n, &m.1, gen, q).await),
            SExists(n) => yes(e.stream.exists(&n).await),
            SDelete(n) => unit(e.stream.delete_topic(n).await),
            Seek(n, g, end) => unit(e.stream.seek(&g, &n, if end { SeekTarget::End } else { SeekTarget::Beginning }).await),
            Leave(n, g, m, gen) => unit(e.stream.leave_group(&g, &n, &m.1, gen).await),
        }
    }
}

struct Twin {
    b: NexoEngine,
    cs: Vec<Conn>,
    ids: Vec<ClientId>,
    rx: Vec<mpsc::UnboundedReceiver<Arc<PubSubMessage>>>,
    next: u32,
    /// asked and not answered: number -> opcode, connection, the request
    open: BTreeMap<u32, (u8, usize, String)>,
    done: Arc<Shared<BTreeMap<u32, Out>>>,
    /// message body -> its names
    msg: BTreeMap<Vec<u8>, Two<Uuid>>,
    /// memberships in the order they were given
    mem: Vec<(Two<String>, u64)>,
    /// messages in the order they were handed out
    out: Vec<Vec<u8>>,
    log: Vec<String>,
    /// a member has left messages to others
    left: bool,
}
impl Twin {
    async fn new(n: usize, dir: &Path) -> Twin {
        let tune = |q: &mut SystemQueueConfig, s: &mut SystemStreamConfig| {
            q.visibility_timeout_ms = 200; q.max_retries = 2; q.default_batch_size = 2; q.default_wait_ms = 40;
            s.max_segment_size = 64; s.retention_check_interval_ms = 100; s.default_retention_bytes = 200; s.default_retention_age_ms = 600;
        };
        let a = engine_with(&dir.join("a"), tune).await;
        let b = engine_with(&dir.join("b"), tune).await;
        let cs = (0..n).map(|_| Conn::open(&a, 1 << 20)).collect();
        let ids: Vec<ClientId> = (0..n).map(|i| ClientId(format!("client-{}", i))).collect();
        let mut rx = vec![];
        for i in &ids { let (t, r) = mpsc::unbounded_channel(); b.pubsub.connect(i.clone(), t); rx.push(r); }
        quiesce().await;
        Twin { b, cs, ids, rx, next: 1, open: BTreeMap::new(), done: Shared::new(BTreeMap::new()), msg: BTreeMap::new(), mem: vec![], out: vec![], log: vec![], left: false }
    }
    async fn call(&mut self, who: usize, c: Call) -> R<Option<Out>> {
        let id = self.next;
        self.next += 1;
        self.log.push(format!("{}:{:?}", who, c));
        let (op, p) = c.wire();
        self.open.insert(id, (op, who, format!("{:?}", c)));
        self.cs[who].req(op, id, &p);
        let (e, me, done) = (self.b.clone(), self.ids[who].clone(), self.done.clone());
        let _ = spawn_local(async move { let r = c.direct(e, me).await; done.with(|d| d.insert(id, r)); });
        Ok(self.check().await?.remove(&id))
    }
    async fn wait(&mut self, ms: u64) -> R<()> { self.log.push(format!("{} ms pass", ms)); sleep_ms(ms).await; self.check().await.map(|_| ()) }
    /// what both have answered by now is the same
    async fn check(&mut self) -> R<BTreeMap<u32, Out>> {
        let mut got = BTreeMap::new();
        let mut pushes: Vec<Vec<(String, Vec<u8>)>> = vec![];
        for i in 0..self.cs.len() {
            let mut p = vec![];
            for f in self.cs[i].frames().await? {
                if f.ty == PUSH {
                    let mut c = Cur(&f.p);
                    let Some(t) = c.str() else { return viol("push", format!("an unreadable push {}; after {}", short(&[f]), self.log.join("; "))) };
                    p.push((t, c.0.to_vec()));
                    continue;
                }
                let Some((op, who, what)) = self.open.get(&f.id).cloned() else { return viol("answer", format!("an answer to nothing: {}; after {}", short(&[f]), self.log.join("; "))) };
                ensure!(who == i, "answer-to", "the answer to {} goes to connection {}; after {}", what, i, self.log.join("; "));
                let Some(r) = read(op, &f) else { return viol("answer-form", format!("{} is answered {:?}; after {}", what, f, self.log.join("; "))) };
                ensure!(got.insert(f.id, r).is_none(), "answer-twice", "{} is answered twice; after {}", what, self.log.join("; "));
            }
            pushes.push(p);
        }
        quiesce().await;
        let want = self.done.with(|d| std::mem::take(d));
        for (i, rx) in self.rx.iter_mut().enumerate() {
            let mut w = vec![];
            while let Ok(m) = rx.try_recv() { w.push((m.topic.clone(), m.payload.to_vec())); }
            ensure!(pushes[i] == w, "push", "client {} is pushed {:?}, expected {:?}; after {}", i, pushes[i], w, self.log.join("; "));
        }
        let ks: BTreeSet<u32> = got.keys().chain(want.keys()).copied().collect();
        for k in ks {
            let (_, _, what) = self.open.remove(&k).unwrap();
            let (Some(g), Some(w)) = (got.get(&k), want.get(&k)) else { return viol("answered", format!("{}: answered {:?}, expected {:?} by now; after {}", what, got.get(&k), want.get(&k), self.log.join("; "))) };
            let same = match (g, w) {
                (Out::Msgs(a), Out::Msgs(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.1 == b.1 && self.learn(&a.1, a.0, b.0)),
                (Out::Dlq(t, a), Out::Dlq(u, b)) => t == u && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.1 == b.1 && a.2 == b.2 && a.3 == b.3 && self.learn(&a.1, a.0, b.0)),
                // in whatever order they came back to the group
                (Out::Fetched(a), Out::Fetched(b)) if self.left => { let (mut a, mut b) = (a.clone(), b.clone()); a.sort(); b.sort(); a == b }
                (Out::Joined(f, g, _), Out::Joined(f2, g2, _)) => f == f2 && g == g2,
                // no reason to compare
                (Out::Err(_), Out::Err(b)) if b.is_empty() => true,
                _ => g == w,
            };
            ensure!(same, "answer-content", "{}: answered {:?}, expected {:?}; after {}", what, g, w, self.log.join("; "));
            if let (Out::Msgs(a), _) = (g, w) { for m in a { self.out.push(m.1.clone()); } }
        }
        for (k, g) in &got {
            if let (Out::Joined(_, gen, m), Out::Joined(_, _, m2)) = (g, &want[k]) { self.mem.push(((m.clone(), m2.clone()), *gen)); }
        }
        Ok(got)
    }
    /// the same message has the same name every time
    fn learn(&mut self, p: &[u8], a: Uuid, b: Uuid) -> bool { *self.msg.entry(p.to_vec()).or_insert((a, b)) == (a, b) }
    fn id_of(&self, i: usize) -> Two<Uuid> { let n = (Uuid::from_u128(7), Uuid::from_u128(7)); self.out.get(i).map_or(n, |p| self.msg[p]) }
    fn member(&self, i: usize) -> (Two<String>, u64) { self.mem.get(i).cloned().unwrap_or((("nobody".into(), "nobody".into()), 1)) }
    fn last_out(&self) -> usize { self.out.len().saturating_sub(1) }
    async fn all(&mut self, cs: Vec<(usize, Call)>) -> R<()> { for (w, c) in cs { self.call(w, c).await?; } Ok(()) }
    async fn end(&mut self) -> R<()> {
        self.wait(2000).await?;
        ensure!(self.open.is_empty(), "unanswered", "{:?} are never answered; after {}", self.open.values().map(|x| &x.2).collect::<Vec<_>>(), self.log.join("; "));
        for c in &self.cs { ensure!(!c.ended(), "ended", "the connection is over; after {}", self.log.join("; ")); }
        Ok(())
    }
}
fn b(x: &str) -> Vec<u8> { x.as_bytes().to_vec() }

pub fn store(c: &Ctx) -> Report {
    let depth = c.pick(4, 5);
    c.run_checked(Plan::default(), move || async move {
        let mut t = Twin::new(2, Path::new("/dev/null")).await;
        for i in 0..depth {
            let n = choose(10, "request");
            let who = i % 2;
            let c = match n {
                0 => Call::Set("a".into(), None, b(&format!("\x01v{}", i))),
                1 => Call::Set("a".into(), Some(1), b(&format!("\x01v{}", i))),
                2 => Call::Set("b".into(), Some(2), vec![]),
                3 => Call::Set("{}".into(), Some(0), b("{}")),
                4 => Call::Get("a".into()),
                5 => Call::Get("b".into()),
                6 => Call::Del("a".into()),
                7 => Call::Del("b".into()),
                8 => Call::Echo((0..=255u8).collect()),
                _ => { t.wait(1000).await?; continue; }
            };
            t.call(who, c).await?;
        }
        note_state(&t.log);
        for k in ["a", "b", "{}", ""] { t.call(0, Call::Get(k.into())).await?; }
        t.wait(1000).await?;
        for k in ["a", "b", "{}"] { t.call(1, Call::Get(k.into())).await?; }
        t.end().await
    })
}

pub fn queue(c: &Ctx) -> Report {
    let depth = c.pick(3, 4);
    c.run_checked(Plan::default(), move || async move {
        let mut t = Twin::new(2, Path::new("/dev/null")).await;
        let opts = choose(4, "options");
        let (vt, re) = [(None, None), (Some(150), None), (None, Some(0)), (Some(150), Some(1))][opts];
        t.all(vec![(0, Call::QCreate("q".into(), vt, re)), (1, Call::QCreate("r".into(), re.map(|x| x as u64 + 90), None))]).await?;
        for i in 0..3 { t.call(0, Call::Push("q".into(), [None, Some(1), Some(0)][i], b(&format!("\x01m{}", i)))).await?; }
        t.call(0, Call::Push("r".into(), None, vec![0, 255, 0])).await?;
        let start = choose(3, "before");
        if start > 0 {
            t.call(0, Call::Consume("q".into(), Some(2), Some(0))).await?;
            if start == 2 { for _ in 0..3 { let id = t.id_of(0); t.call(0, Call::Nack(id, "q".into(), "why \u{e9}".into())).await?; t.call(1, Call::Consume("q".into(), Some(1), Some(0))).await?; } }
        }
        for i in 0..depth {
            let n = choose(20, "request");
            let who = i % 2;
            let (old, new) = (t.id_of(0), t.id_of(t.last_out()));
            let q = || "q".to_string();
            let c = match n {
                0 => Call::Push(q(), None, b(&format!("\x02p{}", i))),
                1 => Call::Push(q(), Some(255), b(&format!("\x00p{}", i))),
                2 => Call::Push("missing".into(), None, b("x")),
                3 => Call::Consume(q(), None, None),
                4 => Call::Consume(q(), Some(1), Some(0)),
                5 => Call::Consume("r".into(), Some(2), Some(100)),
                6 => Call::Ack(old, q()),
                7 => Call::Ack(new, q()),
                8 => Call::Ack(old, "r".into()),
                9 => Call::Nack(old, q(), "first".into()),
                10 => Call::Nack(new, q(), String::new()),
                11 => Call::Peek(q(), 1, 0),
                12 => Call::Peek(q(), 2, 1),
                13 => Call::Move(q(), old),
                14 => Call::DelDlq(q(), old),
                15 => Call::Purge(q()),
                16 => Call::QExists(q()),
                17 => Call::QDelete(q()),
                18 => Call::QCreate(q(), Some(70), None),
                _ => { t.wait(160).await?; continue; }
            };
            t.call(who, c).await?;
        }
        note_state(&t.log);
        let old = t.id_of(0);
        t.all(vec![(0, Call::QExists("q".into())), (1, Call::Peek("q".into(), 10, 0)), (0, Call::Consume("q".into(), Some(10), Some(0))), (1, Call::Consume("r".into(), Some(10), Some(0))), (0, Call::Move("q".into(), old))]).await?;
        t.wait(210).await?;
        t.all(vec![(0, Call::Peek("q".into(), 10, 0)), (1, Call::Purge("q".into())), (0, Call::Consume("q".into(), Some(10), Some(0)))]).await?;
        t.end().await
    })
}

pub fn stream(c: &Ctx) -> Report {
    let depth = c.pick(3, 4);
    c.run_checked(Plan::default(), move || async move {
        let mut t = Twin::new(2, Path::new("/dev/null")).await;
        // streams and groups have each other's names
        let (x, y) = (|| "x".to_string(), || "y".to_string());
        t.all(vec![(0, Call::SCreate(x(), None)), (0, Call::SCreate(y(), None))]).await?;
        for i in 0..3 { t.call(0, Call::SPub(x(), b(&format!("\x01m{}", i)))).await?; }
        t.call(0, Call::Join(y(), x())).await?;
        if choose(2, "before") == 1 {
            let (m, g) = t.member(0);
            t.call(0, Call::Fetch(x(), y(), m, g, 2, 0)).await?;
            t.call(1, Call::Join(x(), y())).await?;
        }
        for i in 0..depth {
            let n = choose(22, "request");
            let who = i % 2;
            let ((m, g), (nm, ng)) = (t.member(0), t.member(t.mem.len() - 1));
            let c = match n {
                0 => Call::SPub(x(), b(&format!("\x01p{}", i))),
                1 => Call::SPub(y(), vec![]),
                2 => Call::SPub("missing".into(), b("p")),
                3 => Call::Fetch(x(), y(), m, g, if t.left { 9 } else { 1 }, 0),
                4 => Call::Fetch(x(), y(), nm, ng, 9, 0),
                5 => Call::Fetch(x(), y(), m, g, 9, 200),
                6 => Call::Fetch(y(), x(), nm, ng, if t.left { 9 } else { 2 }, 0),
                7 => Call::Fetch(x(), y(), m, g + 1, 1, 0),
                8 => Call::Join(y(), x()),
                9 => Call::Join(x(), y()),
                10 => Call::Join(String::new(), x()),
                11 => Call::SAck(x(), y(), m, g, 1),
                12 => Call::SAck(x(), y(), nm, ng, 2),
                13 => Call::SAck(x(), y(), m, g + 1, 2),
                14 => Call::Seek(x(), y(), false),
                15 => Call::Seek(x(), y(), true),
                16 => Call::Leave(x(), y(), m, g),
                17 => Call::Leave(y(), x(), nm, ng),
                18 => Call::SExists(if i % 2 == 0 { x() } else { "missing".into() }),
                19 => Call::SDelete(x()),
                20 => Call::SCreate(x(), None),
                _ => { t.wait(100).await?; continue; }
            };
            t.left |= matches!(c, Call::Leave(..));
            t.call(who, c).await?;
        }
        note_state(&t.log);
        t.wait(1000).await?;
        t.all(vec![(0, Call::SExists(x())), (0, Call::Join(y(), x())), (1, Call::Join(x(), y()))]).await?;
        for k in [2, 1] {
            if t.mem.len() < k { continue; }
            let (m, g) = t.member(t.mem.len() - k);
            t.all(vec![(0, Call::Fetch(x(), y(), m.clone(), g, 9, 0)), (1, Call::Fetch(y(), x(), m, g, 9, 0))]).await?;
        }
        t.end().await
    })
}

pub fn pubsub(c: &Ctx) -> Report {
    let depth = c.pick(4, 5);
    c.run_checked(Plan::default(), move || async move {
        let mut t = Twin::new(2, Path::new("/dev/null")).await;
        for i in 0..depth {
            let n = choose(13, "request");
            let who = i % 2;
            let v = || b(&format!("\x01v{}", i));
            let c = match n {
                0 => Call::Sub("a".into()),
                1 => Call::Sub("+".into()),
                2 => Call::Sub("a/#".into()),
                3 => Call::Unsub("a".into()),
                4 => Call::Unsub("+".into()),
                5 => Call::Pub("a".into(), None, None, v()),
                6 => Call::Pub("a".into(), Some(true), None, v()),
                7 => Call::Pub("a".into(), Some(true), Some(1), v()),
                8 => Call::Pub("a".into(), Some(false), Some(9), v()),
                9 => Call::Pub("a/b".into(), Some(true), Some(3600), vec![0, 255]),
                10 => Call::Pub("a".into(), Some(true), None, vec![]),
                11 => Call::Sub("#".into()),
                _ => { t.wait(1000).await?; continue; }
            };
            t.call(who, c).await?;
        }
        note_state(&t.log);
        t.all(vec![(0, Call::Sub("a".into())), (1, Call::Sub("#".into())), (0, Call::Pub("a".into(), None, None, b("\x01end")))]).await?;
        for _ in 0..TTL + 1 {
            t.wait(1000).await?;
            t.all(vec![(0, Call::Unsub("+".into())), (0, Call::Sub("+".into())), (1, Call::Unsub("a/+".into())), (1, Call::Sub("a/+".into()))]).await?;
        }
        t.end().await
    })
}

/// What is asked for at creation is what there is.
pub fn creation(c: &Ctx) -> Report {
    c.run_checked(Plan::default().disk(), move || async move {
        let mut t = Twin::new(1, &root()).await;
        let ret = [None, Some((None, None)), Some((Some(300), None)), Some((None, Some(90))), Some((Some(300), Some(90))), Some((Some(0), Some(90))), Some((Some(300), Some(0))), Some((Some(0), Some(0))), Some((Some(1000000), Some(0)))];
        let (x, y) = (|| "x".to_string(), || "y".to_string());
        let r = ret[choose(ret.len(), "retention")];
        note_state(&r);
        t.all(vec![(0, Call::SCreate(x(), r)), (0, Call::SCreate(y(), None)), (0, Call::SCreate(x(), Some((Some(1), Some(1)))))]).await?;
        for i in 0..8u8 {
            t.call(0, Call::SPub(x(), vec![1, i, 0, 0, 0, 0, 0, 0, 0, 0])).await?;
            t.call(0, Call::SPub(y(), vec![1, i, 0, 0, 0, 0, 0, 0, 0, 0])).await?;
            t.wait(if i % 4 == 3 { 250 } else { 30 }).await?;
            if i % 4 == 3 {
                for (k, n) in [x(), y()].into_iter().enumerate() {
                    let g = format!("g{}{}", i, k);
                    t.call(0, Call::Join(g.clone(), n.clone())).await?;
                    let (m, gen) = t.member(t.mem.len() - 1);
                    t.call(0, Call::Fetch(n, g, m, gen, 20, 0)).await?;
                }
            }
        }
        t.wait(700).await?;
        for (k, n) in [x(), y()].into_iter().enumerate() {
            let g = format!("h{}", k);
            t.call(0, Call::Join(g.clone(), n.clone())).await?;
            let (m, gen) = t.member(t.mem.len() - 1);
            t.call(0, Call::Fetch(n, g, m, gen, 20, 0)).await?;
        }
        t.end().await
    })
}
