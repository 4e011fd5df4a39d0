//! R01: what is over leaves nothing behind. Everything a client can do and undo is
//! repeated; memory, tasks and open files of the server must come back each time.
use super::*;
use nexo::brokers::stream::config::SystemStreamConfig;

const PERIOD: u64 = 1000;
/// the rounds after which the server is measured
const MEASURED: [u32; 3] = [6, 12, 24];

struct G {
    e: NexoEngine,
    c: Conn,
    id: u32,
    round: u32,
    fresh: bool,
    /// connections and memberships of units that are open
    conns: BTreeMap<usize, Conn>,
    mem: BTreeMap<usize, (String, u64)>,
}
impl G {
    async fn new(fresh: bool) -> R<G> {
        let dir = root().join("g");
        let mut e = engine_with(&dir, |q, s| {
            q.default_flush_ms = 40; q.visibility_timeout_ms = 200; q.max_retries = 1;
            s.default_flush_ms = 40; s.eviction_interval_ms = 60; s.retention_check_interval_ms = 100; s.ram_soft_limit = 1;
            s.max_segment_size = 100; s.default_retention_bytes = 200; s.ack_wait_ms = 150; s.max_deliveries = 2;
        }).await;
        let mut st = StoreConfig::default();
        st.cleanup_interval_secs = 1;
        e.store = Arc::new(StoreManager::new(Arc::new(st)));
        let mut ps = PubSubConfig::default();
        ps.persistence_path = dir.join("p2").to_string_lossy().to_string();
        ps.cleanup_interval_seconds = 1;
        ps.retained_flush_ms = 50;
        e.pubsub = Arc::new(PubSubManager::new(Arc::new(ps)));
        let c = Conn::open(&e, 1 << 20);
        let mut g = G { e, c, id: 1, round: 0, fresh, conns: BTreeMap::new(), mem: BTreeMap::new() };
        g.ok(0x10, &cat(&[&s("q"), &s("{\"visibilityTimeoutMs\":200,\"maxRetries\":1}")])).await?;
        g.ok(0x30, &cat(&[&s("st"), &s("{}")])).await?;
        g.ok(0x30, &cat(&[&s("keep"), &s("{\"retention\":{\"maxBytes\":1000000000}}")])).await?;
        g.ok(0x30, &cat(&[&s("idle"), &s("{}")])).await?;
        // in half of the histories, the connection is a member of a group that it stays in
        if fresh { for x in ["st", "keep", "idle"] { g.ok(0x33, &cat(&[&s("stays"), &s(x)])).await?; } }
        Ok(g)
    }
    async fn ok(&mut self, op: u8, p: &[u8]) -> R<F> { self.id += 1; let id = self.id; self.c.ok(op, id, p).await }
    /// whatever the answer
    async fn any(&mut self, op: u8, p: &[u8]) -> R<F> { self.id += 1; let id = self.id; self.c.call(op, id, p).await }
    /// a name of this unit, the same in every round or not
    fn name(&self, u: usize, x: &str) -> String { if self.fresh { format!("{}-{}-{:06}", x, u, self.round) } else { format!("{}-{}", x, u) } }
    fn conn(&mut self, u: usize, cap: usize) -> &mut Conn { let c = Conn::open(&self.e, cap); self.conns.insert(u, c); self.conns.get_mut(&u).unwrap() }
    async fn wait_answer(&mut self) -> R<()> { for _ in 0..50 { sleep_ms(10).await; if self.c.frames().await?.iter().any(|f| f.ty == RESP) { return Ok(()); } } viol("hang", "a waiting request was not answered after half a second") }
    async fn join(&mut self, u: usize, g: &str, st: &str) -> R<()> { let f = self.ok(0x33, &cat(&[&s(g), &s(st)])).await?; self.mem.insert(u, joined(&f)); Ok(()) }
    async fn leave(&mut self, u: usize, g: &str, st: &str) -> R<()> { let (m, n) = self.mem.remove(&u).unwrap(); self.any(0x39, &cat(&[&s(st), &s(g), &s(&m), &u64b(n)])).await.map(|_| ()) }
    async fn fetch(&mut self, u: usize, g: &str, st: &str, wait: u32) -> R<()> {
        let (m, n) = self.mem[&u].clone();
        self.id += 1;
        let id = self.id;
        self.c.req(0x32, id, &fetch_req(st, g, &m, n, 2, wait));
        if self.c.frames().await?.iter().any(|f| f.ty == RESP) { return Ok(()); }
        self.wait_answer().await
    }
    async fn http(&mut self, uri: &str) { let _ = web::get(&self.e, uri).await; }
    async fn open(&mut self, u: usize) -> R<()> {
        match UNITS[u] {
            "connection" => { let c = self.conn(u, 1 << 20); c.ok(0, 1, b"x").await?; }
            "subscription" => { let t = self.name(u, "t"); self.ok(0x22, &s(&t)).await?; self.ok(0x22, &s(&t)).await?; }
            "pattern" => { let t = self.name(u, "t"); self.ok(0x22, &s(&format!("{}/+/#", t))).await?; self.ok(0x21, &cat(&[&s(&format!("{}/a/b", t)), &s("{}"), b"\x01v"])).await?; }
            "subscriber dies" => { let t = self.name(u, "t"); let c = self.conn(u, 1 << 20); for x in ["", "/+", "/#", "/a/b"] { c.ok(0x22, 2, &s(&format!("{}{}", t, x))).await?; } }
            "same pattern by two" => { let t = self.name(u, "t"); self.ok(0x22, &s(&format!("{}/+", t))).await?; self.conn(u, 1 << 20).ok(0x22, 1, &s(&format!("{}/+", t))).await?; }
            "retained" => { let t = self.name(u, "r/x"); self.ok(0x21, &cat(&[&s(&t), &s("{\"retain\":true}"), b"\x01v"])).await?; }
            "retained for a second" => { let t = self.name(u, "r/x/y"); self.ok(0x21, &cat(&[&s(&t), &s("{\"retain\":true,\"ttl\":1}"), b"\x01v"])).await?; }
            "published to nobody" => { let t = self.name(u, "n/x/y"); self.ok(0x21, &cat(&[&s(&t), &s("{}"), b"\x01v"])).await?; self.any(0x23, &s(&t)).await?; }
            "slow reader" => {
                let t = self.name(u, "t");
                self.conn(u, 300).ok(0x22, 2, &s(&t)).await?;
                for _ in 0..5 { self.ok(0x21, &cat(&[&s(&t), &s("{}"), &[1; 200]])).await?; }
            }
            "key" => { let k = self.name(u, "k"); self.ok(0x02, &cat(&[&s(&k), &s("{}"), b"\x01v"])).await?; self.ok(0x02, &cat(&[&s(&k), &s("{}"), b"\x01w"])).await?; }
            "key for a second" => { let k = self.name(u, "k"); self.ok(0x02, &cat(&[&s(&k), &s("{\"ttl\":1}"), b"\x01v"])).await?; }
            "missing things" => {
                let n = self.name(u, "m");
                for (op, p) in [(0x03, s(&n)), (0x04, s(&n)), (0x14, s(&n)), (0x15, s(&n)), (0x11, cat(&[&s(&n), &s("{}"), b"\x01v"])), (0x12, get_req(&n, 1, 50)), (0x35, s(&n)), (0x36, s(&n)), (0x31, cat(&[&s(&n), b"\x01v"])), (0x33, cat(&[&s("g"), &s(&n)])),
                    (0x32, fetch_req(&n, "g", "m", 1, 1, 0)), (0x32, fetch_req("st", &n, "m", 1, 1, 0)), (0x34, cat(&[&s("st"), &s(&n), &s("m"), &u64b(1), &u64b(1)])), (0x38, cat(&[&s(&n), &s("g"), &[0]])), (0x39, cat(&[&s("st"), &s(&n), &s("m"), &u64b(1)])),
                    (0x13, cat(&[&[7; 16], &s("q")])), (0x1A, cat(&[&[7; 16], &s("q"), &s("why")])), (0x17, cat(&[&s("q"), &[7; 16]])), (0x18, cat(&[&s("q"), &[7; 16]]))] { self.any(op, &p).await?; }
            }
            "unreadable requests" => { for (op, p) in [(0xEE, vec![1, 2]), (0x11, s("q")), (0x02, cat(&[&s("k"), &s("{nonsense")])), (0x32, vec![0, 0]), (0x10, cat(&[&s("../x"), &s("{}")])), (0x30, cat(&[&s("a/b"), &s("{}")]))] { self.any(op, &p).await?; } }
            "message" => { let t = format!("{{\"priority\":{}}}", u % 3); self.ok(0x11, &cat(&[&s("q"), &s(&t), b"\x01m"])).await?; }
            "rejected message" => {
                self.ok(0x11, &cat(&[&s("q"), &s("{\"priority\":9}"), b"\x01bad"])).await?;
                for _ in 0..3 {
                    let f = self.ok(0x12, &get_req("q", 9, 0)).await?;
                    for x in ids(&f) { self.ok(0x1A, &cat(&[&x, &s("q"), &s("why not")])).await?; }
                }
            }
            "timed out message" => { self.ok(0x11, &cat(&[&s("q"), &s("{\"priority\":8}"), b"\x01late"])).await?; self.ok(0x12, &get_req("q", 1, 0)).await?; }
            "wait for a message" => { self.id += 1; let id = self.id; self.c.req(0x12, id, &get_req("q", 1, 40)); quiesce().await; }
            "waiting consumer dies" => { let c = self.conn(u, 1 << 20); c.req(0x12, 1, &get_req("q", 1, 1_000_000)); quiesce().await; }
            "queue" => { let n = self.name(u, "q"); self.ok(0x10, &cat(&[&s(&n), &s("{}")])).await?; }
            "full queue" => {
                let n = self.name(u, "q");
                self.ok(0x10, &cat(&[&s(&n), &s("{\"maxRetries\":1}")])).await?;
                for _ in 0..3 { self.ok(0x11, &cat(&[&s(&n), &s("{}"), b"\x01m"])).await?; }
                let f = self.ok(0x12, &get_req(&n, 2, 0)).await?;
                self.ok(0x1A, &cat(&[&ids(&f)[0], &s(&n), &s("why")])).await?;
            }
            "awaited queue" => { let n = self.name(u, "q"); self.ok(0x10, &cat(&[&s(&n), &s("{}")])).await?; let c = self.conn(u, 1 << 20); c.req(0x12, 1, &get_req(&n, 1, 700)); quiesce().await; }
            "stream" => { let n = self.name(u, "s"); self.ok(0x30, &cat(&[&s(&n), &s("{}")])).await?; }
            "full stream" => {
                let n = self.name(u, "s");
                self.ok(0x30, &cat(&[&s(&n), &s("{}")])).await?;
                for _ in 0..4 { self.ok(0x31, &cat(&[&s(&n), b"\x01some message"])).await?; }
                self.join(u, "g", &n).await?;
                self.fetch(u, "g", &n, 0).await?;
            }
            "awaited stream" => {
                let n = self.name(u, "s");
                self.ok(0x30, &cat(&[&s(&n), &s("{}")])).await?;
                let c = self.conn(u, 1 << 20);
                let j = joined(&c.ok(0x33, 1, &cat(&[&s("g"), &s(&n)])).await?);
                c.req(0x32, 2, &fetch_req(&n, "g", &j.0, j.1, 2, 700));
                quiesce().await;
            }
            "record" => { self.ok(0x31, &cat(&[&s("st"), b"\x01some message"])).await?; }
            "kept record" => { self.ok(0x31, &cat(&[&s("keep"), b"\x01some message"])).await?; }
            "member" => { self.join(u, "g", "st").await?; }
            "member dies" => {
                self.ok(0x31, &cat(&[&s("st"), b"\x01some message"])).await?;
                let c = self.conn(u, 1 << 20);
                let j = joined(&c.ok(0x33, 1, &cat(&[&s("h"), &s("st")])).await?);
                c.ok(0x32, 2, &fetch_req("st", "h", &j.0, j.1, 2, 0)).await?;
            }
            "waiting member" => { self.join(u, "w", "idle").await?; self.fetch(u, "w", "idle", 30).await?; }
            "waiting member dies" => { let c = self.conn(u, 1 << 20); let j = joined(&c.ok(0x33, 1, &cat(&[&s("w"), &s("idle")])).await?); c.req(0x32, 2, &fetch_req("idle", "w", &j.0, j.1, 2, 1_000_000)); quiesce().await; }
            "worker" => {
                // every message fetched is acknowledged; the stream keeps all of them
                self.ok(0x31, &cat(&[&s("keep"), b"\x01some message"])).await?;
                self.join(u, "k", "keep").await?;
                let (m, n) = self.mem[&u].clone();
                let f = self.ok(0x32, &fetch_req("keep", "k", &m, n, 5, 0)).await?;
                for q in seqs(&f) { self.ok(0x34, &cat(&[&s("keep"), &s("k"), &s(&m), &u64b(n), &u64b(q)])).await?; }
            }
            "idle worker" => { self.ok(0x31, &cat(&[&s("st"), b"\x01some message"])).await?; self.join(u, "i", "st").await?; self.fetch(u, "i", "st", 0).await?; sleep_ms(400).await; self.fetch(u, "i", "st", 0).await?; sleep_ms(400).await; }
            "seek" => { self.join(u, "z", "st").await?; self.ok(0x38, &cat(&[&s("st"), &s("z"), &[0]])).await?; }
            "dashboard" => { for x in ["/api/store", "/api/queue", "/api/queue/q/messages?state=pending", "/api/stream", "/api/stream/st/messages", "/api/pubsub", "/api/store?search=k&limit=1"] { self.http(x).await; } }
            "oversized frame" => { let c = self.conn(u, 1 << 20); c.put(&[REQ, 0, 0, 0, 0, 1, 255, 255, 255, 255]); quiesce().await; }
            _ => { let c = self.conn(u, 1 << 20); c.put(&frame(REQ, 0x22, 26, &s("half"))[..13]); quiesce().await; }
        }
        Ok(())
    }
    async fn close(&mut self, u: usize) -> R<()> {
        match UNITS[u] {
            "subscription" => { let t = self.name(u, "t"); self.ok(0x23, &s(&t)).await?; }
            "pattern" => { let t = self.name(u, "t"); self.ok(0x23, &s(&format!("{}/+/#", t))).await?; self.ok(0x21, &cat(&[&s(&format!("{}/a/b", t)), &s("{}"), b"\x01v"])).await?; }
            "same pattern by two" => { let t = self.name(u, "t"); self.ok(0x23, &s(&format!("{}/+", t))).await?; }
            "retained" => { let t = self.name(u, "r/x"); self.ok(0x21, &cat(&[&s(&t), &s("{\"retain\":true}")])).await?; }
            "key" => { let k = self.name(u, "k"); self.ok(0x04, &s(&k)).await?; }
            "queue" | "full queue" | "awaited queue" => { let n = self.name(u, "q"); self.ok(0x15, &s(&n)).await?; }
            "stream" | "full stream" | "awaited stream" => { let n = self.name(u, "s"); self.ok(0x36, &s(&n)).await?; self.mem.remove(&u); }
            "member" => { self.leave(u, "g", "st").await?; }
            "waiting member" => { self.leave(u, "w", "idle").await?; }
            "worker" => { self.leave(u, "k", "keep").await?; }
            "idle worker" => { self.leave(u, "i", "st").await?; }
            "seek" => { self.ok(0x38, &cat(&[&s("st"), &s("z"), &[1]])).await?; self.mem.remove(&u); }
            _ => {}
        }
        if let Some(c) = self.conns.remove(&u) { let Conn { s, h, .. } = c; drop(s); drop(h); }
        Ok(())
    }
    /// Everything else comes to its end: queues emptied, groups caught up, lifetimes over, everything stored.
    async fn settle(&mut self) -> R<()> {
        for _ in 0..3 {
            sleep_ms(250).await;
            let _ = self.c.frames().await?;
            for _ in 0..4 {
                let f = self.ok(0x12, &get_req("q", 20, 0)).await?;
                let v = ids(&f);
                if v.is_empty() { break; }
                for x in v { self.any(0x13, &cat(&[&x, &s("q")])).await?; }
            }
        }
        self.ok(0x19, &s("q")).await?;
        // groups are moved to the end: what they have seen and given up is behind them
        for g in ["g", "h", "i", "z"] { self.any(0x38, &cat(&[&s("st"), &s(g), &[1]])).await?; }
        sleep_ms(2 * PERIOD + 300).await;
        quiesce().await;
        let _ = self.c.frames().await?;
        Ok(())
    }
}
pub fn ids(f: &F) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut at = 4;
    while at + 20 <= f.p.len() { let n = u32::from_be_bytes(f.p[at + 16..at + 20].try_into().unwrap()) as usize; v.push(f.p[at..at + 16].to_vec()); at += 20 + n; }
    v
}
pub fn seqs(f: &F) -> Vec<u64> {
    let mut v = vec![];
    let mut at = 4;
    while at + 20 <= f.p.len() { v.push(u64::from_be_bytes(f.p[at..at + 8].try_into().unwrap())); at += 20 + u32::from_be_bytes(f.p[at + 16..at + 20].try_into().unwrap()) as usize; }
    v
}
const UNITS: [&str; 35] = [
    "connection", "subscription", "pattern", "subscriber dies", "same pattern by two", "retained", "retained for a second", "published to nobody", "slow reader",
    "key", "key for a second", "missing things", "unreadable requests", "message", "rejected message", "timed out message", "wait for a message", "waiting consumer dies",
    "queue", "full queue", "awaited queue", "stream", "full stream", "awaited stream", "record", "member", "member dies", "waiting member", "waiting member dies",
    "worker", "idle worker", "seek", "dashboard", "oversized frame", "kept record",
];

pub fn repeated(c: &Ctx) -> Report {
    let thorough = c.thorough;
    c.run_checked(Plan::default().disk(), move || async move {
        let fresh = choose(2, "names") == 1;
        let a = choose(UNITS.len(), "first");
        // alone, or with another: after it, within it, across its end
        let b = choose(UNITS.len() + 1, "second");
        let shape = if b == UNITS.len() || !thorough && b < a { 0 } else { choose(if a == b { 1 } else { 3 }, "shape") };
        if b < UNITS.len() && !thorough && b < a { return Ok(()); }
        let what = if b == UNITS.len() { UNITS[a].to_string() } else { format!("{} {} {}", UNITS[a], ["and then", "around", "overlapping"][shape], UNITS[b]) };
        let times = if b == UNITS.len() { 10 } else { 1 };
        let t = mcrt::heap::Tracking::start();
        let mut g = G::new(fresh).await?;
        let mut seen: Vec<(usize, usize, usize, usize)> = vec![];
        for r in 1..=MEASURED[2] {
            t.round(r);
            for _ in 0..times {
                g.round += 1;
                if b == UNITS.len() { g.open(a).await?; g.close(a).await?; continue; }
                match shape {
                    0 => { g.open(a).await?; g.close(a).await?; g.open(b).await?; g.close(b).await?; }
                    1 => { g.open(a).await?; g.open(b).await?; g.close(b).await?; g.close(a).await?; }
                    _ => { g.open(a).await?; g.open(b).await?; g.close(a).await?; g.close(b).await?; }
                }
            }
            g.settle().await?;
            if MEASURED.contains(&r) { let (by, n) = t.live(); seen.push((by, n, tasks().len(), mcrt::io::open_files().len())); }
        }
        let left = t.left_by(MEASURED[1] + 1);
        let files = mcrt::io::open_files();
        let at = format!("{} ({}), seen after {:?} times", what, if fresh { "new names each time" } else { "the same names" }, MEASURED.map(|m| m * times));
        // more each time: at least so many from one measurement to the next
        let grew = |f: &dyn Fn(&(usize, usize, usize, usize)) -> usize, per: usize| (1..3).all(|i| f(&seen[i]) >= f(&seen[i - 1]) + per * (MEASURED[i] - MEASURED[i - 1]) as usize);
        ensure!(!grew(&|x| x.2, 1), "tasks", "{}: the server has more and more tasks: {:?}; now {:?}", at, seen.iter().map(|x| x.2).collect::<Vec<_>>(), tasks());
        ensure!(!grew(&|x| x.3, 1), "files", "{}: the server has more and more files open: {:?}; now {:?}", at, seen.iter().map(|x| x.3).collect::<Vec<_>>(), files);
        // (bytes alone count when there are many: a container that only grows)
        let more = grew(&|x| x.1, 1) && grew(&|x| x.0, 8) || times > 1 && grew(&|x| x.0, 8 * times as usize);
        ensure!(!more, "memory", "{}: the server holds more and more memory (bytes, pieces): {:?}; one round has left pieces of {:?} bytes", at, seen.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), left);
        drop(t);
        note_state(&(fresh, a, b, shape));
        Ok(())
    })
}

/// No more log files are open than configured, and no more messages in memory,
/// whatever is published, read and deleted in whatever order.
pub fn limits(c: &Ctx) -> Report {
    let depth = if c.thorough { 5 } else { 4 };
    c.run_checked(Plan::default().disk(), move || async move {
        let dir = root().join("g");
        let most = 1 + choose(2, "files");
        let e = engine_with(&dir, |_, s| {
            s.default_flush_ms = 40; s.eviction_interval_ms = 60; s.retention_check_interval_ms = 100; s.ram_soft_limit = 2;
            s.max_segment_size = 150; s.default_retention_bytes = 10_000_000; s.max_open_files = most;
        }).await;
        let mut c = Conn::open(&e, 1 << 20);
        let names = ["a", "b", "c"];
        let mut ids = 0;
        let mut joins = vec![];
        for n in names {
            c.ok(0x30, 1, &cat(&[&s(n), &s("{}")])).await?;
            joins.push(joined(&c.ok(0x33, 2, &cat(&[&s("g"), &s(n)])).await?));
        }
        let mut did: Vec<String> = vec![];
        for _ in 0..depth {
            let k = choose(3 * 3 + 1, "do");
            if k == 9 { sleep_ms(130).await; did.push("time passes".into()); }
            else {
                let n = names[k / 3];
                match k % 3 {
                    0 => { for _ in 0..3 { ids += 1; c.ok(0x31, 10 + ids, &cat(&[&s(n), &[1; 40]])).await?; } did.push(format!("3 messages to {}", n)); }
                    1 => {
                        c.ok(0x38, 5, &cat(&[&s(n), &s("g"), &[0]])).await?;
                        joins[k / 3] = joined(&c.ok(0x33, 6, &cat(&[&s("g"), &s(n)])).await?);
                        let j = &joins[k / 3];
                        c.ok(0x32, 7, &fetch_req(n, "g", &j.0, j.1, 100, 0)).await?;
                        did.push(format!("{} read from its start", n));
                    }
                    _ => { c.ok(0x36, 8, &s(n)).await?; c.ok(0x30, 9, &cat(&[&s(n), &s("{}")])).await?; joins[k / 3] = joined(&c.ok(0x33, 2, &cat(&[&s("g"), &s(n)])).await?); did.push(format!("{} deleted and created again", n)); }
                }
            }
            quiesce().await;
            let open: Vec<String> = mcrt::io::open_files().into_iter().filter(|f| f.ends_with(".log")).collect();
            note_state(&(did.clone(), open.len()));
            ensure!(open.len() <= most, "files", "{}: {} log files are open, {} are allowed: {:?}", did.join(", "), open.len(), most, open);
        }
        Ok(())
    })
}
