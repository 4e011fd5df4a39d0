//! R02: what the server does by the clock happens on time, however busy it is.
//! Every such thing, beside every kind of traffic at several rates.
use super::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// periods of the server (ms)
const FLUSH: u64 = 40;
const RETENTION: u64 = 100;
const SWEEP: u64 = 100; // of unacknowledged stream messages
const TIMEOUTS: u64 = 50; // of queue messages
const EVICTION: u64 = 60;
const VISIBILITY: u64 = 200;
const ACK_WAIT: u64 = 150;
const CLEANUP: u64 = 1000;

const THINGS: [&str; 16] = [
    "a published message is stored", "a group's position is saved", "a pushed message is stored", "an acknowledgement is stored", "a retained value is stored",
    "an unacknowledged queue message returns", "the last timeout moves a message to the dead letters", "an unacknowledged stream message goes to another member",
    "a waiting queue consumer is sent away", "a waiting stream consumer is sent away", "an expired key leaves the memory", "an expired retained value leaves the memory",
    "a stream beyond its size is cut", "old messages of a stream are removed", "stored messages leave the memory", "a delayed group is saved again",
];
const TRAFFIC: [&str; 22] = [
    "nothing", "messages to the same stream", "messages to another stream", "messages to the same queue", "messages through another queue", "requests for an empty queue", "acknowledgements of nothing in the same queue",
    "rejections in another queue", "fetches of another group", "short waits of another group", "acknowledgements in another group", "another group's members coming and going", "another group's seeks", "keys", "retained values", "subscriptions", "published messages",
    "looks at the dashboard", "streams created and deleted", "queues created and deleted", "dead letters looked at", "connections coming and going",
];

struct T { e: NexoEngine, c: Conn, id: u32, stop: Rc<Cell<bool>>, bad: Rc<RefCell<Option<String>>> }
impl T {
    async fn ok(&mut self, op: u8, p: &[u8]) -> R<F> { self.id += 1; let id = self.id; self.c.ok(op, id, p).await }
}

/// one piece of traffic: the requests of one turn
fn turn(t: usize, n: u32, stream: &str, queue: &str, m: &Option<(String, u64)>) -> Vec<(u8, Vec<u8>)> {
    let (st, q) = (s(stream), s(queue));
    match TRAFFIC[t] {
        "messages to the same stream" => vec![(0x31, cat(&[&st, b"\x01traffic"]))],
        "messages to another stream" => vec![(0x31, cat(&[&s("other"), b"\x01traffic"]))],
        "messages to the same queue" => vec![(0x11, cat(&[&q, &s("{\"priority\":0}"), b"\x01traffic"]))],
        "messages through another queue" => vec![(0x11, cat(&[&s("otherq"), &s("{}"), b"\x01traffic"])), (0x12, get_req("otherq", 5, 0))],
        "requests for an empty queue" => vec![(0x12, get_req("empty", 5, (n % 3) as u64))],
        "acknowledgements of nothing in the same queue" => vec![(0x13, cat(&[&[7; 16], &q])), (0x1A, cat(&[&[7; 16], &q, &s("why")]))],
        "fetches of another group" => { let m = m.as_ref().unwrap(); vec![(0x32, fetch_req(stream, "tg", &m.0, m.1, 1, 0))] }
        "short waits of another group" => { let m = m.as_ref().unwrap(); vec![(0x32, fetch_req(stream, "tg", &m.0, m.1, 1, 2))] }
        "acknowledgements in another group" => { let m = m.as_ref().unwrap(); vec![(0x34, cat(&[&st, &s("tg"), &s(&m.0), &u64b(m.1), &u64b(n as u64)]))] }
        "another group's members coming and going" => match m { Some(m) if n % 2 == 1 => vec![(0x39, cat(&[&st, &s("tg"), &s(&m.0), &u64b(m.1)]))], _ => vec![(0x33, cat(&[&s("tg"), &st]))] },
        "another group's seeks" => vec![(0x38, cat(&[&st, &s("tg"), &[(n % 2) as u8]]))],
        "keys" => vec![(0x02, cat(&[&s("tk"), &s("{}"), b"\x01v"])), (0x03, s("tk")), (0x04, s("tk"))],
        "retained values" => vec![(0x21, cat(&[&s("tr/x"), &s("{\"retain\":true}"), b"\x01v"]))],
        "subscriptions" => vec![(if n % 2 == 0 { 0x22 } else { 0x23 }, s("ts/+/#"))],
        "published messages" => vec![(0x21, cat(&[&s("tp/x"), &s("{}"), b"\x01v"]))],
        "streams created and deleted" => vec![if n % 2 == 0 { (0x30, cat(&[&s("tmp"), &s("{}")])) } else { (0x36, s("tmp")) }],
        "queues created and deleted" => vec![if n % 2 == 0 { (0x10, cat(&[&s("tmpq"), &s("{}")])) } else { (0x15, s("tmpq")) }],
        "dead letters looked at" => vec![(0x16, cat(&[&q, &u32b(5), &u32b(0)]))],
        _ => vec![],
    }
}
async fn traffic(e: NexoEngine, t: usize, gap: u64, stream: String, queue: String, stop: Rc<Cell<bool>>, bad: Rc<RefCell<Option<String>>>) {
    let mut c = Conn::open(&e, 1 << 20);
    let mut m: Option<(String, u64)> = None;
    let mut n = 0;
    let mut id = 0;
    if TRAFFIC[t].starts_with("fetches") || TRAFFIC[t].starts_with("short waits") || TRAFFIC[t].starts_with("acknowledgements in another") {
        c.put(&frame(REQ, 0x33, 1_000_000, &cat(&[&s("tg"), &s(&stream)])));
        sleep_ms(1).await;
        if let Ok(f) = parse_all(&c.s.mc_take()) { if let Some(f) = f.iter().find(|f| f.id == 1_000_000 && f.meta != ERR) { m = Some(joined(f)); } }
        if m.is_none() { *bad.borrow_mut() = Some("the member of the traffic could not join".into()); return; }
    }
    let mut rejected: Vec<Vec<u8>> = vec![];
    while !stop.get() {
        match TRAFFIC[t] {
            "nothing" => {}
            "looks at the dashboard" => { for u in ["/api/store", "/api/queue", "/api/stream", "/api/pubsub"] { let _ = web::get(&e, u).await; } }
            "connections coming and going" => { let d = Conn::open(&e, 1000); d.put(&frame(REQ, 0x22, 1, &s("tc/#"))); let old = std::mem::replace(&mut c, d); let Conn { s, h, .. } = old; drop(s); drop(h); }
            "rejections in another queue" => {
                let mut r = vec![(0x11, cat(&[&s("otherq"), &s("{}"), b"\x01traffic"]))];
                for x in rejected.drain(..) { r.push((0x1A, cat(&[&x, &s("otherq"), &s("why")]))); }
                r.push((0x12, get_req("otherq", 5, 0)));
                for (op, p) in r { id += 1; c.req(op, id, &p); }
            }
            _ => { for (op, p) in turn(t, n, &stream, &queue, &m) { id += 1; c.req(op, id, &p); } }
        }
        n += 1;
        sleep_ms(gap).await;
        if let Ok(fs) = parse_all(&c.s.mc_take()) {
            for f in fs {
                if TRAFFIC[t].starts_with("another group's members") && f.meta != ERR { if f.p.len() > 20 { m = Some(joined(&f)); } else { m = None; } }
                if TRAFFIC[t].starts_with("rejections") && f.p.len() > 20 { rejected.extend(growth::ids(&f)); }
            }
        }
    }
}
/// a server started on a copy of the files as they are now
async fn restarted(n: u32) -> NexoEngine {
    let to = root().join(format!("copy{}", n));
    copy_tree(&root().join("b"), &to);
    copy_tree(&root().join("b/p2"), &to.join("p"));
    engine_with(&to, |_, _| {}).await
}
async fn waited(c: &mut Conn, id: u32) -> R<Option<F>> { Ok(c.frames().await?.into_iter().find(|f| f.ty == RESP && f.id == id)) }

/// does it, waits for as long as it may take, and looks
async fn thing(x: usize, t: &mut T) -> R<()> {
    let what = THINGS[x];
    macro_rules! late { ($($a:tt)*) => { return viol("late", format!("{}: {}", what, format!($($a)*))) }; }
    match what {
        "a published message is stored" => {
            t.ok(0x31, &cat(&[&s("a"), b"\x01precious"])).await?;
            sleep_ms(2 * FLUSH + 2).await;
            quiesce().await;
            let e = restarted(0).await;
            let mut c = Conn::open(&e, 1 << 20);
            c.ok(0x38, 1, &cat(&[&s("a"), &s("look"), &[0]])).await?;
            let j = joined(&c.ok(0x33, 2, &cat(&[&s("look"), &s("a")])).await?);
            let f = c.ok(0x32, 3, &fetch_req("a", "look", &j.0, j.1, 10_000, 0)).await?;
            if !fetched(&f).iter().any(|m| m == b"\x01precious") { late!("two flush periods after it was published, a restart does not find it"); }
        }
        "a group's position is saved" | "a delayed group is saved again" => {
            let j = joined(&t.ok(0x33, &cat(&[&s("g"), &s("a")])).await?);
            let rounds = if what.starts_with("a delayed") { 2 } else { 1 };
            let mut acked = 0;
            for r in 0..rounds {
                t.ok(0x31, &cat(&[&s("a"), b"\x01m"])).await?;
                let f = t.ok(0x32, &fetch_req("a", "g", &j.0, j.1, 1, 0)).await?;
                for q in growth::seqs(&f) { t.ok(0x34, &cat(&[&s("a"), &s("g"), &s(&j.0), &u64b(j.1), &u64b(q)])).await?; acked += 1; }
                sleep_ms(2 * 10 * FLUSH + 2).await;
                quiesce().await;
                let e = restarted(r).await;
                let mut c = Conn::open(&e, 1 << 20);
                let f = c.ok(0x33, 1, &cat(&[&s("g"), &s("a")])).await?;
                let floor = u64::from_be_bytes(f.p[..8].try_into().unwrap());
                if floor < acked { late!("two periods after {} messages were acknowledged the stored position is {}", acked, floor); }
            }
        }
        "a pushed message is stored" => {
            t.ok(0x11, &cat(&[&s("q"), &s("{\"priority\":9}"), b"\x01precious"])).await?;
            sleep_ms(2 * FLUSH + 2).await;
            quiesce().await;
            let e = restarted(0).await;
            let f = Conn::open(&e, 1 << 20).ok(0x12, 1, &get_req("q", 1, 0)).await?;
            if !consumed(&f).iter().any(|m| m == b"\x01precious") { late!("two flush periods after it was pushed, a restart does not find it"); }
        }
        "an acknowledgement is stored" => {
            t.ok(0x11, &cat(&[&s("q"), &s("{\"priority\":9}"), b"\x01done"])).await?;
            sleep_ms(2 * FLUSH + 2).await;
            let f = t.ok(0x12, &get_req("q", 1, 0)).await?;
            t.ok(0x13, &cat(&[&growth::ids(&f)[0], &s("q")])).await?;
            sleep_ms(2 * FLUSH + 2).await;
            quiesce().await;
            let e = restarted(0).await;
            let f = Conn::open(&e, 1 << 20).ok(0x12, 1, &get_req("q", 10_000, 0)).await?;
            if consumed(&f).iter().any(|m| m == b"\x01done") { late!("two flush periods after the message was acknowledged, a restart brings it back"); }
        }
        "a retained value is stored" => {
            t.ok(0x21, &cat(&[&s("r/y"), &s("{\"retain\":true}"), b"\x01precious"])).await?;
            sleep_ms(2 * FLUSH + 2).await;
            quiesce().await;
            let e = restarted(0).await;
            let mut c = Conn::open(&e, 1 << 20);
            c.req(0x22, 1, &s("r/y"));
            if !c.frames().await?.iter().any(|f| f.ty == PUSH && f.p.ends_with(b"precious")) { late!("two flush periods after it was published, a restart does not find it"); }
        }
        "an unacknowledged queue message returns" => {
            t.ok(0x11, &cat(&[&s("q"), &s("{\"priority\":9}"), b"\x01m"])).await?;
            t.ok(0x12, &get_req("q", 1, 0)).await?;
            sleep_ms(VISIBILITY + TIMEOUTS + 2).await;
            let f = t.ok(0x12, &get_req("q", 1, 0)).await?;
            if !consumed(&f).iter().any(|m| m == b"\x01m") { late!("it is not available {} ms after the visibility timeout of {}", TIMEOUTS + 2, VISIBILITY); }
        }
        "the last timeout moves a message to the dead letters" => {
            t.ok(0x11, &cat(&[&s("q1"), &s("{\"priority\":9}"), b"\x01m"])).await?;
            t.ok(0x12, &get_req("q1", 1, 0)).await?;
            sleep_ms(VISIBILITY + TIMEOUTS + 2).await;
            let f = t.ok(0x16, &cat(&[&s("q1"), &u32b(5), &u32b(0)])).await?;
            if !f.p.windows(2).any(|w| w == b"\x01m") { late!("it is not there {} ms after the visibility timeout of {}", TIMEOUTS + 2, VISIBILITY); }
        }
        "an unacknowledged stream message goes to another member" => {
            t.ok(0x31, &cat(&[&s("a"), b"\x01m"])).await?;
            let j = joined(&t.ok(0x33, &cat(&[&s("g"), &s("a")])).await?);
            let k = joined(&t.ok(0x33, &cat(&[&s("g"), &s("a")])).await?);
            let f = t.ok(0x32, &fetch_req("a", "g", &j.0, j.1, 1, 0)).await?;
            let first = growth::seqs(&f);
            sleep_ms(ACK_WAIT + SWEEP + 2).await;
            let f = t.ok(0x32, &fetch_req("a", "g", &k.0, k.1, 1, 0)).await?;
            if growth::seqs(&f) != first { late!("message {:?} was not delivered again {} ms after the acknowledgement wait of {}, but {:?}", first, SWEEP + 2, ACK_WAIT, growth::seqs(&f)); }
        }
        "a waiting queue consumer is sent away" | "a waiting stream consumer is sent away" => {
            let mut c = Conn::open(&t.e, 1 << 20);
            if what.contains("queue") { c.req(0x12, 9, &get_req("q", 1, 300)); }
            else { let j = joined(&c.ok(0x33, 1, &cat(&[&s("g"), &s("a")])).await?); c.req(0x32, 9, &fetch_req("a", "g", &j.0, j.1, 1, 300)); }
            sleep_ms(302).await;
            if waited(&mut c, 9).await?.is_none() { late!("after 302 of 300 ms it has no answer"); }
        }
        "an expired key leaves the memory" => {
            t.ok(0x02, &cat(&[&s("k"), &s("{\"ttl\":1}"), b"\x01v"])).await?;
            sleep_ms(1000 + CLEANUP + 2).await;
            if t.e.store.map.iter().any(|x| x.key() == "k") { late!("it is still held a full cleanup period later"); }
        }
        "an expired retained value leaves the memory" => {
            t.ok(0x21, &cat(&[&s("r/y"), &s("{\"retain\":true,\"ttl\":1}"), b"\x01v"])).await?;
            sleep_ms(1000 + CLEANUP + 2).await;
            let (_, b) = web::get(&t.e, "/api/pubsub?search=r%2Fy").await;
            let b = String::from_utf8_lossy(&b).to_string();
            if b.contains("r/y") { late!("it is still held a full cleanup period later: {}", b); }
        }
        "a stream beyond its size is cut" | "old messages of a stream are removed" => {
            let st = if what.contains("size") { "small" } else { "aged" };
            for _ in 0..12 { t.ok(0x31, &cat(&[&s(st), b"\x01some message"])).await?; }
            sleep_ms(if st == "aged" { 100 } else { 0 } + 2 * RETENTION + 2).await;
            quiesce().await;
            if root().join("b/s").join(st).join("1.log").exists() { late!("the oldest file is still there two checks later"); }
        }
        _ => {
            let h = mcrt::heap::Tracking::start();
            for _ in 0..20 { t.ok(0x31, &cat(&[&s("a"), &[1; 10_000]])).await?; }
            sleep_ms(FLUSH + 2 * EVICTION + 2).await;
            quiesce().await;
            let (by, _) = h.live();
            drop(h);
            if by > 150_000 { late!("{} bytes are held {} ms after 20 messages of 10000 bytes were published", by, FLUSH + 2 * EVICTION); }
        }
    }
    Ok(())
}

pub fn on_time(c: &Ctx) -> Report {
    let thorough = c.thorough;
    let gaps: &'static [u64] = if c.thorough { &[1, 2, 3, 7, 15, 19, 23, 31, 39, 41, 49, 59, 99] } else { &[1, 19, 39] };
    c.run_checked(Plan::default().disk(), move || async move {
        let x = choose(THINGS.len(), "what");
        let k = choose(TRAFFIC.len(), "traffic");
        let gap = if k == 0 { 1000 } else { gaps[choose(gaps.len(), "gap")] };
        let late = if thorough || k == 0 { choose(3, "phase") as u64 * 17 } else { 0 };
        let dir = root().join("b");
        let mut e = engine_with(&dir, |q, s| {
            q.default_flush_ms = FLUSH;
            s.default_flush_ms = FLUSH; s.eviction_interval_ms = EVICTION; s.retention_check_interval_ms = RETENTION; s.ram_soft_limit = 1; s.max_segment_size = 100_000; s.ack_wait_ms = ACK_WAIT; s.max_deliveries = 10;
            if x == 12 || x == 13 { s.max_segment_size = 150; }
        }).await;
        let mut st = StoreConfig::default();
        st.cleanup_interval_secs = CLEANUP / 1000;
        e.store = Arc::new(StoreManager::new(Arc::new(st)));
        let mut ps = PubSubConfig::default();
        ps.persistence_path = dir.join("p2").to_string_lossy().to_string();
        ps.cleanup_interval_seconds = CLEANUP / 1000;
        ps.retained_flush_ms = FLUSH;
        e.pubsub = Arc::new(PubSubManager::new(Arc::new(ps)));
        let c = Conn::open(&e, 1 << 22);
        let mut t = T { e: e.clone(), c, id: 0, stop: Rc::new(Cell::new(false)), bad: Rc::new(RefCell::new(None)) };
        for q in ["q", "otherq", "empty"] { t.ok(0x10, &cat(&[&s(q), &s("{\"visibilityTimeoutMs\":200,\"maxRetries\":5}")])).await?; }
        t.ok(0x10, &cat(&[&s("q1"), &s("{\"visibilityTimeoutMs\":200,\"maxRetries\":1}")])).await?;
        for n in ["a", "other"] { t.ok(0x30, &cat(&[&s(n), &s("{}")])).await?; }
        t.ok(0x30, &cat(&[&s("small"), &s("{\"retention\":{\"maxBytes\":300}}")])).await?;
        t.ok(0x30, &cat(&[&s("aged"), &s("{\"retention\":{\"maxAgeMs\":100}}")])).await?;
        let stream = match x { 12 => "small", 13 => "aged", _ => "a" };
        let queue = if x == 6 { "q1" } else { "q" };
        spawn_local(traffic(e.clone(), k, gap, stream.into(), queue.into(), t.stop.clone(), t.bad.clone()));
        sleep_ms(53 + late).await;
        let r = thing(x, &mut t).await;
        t.stop.set(true);
        if let Some(b) = t.bad.borrow().as_ref() { return viol("harness", b.clone()); }
        note_state(&(x, k, gap, late));
        match r { Err(mut v) => { v.msg = format!("beside {} every {} ms: {}", TRAFFIC[k], gap, v.msg); Err(v) } ok => ok }
    })
}
