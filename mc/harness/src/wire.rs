//! The wire protocol, connections, names and the dashboard (W01–W06).
use bytes::{Bytes, BytesMut};
use harness::*;
use nexo::brokers::pub_sub::config::PubSubConfig;
use nexo::brokers::pub_sub::PubSubManager;
use nexo::brokers::queue::config::SystemQueueConfig;
use nexo::brokers::queue::options::QueueCreateOptions;
use nexo::brokers::queue::QueueManager;
use nexo::brokers::store::config::StoreConfig;
use nexo::brokers::store::StoreManager;
use nexo::brokers::stream::config::SystemStreamConfig;
use nexo::brokers::stream::options::StreamCreateOptions;
use nexo::brokers::stream::StreamManager;
use nexo::transport::tcp::connection::handle_connection;
use nexo::transport::tcp::protocol::{NexoCodec, OutboundFrame, Response};
use nexo::NexoEngine;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use tokio::net::TcpStream;
use tokio_util::codec::{Decoder, Encoder};

const VT: u64 = 400;
const DEFTTL: u64 = 3600;

mod web;
mod calls;
mod growth;
mod busy;

async fn engine_at(dir: &Path) -> NexoEngine { engine_with(dir, |_, _| {}).await }
async fn engine_with(dir: &Path, f: impl FnOnce(&mut SystemQueueConfig, &mut SystemStreamConfig)) -> NexoEngine {
    let p = |s: &str| dir.join(s).to_string_lossy().to_string();
    let mut st = StoreConfig::default();
    st.cleanup_interval_secs = 60;
    let mut q = SystemQueueConfig::default();
    q.persistence_path = p("q");
    q.default_flush_ms = 30;
    let mut ps = PubSubConfig::default();
    ps.persistence_path = p("p");
    ps.default_retained_ttl_seconds = DEFTTL;
    let mut s = SystemStreamConfig::default();
    s.persistence_path = p("s");
    // nothing can be stored there: do not try again and again
    s.default_flush_ms = if dir.starts_with("/dev/null") { 1 << 40 } else { 20 };
    s.ack_wait_ms = 1 << 40;
    s.max_deliveries = 10;
    f(&mut q, &mut s);
    NexoEngine {
        store: Arc::new(StoreManager::new(Arc::new(st))),
        queue: Arc::new(QueueManager::new(Arc::new(q))),
        pubsub: Arc::new(PubSubManager::new(Arc::new(ps))),
        stream: Arc::new(StreamManager::new(Arc::new(s)).await),
        start_time: std::time::Instant::now(),
    }
}
/// nothing can be stored here: the same code without the disk
async fn engine() -> NexoEngine { engine_at(Path::new("/dev/null/e")).await }

// ---------------------------------------------------------------- frames
const REQ: u8 = 1;
const RESP: u8 = 2;
const PUSH: u8 = 3;
const OK: u8 = 0;
const ERR: u8 = 1;
const NULL: u8 = 2;
const DATA: u8 = 3;

fn frame(ty: u8, meta: u8, id: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![ty, meta];
    v.extend(id.to_be_bytes());
    v.extend((p.len() as u32).to_be_bytes());
    v.extend(p);
    v
}
fn s(x: &str) -> Vec<u8> { let mut v = (x.len() as u32).to_be_bytes().to_vec(); v.extend(x.as_bytes()); v }
fn cat(x: &[&[u8]]) -> Vec<u8> { x.concat() }
fn u32b(x: u32) -> Vec<u8> { x.to_be_bytes().to_vec() }
fn u64b(x: u64) -> Vec<u8> { x.to_be_bytes().to_vec() }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct F { ty: u8, meta: u8, id: u32, p: Vec<u8> }
/// what the server wrote: complete frames and nothing else
fn parse_all(b: &[u8]) -> R<Vec<F>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        ensure!(b.len() - i >= 10, "wire-garbage", "the server sent {} stray bytes: {:?}", b.len() - i, &b[i..]);
        let n = u32::from_be_bytes(b[i + 6..i + 10].try_into().unwrap()) as usize;
        ensure!(b.len() - i - 10 >= n, "wire-short", "the server announced {} bytes and sent {}", n, b.len() - i - 10);
        v.push(F { ty: b[i], meta: b[i + 1], id: u32::from_be_bytes(b[i + 2..i + 6].try_into().unwrap()), p: b[i + 10..i + 10 + n].to_vec() });
        i += 10 + n;
    }
    for f in &v { ensure!(f.ty == RESP && f.meta <= 3 || f.ty == PUSH, "wire-frame", "the server sent a frame of type {} with status {}", f.ty, f.meta); }
    Ok(v)
}
fn short(f: &[F]) -> String { format!("{:?}", f.iter().map(|x| (x.ty, x.meta, x.id, String::from_utf8_lossy(&x.p[..x.p.len().min(40)]).to_string())).collect::<Vec<_>>()) }

// ---------------------------------------------------------------- a client
struct Conn { s: TcpStream, h: tokio::task::JoinHandle<Result<(), String>>, got: Vec<u8> }
impl Conn {
    fn open(e: &NexoEngine, cap: usize) -> Conn {
        let (srv, cli) = TcpStream::mc_pair(cap);
        let h = spawn_local(handle_connection(srv, e.clone()));
        Conn { s: cli, h, got: vec![] }
    }
    fn put(&self, b: &[u8]) { self.s.mc_put(b) }
    fn req(&self, op: u8, id: u32, p: &[u8]) { self.put(&frame(REQ, op, id, p)) }
    /// everything the server has to say now
    async fn frames(&mut self) -> R<Vec<F>> {
        loop {
            quiesce().await;
            let b = self.s.mc_take();
            if b.is_empty() { break; }
            self.got.extend(b);
        }
        parse_all(&std::mem::take(&mut self.got))
    }
    /// one request, answered at once
    async fn call(&mut self, op: u8, id: u32, p: &[u8]) -> R<F> {
        self.req(op, id, p);
        let f = self.frames().await?;
        let r: Vec<F> = f.into_iter().filter(|f| f.ty == RESP).collect();
        ensure!(r.len() == 1 && r[0].id == id, "answer", "request {:#04x} number {} was answered {}", op, id, short(&r));
        Ok(r.into_iter().next().unwrap())
    }
    async fn ok(&mut self, op: u8, id: u32, p: &[u8]) -> R<F> {
        let f = self.call(op, id, p).await?;
        ensure!(f.meta != ERR, "refused", "request {:#04x} was refused: {}", op, short(&[f]));
        Ok(f)
    }
    fn ended(&self) -> bool { self.h.is_finished() }
}

// ---------------------------------------------------------------- W01
const MAX1: u32 = 32;
/// what a stream of bytes means: frames, then possibly something unacceptable
fn reference(b: &[u8], max: u32) -> (Vec<F>, bool) {
    let mut v = vec![];
    let mut i = 0;
    while b.len() - i >= 10 {
        let n = u32::from_be_bytes(b[i + 6..i + 10].try_into().unwrap());
        if n > max { return (v, true); }
        let n = n as usize;
        if b.len() - i - 10 < n { break; }
        v.push(F { ty: b[i], meta: b[i + 1], id: u32::from_be_bytes(b[i + 2..i + 6].try_into().unwrap()), p: b[i + 10..i + 10 + n].to_vec() });
        i += 10 + n;
    }
    (v, false)
}
fn decode(chunks: &[&[u8]]) -> R<(Vec<F>, bool, usize)> {
    let mut c = NexoCodec::new();
    let mut buf = BytesMut::new();
    let mut v = vec![];
    for ch in chunks {
        buf.extend_from_slice(ch);
        loop {
            match c.decode(&mut buf) {
                Ok(Some(f)) => v.push(F { ty: f.header.frame_type, meta: f.header.meta, id: f.header.id(), p: f.payload.to_vec() }),
                Ok(None) => break,
                Err(_) => return Ok((v, true, buf.capacity())),
            }
            ensure!(v.len() < 1000, "decode-loop", "the decoder produces frames out of nothing");
        }
    }
    Ok((v, false, buf.capacity()))
}
fn body(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + 1) as u8).collect() }
/// `w`: frames of every shape, one to three in a row, and a tail that is cut short
fn split_decode(c: &Ctx) -> Report {
    let thorough = c.thorough;
    c.run_checked(Plan::default(), move || async move {
        let heads: Vec<(u8, u8, u32)> = vec![(1, 0, 0), (1, 0x11, 1), (2, 3, 0x01020304), (0, 255, u32::MAX), (255, 2, 0x80000000)];
        let lens = [0usize, 1, 3, MAX1 as usize];
        let nf = 1 + choose(3, "frames");
        let mut b = vec![];
        for _ in 0..nf {
            let h = heads[choose(if nf == 1 { 5 } else { 3 }, "head")];
            let n = lens[choose(if nf == 3 { 2 } else { 4 }, "len")];
            b.extend(frame(h.0, h.1, h.2, &body(n)));
        }
        // the tail: nothing, part of a header, an unacceptable header, part of a payload
        match choose(6, "tail") {
            0 => {}
            1 => b.extend([1u8, 0, 0]),
            2 => { b.extend([1u8, 0, 0, 0, 0, 9]); b.extend((MAX1 + 1).to_be_bytes()); }
            3 => { b.extend([1u8, 0, 0, 0, 0, 9]); b.extend(0x80000000u32.to_be_bytes()); }
            4 => { b.extend([1u8, 0, 0, 0, 0, 9]); b.extend(u32::MAX.to_be_bytes()); b.extend([1, 2, 3]); }
            _ => { b.extend([1u8, 0, 0, 0, 0, 9]); b.extend(5u32.to_be_bytes()); b.extend([1, 2, 3]); }
        }
        let want = reference(&b, MAX1);
        note_state(&b);
        let check = |chunks: &[&[u8]]| -> R<()> {
            let got = decode(chunks)?;
            ensure!(got.0 == want.0 && got.1 == want.1, "decode", "bytes {:?} read in pieces of {:?} decode to {} rejected={}, expected {} rejected={}", b, chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), short(&got.0), got.1, short(&want.0), want.1);
            Ok(())
        };
        let n = b.len();
        // every single split, every pair of splits, equal pieces of every size
        for i in 0..=n { for j in i..=n { check(&[&b[..i], &b[i..j], &b[j..]])?; } }
        for k in 1..=n.min(40) { check(&b.chunks(k).collect::<Vec<_>>())?; }
        // every way at all when it is short
        if n <= if thorough { 18 } else { 14 } {
            for m in 0u32..1 << (n - 1) {
                let mut ch = vec![];
                let mut at = 0;
                for i in 1..n { if m >> (i - 1) & 1 == 1 { ch.push(&b[at..i]); at = i; } }
                ch.push(&b[at..]);
                check(&ch)?;
            }
        }
        Ok(())
    })
}
/// announced sizes of every magnitude are accepted or refused on the header alone
fn announced(c: &Ctx) -> Report {
    c.run_checked(Plan::default(), move || async move {
        let lens: Vec<u32> = vec![0, 1, MAX1 - 1, MAX1, MAX1 + 1, MAX1 * 2, 255, 256, 65535, 65536, 1 << 24, (1 << 24) + 32, 1 << 31, u32::MAX - 9, u32::MAX];
        let n = lens[choose(lens.len(), "len")];
        let ty = [1u8, 0, 2, 3, 9, 255][choose(6, "type")];
        let e = engine().await;
        let mut a = Conn::open(&e, 1 << 16);
        let mut b = Conn::open(&e, 1 << 16);
        b.ok(0, 1, b"x").await?;
        let mut h = vec![ty, 0];
        h.extend(7u32.to_be_bytes());
        h.extend(n.to_be_bytes());
        let k = choose(3, "with");
        if k == 1 { h.extend([5u8; 3]); }
        if k == 2 { h.extend(vec![5u8; (n as usize).min(100)]); }
        note_state(&(n, ty, k));
        a.put(&h);
        let f = a.frames().await?;
        if n > MAX1 {
            ensure!(a.ended() && a.s.mc_peer_closed(), "oversized", "a frame announcing {} bytes (the limit is {}) does not end the connection", n, MAX1);
            ensure!(f.iter().all(|f| f.id == 7 && f.meta == ERR), "oversized-answer", "a frame announcing {} bytes was answered {}", n, short(&f));
        } else {
            ensure!(!a.ended(), "accepted", "a frame announcing {} bytes (the limit is {}) ends the connection", n, MAX1);
            let have = h.len() - 10;
            if have >= n as usize {
                ensure!(!f.is_empty() && f[0].ty == RESP && f[0].id == 7, "accepted-answer", "a frame of {} bytes was answered {}", n, short(&f));
            } else {
                ensure!(f.is_empty(), "early", "a frame of which {} of {} bytes have arrived was answered {}", have, n, short(&f));
                a.put(&vec![6u8; n as usize - have]);
                let f = a.frames().await?;
                ensure!(f.len() == 1 && f[0].id == 7, "completed", "a frame of {} bytes was answered {}", n, short(&f));
                if ty == REQ { let mut w = h[10..].to_vec(); w.extend(vec![6u8; n as usize - have]); ensure!(f[0].meta == DATA && f[0].p == w, "echo", "the echo of {:?} is {}", w, short(&f)); }
            }
        }
        let r = b.call(0, 2, b"other").await?;
        ensure!(r.meta == DATA && r.p == b"other", "other", "another connection's echo is {}", short(&[r]));
        let mut d = Conn::open(&e, 1 << 16);
        let r = d.call(0, 3, b"new").await?;
        ensure!(r.meta == DATA && r.p == b"new", "other", "a new connection's echo is {}", short(&[r]));
        Ok(())
    })
}
/// requests arrive in pieces while responses and pushes are written
fn split_connection(c: &Ctx) -> Report {
    let (b, thorough) = (c.pick(1, 2), c.thorough);
    c.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let e = engine().await;
        let mut a = Conn::open(&e, 1 << 16);
        a.ok(0x22, 1, &s("t")).await?;
        let q = choose(2, "settle") == 0;
        let all = cat(&[&frame(REQ, 0, 10, b"ab"), &frame(REQ, 0, 11, b""), &frame(REQ, 0, 12, &body(5))]);
        // with schedules: cuts inside a header, inside a payload and between frames
        let few = [1usize, 9, 10, 11, 12, 25, 35];
        let (i, j) = if q && !thorough { let i = choose(few.len(), "cut"); (few[i], few[i + choose(few.len() - i, "cut")]) } else { let i = choose(all.len() + 1, "cut"); (i, i + choose(all.len() - i + 1, "cut")) };
        a.s.mc_chunk([usize::MAX, 7, 1][choose(if q && !thorough { 2 } else { 3 }, "chunk")]);
        set_explore(q);
        for (k, ch) in [&all[..i], &all[i..j], &all[j..]].iter().enumerate() {
            a.put(ch);
            if k < 2 {
                if q { yield_now().await } else { quiesce().await }
                e.pubsub.publish("t", Bytes::from(vec![k as u8; 2]), false, None);
                if q { yield_now().await } else { quiesce().await }
            }
        }
        let f = a.frames().await?;
        set_explore(false);
        let mut r: Vec<F> = f.iter().filter(|f| f.ty == RESP).cloned().collect();
        r.sort();
        let want: Vec<F> = [(10, b"ab".to_vec()), (11, vec![]), (12, body(5))].into_iter().map(|(id, p)| F { ty: RESP, meta: DATA, id, p }).collect();
        ensure!(r == want, "split-answers", "three echoes cut at {} and {} were answered {}", i, j, short(&f));
        let p: Vec<&F> = f.iter().filter(|f| f.ty == PUSH).collect();
        ensure!(p.len() == 2 && p[0].p.ends_with(&[0, 0]) && p[1].p.ends_with(&[1, 1]), "split-pushes", "two pushed messages arrived as {}", short(&f));
        ensure!(!a.ended(), "split-end", "the connection ended");
        Ok(())
    })
}
fn encode(c: &Ctx) -> Report {
    c.run_checked(Plan::default(), move || async move {
        let sizes = [0usize, 1, 2, 3, MAX1 as usize];
        let ids = [0u32, 1, 0x01020304, 0x80000000, u32::MAX];
        let n = 1 + choose(2, "frames");
        let mut buf = BytesMut::new();
        let mut codec = NexoCodec::new();
        let mut want = vec![];
        for _ in 0..n {
            let id = ids[choose(5, "id")];
            let kind = choose(5, "kind");
            let sz = if matches!(kind, 2 | 3 | 4) { sizes[choose(5, "size")] } else { 0 };
            let (item, w) = match kind {
                0 => (OutboundFrame::Response { id, response: Response::Ok }, F { ty: RESP, meta: OK, id, p: vec![] }),
                1 => (OutboundFrame::Response { id, response: Response::Null }, F { ty: RESP, meta: NULL, id, p: vec![] }),
                2 => { let m = "é".repeat(sz / 4) + &"x".repeat(sz % 4); (OutboundFrame::Response { id, response: Response::Error(m.clone()) }, F { ty: RESP, meta: ERR, id, p: s(&m) }) }
                3 => (OutboundFrame::Response { id, response: Response::Data(body(sz).into()) }, F { ty: RESP, meta: DATA, id, p: body(sz) }),
                _ => (OutboundFrame::PushPubSub { id, payload: body(sz).into() }, F { ty: PUSH, meta: 0, id, p: body(sz) }),
            };
            ensure!(codec.encode(item, &mut buf).is_ok(), "encode", "{:?} does not encode", w);
            want.push(w);
        }
        note_state(&want);
        let b = buf.to_vec();
        let got = parse_all(&b)?;
        ensure!(got == want, "encode", "{} was encoded as {:?}", short(&want), b);
        let d = decode(&[&b])?;
        ensure!(d.0 == want && !d.1, "roundtrip", "{} decodes to {}", short(&want), short(&d.0));
        Ok(())
    })
}

// ---------------------------------------------------------------- W02
#[derive(Clone, Copy, Debug)]
enum K { Key, Queue, Topic, Stream, Group, Member, Reason, JStore, JQueue, JPush, JConsume, JPub, JStream, Uuid, U8, U32, U64, Rest }
const OPS: &[(u8, &[K])] = &[
    (0x00, &[K::Rest]),
    (0x02, &[K::Key, K::JStore, K::Rest]), (0x03, &[K::Key]), (0x04, &[K::Key]),
    (0x10, &[K::Queue, K::JQueue]), (0x11, &[K::Queue, K::JPush, K::Rest]), (0x12, &[K::Queue, K::JConsume]), (0x13, &[K::Uuid, K::Queue]),
    (0x14, &[K::Queue]), (0x15, &[K::Queue]), (0x16, &[K::Queue, K::U32, K::U32]), (0x17, &[K::Queue, K::Uuid]), (0x18, &[K::Queue, K::Uuid]), (0x19, &[K::Queue]),
    (0x1A, &[K::Uuid, K::Queue, K::Reason]),
    (0x21, &[K::Topic, K::JPub, K::Rest]), (0x22, &[K::Topic]), (0x23, &[K::Topic]),
    (0x30, &[K::Stream, K::JStream]), (0x31, &[K::Stream, K::Rest]), (0x32, &[K::Stream, K::Group, K::Member, K::U64, K::U32, K::U32]),
    (0x33, &[K::Group, K::Stream]), (0x34, &[K::Stream, K::Group, K::Member, K::U64, K::U64]), (0x35, &[K::Stream]), (0x36, &[K::Stream]),
    (0x38, &[K::Stream, K::Group, K::U8]), (0x39, &[K::Stream, K::Group, K::Member, K::U64]),
];
/// the world a request meets
#[derive(Clone, Default)]
struct Known { uuid: Vec<u8>, member: String, gen: u64 }
fn json_values(keys: &[&str]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["", "null", "[]", "{", "{}x", "3", "\"\"", "{\"unknown\":1}", "{\"a\":{\"b\":[null]}}", "\u{feff}{}"].iter().map(|j| s(j)).collect();
    let deep = format!("{{\"x\":{}}}", "[".repeat(100_000));
    v.push(s(&deep));
    for k in keys {
        for x in ["null", "0", "1", "2", "255", "256", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "-1", "1.5", "1e300", "true", "\"1\"", "[]", "{}"] {
            v.push(s(&format!("{{\"{}\":{}}}", k, x)));
            if x.starts_with("1844") || x == "1" { v.push(s(&format!("{{\"{}\":{},\"{}\":0}}", k, x, k))); }
        }
    }
    v
}
/// the first value is the ordinary one
fn values(k: K, w: &Known) -> Vec<Vec<u8>> {
    let strings = |first: &str, more: &[&str]| -> Vec<Vec<u8>> {
        let mut v = vec![s(first), s(""), s("missing"), s("é\u{0}\n\"'"), s(&"n".repeat(300)), s(&"n".repeat(70_000))];
        v.extend(more.iter().map(|x| s(x)));
        v.push(cat(&[&u32b(2), &[0xff, 0xfe]]));            // not UTF-8
        v.push(cat(&[&u32b(u32::MAX), first.as_bytes()]));   // longer than what follows
        v.push(cat(&[&u32b(0x7fff_ffff), first.as_bytes()]));
        v.push(cat(&[&u32b(first.len() as u32 + 1), first.as_bytes()]));
        v.push(cat(&[&u32b(first.len() as u32 - 1), first.as_bytes()]));
        v
    };
    let json = |keys: &[&str]| { let mut v = vec![s("{}")]; v.extend(json_values(keys)); v };
    match k {
        K::Key => strings("key", &[]),
        K::Queue => strings("q", &["dead", "..", "/", "a/b", "."]),
        K::Stream => strings("st", &["..", "/", "a/b", "."]),
        K::Group => strings("g", &["../g"]),
        K::Member => { let mut v = strings("nobody", &[]); v[0] = s(&w.member); v }
        K::Reason => strings("why", &[]),
        K::Topic => { let mut v = strings("t", &["t/+", "#", "+", "/", "t/#/x", "+/+", "//"]); v.push(s(&"/".repeat(40_000))); v.push(s(&"a/".repeat(300_000))); v.push(s(&("+/".repeat(2000) + "#"))); v }
        K::JStore => json(&["ttl"]),
        K::JQueue => json(&["visibilityTimeoutMs", "maxRetries"]),
        K::JPush => json(&["priority"]),
        K::JConsume => json(&["batchSize", "waitMs"]),
        K::JPub => json(&["ttl", "retain"]),
        K::JStream => { let mut v = json(&["retention"]); for k in ["maxAgeMs", "maxBytes"] { for x in ["null", "0", "1", "-1", "18446744073709551615", "\"1\""] { v.push(s(&format!("{{\"retention\":{{\"{}\":{}}}}}", k, x))); } } v }
        K::Uuid => vec![w.uuid.clone(), vec![0; 16], vec![255; 16]],
        K::U8 => vec![vec![0], vec![1], vec![2], vec![255]],
        K::U32 => [1u32, 0, 2, 0x7fff_ffff, 0x8000_0000, u32::MAX].iter().map(|x| u32b(*x)).collect(),
        K::U64 => vec![u64b(w.gen), u64b(0), u64b(1), u64b(2), u64b(1 << 63), u64b(u64::MAX)],
        K::Rest => vec![b"\x01hello".to_vec(), vec![], vec![0], vec![2, b'{'], vec![255; 3], vec![0; 100_000]],
    }
}
/// Everything a request can contain: `fields` vary two at a time around an
/// ordinary request; every prefix of the ordinary request; something after it.
fn payloads(op: usize, w: &Known) -> Vec<Vec<u8>> {
    let vals: Vec<Vec<Vec<u8>>> = OPS[op].1.iter().map(|k| values(*k, w)).collect();
    let base: Vec<Vec<u8>> = vals.iter().map(|v| v[0].clone()).collect();
    let b = base.concat();
    let mut out = vec![b.clone()];
    for i in 0..b.len() { out.push(b[..i].to_vec()); }
    out.push([&b[..], &[0u8][..]].concat());
    out.push([&b[..], &[255u8; 9][..]].concat());
    for i in 0..vals.len() {
        for x in 1..vals[i].len() {
            let mut r = base.clone();
            r[i] = vals[i][x].clone();
            out.push(r.concat());
            for j in i + 1..vals.len() {
                for y in 1..vals[j].len() {
                    let mut r2 = r.clone();
                    r2[j] = vals[j][y].clone();
                    if r2[i].len() + r2[j].len() < 60_000 || y == 1 { out.push(r2.concat()); }
                }
            }
        }
    }
    out
}
async fn world(e: &NexoEngine, a: &mut Conn) -> R<Known> {
    let mut w = Known::default();
    a.ok(0x02, 1, &cat(&[&s("key"), &s("{}"), b"\x01v"])).await?;
    a.ok(0x10, 2, &cat(&[&s("q"), &s("{\"visibilityTimeoutMs\":100000,\"maxRetries\":5}")])).await?;
    a.ok(0x10, 3, &cat(&[&s("dead"), &s("{\"visibilityTimeoutMs\":100000,\"maxRetries\":1}")])).await?;
    for q in ["q", "dead"] {
        for k in 0..2u8 { a.ok(0x11, 4, &cat(&[&s(q), &s("{}"), &[1, b'a' + k]])).await?; }
        let f = a.ok(0x12, 5, &cat(&[&s(q), &s("{\"batchSize\":1,\"waitMs\":0}")])).await?;
        ensure!(f.p.len() > 20, "setup", "consume answered {}", short(&[f]));
        w.uuid = f.p[4..20].to_vec();
        if q == "dead" { a.ok(0x1A, 6, &cat(&[&w.uuid, &s(q), &s("no")])).await?; } else { w.uuid = f.p[4..20].to_vec(); }
        if q == "q" { w.member = String::from_utf8_lossy(&[]).to_string(); }
        if q == "q" { note_state(&0); }
    }
    // the id known to the requests is the message of "q" that is out for delivery
    let (_, m) = e.queue.get_messages("q".into(), "inflight".into(), 0, 1, None).await.unwrap();
    w.uuid = m[0].id.as_bytes().to_vec();
    a.ok(0x21, 7, &cat(&[&s("t"), &s("{\"retain\":true}"), b"\x01r"])).await?;
    a.ok(0x30, 8, &cat(&[&s("st"), &s("{}")])).await?;
    for _ in 0..2 { a.ok(0x31, 9, &cat(&[&s("st"), b"\x01m"])).await?; }
    let f = a.ok(0x33, 10, &cat(&[&s("g"), &s("st")])).await?;
    w.gen = u64::from_be_bytes(f.p[8..16].try_into().unwrap());
    w.member = String::from_utf8_lossy(&f.p[20..]).to_string();
    Ok(w)
}
/// the server still does everything it did
async fn alive(a: &mut Conn, b: &mut Conn) -> R<()> {
    for (who, c) in [("the same connection", &mut *a), ("another connection", &mut *b)] {
        let r = c.call(0, 900, b"alive").await?;
        ensure!(r.meta == DATA && r.p == b"alive", "alive-echo", "afterwards {} is answered {}", who, short(&[r]));
    }
    b.ok(0x02, 901, &cat(&[&s("probe"), &s("{}"), b"\x01v"])).await?;
    let r = b.ok(0x03, 902, &s("probe")).await?;
    ensure!(r.meta == DATA && r.p == b"\x01v", "alive-store", "afterwards the store answers {}", short(&[r]));
    b.ok(0x10, 903, &cat(&[&s("probe"), &s("{}")])).await?;
    b.ok(0x11, 904, &cat(&[&s("probe"), &s("{}"), b"\x01p"])).await?;
    let r = b.ok(0x12, 905, &cat(&[&s("probe"), &s("{\"waitMs\":0}")])).await?;
    ensure!(r.p.ends_with(b"\x01p"), "alive-queue", "afterwards the queue answers {}", short(&[r]));
    b.ok(0x22, 906, &s("probe/+")).await?;
    b.req(0x21, 907, &cat(&[&s("probe/x"), &s("{}"), b"\x01s"]));
    let f = b.frames().await?;
    ensure!(f.iter().any(|f| f.ty == PUSH && f.p.ends_with(b"\x01s")), "alive-pubsub", "afterwards a publish results in {}", short(&f));
    b.ok(0x30, 908, &cat(&[&s("probe"), &s("{}")])).await?;
    let r = b.ok(0x31, 909, &cat(&[&s("probe"), b"\x01s"])).await?;
    ensure!(r.p == u64b(1), "alive-stream", "afterwards a stream answers {}", short(&[r]));
    Ok(())
}
fn answered(op: u8, id: u32, f: &[F]) -> R<usize> {
    let r: Vec<&F> = f.iter().filter(|f| f.ty == RESP).collect();
    ensure!(r.iter().all(|f| f.id == id), "answer-id", "request {:#04x} number {} was answered {}", op, id, short(f));
    ensure!(r.len() <= 1, "answer-twice", "request {:#04x} was answered {}", op, short(f));
    if let Some(r) = r.first() {
        match r.meta {
            ERR => ensure!(r.p.len() >= 4 && u32::from_be_bytes(r.p[..4].try_into().unwrap()) as usize == r.p.len() - 4 && std::str::from_utf8(&r.p[4..]).is_ok(), "error-layout", "an error is answered as {:?}", r.p),
            OK | NULL => ensure!(r.p.is_empty(), "ok-layout", "a plain result carries {:?}", r.p),
            _ => {}
        }
    }
    Ok(r.len())
}
fn every_request(c: &Ctx) -> Report {
    c.run_checked(Plan::default(), move || async move {
        let e = engine().await;
        let mut a = Conn::open(&e, 1 << 22);
        let mut b = Conn::open(&e, 1 << 22);
        let w = world(&e, &mut a).await?;
        let i = choose(OPS.len(), "op");
        let op = OPS[i].0;
        let all = payloads(i, &w);
        let k = choose(all.len(), "payload");
        note_state(&(i, k));
        a.req(op, 77, &all[k]);
        let mut f = a.frames().await?;
        if answered(op, 77, &f)? == 0 {
            // only a request that waits may still be unanswered, and only until something arrives
            ensure!(op == 0x12 || op == 0x32, "no-answer", "request {:#04x} with {:?} was not answered", op, &all[k][..all[k].len().min(80)]);
            for x in 0..2u8 {
                let _ = e.queue.push("q".into(), Bytes::from(vec![1, x]), 0).await;
                let _ = e.queue.push("dead".into(), Bytes::from(vec![1, x]), 0).await;
            }
            let _ = e.stream.publish("st", Bytes::from_static(b"\x01n")).await;
            f = a.frames().await?;
            let none = op == 0x12 && all[k].windows(13).any(|w| w == b"\"batchSize\":0") || op == 0x32 && { let n = all[k].len(); n >= 8 && all[k][n - 8..n - 4] == [0; 4] };
            if !none { ensure!(answered(op, 77, &f)? == 1, "no-answer", "the waiting request {:#04x} with {:?} was not answered after something arrived", op, &all[k]); }
        }
        ensure!(!a.ended(), "ended", "request {:#04x} ended the connection", op);
        alive(&mut a, &mut b).await
    })
}
fn every_opcode(c: &Ctx) -> Report {
    c.run_checked(Plan::default(), move || async move {
        let e = engine().await;
        let mut a = Conn::open(&e, 1 << 22);
        let mut b = Conn::open(&e, 1 << 22);
        let op = choose(256, "op") as u8;
        let ty = [REQ, 0, 2, 3, 4, 255][choose(6, "type")];
        let p: Vec<u8> = match choose(5, "payload") { 0 => vec![], 1 => vec![0], 2 => vec![0; 64], 3 => vec![255; 64], _ => s("missing") };
        note_state(&(op, ty, &p));
        a.put(&frame(ty, op, 5, &p));
        let f = a.frames().await?;
        if ty == REQ { ensure!(answered(op, 5, &f)? == 1, "no-answer", "request {:#04x} was answered {}", op, short(&f)); } else { ensure!(f.len() <= 1 && f.iter().all(|f| f.meta == ERR), "not-a-request", "a frame of type {} was answered {}", ty, short(&f)); }
        if !OPS.iter().any(|o| o.0 == op) { ensure!(f.iter().all(|f| f.meta == ERR), "unknown-op", "the unknown request {:#04x} was answered {}", op, short(&f)); }
        if ty == REQ || !a.ended() { alive(&mut a, &mut b).await } else { let mut d = Conn::open(&e, 1 << 22); alive(&mut d, &mut b).await }
    })
}
/// Every option a client can give, followed by ordinary use of what it made.
fn options_used(c: &Ctx) -> Report {
    c.run_checked(Plan::default().no_time(), move || async move {
        let e = engine().await;
        let mut a = Conn::open(&e, 1 << 22);
        let mut b = Conn::open(&e, 1 << 22);
        let kind = choose(5, "kind");
        let w = Known::default();
        let js = values([K::JStore, K::JQueue, K::JPush, K::JPub, K::JStream][kind], &w);
        let j = &js[choose(js.len(), "json")];
        note_state(&(kind, j));
        let get = |q: &str, n: u32| cat(&[&s(q), &s(&format!("{{\"batchSize\":{},\"waitMs\":0}}", n))]);
        let mut seq: Vec<(u8, Vec<u8>)> = vec![];
        match kind {
            0 => {
                seq.push((0x02, cat(&[&s("x"), j, b"\x01v"])));
                for _ in 0..2 { seq.push((0x03, s("x"))); seq.push((0, vec![])); }
                seq.push((0x02, cat(&[&s("x"), j, b"\x01w"])));
                seq.push((0x04, s("x")));
            }
            1 | 2 => {
                seq.push((0x10, cat(&[&s("x"), &if kind == 1 { j.clone() } else { s("{}") }])));
                for k in 0..3u8 { seq.push((0x11, cat(&[&s("x"), &if kind == 2 { j.clone() } else { s("{}") }, &[1, k]]))); }
                seq.push((0x12, get("x", 2)));
                seq.push((0x1A, vec![]));
                seq.push((0x12, get("x", 3)));
                seq.push((0, vec![]));
                seq.push((0x16, cat(&[&s("x"), &u32b(10), &u32b(0)])));
                seq.push((0x12, get("x", 1)));
                seq.push((0x19, s("x")));
                seq.push((0x15, s("x")));
            }
            3 => {
                seq.push((0x22, s("x")));
                seq.push((0x21, cat(&[&s("x"), j, b"\x01v"])));
                seq.push((0, vec![]));
                seq.push((0x22, s("+")));
                seq.push((0x21, cat(&[&s("x"), j])));
                seq.push((0x23, s("x")));
            }
            _ => {
                seq.push((0x30, cat(&[&s("x"), j])));
                for k in 0..3u8 { seq.push((0x31, cat(&[&s("x"), &[1, k]]))); }
                seq.push((0x33, cat(&[&s("g"), &s("x")])));
                seq.push((0, vec![]));
                seq.push((0x38, cat(&[&s("x"), &s("g"), &[0]])));
                seq.push((0x36, s("x")));
            }
        }
        let mut held: Vec<u8> = vec![];
        for (i, (op, p)) in seq.iter().enumerate() {
            let id = 10 + i as u32;
            if *op == 0 { sleep_ms(1500).await; }
            let pl = if *op == 0x1A { if held.is_empty() { continue; } cat(&[&held, &s("x"), &s("why")]) } else { p.clone() };
            a.req(*op, id, &pl);
            let f = a.frames().await?;
            ensure!(answered(*op, id, &f)? == 1, "no-answer", "step {}: request {:#04x} was answered {}", i, op, short(&f));
            if *op == 0x12 { if let Some(f) = f.iter().find(|f| f.ty == RESP && f.meta == DATA && f.p.len() >= 20) { held = f.p[4..20].to_vec(); } }
        }
        alive(&mut a, &mut b).await
    })
}
/// Many requests of one client under way at once, responses and pushes between
/// them, on a connection with little room.
fn pipelined(c: &Ctx) -> Report {
    let bud = c.pick(1, 2);
    let thorough = c.thorough;
    c.run_checked(Plan::default().budget(bud).no_time(), move || async move {
        let e = engine().await;
        e.queue.create_queue("q".into(), QueueCreateOptions::default()).await.unwrap();
        e.stream.create_topic("st".into(), StreamCreateOptions::default()).await.unwrap();
        let cap = [12usize, 64][choose(2, "room")];
        let (srv, cli) = TcpStream::mc_pair(cap);
        let h = spawn_local(handle_connection(srv, e.clone()));
        let kinds: Vec<Vec<(u8, Vec<u8>)>> = vec![
            // waits are answered though the request that ends them comes later on the same connection
            vec![(0x12, cat(&[&s("q"), &s("{\"waitMs\":100000}")])), (0, b"a".to_vec()), (0x11, cat(&[&s("q"), &s("{}"), b"\x01m"])), (0, b"b".to_vec())],
            // pushes to oneself between the responses
            vec![(0x22, s("t")), (0x21, cat(&[&s("t"), &s("{}"), b"\x01m"])), (0x23, s("t")), (0, b"a".to_vec())],
            // everything at once
            vec![(0, body(30)), (0x02, cat(&[&s("k"), &s("{}"), b"\x01v"])), (0x03, s("k")), (0xEE, vec![]), (0x11, vec![0])],
            vec![(0, vec![]), (0, body(20)), (0, vec![]), (0, body(20)), (0, vec![]), (0, body(3))],
        ];
        let set = kinds[choose(4, "set")].clone();
        let n = set.len();
        let got: Arc<Shared<Vec<u8>>> = Shared::new(vec![]);
        set_explore(true);
        let (mut rd, mut wr) = cli.into_split();
        let mut p = par();
        let s1 = set.clone();
        let keep: Arc<Shared<Vec<tokio::net::tcp::OwnedWriteHalf>>> = Shared::new(vec![]);
        let k1 = keep.clone();
        p.go(async move {
            for (i, (op, pl)) in s1.iter().enumerate() {
                use tokio::io::AsyncWriteExt;
                ensure!(wr.write_all(&frame(REQ, *op, 100 + i as u32, pl)).await.is_ok(), "write", "the connection does not accept requests");
            }
            k1.with(|k| k.push(wr));
            Ok(())
        });
        let g2 = got.clone();
        let done: Arc<Shared<bool>> = Shared::new(false);
        let d2 = done.clone();
        let reader = spawn_local(async move {
            use tokio::io::AsyncReadExt;
            let mut b = [0u8; 256];
            loop {
                let k = rd.read(&mut b).await.unwrap_or(0);
                if k == 0 { d2.with(|d| *d = true); break; }
                g2.with(|g| g.extend(&b[..k]));
            }
        });
        let g3 = got.clone();
        p.go(async move {
            while g3.with(|g| count_frames(g, RESP)) < n { ensure!(!done.with(|d| *d), "closed", "the connection ended"); sleep_ms(1).await; }
            Ok(())
        });
        let joined = p.join(10_000, "answering the requests").await;
        set_explore(false);
        let all = got.with(|g| g.clone());
        if let Err(v) = joined { return viol(v.sig, format!("{}; received {}", v.msg, short(&reference(&all, u32::MAX).0))); }
        quiesce().await;
        reader.abort();
        let f = parse_all(&got.with(|g| g.clone()))?;
        let mut ids: Vec<u32> = f.iter().filter(|f| f.ty == RESP).map(|f| f.id).collect();
        ids.sort();
        ensure!(ids == (0..n as u32).map(|i| 100 + i).collect::<Vec<_>>(), "pipelined", "requests 100..{} were answered {}", 100 + n, short(&f));
        for x in f.iter().filter(|f| f.ty == RESP) {
            let (op, pl) = &set[(x.id - 100) as usize];
            match op {
                0 => ensure!(x.meta == DATA && x.p == *pl, "pipelined-echo", "the echo of {:?} is {}", pl, short(&f)),
                0xEE => ensure!(x.meta == ERR, "pipelined-unknown", "an unknown request was answered {}", short(&f)),
                0x11 => ensure!((x.meta == OK) == (pl.len() > 1), "pipelined-push", "a push was answered {}", short(&f)),
                0x02 | 0x21 | 0x22 | 0x23 => ensure!(x.meta == OK, "pipelined-ok", "request {:#04x} was answered {}", op, short(&f)),
                0x03 => ensure!(x.meta == NULL || x.p == b"\x01v", "pipelined-get", "a get was answered {}", short(&f)),
                _ => ensure!(x.meta == DATA && x.p.ends_with(b"\x01m"), "pipelined-wait", "the waiting consume was answered {}", short(&f)),
            }
        }
        let pushes = f.iter().filter(|f| f.ty == PUSH).count();
        ensure!(pushes <= 1 && (set[0].0 == 0x22 || pushes == 0), "pipelined-pushes", "{} messages were pushed: {}", pushes, short(&f));
        ensure!(!h.is_finished(), "pipelined-end", "the connection ended");
        Ok(())
    })
}
fn count_frames(b: &[u8], ty: u8) -> usize { reference(b, u32::MAX).0.iter().filter(|f| f.ty == ty).count() }

// ---------------------------------------------------------------- W03
fn fetch_req(stream: &str, group: &str, member: &str, gen: u64, limit: u32, wait: u32) -> Vec<u8> { cat(&[&s(stream), &s(group), &s(member), &u64b(gen), &u32b(limit), &u32b(wait)]) }
fn joined(f: &F) -> (String, u64) { (String::from_utf8_lossy(&f.p[20..]).to_string(), u64::from_be_bytes(f.p[8..16].try_into().unwrap())) }
/// bodies of the messages in the answer to a fetch
fn fetched(f: &F) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut at = 4;
    while at + 20 <= f.p.len() { let n = u32::from_be_bytes(f.p[at + 16..at + 20].try_into().unwrap()) as usize; v.push(f.p[at + 20..at + 20 + n].to_vec()); at += 20 + n; }
    v
}
fn consumed(f: &F) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut at = 4;
    while at + 20 <= f.p.len() { let n = u32::from_be_bytes(f.p[at + 16..at + 20].try_into().unwrap()) as usize; v.push(f.p[at + 20..at + 20 + n].to_vec()); at += 20 + n; }
    v
}
fn get_req(q: &str, n: u32, wait: u64) -> Vec<u8> { cat(&[&s(q), &s(&format!("{{\"batchSize\":{},\"waitMs\":{}}}", n, wait))]) }
fn tasks() -> Vec<String> { let mut v = mcrt::live_tasks(); v.sort(); v }

/// A client that holds something, asks for something more, and goes.
/// How it goes is a choice, and when relative to the work it caused.
fn endings(c: &Ctx) -> Report {
    let b = c.pick(1, 2);
    c.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let e = engine().await;
        let mut b = Conn::open(&e, 1 << 20);
        b.ok(0x10, 1, &cat(&[&s("q"), &s(&format!("{{\"visibilityTimeoutMs\":{},\"maxRetries\":5}}", VT))])).await?;
        for st in ["st", "st2"] { b.ok(0x30, 2, &cat(&[&s(st), &s("{}")])).await?; }
        for k in 0..3u8 { b.ok(0x31, 3, &cat(&[&s("st"), &[1, k]])).await?; }
        let jb = joined(&b.ok(0x33, 4, &cat(&[&s("g"), &s("st")])).await?);
        b.ok(0x22, 5, &s("t")).await?;
        quiesce().await;
        let before = tasks();

        let blocked = choose(2, "output") == 1;
        let mut a = Conn::open(&e, if blocked { 4096 } else { 1 << 20 });
        let hold = choose(6, "hold");
        let (mut ja, mut ja2) = (None, None);
        if hold == 0 || hold == 4 { for t in ["t", "a/+", "#", "a/b"] { a.ok(0x22, 10, &s(t)).await?; } }
        if hold == 1 || hold == 4 || hold == 3 {
            let j = joined(&a.ok(0x33, 11, &cat(&[&s("g"), &s("st")])).await?);
            if hold != 3 {
                let f = a.ok(0x32, 12, &fetch_req("st", "g", &j.0, j.1, 2, 0)).await?;
                ensure!(fetched(&f).len() == 2, "setup", "fetch answered {}", short(&[f]));
            }
            ja = Some(j);
            if hold == 1 {
                // more memberships of the same client
                let k = joined(&a.ok(0x33, 16, &cat(&[&s("g"), &s("st")])).await?);
                let f = a.ok(0x32, 17, &fetch_req("st", "g", &k.0, k.1, 2, 0)).await?;
                ensure!(fetched(&f).len() == 1, "setup", "fetch answered {}", short(&[f]));
                a.ok(0x33, 18, &cat(&[&s("g3"), &s("st")])).await?;
            }
        }
        if hold == 2 || hold == 4 { a.req(0x12, 13, &get_req("q", 5, 1_000_000)); quiesce().await; }
        if hold == 3 || hold == 4 {
            let j = joined(&a.ok(0x33, 14, &cat(&[&s("g2"), &s("st2")])).await?);
            a.req(0x32, 15, &fetch_req("st2", "g2", &j.0, j.1, 5, 1_000_000));
            quiesce().await;
            ja2 = Some(j);
        }
        if blocked {
            // nothing more can be written to this client: it does not read
            for k in 0..4 { a.req(0, 30 + k, &vec![9; 3000]); }
            quiesce().await;
        }
        let last = choose(6, "last");
        let end = choose(6, "end");
        let meanwhile = choose(3, "meanwhile");
        note_state(&(blocked, hold, last, end, meanwhile));
        set_explore(true);
        match last {
            0 => {}
            1 => a.req(0x22, 20, &s("z/#")),
            2 => a.req(0x33, 21, &cat(&[&s("g"), &s("st")])),
            3 => match (&ja, &ja2) {
                (Some(j), _) => a.req(0x32, 22, &fetch_req("st", "g", &j.0, j.1, 1, 1000)),
                _ => a.req(0x12, 22, &get_req("q", 1, 1_000_000)),
            },
            4 => { a.req(0, 23, b"x"); a.req(0x22, 24, &s("y")); a.req(0x31, 25, &cat(&[&s("st2"), b"\x01late"])); }
            _ => a.put(&frame(REQ, 0x22, 26, &s("half"))[..13]),
        }
        if last > 0 && choose(2, "let it") == 1 { yield_now().await; }
        // the client goes
        let mut keep = None;
        let Conn { s: sock, h, .. } = a;
        match end {
            0 => drop(sock),
            1 => { sock.mc_close_write(); keep = Some(sock); }
            2 => { if last == 5 { sock.mc_put(b"alf.."); } sock.mc_put(&[REQ, 0, 0, 0, 0, 1, 255, 255, 255, 255]); keep = Some(sock); }
            3 => { sock.mc_fail(std::io::ErrorKind::ConnectionReset); keep = Some(sock); }
            4 => { sock.mc_put(&[REQ, 0, 0]); drop(sock); }
            _ => { sock.mc_close_write(); yield_now().await; drop(sock); }
        }
        match meanwhile {
            0 => {}
            1 => { e.queue.push("q".into(), Bytes::from_static(b"\x01m"), 0).await.unwrap(); }
            _ => { e.pubsub.publish("t", Bytes::from_static(b"\x01p"), false, None); }
        }
        quiesce().await;
        if blocked && matches!(end, 1 | 2) {
            // the server has more to write and the client is still there: the end
            // shows only once it reads or goes
            drop(keep.take());
            quiesce().await;
        }
        set_explore(false);
        ensure!(h.is_finished(), "open", "the connection is still being served after its client went (hold {} last {} end {})", hold, last, end);
        let after = tasks();
        ensure!(before == after, "tasks", "before the connection {:?} were running, after it {:?}", before, after);
        drop(keep);

        // subscriptions
        let snap = e.pubsub.scan_topics(100, 0, None);
        ensure!(snap.active_clients == 1, "clients", "{} clients are connected, expected one", snap.active_clients);
        for t in &snap.topics { ensure!(t.subscribers == (t.full_path == "t") as usize, "subscribers", "topic {:?} has {} subscribers", t.full_path, t.subscribers); }
        ensure!(snap.wildcards.multi_level.is_empty() && snap.wildcards.single_level.is_empty(), "wildcards", "subscriptions of the client that went are still there");
        ensure!(e.pubsub.publish("a/b", Bytes::from_static(b"\x01x"), false, None) == 0, "delivered", "a message was delivered to a client that went");
        let f = b.frames().await?;
        ensure!(f.len() == (meanwhile == 2) as usize && f.iter().all(|f| f.ty == PUSH), "other-push", "the other client received {}", short(&f));
        // memberships: everything undelivered goes to the other member at once
        let f = b.ok(0x32, 50, &fetch_req("st", "g", &jb.0, jb.1, 10, 0)).await?;
        let mut got = fetched(&f);
        got.sort();
        ensure!(got == (0..3u8).map(|k| vec![1, k]).collect::<Vec<_>>(), "redelivery", "the other member is given {:?} of the three messages", got);
        if let Some(j) = &ja {
            let f = b.call(0x39, 51, &cat(&[&s("st"), &s("g"), &s(&j.0), &u64b(j.1)])).await?;
            let g = b.call(0x34, 52, &cat(&[&s("st"), &s("g"), &s(&j.0), &u64b(j.1), &u64b(1)])).await?;
            let _ = f;
            ensure!(g.meta == ERR, "member", "the member that went can still acknowledge: {}", short(&[g]));
        }
        let j2 = joined(&b.ok(0x33, 53, &cat(&[&s("g2"), &s("st2")])).await?);
        b.ok(0x31, 54, &cat(&[&s("st2"), b"\x01n"])).await?;
        let f = b.ok(0x32, 55, &fetch_req("st2", "g2", &j2.0, j2.1, 10, 0)).await?;
        let got = fetched(&f);
        ensure!(got.iter().filter(|m| *m == b"\x01n").count() == 1 && got.iter().all(|m| m == b"\x01n" || m == b"\x01late"), "waiting-fetch", "a member joining afterwards is given {:?}", got);
        if ja2.is_some() { let f = b.ok(0x35, 56, &s("st2")).await?; let _ = f; }
        // the queue: what is pushed now is not given to the one that went
        b.ok(0x11, 57, &cat(&[&s("q"), &s("{}"), b"\x01after"])).await?;
        let f = b.ok(0x12, 58, &get_req("q", 10, 0)).await?;
        let mut got = consumed(&f);
        ensure!(got.iter().any(|m| m == b"\x01after"), "stolen", "a message pushed after the client went is not available: {:?}", got);
        if meanwhile == 1 && !got.iter().any(|m| m == b"\x01m") {
            // delivered just before the end: it comes back
            sleep_ms(VT + 60).await;
            quiesce().await;
            let f = b.ok(0x12, 59, &get_req("q", 10, 0)).await?;
            got.extend(consumed(&f));
            ensure!(got.iter().any(|m| m == b"\x01m"), "lost", "a message pushed while the client went is lost: {:?}", got);
        }
        let r = b.call(0, 60, b"still").await?;
        ensure!(r.p == b"still", "other", "the other connection's echo is {}", short(&[r]));
        ensure!(!b.ended(), "other-end", "the other connection ended");
        Ok(())
    })
}

// ---------------------------------------------------------------- W04
type Tree = BTreeMap<String, Option<Vec<u8>>>;
fn tree(dir: &Path) -> Tree {
    fn go(base: &Path, d: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            if p.is_dir() { t.insert(rel, None); go(base, &p, t); } else { t.insert(rel, Some(std::fs::read(&p).unwrap_or_default())); }
        }
    }
    let mut t = Tree::new();
    go(dir, dir, &mut t);
    t
}
fn copy_tree(from: &Path, to: &Path) {
    let _ = std::fs::create_dir_all(to);
    for (p, c) in tree(from) {
        match c { None => { let _ = std::fs::create_dir_all(to.join(&p)); } Some(b) => { std::fs::write(to.join(&p), b).unwrap(); } }
    }
}
fn diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a { match b.get(k) { None => v.push(format!("{:?} is gone", k)), Some(y) if x != y => v.push(format!("{:?} changed", k)), _ => {} } }
    for k in b.keys() { if !a.contains_key(k) { v.push(format!("{:?} is new", k)); } }
    v
}
fn only(t: &Tree, f: impl Fn(&str) -> bool) -> Tree { t.iter().filter(|(k, _)| f(k)).map(|(k, v)| (k.clone(), v.clone())).collect() }
fn hostile(base: &str, deep: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new()];
    let al = ["a", ".", "/", "\u{0}", "é", " ", "\n", "\\", "%", "~", "-", ":", "*", "$x", "\u{202e}", "A"];
    let n = if deep { 3 } else { 2 };
    let mut last = vec![String::new()];
    for _ in 0..n { let mut next = vec![]; for p in &last { for a in al { next.push(format!("{}{}", p, a)); } } v.extend(next.clone()); last = next; }
    for x in ["../x", "../../x", "../outside/x", "../outside", "../../../../../../../../../../tmp/nexo-x", "a/../b", "a/../../x", "./a", "a/.", "a/..", "a/b", "..\\x", "...", "..a", "ord/", "/ord", "ord/../x", "../s/ord", "../q/ord", "../s/ord/config", "../p/retained",
        "ord.", "ord.db", "ord.db-wal", "ord.db-shm", "ord.db-journal", "ord-journal", "ord-wal", "ord.config", "ord.config.json", "ord/config.json", "ord/1.log", "ord/groups", "config.json", "groups.log", "CON", "%2e%2e%2fx", "..%2fx", "..;/x", ".deleted-", ".deleted-x", ".deleted-ord", ".tmp", "x.tmp", "ord.tmp", "config.json.tmp", "file:x", "file:x?mode=memory", ":memory:", "-rf", "ORD", "ord ", " ord", "ord\0", "ord\0x", "ord\n"] { v.push(x.to_string()); }
    v.push(format!("{}/outside/x", base));
    v.push(format!("{}/q/ord", base));
    v.push(format!("{}/s/ord", base));
    for n in [64, 100, 200, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 300, 4096, 70_000] { v.push("n".repeat(n)); v.push("é".repeat(n / 2)); }
    v.sort();
    v.dedup();
    v
}
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum B { Q, S }
async fn b_create(e: &NexoEngine, b: B, n: &str) -> bool {
    match b { B::Q => e.queue.create_queue(n.into(), QueueCreateOptions { visibility_timeout_ms: Some(77_000), max_retries: Some(3) }).await.is_ok(), B::S => e.stream.create_topic(n.into(), StreamCreateOptions::default()).await.is_ok() }
}
async fn b_delete(e: &NexoEngine, b: B, n: &str) -> bool { match b { B::Q => e.queue.delete_queue(n.into()).await.is_ok(), B::S => e.stream.delete_topic(n.into()).await.is_ok() } }
async fn b_exists(e: &NexoEngine, b: B, n: &str) -> bool { match b { B::Q => e.queue.exists(n).await, B::S => e.stream.exists(n).await } }
async fn b_put(e: &NexoEngine, b: B, n: &str, x: &[u8]) -> bool { match b { B::Q => e.queue.push(n.into(), Bytes::copy_from_slice(x), 0).await.is_ok(), B::S => e.stream.publish(n, Bytes::copy_from_slice(x)).await.is_ok() } }
/// what is there, without changing it
async fn b_list(e: &NexoEngine, b: B, n: &str) -> Option<Vec<Vec<u8>>> {
    match b {
        B::Q => { let mut v = vec![]; for st in ["pending", "inflight"] { v.extend(e.queue.get_messages(n.into(), st.into(), 0, 100, None).await?.1.into_iter().map(|m| m.payload.to_vec())); } v.sort(); Some(v) }
        B::S => { if !e.stream.exists(n).await { return None; } Some(e.stream.read(n, 1, 100).await.into_iter().map(|m| m.payload.to_vec()).collect()) }
    }
}
async fn b_names(e: &NexoEngine) -> (Vec<String>, Vec<String>) {
    let mut q: Vec<String> = e.queue.get_snapshot().await.into_iter().map(|q| q.name).collect();
    let mut st: Vec<String> = e.stream.get_snapshot().await.topics.into_iter().map(|t| t.name).collect();
    q.sort();
    st.sort();
    (q, st)
}
async fn settle() { sleep_ms(60).await; quiesce().await; }
fn no_escape(when: &str, n: &str) -> R<()> {
    let x = mcrt::io::with_io(|i| i.escapes.clone());
    ensure!(x.is_empty(), "escape", "{} {:?}: {}", when, n, x.join("; "));
    Ok(())
}
async fn restart(n: usize, base: &Path) -> NexoEngine {
    let to = root().join(format!("r{}", n));
    copy_tree(base, &to);
    engine_at(&to).await
}
fn tag(n: &str) -> String { if n.len() > 60 { format!("{}.. ({} bytes)", n.chars().take(20).collect::<String>(), n.len()) } else { n.to_string() } }
/// A name of any shape beside ordinary ones: deleted, created, used, restarted, deleted.
fn hostile_names(c: &Ctx) -> Report {
    let deep = c.thorough;
    c.run_checked(Plan::default().disk(), move || async move {
        let base = root().join("b");
        // what must not be touched
        for (p, x) in [("outside/file", "1"), ("outside/x.db", "2"), ("outside/x.config.json", "3"), ("outside/x/config.json", "4"), ("x.db", "5"), ("x.db-wal", "6"), ("x.config.json", "7"), ("x/config.json", "8"), ("x/1.log", "9"), ("b/x.db", "5"), ("b/x.config.json", "7"), ("b/x/config.json", "8"), ("b/outside/x.db", "2"), ("b/outside/x.config.json", "3"), ("b/outside/x/config.json", "4")] {
            let p = root().join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, x).unwrap();
        }
        let e = engine_at(&base).await;
        for b in [B::Q, B::S] { b_create(&e, b, "ord").await; b_put(&e, b, "ord", b"one").await; b_put(&e, b, "ord", b"two").await; }
        settle().await;
        let names = hostile(base.to_str().unwrap(), deep);
        let b = [B::Q, B::S][choose(2, "broker")];
        let n = names[choose(names.len(), "name")].clone();
        if n == "ord" { return Ok(()); }
        note_state(&(b, &n));
        let t0 = tree(&root());
        // what does not exist can be deleted, or not; nothing happens
        let _ = b_delete(&e, b, &n).await;
        settle().await;
        no_escape("deleting", &n)?;
        let d = diff(&t0, &tree(&root()));
        ensure!(d.is_empty(), "delete-missing", "deleting {:?} {:?}, which does not exist: {}", b, tag(&n), d.join(", "));
        let ok = b_create(&e, b, &n).await;
        settle().await;
        no_escape("creating", &n)?;
        ensure!(b_exists(&e, b, &n).await == ok, "exists", "creating {:?} {:?} succeeded={}, but it exists={}", b, tag(&n), ok, !ok);
        let prefix = if b == B::Q { "b/q/" } else { "b/s/" };
        let ours = |k: &str| k.starts_with(prefix) && !k.starts_with("b/q/ord.db") && k != "b/q/ord.config.json" && k != "b/s/ord" && !k.starts_with("b/s/ord/")
            || (b == B::Q && ["ord.db", "ord.db-wal", "ord.db-shm", "ord.db-journal"].iter().any(|x| n == *x) && k.starts_with(&format!("b/q/{}.", n)));
        let rest = |t: &Tree| only(t, |k| !ours(k));
        let put = b_put(&e, b, &n, b"x1").await;
        b_put(&e, b, &n, b"x2").await;
        settle().await;
        no_escape("using", &n)?;
        let d = diff(&rest(&t0), &rest(&tree(&root())));
        ensure!(d.is_empty(), "outside", "creating and using {:?} {:?}: {}", b, tag(&n), d.join(", "));
        ensure!(put == ok, "use", "creating {:?} {:?} succeeded={}, storing a message in it succeeded={}", b, tag(&n), ok, put);
        let want = |x: bool| -> Option<Vec<Vec<u8>>> { if x { Some(vec![b"x1".to_vec(), b"x2".to_vec()]) } else { None } };
        ensure!(b_list(&e, b, &n).await == want(ok), "content", "{:?} {:?} holds {:?}", b, tag(&n), b_list(&e, b, &n).await);
        if !ok {
            let d = diff(&t0, &tree(&root()));
            ensure!(d.is_empty(), "refused", "{:?} {:?} was refused: {}", b, tag(&n), d.join(", "));
        }
        let ord = Some(vec![b"one".to_vec(), b"two".to_vec()]);
        let all = |x: bool| { let mut q = vec!["ord".to_string()]; let mut st = q.clone(); if x { if b == B::Q { q.push(n.clone()) } else { st.push(n.clone()) } } q.sort(); st.sort(); (q, st) };
        let e2 = restart(1, &base).await;
        settle().await;
        no_escape("restarting with", &n)?;
        ensure!(b_names(&e2).await == all(ok), "restart-names", "after creating {:?} {:?} and a restart there are {:?}", b, tag(&n), b_names(&e2).await);
        ensure!(b_list(&e2, b, &n).await == want(ok), "restart-content", "after a restart {:?} {:?} holds {:?}", b, tag(&n), b_list(&e2, b, &n).await);
        for o in [B::Q, B::S] { ensure!(b_list(&e2, o, "ord").await == ord, "restart-other", "after using {:?} {:?} and a restart {:?} \"ord\" holds {:?}", b, tag(&n), o, b_list(&e2, o, "ord").await); }
        // deleted (in the restarted server), it is gone and nothing else is
        if ok {
            ensure!(b_delete(&e2, b, &n).await, "delete", "deleting {:?} {:?} failed", b, tag(&n));
            settle().await;
            no_escape("deleting", &n)?;
            ensure!(!b_exists(&e2, b, &n).await, "deleted", "{:?} {:?} exists after its deletion", b, tag(&n));
            let strip = |t: &Tree| -> Tree { only(t, |k| !k.ends_with("-wal") && !k.ends_with("-shm")).into_iter().map(|(k, v)| (k, if v.is_some() { Some(vec![]) } else { None })).collect() };
            let d = diff(&strip(&only(&t0, |k| k.starts_with("b/")).into_iter().map(|(k, v)| (k[2..].to_string(), v)).collect()), &strip(&tree(&root().join("r1"))));
            ensure!(d.is_empty(), "leftover", "after deleting {:?} {:?}: {}", b, tag(&n), d.join(", "));
            let e3 = restart(2, &root().join("r1")).await;
            settle().await;
            ensure!(b_names(&e3).await == all(false), "restart-deleted", "after deleting {:?} {:?} and a restart there are {:?}", b, tag(&n), b_names(&e3).await);
            for o in [B::Q, B::S] { ensure!(b_list(&e3, o, "ord").await == ord, "restart-other", "after deleting {:?} {:?} and a restart {:?} \"ord\" holds {:?}", b, tag(&n), o, b_list(&e3, o, "ord").await); }
        }
        Ok(())
    })
}
/// Two names that look alike are still two.
fn name_pairs(c: &Ctx) -> Report {
    c.run_checked(Plan::default().disk(), move || async move {
        let base = root().join("b");
        let names = ["a", "A", "a.db", "a.db-wal", "a.db-shm", "a.db-journal", "a.config", "a.config.json", "a-wal", ".a", "a ", "a.", "", ".", "..", ".db", "db", ".config.json", "a.db.db", "ä", "a\u{308}", "a\\b", "config.json", "a.tmp"];
        let b = [B::Q, B::S][choose(2, "broker")];
        let i = choose(names.len(), "first");
        let j = choose(names.len(), "second");
        if i == j { return Ok(()); }
        note_state(&(b, i, j));
        let e = engine_at(&base).await;
        let (x, y) = (names[i], names[j]);
        let okx = b_create(&e, b, x).await;
        b_put(&e, b, x, b"x1").await;
        settle().await;
        let oky = b_create(&e, b, y).await;
        b_put(&e, b, y, b"y1").await;
        b_put(&e, b, x, b"x2").await;
        settle().await;
        no_escape("using", y)?;
        let wx = if okx { Some(vec![b"x1".to_vec(), b"x2".to_vec()]) } else { None };
        let wy = if oky { Some(vec![b"y1".to_vec()]) } else { None };
        let same = |e: NexoEngine, wx: Option<Vec<Vec<u8>>>, wy: Option<Vec<Vec<u8>>>, when: &'static str| async move {
            let (gx, gy) = (b_list(&e, b, x).await, b_list(&e, b, y).await);
            ensure!(gx == wx && gy == wy, "mixed", "{}: {:?} {:?} holds {:?} (expected {:?}), {:?} holds {:?} (expected {:?})", when, b, x, gx, wx, y, gy, wy);
            Ok(())
        };
        same(e.clone(), wx.clone(), wy.clone(), "both in use").await?;
        let e2 = restart(1, &base).await;
        settle().await;
        same(e2.clone(), wx.clone(), wy.clone(), "after a restart").await?;
        b_delete(&e2, b, x).await;
        settle().await;
        same(e2.clone(), None, wy.clone(), "the first deleted").await?;
        let e3 = restart(2, &root().join("r1")).await;
        settle().await;
        same(e3.clone(), None, wy, "the first deleted, after a restart").await?;
        no_escape("deleting", x)
    })
}

fn main() {
    // read once per process by the code under test
    let prop = std::env::args().nth(2).unwrap_or_default();
    let prop = if prop.ends_with(".json") { Path::new(&prop).file_name().unwrap().to_string_lossy()[..3].to_string() } else { prop };
    std::env::set_var("CHANNEL_CAPACITY_SOCKET_WRITE", "1");
    if prop == "W01" { std::env::set_var("MAX_PAYLOAD_SIZE", MAX1.to_string()); }
    if prop == "W06" { std::env::set_var("PUBSUB_DEFAULT_RETAINED_TTL_SECS", calls::TTL.to_string()); }
    let _ = nexo::config::Config::global();
    main_with("h_wire", vec![
        Prop { id: "W01", assumptions: vec!["frames of up to 32 bytes, up to three in a row; the size limit is set to 32 bytes"], scenarios: vec![
            scn("split_decode", "every sequence of up to three frames with every kind of tail, split in every way (all single and double splits, all pieces of equal size, every split at all when short)", split_decode),
            scn("announced", "every announced size and frame type, with none, some or all of its bytes", announced),
            scn("split_connection", "requests cut at every two places while pushes and responses are written", split_connection),
            scn("encode", "every kind of response and push, sizes and ids of every magnitude", encode),
        ]},
        Prop { id: "W02", assumptions: vec!["one request of arbitrary content at a time (two fields unusual at once), or up to six ordinary requests in flight; channel capacity 1"], scenarios: vec![
            scn("every_request", "every request with every prefix, unusual field values in every pair of fields and trailing bytes", every_request),
            scn("every_opcode", "every opcode and frame type", every_opcode),
            scn("options_used", "every option value a client can give, followed by use of what it made over some seconds", options_used),
            scn("pipelined", "several requests in flight with pushes between them on a connection with little room", pipelined),
        ]},
        Prop { id: "W03", assumptions: vec!["one client that goes and one that stays; channel capacity 1", "a client that half-closes while it does not read what the server has for it is only noticed once it reads or goes"], scenarios: vec![
            scn("endings", "every way of ending a connection that holds every kind of thing, with one more request under way and something else happening", endings),
        ]},
        Prop { id: "W04", assumptions: vec!["names of up to two (quick) or three (thorough) symbols of a hostile alphabet, a list of known tricks, lengths around every limit of the file system (ext4-like: 255 bytes)"], scenarios: vec![
            scn("hostile_names", "a queue or stream of any name beside ordinary ones: deleted, created, used, restarted, deleted, restarted; every effect on the file system compared", hostile_names),
            scn("name_pairs", "all pairs of names that look alike, both in use over restarts and a deletion", name_pairs),
        ]},
        Prop { id: "W05", assumptions: vec!["answers of the routes themselves (no HTTP parsing, no compression)", "search is not offered for dead letters"], scenarios: vec![
            scn("queries", "every pair of ordinary and extreme limits and offsets with every search on every endpoint over four populations", web::queries),
            scn("histories", "every short history of each broker, all endpoints after each step, compared with the same history unwatched", web::histories),
            scn("concurrent", "every endpoint read while a client changes what it shows", web::concurrent),
        ]},
        Prop { id: "W06", assumptions: vec!["one request at a time over two connections (waiting ones stay open), layouts as in the client library (sdk/ts)", "what the direct calls themselves do is decided by the other properties"], scenarios: vec![
            scn("store", "all histories of store requests, beside the same direct calls on a twin", calls::store),
            scn("queue", "all histories of queue requests for all creation options and three beginnings, beside the same direct calls on a twin", calls::queue),
            scn("stream", "all histories of stream requests, beside the same direct calls on a twin", calls::stream),
            scn("pubsub", "all histories of pub/sub requests and the pushes they cause, beside the same direct calls on a twin", calls::pubsub),
            scn("creation", "every retention setting of a stream, used until it shows", calls::creation),
        ]},
        Prop { id: "R01", assumptions: vec!["memory counted on the Rust side (SQLite's own is not), after a settling time longer than every period of the server"], scenarios: vec![
            scn("repeated", "everything that can be done and undone, alone and in every pair (after, within and across each other), repeated with the same and with new names", growth::repeated),
            scn("limits", "all histories of publishing to, reading, deleting and leaving alone three streams, with one or two files allowed to be open", growth::limits),
        ]},
        Prop { id: "R02", assumptions: vec!["work itself takes no time: time passes between requests"], scenarios: vec![
            scn("on_time", "everything the server does by the clock, beside every kind of traffic at several rates", busy::on_time),
        ]},
    ]);
}
