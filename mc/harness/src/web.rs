//! W05: what the dashboard says is what the brokers hold, and asking changes nothing.
use super::*;
use axum::http::Request;
use axum::{body::Body, Router};
use http_body_util::BodyExt;
use nexo::brokers::pub_sub::ClientId;
use nexo::brokers::stream::options::{RetentionOptions, SeekTarget};
use serde_json::{json, Value};
use std::collections::{BTreeSet, VecDeque};
use std::time::{SystemTime, UNIX_EPOCH};
use tower::ServiceExt;
use uuid::Uuid;

fn enc(x: &str) -> String { x.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }
/// the status and the answer
pub async fn get(e: &NexoEngine, uri: &str) -> (u16, Vec<u8>) {
    let r: Router = Router::new()
        .merge(nexo::brokers::store::http::routes())
        .merge(nexo::brokers::queue::http::routes())
        .merge(nexo::brokers::stream::http::routes())
        .merge(nexo::brokers::pub_sub::http::routes())
        .with_state(e.clone());
    let r = r.oneshot(Request::get(uri).body(Body::empty()).unwrap()).await.unwrap();
    let st = r.status().as_u16();
    let b = r.into_body().collect().await.unwrap().to_bytes().to_vec();
    (st, b)
}
async fn json_of(e: &NexoEngine, uri: &str) -> R<Value> {
    let (st, b) = get(e, uri).await;
    ensure!(st == 200, "status", "{} is answered with status {}", uri, st);
    match serde_json::from_slice(&b) { Ok(v) => Ok(v), Err(x) => viol("not-json", format!("{} is answered {:?}: {}", uri, String::from_utf8_lossy(&b[..b.len().min(80)]), x)) }
}
fn value(p: &[u8]) -> Value {
    let lossy = |x: &[u8]| Value::String(String::from_utf8_lossy(x).to_string());
    match p {
        [] => Value::Null,
        [0, x @ ..] => Value::String(format!("0x{}", x.iter().map(|b| format!("{:02x}", b)).collect::<String>())),
        [1, x @ ..] => lossy(x),
        [2, x @ ..] | x => serde_json::from_slice(x).unwrap_or_else(|_| lossy(x)),
    }
}
fn wall_ms() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64 }
/// seconds since the epoch of an RFC 3339 time in UTC
fn rfc(x: &str) -> Option<f64> {
    let (d, t) = x.split_once('T')?;
    let (neg, d) = match d.strip_prefix('-') { Some(d) => (true, d), None => (false, d.trim_start_matches('+')) };
    let mut p = d.split('-').map(|x| x.parse::<i64>());
    let (y, m, day) = (p.next()?.ok()?, p.next()?.ok()?, p.next()?.ok()?);
    let y = if neg { -y } else { y };
    let t = t.strip_suffix("+00:00").or(t.strip_suffix('Z'))?;
    let mut p = t.split(':');
    let (h, mi, sec) = (p.next()?.parse::<i64>().ok()?, p.next()?.parse::<i64>().ok()?, p.next()?.parse::<f64>().ok()?);
    let (y2, m2) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * m2 + 2) / 5 + day - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    Some((days * 86400 + h * 3600 + mi * 60) as f64 + sec)
}

// ---------------------------------------------------------------- what is there
#[derive(Clone, Debug)]
struct SKey { v: Vec<u8>, until: Option<u64> }
#[derive(Clone, Debug, PartialEq)]
enum QS { P, I(u64), D(String) }
#[derive(Clone, Debug)]
struct QMsg { p: Vec<u8>, prio: u8, attempts: u32, st: QS, born: u64, moved: u64 }
#[derive(Clone, Debug, Default)]
struct QRef { vt: u64, retries: u32, m: Vec<QMsg> }
#[derive(Clone, Debug, Default)]
struct TRef { log: Vec<(u64, u64, Vec<u8>)>, last: u64, groups: BTreeMap<String, (u64, BTreeSet<u64>)>, retention: (Option<u64>, Option<u64>) }
#[derive(Clone, Debug, Default)]
struct Ref {
    store: BTreeMap<String, SKey>,
    queues: BTreeMap<String, QRef>,
    topics: BTreeMap<String, TRef>,
    subs: BTreeMap<String, BTreeSet<String>>,
    retained: BTreeMap<String, (Vec<u8>, u64)>,
    clock: u64,
}
impl Ref {
    fn live_keys(&self, f: &str) -> BTreeMap<String, SKey> { let n = wall_ms(); self.store.iter().filter(|(k, x)| k.contains(f) && x.until.map_or(true, |u| u > n)).map(|(k, v)| (k.clone(), v.clone())).collect() }
    /// path -> (subscribers, retained)
    fn paths(&self, f: &str) -> BTreeMap<String, (usize, Option<Vec<u8>>)> {
        let n = wall_ms();
        let mut m: BTreeMap<String, (usize, Option<Vec<u8>>)> = BTreeMap::new();
        for ps in self.subs.values() { for p in ps { m.entry(p.clone()).or_default().0 += 1; } }
        for (p, (d, until)) in &self.retained { if *until > n { m.entry(p.clone()).or_default().1 = Some(d.clone()); } }
        m.into_iter().filter(|(k, _)| k.contains(f)).collect()
    }
}

#[derive(Clone, Default, Debug)]
struct Q { limit: Option<String>, offset: Option<String>, search: Option<String> }
impl Q {
    fn bad(&self) -> bool { [&self.limit, &self.offset].iter().any(|x| x.as_ref().map_or(false, |x| x.parse::<u64>().is_err())) }
    fn uri(&self, base: &str, extra: &[(&str, Option<String>)]) -> String {
        let mut v = vec![];
        for (k, x) in [("limit", &self.limit), ("offset", &self.offset), ("search", &self.search)].into_iter().map(|(k, x)| (k, x.clone())).chain(extra.iter().map(|(k, x)| (*k, x.clone()))) {
            if let Some(x) = x { v.push(format!("{}={}", k, enc(&x))); }
        }
        if v.is_empty() { base.to_string() } else { format!("{}?{}", base, v.join("&")) }
    }
    fn lim(&self, d: u64, max: u64) -> usize { (self.limit.as_ref().map_or(d, |x| x.parse().unwrap()).min(max)) as usize }
    fn off(&self) -> usize { self.offset.as_ref().map_or(0, |x| x.parse::<u64>().unwrap()) as usize }
    fn find(&self) -> &str { self.search.as_deref().unwrap_or("") }
}
/// what a listing of a set may show on a page
fn page(total: usize, off: usize, lim: usize) -> usize { total.saturating_sub(off).min(lim) }
async fn refused(e: &NexoEngine, uri: &str) -> R<()> {
    let (st, _) = get(e, uri).await;
    ensure!((400..500).contains(&st), "malformed", "{} is answered with status {}", uri, st);
    Ok(())
}
fn jstr<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("<none>") }
fn arr(v: &Value) -> Vec<Value> { v.as_array().cloned().unwrap_or_default() }
fn cut(v: &Value) -> String { let s = v.to_string(); if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s } }

async fn check_store(e: &NexoEngine, r: &Ref, q: &Q) -> R<Vec<String>> {
    let uri = q.uri("/api/store", &[]);
    if q.bad() { refused(e, &uri).await?; return Ok(vec![]); }
    let v = json_of(e, &uri).await?;
    let live = r.live_keys(q.find());
    let (lim, off) = (q.lim(500, u64::MAX), q.off());
    ensure!(v["total"] == json!(live.len()), "store-total", "{}: total is {}, there are {} such keys", uri, v["total"], live.len());
    let keys = arr(&v["keys"]);
    ensure!(keys.len() == page(live.len(), off, lim), "store-page", "{}: {} keys of {}", uri, keys.len(), live.len());
    ensure!(v["offset"] == json!(off) && v["limit"] == json!(lim), "store-echo", "{}: {}", uri, cut(&v));
    let mut names = vec![];
    for k in &keys {
        let n = jstr(k, "key").to_string();
        let Some(x) = live.get(&n) else { return viol("store-key", format!("{}: shows {}", uri, k)) };
        ensure!(k["value"] == value(&x.v), "store-value", "{}: key {:?} is shown as {}, it is {}", uri, n, k["value"], value(&x.v));
        match x.until {
            // beyond what a date can show
            Some(u) if u / 1000 < 253_402_300_800 => ensure!(rfc(jstr(k, "exp_at")).map_or(false, |t| (t - u as f64 / 1000.0).abs() < 0.002), "store-expiry", "{}: key {:?} expires at {}.{:03}, shown {}", uri, n, u / 1000, u % 1000, k["exp_at"]),
            None => ensure!(jstr(k, "exp_at") == "Never", "store-expiry", "{}: key {:?} never expires, shown {}", uri, n, k["exp_at"]),
            _ => ensure!(jstr(k, "exp_at") == "Never" || rfc(jstr(k, "exp_at")).map_or(false, |t| t > 253e9), "store-expiry", "{}: key {:?} expires after the year 9999, shown {}", uri, n, k["exp_at"]),
        }
        names.push(n);
    }
    let set: BTreeSet<&String> = names.iter().collect();
    ensure!(set.len() == names.len(), "store-twice", "{}: a key is shown twice: {:?}", uri, names);
    Ok(names)
}
async fn check_pubsub(e: &NexoEngine, r: &Ref, q: &Q) -> R<()> {
    let uri = q.uri("/api/pubsub", &[]);
    if q.bad() { return refused(e, &uri).await; }
    let v = json_of(e, &uri).await?;
    let all = r.paths(q.find());
    // a topic whose value has expired is listed until it is swept, or not
    let stale = r.retained.iter().filter(|(p, (_, u))| *u <= wall_ms() && p.contains(q.find()) && !all.contains_key(*p)).count();
    let total = v["total_topics"].as_u64().unwrap_or(u64::MAX) as usize;
    ensure!(total >= all.len() && total <= all.len() + stale, "topics-total", "{}: total_topics is {}, there are {}", uri, v["total_topics"], all.len());
    ensure!(v["active_clients"] == json!(r.subs.len()), "clients", "{}: active_clients is {}, there are {}", uri, v["active_clients"], r.subs.len());
    let (lim, off) = (q.lim(50, 500), q.off());
    let ts = arr(&v["topics"]);
    ensure!(ts.len() == page(total, off, lim), "topics-page", "{}: {} topics of {}", uri, ts.len(), total);
    let names: Vec<&str> = ts.iter().map(|t| jstr(t, "full_path")).collect();
    ensure!(names.windows(2).all(|w| w[0] < w[1]), "topics-order", "{}: {:?}", uri, names);
    for t in &ts {
        let n = jstr(t, "full_path");
        let (subs, ret) = match all.get(n) { Some(x) => x.clone(), None if r.retained.contains_key(n) && n.contains(q.find()) => (0, None), None => return viol("topic", format!("{}: shows {}", uri, t)) };
        ensure!(t["subscribers"] == json!(subs), "topic-subscribers", "{}: topic {:?} has {} subscribers, shown {}", uri, n, subs, t);
        let want = ret.map_or(Value::Null, |p| value(&p));
        ensure!(t["retained_value"] == want, "topic-retained", "{}: topic {:?} retains {}, shown {}", uri, n, want, t);
    }
    if total == all.len() {
        let want: Vec<&str> = all.keys().map(|x| x.as_str()).skip(off).take(lim).collect();
        ensure!(names == want, "topics-shown", "{}: {:?} instead of {:?}", uri, names, want);
    }
    for (k, hash) in [("multi_level", true), ("single_level", false)] {
        let mut got: Vec<(String, String)> = arr(&v["wildcards"][k]).iter().map(|w| (jstr(w, "pattern").into(), jstr(w, "client_id").into())).collect();
        got.sort();
        let mut want: Vec<(String, String)> = r.subs.iter().flat_map(|(c, ps)| ps.iter().map(move |p| (p.clone(), c.clone()))).filter(|(p, _)| p.contains(q.find()) && if hash { p.contains('#') } else { p.contains('+') && !p.contains('#') }).collect();
        want.sort();
        ensure!(got == want, "wildcards", "{}: {} are {:?}, shown {:?}", uri, k, want, got);
    }
    Ok(())
}
async fn check_queues(e: &NexoEngine, r: &Ref) -> R<()> {
    let v = json_of(e, "/api/queue").await?;
    let mut got: Vec<String> = arr(&v).iter().map(|x| x.to_string()).collect();
    let mut want: Vec<String> = r.queues.iter().map(|(n, q)| {
        let c = |f: &dyn Fn(&QS) -> bool| q.m.iter().filter(|m| f(&m.st)).count();
        json!({"name": n, "pending": c(&|x| *x == QS::P), "inflight": c(&|x| matches!(x, QS::I(_))), "dlq": c(&|x| matches!(x, QS::D(_))), "config": {"visibility_timeout_ms": q.vt, "max_retries": q.retries}}).to_string()
    }).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "queues", "/api/queue: {:?} instead of {:?}", got, want);
    Ok(())
}
async fn check_queue(e: &NexoEngine, r: &Ref, n: &str, state: Option<&str>, q: &Q) -> R<Vec<String>> {
    let uri = q.uri(&format!("/api/queue/{}/messages", enc(n)), &[("state", state.map(|x| x.to_string()))]);
    if q.bad() || state.is_none() { refused(e, &uri).await?; return Ok(vec![]); }
    let Some(qr) = r.queues.get(n) else { let (st, _) = get(e, &uri).await; ensure!(st == 404, "missing", "{} is answered with status {}", uri, st); return Ok(vec![]) };
    let st = state.unwrap().to_lowercase();
    if !["pending", "inflight", "dlq"].contains(&st.as_str()) {
        let (code, b) = get(e, &uri).await;
        ensure!(code < 500, "status", "{} is answered with status {}", uri, code);
        if code == 200 { let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null); ensure!(v["total"] == json!(0) && v["messages"] == json!([]), "no-state", "{}: {}", uri, cut(&v)); }
        return Ok(vec![]);
    }
    let v = json_of(e, &uri).await?;
    let mut m: Vec<&QMsg> = qr.m.iter().filter(|m| match &m.st { QS::P => st == "pending", QS::I(_) => st == "inflight", QS::D(_) => st == "dlq" }).collect();
    // the DLQ page has no search
    if st != "dlq" { m.retain(|m| String::from_utf8_lossy(&m.p).contains(q.find())); } else { m.sort_by_key(|m| std::cmp::Reverse(m.moved)); }
    let (lim, off) = (q.lim(50, 1000), q.off());
    ensure!(v["total"] == json!(m.len()), "messages-total", "{}: total is {}, there are {}", uri, v["total"], m.len());
    let got = arr(&v["messages"]);
    ensure!(got.len() == page(m.len(), off, lim), "messages-page", "{}: {} messages of {}", uri, got.len(), m.len());
    let show = |m: &QMsg| match &m.st {
        QS::D(why) => json!({"payload": value(&m.p), "attempts": m.attempts, "failure_reason": why, "created_at": m.born}),
        x => json!({"payload": value(&m.p), "attempts": m.attempts, "state": if *x == QS::P { "pending" } else { "inflight" }, "priority": m.prio}),
    };
    let mut ids = vec![];
    let mut left: Vec<String> = m.iter().map(|m| show(m).to_string()).collect();
    for (i, g) in got.iter().enumerate() {
        let mut g = g.clone();
        let id = jstr(&g, "id").to_string();
        ensure!(Uuid::parse_str(&id).is_ok(), "id", "{}: a message without an id: {}", uri, g);
        g.as_object_mut().unwrap().remove("id");
        let t = g.to_string();
        // most recent failure first
        if st == "dlq" { let want = show(m[off + i]).to_string(); ensure!(t == want, "dlq-page", "{}: position {} is {}, shown {}", uri, off + i, want, t); }
        match left.iter().position(|x| *x == t) { Some(j) => { left.remove(j); } None => return viol("message", format!("{}: shows {}, there is {:?}", uri, t, left.iter().take(5).collect::<Vec<_>>())) }
        ensure!(!ids.contains(&id), "message-twice", "{}: {} twice", uri, id);
        ids.push(id);
    }
    Ok(ids)
}
async fn check_streams(e: &NexoEngine, r: &Ref) -> R<()> {
    let v = json_of(e, "/api/stream").await?;
    let ts = arr(&v["topics"]);
    let names: BTreeSet<&str> = ts.iter().map(|t| jstr(t, "name")).collect();
    ensure!(names.len() == ts.len() && names == r.topics.keys().map(|x| x.as_str()).collect(), "streams", "/api/stream shows {:?}, there are {:?}", names, r.topics.keys().collect::<Vec<_>>());
    for t in &ts {
        let x = &r.topics[jstr(t, "name")];
        ensure!(t["last_seq"] == json!(x.last), "last-seq", "/api/stream: {:?} ends at {}, shown {}", jstr(t, "name"), x.last, t["last_seq"]);
        let mut got: Vec<String> = arr(&t["groups"]).iter().map(|g| g.to_string()).collect();
        let mut want: Vec<String> = x.groups.iter().map(|(n, (f, p))| json!({"id": n, "ack_floor": f, "pending_count": p.len()}).to_string()).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "groups", "/api/stream: groups of {:?} are {:?}, shown {:?}", jstr(t, "name"), want, got);
        let ret = &t["config"]["retention"];
        ensure!(ret["maxAgeMs"] == json!(x.retention.0) && ret["maxBytes"] == json!(x.retention.1), "stream-config", "/api/stream: retention of {:?} is {:?}, shown {}", jstr(t, "name"), x.retention, ret);
    }
    Ok(())
}
async fn check_stream(e: &NexoEngine, r: &Ref, n: &str, from: Option<&str>, q: &Q) -> R<()> {
    let uri = q.uri(&format!("/api/stream/{}/messages", enc(n)), &[("from", from.map(|x| x.to_string()))]);
    if q.bad() || from.map_or(false, |x| x.parse::<u64>().is_err()) { return refused(e, &uri).await; }
    let Some(t) = r.topics.get(n) else { let (st, _) = get(e, &uri).await; ensure!(st == 404, "missing", "{} is answered with status {}", uri, st); return Ok(()) };
    let v = json_of(e, &uri).await?;
    let lim = q.lim(50, 500);
    // without a start: the last page
    let start = match from { Some(x) => x.parse::<u64>().unwrap(), None => t.last.saturating_sub(lim.saturating_sub(1) as u64).max(1) };
    let mut want: Vec<Value> = t.log.iter().filter(|m| m.0 >= start).take(lim).map(|m| json!([m.0, value(&m.2)])).collect();
    want.reverse();
    let ms = arr(&v["messages"]);
    let got: Vec<Value> = ms.iter().map(|m| json!([m["seq"], m["payload"]])).collect();
    ensure!(got == want, "stream-page", "{}: {} instead of {}", uri, cut(&json!(got)), cut(&json!(want)));
    for m in &ms {
        let ts = t.log.iter().find(|x| json!(x.0) == m["seq"]).unwrap().1;
        ensure!(rfc(jstr(m, "timestamp")).map_or(false, |x| (x - ts as f64 / 1000.0).abs() < 0.0015), "stream-time", "{}: message {} is of {}, shown {}", uri, m["seq"], ts, m["timestamp"]);
    }
    ensure!(v["last_seq"] == json!(t.last) && v["limit"] == json!(lim) && v["from_seq"] == json!(start), "stream-echo", "{}: last_seq {} limit {} from_seq {}, expected {} {} {}", uri, v["last_seq"], v["limit"], v["from_seq"], t.last, lim, start);
    Ok(())
}
/// every endpoint, plain, and one page after the other
async fn check_all(e: &NexoEngine, r: &Ref) -> R<()> {
    let none = Q::default();
    check_store(e, r, &none).await?;
    check_pubsub(e, r, &none).await?;
    check_queues(e, r).await?;
    for n in r.queues.keys() { for st in ["pending", "inflight", "dlq"] { check_queue(e, r, n, Some(st), &none).await?; } }
    check_streams(e, r).await?;
    for n in r.topics.keys() { check_stream(e, r, n, None, &none).await?; }
    for sz in [1usize, 2] {
        let total = r.live_keys("").len();
        let mut seen = BTreeSet::new();
        for i in 0..total.div_ceil(sz).min(20) { seen.extend(check_store(e, r, &Q { limit: Some(sz.to_string()), offset: Some((i * sz).to_string()), search: None }).await?); }
        ensure!(total > 20 * sz || seen.len() == total, "store-pages", "the pages of the store show {:?} of {} keys", seen, total);
        for (n, q) in &r.queues { for st in ["pending", "inflight"] {
            let total = q.m.iter().filter(|m| match m.st { QS::P => st == "pending", QS::I(_) => st == "inflight", _ => false }).count();
            let mut seen = BTreeSet::new();
            for i in 0..total.div_ceil(sz).min(20) { seen.extend(check_queue(e, r, n, Some(st), &Q { limit: Some(sz.to_string()), offset: Some((i * sz).to_string()), search: None }).await?); }
            ensure!(total > 20 * sz || seen.len() == total, "queue-pages", "the pages of {:?} show {} of {} messages {}", n, seen.len(), total, st);
        } }
    }
    Ok(())
}

// ---------------------------------------------------------------- doing things to both
impl Ref {
    fn tick(&mut self) -> u64 { self.clock += 1; self.clock }
    fn set(&mut self, e: &NexoEngine, k: &str, v: &[u8], ttl: Option<u64>) {
        e.store.map.set(k.into(), Bytes::copy_from_slice(v), ttl);
        let secs = match ttl { None | Some(0) => DEFTTL, Some(x) => x };
        // far beyond anything: never
        let until = if secs > 1 << 62 { None } else { Some(wall_ms().saturating_add(secs.saturating_mul(1000))) };
        self.store.insert(k.into(), SKey { v: v.into(), until });
    }
    async fn queue(&mut self, e: &NexoEngine, n: &str, vt: u64, retries: u32) {
        e.queue.create_queue(n.into(), QueueCreateOptions { visibility_timeout_ms: Some(vt), max_retries: Some(retries) }).await.unwrap();
        self.queues.entry(n.into()).or_insert(QRef { vt, retries, m: vec![] });
    }
    async fn push(&mut self, e: &NexoEngine, n: &str, p: &[u8], prio: u8) {
        if e.queue.push(n.into(), Bytes::copy_from_slice(p), prio).await.is_ok() {
            let born = wall_ms();
            let moved = self.tick();
            self.queues.get_mut(n).unwrap().m.push(QMsg { p: p.into(), prio, attempts: 0, st: QS::P, born, moved });
        }
    }
    async fn take(&mut self, e: &NexoEngine, n: &str) -> Option<(Uuid, Vec<u8>)> {
        let m = e.queue.pop(n).await?;
        let q = self.queues.get_mut(n).unwrap();
        let until = wall_ms() + q.vt;
        let x = q.m.iter_mut().find(|x| x.p == m.payload[..] && x.st == QS::P)?;
        x.st = QS::I(until);
        x.attempts += 1;
        Some((m.id, m.payload.to_vec()))
    }
    async fn nack(&mut self, e: &NexoEngine, n: &str, m: &(Uuid, Vec<u8>), why: &str) {
        if !e.queue.nack(n, m.0, why.into()).await { return; }
        let moved = self.tick();
        let q = self.queues.get_mut(n).unwrap();
        let dead = q.retries;
        let x = q.m.iter_mut().find(|x| x.p == m.1).unwrap();
        x.st = if x.attempts >= dead { QS::D(why.into()) } else { QS::P };
        x.moved = moved;
    }
    /// what the passing of time does to the queues
    fn sweep(&mut self) {
        let n = wall_ms();
        for q in self.queues.values_mut() {
            let r = q.retries;
            for m in q.m.iter_mut() { if let QS::I(u) = m.st { if u <= n { self.clock += 1; m.moved = self.clock; m.st = if m.attempts >= r { QS::D("Timeout".into()) } else { QS::P }; } } }
        }
    }
    async fn stream(&mut self, e: &NexoEngine, n: &str) {
        e.stream.create_topic(n.into(), StreamCreateOptions::default()).await.unwrap();
        self.topics.entry(n.into()).or_insert(TRef { retention: (Some(604_800_000), Some(1 << 30)), ..TRef::default() });
    }
    async fn publish(&mut self, e: &NexoEngine, n: &str, p: &[u8]) {
        if let Ok(seq) = e.stream.publish(n, Bytes::copy_from_slice(p)).await {
            let t = self.topics.get_mut(n).unwrap();
            t.last = seq;
            t.log.push((seq, wall_ms(), p.into()));
        }
    }
    fn client(&mut self, e: &NexoEngine, c: &str) {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        e.pubsub.connect(ClientId(c.into()), tx);
        // kept open
        std::mem::forget(rx);
        self.subs.insert(c.into(), BTreeSet::new());
    }
    fn sub(&mut self, e: &NexoEngine, c: &str, p: &str) { e.pubsub.subscribe(&ClientId(c.into()), p); if let Some(x) = self.subs.get_mut(c) { x.insert(p.into()); } }
    fn retain(&mut self, e: &NexoEngine, t: &str, d: &[u8], ttl: Option<u64>) {
        e.pubsub.publish(t, Bytes::copy_from_slice(d), true, ttl);
        if d.is_empty() { self.retained.remove(t); } else { self.retained.insert(t.into(), (d.into(), wall_ms().saturating_add(ttl.unwrap_or(DEFTTL).saturating_mul(1000)))); }
    }
}
fn odd_payloads() -> Vec<Vec<u8>> {
    let deep = format!("\x02{}{}", "[".repeat(200), "]".repeat(200)).into_bytes();
    vec![vec![], vec![0], vec![1], vec![2], b"\x00\xff\x00".to_vec(), b"\x01plain".to_vec(), b"\x01\xff\xfe".to_vec(), b"\x02{\"a\":[1,2.5,null,true,\"x\"]}".to_vec(), b"\x02{broken".to_vec(), b"\x02\"\\ud800\"".to_vec(), b"\x021e999".to_vec(), b"\x02123456789012345678901234567890".to_vec(), b"\x02 7 ".to_vec(), b"\x02{\"a\":1,\"a\":2}".to_vec(), b"\x03odd".to_vec(), b"9".to_vec(), b"\xff".to_vec(), b"\"q\"".to_vec(), deep]
}
async fn populate(e: &NexoEngine, which: usize, base: &Path) -> R<Ref> {
    let mut r = Ref::default();
    match which {
        0 => {}
        1 => {
            for (i, p) in odd_payloads().iter().enumerate() { r.set(e, &format!("k{}", i), p, [None, Some(0), Some(5), Some(86_400)][i % 4]); }
            for (i, ttl) in [1 << 32, 100_000_000_000, 253_402_300_799, 8_210_000_000_000, 8_220_000_000_000, 1 << 53, 1 << 61, u64::MAX >> 1, u64::MAX].into_iter().enumerate() { r.set(e, &format!("t{}", i), b"\x01x", Some(ttl)); }
            for k in ["", "é", "a b", "%", "\u{0}", "A", "aa", "\"", "\\"] { r.set(e, k, b"\x01y", None); }
            r.set(e, "gone", b"\x01z", Some(1));
            r.set(e, "gone2", b"\x01z", Some(1));
            r.queue(e, "q", 500_000, 2).await;
            r.queue(e, "empty", 7, 0).await;
            r.queue(e, "é b/c%".replace('/', "-").as_str(), 10, 1).await;
            r.queue(e, "dead", 500_000, 0).await;
            for (i, p) in odd_payloads().iter().enumerate() { let mut p = p.clone(); if p.len() > 40 { p.truncate(40); } r.push(e, "q", &p, [0, 9, 255][i % 3]).await; }
            for _ in 0..7 { let m = r.take(e, "q").await.unwrap(); let _ = m; }
            for i in 0..4 { r.push(e, "dead", format!("\x01d{}", i).as_bytes(), 0).await; sleep_ms(3).await; }
            for i in 0..3 { let m = r.take(e, "dead").await.unwrap(); r.nack(e, "dead", &m, ["", "why", "wé\n"][i]).await; sleep_ms(2).await; }
            r.stream(e, "st").await;
            r.stream(e, "none").await;
            r.stream(e, "é b%").await;
            for p in odd_payloads() { r.publish(e, "st", &p).await; sleep_ms(7).await; }
            for g in ["g", "é/g", ""] { let j = e.stream.join_group(g, "st", "c1").await.unwrap(); let got = e.stream.fetch(g, &j.consumer_id, j.generation, 4, "st", 0).await.unwrap(); ensure!(got.len() == 4, "fetch", "{}", got.len()); for s in [1, 2, 4] { e.stream.ack(g, "st", &j.consumer_id, j.generation, s).await.unwrap(); } r.topics.get_mut("st").unwrap().groups.insert(g.into(), (2, [3u64].into())); }
            for c in ["c1", "c2", "é"] { r.client(e, c); }
            for (c, p) in [("c1", "a/b"), ("c2", "a/b"), ("c1", "a/+"), ("c1", "#"), ("c2", "+/+"), ("c2", "a/#"), ("c1", ""), ("c1", "/x"), ("é", "é/+"), ("c2", "old/sub")] { r.sub(e, c, p); }
            for (i, p) in odd_payloads().iter().enumerate() { if !p.is_empty() { r.retain(e, &format!("r/{}", i), p, Some([1 << 40, 60, u64::MAX][i % 3])); } }
            for t in ["a/b", "", "/", "/x", "x/", "//", "é"] { r.retain(e, t, b"\x01v", None); }
            r.retain(e, "old/x", b"\x01v", Some(1));
            r.retain(e, "old/sub", b"\x01v", Some(1));
            r.retain(e, "cleared", b"\x01v", None);
            r.retain(e, "cleared", b"", None);
            sleep_ms(1_100).await;
        }
        2 => {
            for i in 0..1100 { r.set(e, &format!("k{}", i), format!("\x02{}", i).as_bytes(), None); }
            r.queue(e, "q", 500_000, 0).await;
            for i in 0..1205 { r.push(e, "q", format!("\x02{}", i).as_bytes(), (i % 3) as u8).await; }
            for _ in 0..55 { r.take(e, "q").await; }
            for i in 0..60 { let m = r.take(e, "q").await.unwrap(); r.nack(e, "q", &m, &format!("r{}", i)).await; }
            r.stream(e, "st").await;
            for i in 0..1100 { r.publish(e, "st", format!("\x02{}", i).as_bytes()).await; }
            for i in 0..1100 { r.retain(e, &format!("t/{}", i), b"\x01x", None); }
            r.client(e, "c");
            for i in 0..60 { r.sub(e, "c", &format!("w/{}/+", i)); }
        }
        _ => {
            // part of the log on disk only, part of it gone
            let _ = base;
            e.stream.create_topic("st".into(), StreamCreateOptions { retention: Some(RetentionOptions { max_age_ms: Some(0), max_bytes: Some(400) }) }).await.unwrap();
            r.topics.insert("st".into(), TRef { retention: (None, Some(400)), ..TRef::default() });
            for i in 0..30 { r.publish(e, "st", format!("\x01message {:02}", i).as_bytes()).await; if i % 4 == 3 { sleep_ms(45).await; } }
            sleep_ms(2_500).await;
            quiesce().await;
            let first = e.stream.read("st", 1, 1).await.first().map_or(0, |m| m.seq);
            ensure!(first > 1 && first < 28, "setup", "the log begins at {}", first);
            r.topics.get_mut("st").unwrap().log.retain(|m| m.0 >= first);
        }
    }
    Ok(r)
}
/// Every combination of extreme and ordinary parameters on every endpoint over what there is.
pub fn queries(c: &Ctx) -> Report {
    let deep = c.thorough;
    c.run_checked(Plan::default().disk(), move || async move {
        let nums: Vec<Option<&str>> = [None].into_iter().chain(["0", "1", "2", "3", "7", "19", "50", "51", "499", "500", "501", "1000", "1001", "1100", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "-1", "", "abc", "1.5", " 1", "0x1"].into_iter().map(Some)).collect();
        let finds: Vec<Option<&str>> = [None].into_iter().chain(["", "a", "k1", "x", "nothing", "é", "%", "\u{0}", "+", "#", "/", "plain", "\u{fffd}"].into_iter().map(Some)).collect();
        let which = choose(4, "what there is");
        let ep = choose(4, "endpoint");
        let limit = nums[choose(nums.len(), "limit")].map(|x| x.to_string());
        if which == 2 && !deep && limit.as_ref().map_or(false, |l| l.len() > 4 && l.len() < 19) { return Ok(()); }
        if which == 3 && ep != 2 { return Ok(()); }
        note_state(&(which, ep, &limit));
        let base = root().join("b");
        let e = if which == 3 { engine_with(&base, |_, s| { s.ram_soft_limit = 6; s.max_segment_size = 120; s.retention_check_interval_ms = 700; s.eviction_interval_ms = 100; }).await } else { engine().await };
        let r = populate(&e, which, &base).await?;
        quiesce().await;
        for off in &nums {
            let offset = off.map(|x| x.to_string());
            if which == 2 && !deep && off.map_or(false, |l| l.len() > 4 && l.len() < 19) { continue; }
            let q = Q { limit: limit.clone(), offset, search: None };
            let fs: Vec<Option<String>> = finds.iter().filter(|f| which != 2 || deep || matches!(f, None | Some("x") | Some("k1"))).map(|f| f.map(|x| x.to_string())).collect();
            match ep {
                0 => for f in fs { check_store(&e, &r, &Q { search: f, ..q.clone() }).await?; },
                1 => for f in fs { check_pubsub(&e, &r, &Q { search: f, ..q.clone() }).await?; },
                2 => { check_streams(&e, &r).await?; for n in r.topics.keys().map(|x| x.as_str()).chain(["missing", "ST", ".."]) { check_stream(&e, &r, n, *off, &Q { offset: None, ..q.clone() }).await?; } }
                _ => {
                    check_queues(&e, &r).await?;
                    let states = [None, Some("pending"), Some("inflight"), Some("dlq"), Some("PENDING"), Some("Dlq"), Some("ready"), Some("")];
                    for n in r.queues.keys().map(|x| x.as_str()).chain(["missing", ".."]) { for st in states { for f in fs.iter().filter(|f| n == "q" || f.is_none()) { check_queue(&e, &r, n, st, &Q { search: f.clone(), ..q.clone() }).await?; } } }
                }
            }
        }
        check_all(&e, &r).await
    })
}
/// Histories of each broker, all endpoints after each step; and the same history unwatched, for comparison.
pub fn histories(c: &Ctx) -> Report {
    let d = c.pick(4, 5);
    c.run_checked(Plan::default(), move || async move {
        let which = choose(4, "broker");
        let watched = engine().await;
        let plain = engine().await;
        let mut r = Ref::default();
        let mut r2 = Ref::default();
        let (mut held, mut held2): (VecDeque<(Uuid, Vec<u8>)>, VecDeque<(Uuid, Vec<u8>)>) = Default::default();
        let mut member: Option<(String, u64)> = None;
        let mut member2: Option<(String, u64)> = None;
        let mut log = vec![];
        for i in 0..d {
            let p = format!("\x01p{}", i);
            let p = p.as_bytes();
            // what the client sees, watched and not
            let (a, b): (String, String) = match which {
                0 => {
                    let op = choose(7, "store op");
                    log.push(op);
                    let mut out = vec![];
                    for (e, r) in [(&watched, &mut r), (&plain, &mut r2)] {
                        out.push(match op {
                            0 | 1 => { r.set(e, ["a", "ab"][op], p, None); String::new() }
                            2 => { r.set(e, "a", p, Some(1)); String::new() }
                            3 | 4 => { let k = ["a", "ab"][op - 3]; r.store.remove(k); e.store.map.del(k).to_string() }
                            5 => format!("{:?}", e.store.map.get("a")),
                            _ => String::new(),
                        });
                    }
                    if op == 6 { sleep_ms(1_010).await; }
                    (out.remove(0), out.remove(0))
                }
                1 => {
                    let op = choose(11, "queue op");
                    log.push(op);
                    let mut out = vec![];
                    for (e, r, held) in [(&watched, &mut r, &mut held), (&plain, &mut r2, &mut held2)] {
                        if i == 0 { r.queue(e, "a", VT, 1).await; }
                        out.push(match op {
                            0 => { r.queue(e, "b", VT, 0).await; String::new() }
                            1 | 2 => { r.push(e, "a", p, [0, 200][op - 1]).await; String::new() }
                            3 => { if r.queues.contains_key("b") { r.push(e, "b", p, 0).await; } String::new() }
                            4 => { if r.queues.contains_key("a") { let m = r.take(e, "a").await; held.extend(m.clone()); format!("{:?}", m.map(|m| m.1)) } else { String::new() } }
                            5 => match held.pop_front() { Some(m) if r.queues.contains_key("a") => { let ok = e.queue.ack("a", m.0).await; if ok { r.queues.get_mut("a").unwrap().m.retain(|x| x.p != m.1); } ok.to_string() } _ => String::new() },
                            6 => match held.pop_front() { Some(m) if r.queues.contains_key("a") => { r.nack(e, "a", &m, "no").await; String::new() } _ => String::new() },
                            7 | 8 => {
                                let d = e.queue.peek_dlq("a", 1, 0).await.map(|x| x.1).unwrap_or_default();
                                match d.first() { None => String::new(), Some(m) => {
                                    let ok = if op == 7 { e.queue.move_to_queue("a", m.id).await } else { e.queue.delete_dlq("a", m.id).await };
                                    let q = r.queues.get_mut("a").unwrap();
                                    if op == 8 { q.m.retain(|x| x.p != m.payload[..]); } else { let x = q.m.iter_mut().find(|x| x.p == m.payload[..]).unwrap(); x.st = QS::P; x.attempts = 0; }
                                    format!("{:?}", ok)
                                } }
                            }
                            // (nothing can be stored here, so there is also no file to remove: the answer may say so)
                            9 => { let x = e.queue.delete_queue("a".into()).await.is_ok(); r.queues.remove("a"); x.to_string() }
                            _ => String::new(),
                        });
                    }
                    if op == 10 { sleep_ms(VT + 51).await; quiesce().await; r.sweep(); r2.sweep(); }
                    (out.remove(0), out.remove(0))
                }
                2 => {
                    let op = choose(9, "stream op");
                    log.push(op);
                    let mut out = vec![];
                    for (e, r, member) in [(&watched, &mut r, &mut member), (&plain, &mut r2, &mut member2)] {
                        if i == 0 { r.stream(e, "s").await; }
                        let Some(last) = r.topics.get("s").map(|t| t.last) else { if op == 0 { r.stream(e, "s").await; } *member = None; out.push(String::new()); continue };
                        out.push(match op {
                            0 => { r.stream(e, "s2").await; String::new() }
                            1 => { r.publish(e, "s", p).await; String::new() }
                            2 => { if let Ok(j) = e.stream.join_group("g", "s", "c").await { *member = Some((j.consumer_id, j.generation)); let t = r.topics.get_mut("s").unwrap(); t.groups.entry("g".into()).or_insert((0, BTreeSet::new())).0 = j.ack_floor; } String::new() }
                            3 | 4 => match &member { Some(m) => match e.stream.fetch("g", &m.0, m.1, op - 2, "s", 0).await { Ok(v) => { r.topics.get_mut("s").unwrap().groups.get_mut("g").unwrap().1.extend(v.iter().map(|m| m.seq)); format!("{:?}", v.iter().map(|m| m.seq).collect::<Vec<_>>()) } Err(x) => x }, None => String::new() },
                            5 => match &member { Some(m) => { let g = r.topics.get_mut("s").unwrap().groups.get_mut("g").unwrap(); match g.1.first().copied() { Some(x) => { let o = e.stream.ack("g", "s", &m.0, m.1, x).await; if o.is_ok() { g.1.remove(&x); g.0 = x; } format!("{:?}", o) } None => String::new() } } None => String::new() },
                            6 => { let o = e.stream.seek("g", "s", if i % 2 == 0 { SeekTarget::Beginning } else { SeekTarget::End }).await; let t = r.topics.get_mut("s").unwrap(); t.groups.insert("g".into(), (if i % 2 == 0 { 0 } else { last }, BTreeSet::new())); format!("{:?}", o) }
                            7 => match member.take() { Some(m) => { let g = e.stream.leave_group("g", "s", &m.0, m.1).await; if g.is_ok() { r.topics.get_mut("s").unwrap().groups.get_mut("g").unwrap().1.clear(); } format!("{:?}", g) } None => String::new() },
                            _ => { e.stream.delete_topic("s".into()).await.unwrap(); r.topics.remove("s"); String::new() }
                        });
                    }
                    (out.remove(0), out.remove(0))
                }
                _ => {
                    let op = choose(10, "pub/sub op");
                    log.push(op);
                    for (e, r) in [(&watched, &mut r), (&plain, &mut r2)] {
                        match op {
                            0 | 1 => { let c = ["c", "d"][op]; if !r.subs.contains_key(c) { r.client(e, c); } }
                            2 | 3 => { let c = ["c", "d"][op - 2]; if r.subs.contains_key(c) { r.sub(e, c, ["a/x", "a/+", "a/#", "#", "+/x"][i % 5]); } }
                            4 => { let p = r.subs.get("c").and_then(|x| x.first().cloned()); if let Some(p) = p { e.pubsub.unsubscribe(&ClientId("c".into()), &p); r.subs.get_mut("c").unwrap().remove(&p); } }
                            5 => { e.pubsub.disconnect(&ClientId("c".into())); r.subs.remove("c"); }
                            6 => r.retain(e, "a/x", p, None),
                            7 => r.retain(e, ["a", "a/x"][i % 2], p, Some(1)),
                            8 => r.retain(e, "a/x", b"", None),
                            _ => {}
                        }
                    }
                    if op == 9 { sleep_ms(1_010).await; }
                    (String::new(), String::new())
                }
            };
            ensure!(a == b, "changed", "after {:?} the client sees {:?} on the server whose dashboard is used, {:?} on the other", log, a, b);
            check_all(&watched, &r).await?;
        }
        note_state(&log);
        // and at the end the other server holds the same
        check_all(&plain, &r2).await?;
        let d = (wire_state(&watched).await, wire_state(&plain).await);
        ensure!(d.0 == d.1, "changed-state", "after {:?}: {} and unwatched {}", log, d.0, d.1);
        Ok(())
    })
}
async fn wire_state(e: &NexoEngine) -> String {
    let mut v = vec![];
    for k in ["a", "ab"] { v.push(format!("{:?}", e.store.map.get(k))); }
    for q in ["a", "b"] { let mut x = vec![]; while let Some(m) = e.queue.pop(q).await { x.push((m.payload, m.attempts, m.priority)); } v.push(format!("{:?} {:?}", x, e.queue.peek_dlq(q, 100, 0).await.map(|x| x.1.into_iter().map(|m| (m.payload, m.attempts)).collect::<Vec<_>>()))); }
    for s in ["s", "s2"] { v.push(format!("{:?}", e.stream.read(s, 1, 100).await.into_iter().map(|m| (m.seq, m.payload)).collect::<Vec<_>>())); if let Ok(j) = e.stream.join_group("g", s, "z").await { v.push(format!("{:?}", e.stream.fetch("g", &j.consumer_id, j.generation, 10, s, 0).await.map(|x| x.into_iter().map(|m| m.seq).collect::<Vec<_>>()))); } }
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    e.pubsub.connect(ClientId("zz".into()), tx);
    e.pubsub.subscribe(&ClientId("zz".into()), "#");
    let mut got = vec![];
    while let Ok(m) = rx.try_recv() { got.push((m.topic.clone(), m.payload.clone())); }
    got.sort();
    v.push(format!("{:?} {}", got, e.pubsub.publish("a/x", Bytes::from_static(b"n"), false, None)));
    e.pubsub.disconnect(&ClientId("zz".into()));
    v.join("; ")
}
/// The dashboard is read while clients are at work.
pub fn concurrent(c: &Ctx) -> Report {
    let budget = c.pick(2, 3);
    c.run_checked(Plan::default().budget(budget).no_time(), move || async move {
        let e = engine().await;
        let which = choose(4, "broker");
        let variant = choose(3, "what the clients do");
        let mut r = Ref::default();
        note_state(&(which, variant));
        let mut p = par();
        match which {
            0 => {
                for k in ["a", "b", "c"] { r.set(&e, k, b"\x01v", None); }
                let e2 = e.clone();
                p.go(async move { match variant { 0 => { e2.store.map.set("a".into(), Bytes::from_static(b"\x01w"), None); } 1 => { e2.store.map.del("b"); } _ => { e2.store.map.set("d".into(), Bytes::from_static(b"\x01w"), Some(9)); e2.store.map.del("a"); } } Ok(()) });
                let e3 = e.clone();
                p.go(async move {
                    let v = json_of(&e3, "/api/store").await?;
                    let keys: Vec<Value> = arr(&v["keys"]);
                    let names: BTreeSet<&str> = keys.iter().map(|k| jstr(k, "key")).collect();
                    ensure!(names.len() == keys.len() && names.contains("c") && (variant == 1 || names.contains("b")), "listing", "meanwhile the store is shown as {}", cut(&v));
                    ensure!(v["total"] == json!(keys.len()), "listing-total", "meanwhile the store is shown as {}", cut(&v));
                    for k in &keys { ensure!(k["value"] == json!("v") || k["value"] == json!("w") && ["a", "d"].contains(&jstr(k, "key")), "listing-value", "meanwhile the store is shown as {}", cut(&v)); }
                    Ok(())
                });
            }
            1 => {
                r.queue(&e, "a", 1 << 40, 0).await;
                r.queue(&e, "o", 1 << 40, 0).await;
                for i in 0..2 { r.push(&e, "a", format!("\x01{}", i).as_bytes(), 0).await; }
                let m = r.take(&e, "a").await.unwrap();
                if variant == 2 { r.nack(&e, "a", &m, "x").await; }
                let e2 = e.clone();
                p.go(async move { match variant { 0 => { e2.queue.nack("a", m.0, "x".into()).await; } 1 => { e2.queue.consume_batch("a".into(), Some(5), None).await.ok(); } _ => { e2.queue.move_to_queue("a", m.0).await.ok(); e2.queue.delete_queue("o".into()).await.ok(); } } Ok(()) });
                let e3 = e.clone();
                p.go(async move {
                    {
                        let v = json_of(&e3, "/api/queue").await?;
                        let Some(q) = arr(&v).into_iter().find(|q| jstr(q, "name") == "a") else { return viol("queue-gone", format!("meanwhile there is {}", cut(&v))) };
                        let n: u64 = ["pending", "inflight", "dlq"].iter().map(|k| q[*k].as_u64().unwrap_or(99)).sum();
                        ensure!(n == 2, "queue-sum", "meanwhile the two messages are shown as {}", q);
                        for st in ["pending", "inflight", "dlq"] {
                            let v = json_of(&e3, &format!("/api/queue/a/messages?state={}", st)).await?;
                            let ms = arr(&v["messages"]);
                            ensure!(v["total"] == json!(ms.len()) && ms.iter().all(|m| st == "dlq" || jstr(m, "state") == st), "queue-page", "meanwhile {} messages are {}", st, cut(&v));
                        }
                    }
                    Ok(())
                });
            }
            2 => {
                r.stream(&e, "s").await;
                r.publish(&e, "s", b"\x01p1").await;
                r.publish(&e, "s", b"\x01p2").await;
                let j = e.stream.join_group("g", "s", "c").await.unwrap();
                e.stream.fetch("g", &j.consumer_id, j.generation, 2, "s", 0).await.unwrap();
                let e2 = e.clone();
                p.go(async move { match variant { 0 => { e2.stream.publish("s", Bytes::from_static(b"\x01p3")).await.ok(); } 1 => { e2.stream.ack("g", "s", &j.consumer_id, j.generation, 1).await.unwrap(); } _ => { e2.stream.delete_topic("s".into()).await.ok(); } } Ok(()) });
                let e3 = e.clone();
                p.go(async move {
                    let v = json_of(&e3, "/api/stream").await?;
                    let ts = arr(&v["topics"]);
                    ensure!(ts.len() == 1 || variant == 2 && ts.is_empty(), "streams-meanwhile", "meanwhile there is {}", cut(&v));
                    for t in &ts {
                        let last = t["last_seq"].as_u64().unwrap_or(99);
                        ensure!(last == 2 || variant == 0 && last == 3, "last-meanwhile", "meanwhile there is {}", t);
                        let g = &t["groups"][0];
                        let n = g["ack_floor"].as_u64().unwrap_or(99) + g["pending_count"].as_u64().unwrap_or(99);
                        ensure!(n == 2, "group-meanwhile", "two messages given to the group are shown as {}", g);
                    }
                    let (st, b) = get(&e3, "/api/stream/s/messages").await;
                    ensure!(st == 200 || variant == 2 && st == 404, "page-status", "meanwhile status {}", st);
                    if st == 200 {
                        let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
                        let seqs: Vec<u64> = arr(&v["messages"]).iter().map(|m| m["seq"].as_u64().unwrap_or(0)).collect();
                        ensure!(seqs == [2, 1] || variant == 0 && seqs == [3, 2, 1] || variant == 2 && seqs.is_empty(), "page-meanwhile", "meanwhile the page is {:?}", seqs);
                    }
                    Ok(())
                });
            }
            _ => {
                r.client(&e, "c");
                r.sub(&e, "c", "a/+");
                r.sub(&e, "c", "b");
                r.retain(&e, "b", b"\x01v", None);
                let e2 = e.clone();
                p.go(async move { match variant { 0 => { e2.pubsub.subscribe(&ClientId("c".into()), "z/#"); } 1 => { e2.pubsub.disconnect(&ClientId("c".into())); } _ => { e2.pubsub.publish("b", Bytes::from_static(b"\x01w"), true, None); e2.pubsub.unsubscribe(&ClientId("c".into()), "a/+"); } } Ok(()) });
                let e3 = e.clone();
                p.go(async move {
                    let v = json_of(&e3, "/api/pubsub").await?;
                    let ts = arr(&v["topics"]);
                    ensure!(v["total_topics"] == json!(ts.len()), "topics-meanwhile", "meanwhile there is {}", cut(&v));
                    let b = ts.iter().find(|t| jstr(t, "full_path") == "b");
                    ensure!(b.map_or(false, |b| b["retained_value"] == json!("v") || variant == 2 && b["retained_value"] == json!("w")), "retained-meanwhile", "meanwhile there is {}", cut(&v));
                    Ok(())
                });
            }
        }
        set_explore(true);
        let x = p.join(5_000, "the dashboard and the clients").await;
        set_explore(false);
        x
    })
}
