//! Publish/subscribe checks.
use bytes::Bytes;
use harness::*;
use mcrt::io::IoOp;
use nexo::brokers::pub_sub::config::PubSubConfig;
use nexo::brokers::pub_sub::{ClientId, PubSubManager, PubSubMessage};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver};

const FLUSH: u64 = 500;
const DEFTTL: u64 = 3;

fn mk_at(dir: &Path) -> PubSubManager {
    let mut c = PubSubConfig::default();
    c.persistence_path = dir.join("pubsub").to_string_lossy().to_string();
    c.default_retained_ttl_seconds = DEFTTL;
    c.cleanup_interval_seconds = 2;
    c.retained_flush_ms = FLUSH;
    PubSubManager::new(Arc::new(c))
}
fn mk() -> Arc<PubSubManager> { Arc::new(mk_at(&root())) }
/// without storage (the service runs on, nothing is persisted): for the
/// explorations that are about memory only
fn mk_mem() -> Arc<PubSubManager> { Arc::new(mk_at(Path::new("/dev/null/none"))) }
fn ms() -> u64 { now_ns() / 1_000_000 }

type Msg = (String, Vec<u8>);
struct Cl { id: ClientId, rx: UnboundedReceiver<Arc<PubSubMessage>> }
impl Cl {
    fn new(m: &PubSubManager, name: &str) -> Cl {
        let (tx, rx) = unbounded_channel();
        let id = ClientId(name.to_string());
        m.connect(id.clone(), tx);
        Cl { id, rx }
    }
    fn drain(&mut self) -> Vec<Msg> {
        let mut v = vec![];
        while let Ok(m) = self.rx.try_recv() { v.push((m.topic.clone(), m.payload.to_vec())); }
        v
    }
}
fn segs(s: &str) -> Vec<&str> { s.split('/').collect() }
/// reference matching: `+` one segment, trailing `#` everything from there on
fn matches(p: &str, t: &str) -> bool {
    fn go(p: &[&str], t: &[&str]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some(&"#") => true,
            Some(&"+") => !t.is_empty() && go(&p[1..], &t[1..]),
            Some(x) => t.first() == Some(x) && go(&p[1..], &t[1..]),
        }
    }
    go(&segs(p), &segs(t))
}
/// what a brand-new subscriber of `pat` is sent at once
fn probe(m: &PubSubManager, pat: &str) -> Vec<Msg> {
    let mut c = Cl::new(m, "probe");
    m.subscribe(&c.id, pat);
    let mut v = c.drain();
    m.disconnect(&c.id);
    v.sort();
    v
}

fn all_patterns(depth: usize) -> Vec<String> {
    let mut out = vec![];
    fn rec(cur: Vec<&'static str>, d: usize, out: &mut Vec<String>) {
        if !cur.is_empty() { out.push(cur.join("/")); }
        if d == 0 { return; }
        for s in ["a", "b", "+"] { let mut c = cur.clone(); c.push(s); rec(c, d - 1, out); }
        let mut c = cur; c.push("#"); out.push(c.join("/"));
    }
    rec(vec![], depth, &mut out);
    out
}
fn all_topics(depth: usize, alpha: &[&'static str]) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..depth {
        let mut n = vec![];
        for c in &cur { for a in alpha { let mut x = c.clone(); x.push(*a); out.push(x.join("/")); n.push(x); } }
        cur = n;
    }
    out
}

/// every pair of patterns (plus one extra subscription) against every topic
fn routing_matrix(ctx: &Ctx) -> Report {
    let d = ctx.pick(3, 4);
    let pats = Arc::new(all_patterns(d));
    let tops = Arc::new(all_topics(d + 1, &["a", "b", ""]));
    ctx.run_checked(Plan::default().disk(), move || {
        let (pats, tops) = (pats.clone(), tops.clone());
        async move {
            let m = mk();
            quiesce().await;
            let p = &pats[choose(pats.len(), "p")];
            let mut c = [Cl::new(&m, "c0"), Cl::new(&m, "c1"), Cl::new(&m, "c2")];
            m.subscribe(&c[0].id, p);
            // a second subscription of the same client, and an unrelated client, must not change what the first gets
            let q = &pats[choose(pats.len(), "q")];
            m.subscribe(&c[1].id, p);
            m.subscribe(&c[1].id, q);
            for (k, t) in tops.iter().enumerate() {
                let data = vec![k as u8, 0, 255];
                let n = m.publish(t, Bytes::from(data.clone()), false, None);
                let want0 = matches(p, t);
                let want1 = matches(p, t) || matches(q, t);
                for (i, want) in [want0, want1, false].into_iter().enumerate() {
                    let got = c[i].drain();
                    let exp: Vec<Msg> = if want { vec![(t.clone(), data.clone())] } else { vec![] };
                    ensure!(got == exp, "routing", "publish {:?}: client {} (patterns {:?}{}) got {:?}, expected {:?}", t, i, p, if i == 1 { format!(", {:?}", q) } else { String::new() }, got, exp);
                }
                ensure!(n == want0 as usize + want1 as usize, "count", "publish {:?} reported {} receivers", t, n);
            }
            // removing one of the two subscriptions leaves the other
            if p != q {
                m.unsubscribe(&c[1].id, q);
                for t in tops.iter() {
                    m.publish(t, Bytes::from("x"), false, None);
                    let got = c[1].drain().len();
                    ensure!(got == matches(p, t) as usize, "routing", "after unsubscribing {:?}, publish {:?} reached a subscriber of {:?} {} times", q, t, p, got);
                    let got = c[0].drain().len();
                    ensure!(got == matches(p, t) as usize, "routing", "after another client unsubscribed {:?}, publish {:?} reached a subscriber of {:?} {} times", q, t, p, got);
                }
            }
            note_state(&(p, q));
            Ok(())
        }
    })
}

#[derive(Default, Clone, Hash)]
struct Subs { alive: BTreeMap<usize, BTreeSet<&'static str>> }

/// what the listing must say about subscriptions
fn listing(m: &PubSubManager) -> (usize, BTreeMap<String, usize>, BTreeSet<(String, String)>) {
    let s = m.scan_topics(1000, 0, None);
    let topics = s.topics.iter().map(|t| (t.full_path.clone(), t.subscribers)).collect();
    let w = s.wildcards.multi_level.iter().chain(s.wildcards.single_level.iter()).map(|w| (w.pattern.clone(), w.client_id.clone())).collect();
    (s.active_clients, topics, w)
}
fn check_listing(m: &PubSubManager, subs: &Subs, when: &str) -> R<()> {
    let (n, topics, wild) = listing(m);
    ensure!(n == subs.alive.len(), "clients", "{}: {} clients listed, {} connected", when, n, subs.alive.len());
    let mut exp: BTreeMap<String, usize> = BTreeMap::new();
    let mut ew = BTreeSet::new();
    for (c, ps) in &subs.alive {
        for p in ps {
            *exp.entry(p.to_string()).or_default() += 1;
            if p.contains('+') || p.contains('#') { ew.insert((p.to_string(), format!("c{}", c))); }
        }
    }
    let got: BTreeMap<String, usize> = topics.into_iter().filter(|(_, n)| *n > 0).collect();
    ensure!(got == exp, "residue", "{}: subscriptions listed {:?}, expected {:?}", when, got, exp);
    ensure!(wild == ew, "residue", "{}: wildcard subscriptions listed {:?}, expected {:?}", when, wild, ew);
    Ok(())
}

fn histories(pats: &'static [&'static str], tops: &'static [&'static str], depth: usize, ctx: &Ctx) -> Report {
    ctx.run_checked(Plan::default(), move || async move {
        let m = mk_mem();
        quiesce().await;
        let mut cl: BTreeMap<usize, Cl> = BTreeMap::new();
        let mut subs = Subs::default();
        for i in 0..2 { cl.insert(i, Cl::new(&m, &format!("c{}", i))); subs.alive.insert(i, BTreeSet::new()); }
        let np = pats.len();
        for i in 0..depth {
            let who = choose(2, "who");
            let op = choose(2 * np + 3, "op");
            let mut died = false;
            let when;
            if op < np {
                when = format!("step {}: c{} subscribes {}", i, who, pats[op]);
                if let Some(c) = cl.get(&who) { m.subscribe(&c.id, pats[op]); subs.alive.get_mut(&who).unwrap().insert(pats[op]); }
                else { m.subscribe(&ClientId(format!("c{}", who)), pats[op]); }
            } else if op < 2 * np {
                when = format!("step {}: c{} unsubscribes {}", i, who, pats[op - np]);
                m.unsubscribe(&ClientId(format!("c{}", who)), pats[op - np]);
                if let Some(s) = subs.alive.get_mut(&who) { s.remove(pats[op - np]); }
            } else if op == 2 * np {
                when = format!("step {}: c{} disconnects", i, who);
                m.disconnect(&ClientId(format!("c{}", who)));
                cl.remove(&who);
                subs.alive.remove(&who);
            } else if op == 2 * np + 2 {
                // its connection is gone, nobody has told the broker yet
                when = format!("step {}: c{} dies", i, who);
                cl.remove(&who);
                died = subs.alive.remove(&who).is_some_and(|s| !s.is_empty());
            } else {
                when = format!("step {}: c{} reconnects", i, who);
                if !cl.contains_key(&who) { cl.insert(who, Cl::new(&m, &format!("c{}", who))); subs.alive.insert(who, BTreeSet::new()); }
            }
            log_event(when.clone());
            if op != 2 * np + 2 { check_listing(&m, &subs, &when)?; }
            for t in tops {
                let n = m.publish(t, Bytes::from(vec![i as u8]), false, None);
                let mut tot = 0;
                for (k, c) in cl.iter_mut() {
                    let want = subs.alive[k].iter().any(|p| matches(p, t));
                    let got = c.drain();
                    ensure!(got.len() == want as usize && got.iter().all(|g| g.0 == *t && g.1 == vec![i as u8]), "routing", "{}: publish {:?}: c{} got {:?}, subscribed to {:?}", when, t, k, got, subs.alive[k]);
                    tot += want as usize;
                }
                ensure!(n == tot, "count", "{}: publish {:?} reported {} receivers, {} got it", when, t, n, tot);
            }
            if op == 2 * np + 2 {
                // every pattern matches one of the topics: the publishes have found out
                if !died { m.disconnect(&ClientId(format!("c{}", who))); }
                check_listing(&m, &subs, &when)?;
            }
            note_state(&subs);
        }
        for k in cl.keys() { m.disconnect(&ClientId(format!("c{}", k))); }
        check_listing(&m, &Subs::default(), "all clients gone")
    })
}
fn routing_histories(ctx: &Ctx) -> Report { histories(&["a/b", "a/+", "a/#"], &["a/b", "a/c", "a", "b"], ctx.pick(4, 5), ctx) }
fn residue_histories(ctx: &Ctx) -> Report { histories(&["a", "a/+/c", "#"], &["a", "a/b/c"], ctx.pick(4, 5), ctx) }

/// One client leaves a pattern (or altogether) next to a subscription of
/// another client, or a retained value, anywhere in the tree.
fn prune_matrix(ctx: &Ctx) -> Report {
    let d = ctx.pick(3, 4);
    let pats = Arc::new(all_patterns(d));
    let tops = Arc::new(all_topics(d + 1, &["a", "b"]));
    ctx.run_checked(Plan::default(), move || {
        let (pats, tops) = (pats.clone(), tops.clone());
        async move {
            let m = mk_mem();
            quiesce().await;
            let p = &pats[choose(pats.len(), "p")];
            let n = choose(pats.len() + tops.len() / 2, "neighbour");
            let how = choose(3, "how");
            let mut c = [Cl::new(&m, "c0"), Cl::new(&m, "c1")];
            let first = choose(2, "order");
            if first == 0 { m.subscribe(&c[0].id, p); }
            let sub = if n < pats.len() { m.subscribe(&c[1].id, &pats[n]); Some(pats[n].clone()) } else { None };
            let kept = if n >= pats.len() { let t = &tops[n - pats.len()]; m.publish(t, Bytes::from("kept"), true, Some(1000)); Some(t.clone()) } else { None };
            if first == 1 { m.subscribe(&c[0].id, p); }
            match how { 0 => m.unsubscribe(&c[0].id, p), 1 => m.disconnect(&c[0].id), _ => { m.subscribe(&c[0].id, p); m.unsubscribe(&c[0].id, p); m.unsubscribe(&c[0].id, p); } }
            let what = format!("c0 subscribed {:?} and {}; meanwhile {:?} / retained {:?}", p, ["unsubscribed", "disconnected", "unsubscribed twice"][how], sub, kept);
            c[0].drain();
            for t in tops.iter() {
                let k = m.publish(t, Bytes::from("x"), false, None);
                let want = sub.as_ref().map(|s| matches(s, t)).unwrap_or(false) as usize;
                let got = [c[0].drain().len(), c[1].drain().len()];
                ensure!(got == [0, want] && k == want, "neighbour", "{}: publish {:?} reached c0 {} times and c1 {} times (reported {}), expected 0 and {}", what, t, got[0], got[1], k, want);
            }
            let want: Vec<Msg> = kept.iter().map(|t| (t.clone(), b"kept".to_vec())).collect();
            let got = probe(&m, "#");
            ensure!(got == want, "neighbour", "{}: retained values now {:?}, expected {:?}", what, got, want);
            let (_, topics, _) = listing(&m);
            let got: BTreeMap<String, usize> = topics.into_iter().filter(|(_, n)| *n > 0).collect();
            let exp: BTreeMap<String, usize> = sub.iter().map(|s| (s.clone(), 1)).collect();
            ensure!(got == exp, "residue", "{}: subscriptions listed {:?}, expected {:?}", what, got, exp);
            note_state(&(p, n, how, first));
            Ok(())
        }
    })
}

/// Publishers, steady subscribers, and clients coming and going, all at once.
fn concurrent_publish(ctx: &Ctx) -> Report {
    let b = ctx.pick(3, 4);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        quiesce().await;
        let mut stay = Cl::new(&m, "stay");
        m.subscribe(&stay.id, "t/+");
        m.subscribe(&stay.id, "t/x");
        let mut all = Cl::new(&m, "all");
        m.subscribe(&all.id, "#");
        let mut part = Cl::new(&m, "part");
        m.subscribe(&part.id, "t/x");
        let other = choose(5, "other");
        if other == 1 || other == 3 { m.subscribe(&ClientId("part".into()), "t/#"); }
        let mut p = par();
        let t = Shared::new((0u64, u64::MAX, u64::MAX, 0u64)); // clock, sub done, unsub begun/done
        let log = Shared::new(Vec::<(Vec<u8>, u64, u64)>::new());
        set_explore(true);
        for k in 0..2u8 {
            let (m, t, log) = (m.clone(), t.clone(), log.clone());
            p.go(async move {
                for i in 0..2u8 {
                    let d = vec![k, i];
                    let s = t.with(|c| { c.0 += 1; c.0 });
                    let topic = if k == 1 && i == 1 { "t/y" } else { "t/x" };
                    m.publish(topic, Bytes::from(d.clone()), false, None);
                    let e = t.with(|c| { c.0 += 1; c.0 });
                    log.with(|l| l.push((d, s, e)));
                    sched_point("op");
                }
                Ok(())
            });
        }
        let (m2, t2) = (m.clone(), t.clone());
        let late: Arc<Shared<Option<Cl>>> = Shared::new(None);
        let late2 = late.clone();
        p.go(async move {
            let id = ClientId("part".into());
            match other {
                0 => { let c = Cl::new(&m2, "late"); m2.subscribe(&c.id, "t/x"); t2.with(|c| { c.0 += 1; c.1 = c.0; }); late2.with(|l| *l = Some(c)); }
                1 => { m2.unsubscribe(&id, "t/#"); }
                2 => { t2.with(|c| { c.0 += 1; c.2 = c.0; }); m2.unsubscribe(&id, "t/x"); t2.with(|c| { c.0 += 1; c.3 = c.0; }); }
                3 => { t2.with(|c| { c.0 += 1; c.2 = c.0; }); m2.disconnect(&id); t2.with(|c| { c.0 += 1; c.3 = c.0; }); }
                _ => { let c = Cl::new(&m2, "gone"); m2.subscribe(&c.id, "t/x"); drop(c.rx); }
            }
            Ok(())
        });
        p.join(60_000, "publish/subscribe").await?;
        set_explore(false);
        let log = log.with(|l| l.clone());
        let (_, subdone, unb, und) = t.with(|c| *c);
        let x: Vec<Vec<u8>> = vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1]];
        let order = |v: &[Vec<u8>], who: &str| -> R<()> {
            let mut seen = BTreeSet::new();
            for d in v { ensure!(seen.insert(d.clone()), "duplicate", "{} received message {:?} twice", who, d); }
            for k in 0..2u8 {
                let s: Vec<u8> = v.iter().filter(|d| d[0] == k).map(|d| d[1]).collect();
                ensure!(s.windows(2).all(|w| w[0] < w[1]), "order", "{} received publisher {}'s messages out of order: {:?}", who, k, v);
            }
            Ok(())
        };
        for (c, who) in [(&mut stay, "a subscriber with overlapping patterns"), (&mut all, "a # subscriber")] {
            let got: Vec<Vec<u8>> = c.drain().into_iter().map(|m| m.1).collect();
            order(&got, who)?;
            for d in &x { ensure!(got.contains(d), "lost", "{} never received {:?}; got {:?}", who, d, got); }
        }
        let got: Vec<Vec<u8>> = part.drain().into_iter().map(|m| m.1).collect();
        order(&got, "the changing subscriber")?;
        for (d, s, e) in &log {
            let on_x = d != &vec![1, 1];
            let must = match other { 0 | 1 | 4 => on_x, _ => on_x && *e < unb };
            let mustnt = match other { 2 => !on_x || *s > und, 3 => *s > und, 1 => false, _ => !on_x };
            ensure!(!must || got.contains(d), "lost", "message {:?} published while subscribed never arrived; got {:?}", d, got);
            ensure!(!mustnt || !got.contains(d), "ghost", "message {:?} published after leaving was delivered; got {:?}", d, got);
        }
        if let Some(mut c) = late.with(|l| l.take()) {
            let got: Vec<Vec<u8>> = c.drain().into_iter().map(|m| m.1).collect();
            order(&got, "a late subscriber")?;
            for (d, s, _) in &log { if *s > subdone && d != &vec![1, 1] { ensure!(got.contains(d), "lost", "message {:?} published after subscribing never arrived; got {:?}", d, got); } }
        }
        note_state(&(other, got));
        Ok(())
    })
}

/// Subscribe / unsubscribe / disconnect / publish of one client racing.
fn concurrent_lifecycle(ctx: &Ctx) -> Report {
    let b = ctx.pick(3, 4);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        quiesce().await;
        let mut c = Cl::new(&m, "c");
        let mut other = Cl::new(&m, "o");
        m.subscribe(&other.id, "a/+");
        let pre = choose(2, "pre") == 1;
        if pre { m.subscribe(&c.id, "a/+"); m.subscribe(&c.id, "a/b"); }
        let mut p = par();
        let ops: Vec<usize> = (0..3).map(|_| choose(5, "op")).collect();
        set_explore(true);
        for &o in &ops {
            let m = m.clone();
            let id = c.id.clone();
            p.go(async move {
                match o {
                    0 => m.subscribe(&id, "a/+"),
                    1 => m.unsubscribe(&id, "a/+"),
                    2 => m.disconnect(&id),
                    3 => { m.publish("a/b", Bytes::from("m"), false, None); }
                    _ => m.subscribe(&id, "a/b"),
                }
                Ok(())
            });
        }
        p.join(60_000, "subscription changes").await?;
        set_explore(false);
        // everything is at rest: the listing and the routing must tell one story
        let gone = ops.contains(&2);
        let early: usize = other.drain().len();
        ensure!(early == ops.iter().filter(|o| **o == 3).count(), "lost", "an uninvolved subscriber received {} of the messages", early);
        let dup = c.drain().len();
        ensure!(dup <= ops.iter().filter(|o| **o == 3).count(), "duplicate", "the client received {} copies", dup);
        let (n, topics, wild) = listing(&m);
        ensure!(n == if gone { 1 } else { 2 }, "clients", "{} clients listed after {:?}", n, ops);
        let cnt = |p: &str| topics.get(p).copied().unwrap_or(0);
        ensure!(cnt("a/+") >= 1, "lost", "an uninvolved subscription vanished");
        if gone {
            ensure!(cnt("a/+") == 1 && cnt("a/b") == 0, "residue", "subscriptions of a gone client remain: {:?} after {:?}", topics, ops);
            ensure!(wild.iter().all(|w| w.1 != "c"), "residue", "wildcards of a gone client remain: {:?}", wild);
        }
        let listed_plus = wild.contains(&("a/+".to_string(), "c".to_string()));
        let routed_plus = cnt("a/+") == 2;
        ensure!(listed_plus == routed_plus, "inconsistent", "wildcard subscription is {} but {} for routing, after {:?}", if listed_plus { "registered" } else { "not registered" }, if routed_plus { "present" } else { "absent" }, ops);
        if !gone {
            // the last word of each racing pair decides; alone it is definite
            let plus_subs = ops.contains(&0); let plus_unsubs = ops.contains(&1);
            if plus_subs && !plus_unsubs { ensure!(routed_plus, "lost-subscription", "a subscription made by {:?} is not there", ops); }
            if plus_unsubs && !plus_subs { ensure!(!routed_plus, "residue", "an unsubscribed pattern is still there after {:?}", ops); }
            if !plus_unsubs && !plus_subs { ensure!(routed_plus == pre, "lost-subscription", "an untouched subscription changed in {:?}", ops); }
            let b = cnt("a/b") == 1;
            ensure!(b == (pre || ops.contains(&4)), "lost-subscription", "the exact subscription is wrong after {:?}", ops);
            m.publish("a/z", Bytes::from("p"), false, None);
            ensure!(c.drain().len() == routed_plus as usize, "inconsistent", "listing and routing disagree after {:?}", ops);
        }
        // closing the client removes everything, whatever happened before
        m.disconnect(&c.id);
        m.disconnect(&other.id);
        let (n, topics, wild) = listing(&m);
        ensure!(n == 0 && topics.is_empty() && wild.is_empty(), "residue", "left after every client disconnected ({:?}): {} clients, {:?}, {:?}", ops, n, topics, wild);
        note_state(&(ops, routed_plus));
        Ok(())
    })
}

// ------------------------------------------------------------------ retained
#[derive(Clone, Default, Hash, Debug, PartialEq, Eq)]
struct Ret { m: BTreeMap<String, (Vec<u8>, u64)> }
impl Ret {
    fn set(&mut self, t: &str, v: &[u8], ttl: Option<u64>, now: u64) {
        if v.is_empty() { self.m.remove(t); } else { self.m.insert(t.into(), (v.to_vec(), now.saturating_add(ttl.unwrap_or(DEFTTL).saturating_mul(1000)))); }
    }
    /// (must be there, may be there), allowing `slack` ms around the deadline
    fn visible(&self, pat: &str, now: u64, slack: u64) -> (Vec<Msg>, Vec<Msg>) {
        let f = |s: i64| -> Vec<Msg> { self.m.iter().filter(|(t, (_, e))| matches(pat, t) && (now as i128) + (s as i128) < *e as i128).map(|(t, (v, _))| (t.clone(), v.clone())).collect() };
        (f(slack as i64), f(-(slack as i64) - 1))
    }
}
fn check_retained(m: &PubSubManager, r: &Ret, pats: &[&str], slack: u64, when: &str) -> R<()> {
    for p in pats {
        let got = probe(m, p);
        let (must, may) = r.visible(p, ms(), slack);
        let ok = got.windows(2).all(|w| w[0] != w[1]) && must.iter().all(|x| got.contains(x)) && got.iter().all(|x| may.contains(x));
        ensure!(ok, "retained", "{}: a new subscriber of {:?} was sent {:?}, expected {:?} (t={} ms)", when, p, got, must, ms());
    }
    Ok(())
}
const RP: [&str; 8] = ["a", "a/b", "+", "a/+", "#", "a/#", "+/b", "b/#"];

fn retained_histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 5);
    ctx.run_checked(Plan::default().disk(), move || async move {
        let m = mk();
        quiesce().await;
        let mut r = Ret::default();
        let mut live = Cl::new(&m, "live");
        m.subscribe(&live.id, "a/#");
        for i in 0..depth {
            let op = choose(13, "op");
            let v = [b'0' + i as u8];
            let mut put = |t: &str, v: &[u8], retain: bool, ttl: Option<u64>| {
                m.publish(t, Bytes::from(v.to_vec()), retain, ttl);
                if retain { r.set(t, v, ttl, ms()); }
                let got = live.drain();
                let exp: Vec<Msg> = if matches("a/#", t) { vec![(t.to_string(), v.to_vec())] } else { vec![] };
                ensure!(got == exp, "live", "step {}: publish {:?} retain={} delivered {:?} to a live subscriber", i, t, retain, got);
                Ok(())
            };
            match op {
                0 => put("a", &v, true, None)?,
                1 => put("a", &v, true, Some(1))?,
                2 => put("a", &v, false, None)?,
                3 => put("a", &[], true, None)?,
                4 => put("a/b", &v, true, Some(4))?,
                5 => put("a/b", &[], true, None)?,
                6 => put("a/b", &v, false, Some(9))?,
                7 => put("b", &v, true, Some(60))?,
                8 => put("b", &[], false, None)?,
                9 => put("c/b", &v, true, None)?,
                10 => sleep_ms(500).await,
                11 => sleep_ms(1001).await,
                _ => sleep_ms(2600).await,
            }
            quiesce().await;
            let when = format!("step {} op {}", i, op);
            log_event(when.clone());
            check_retained(&m, &r, &RP, 0, &when)?;
            // the listing shows the same values
            let s = m.scan_topics(100, 0, None);
            for t in ["a", "a/b", "b", "c/b"] {
                let got = s.topics.iter().find(|x| x.full_path == t).and_then(|x| x.retained_payload.clone()).map(|b| b.to_vec());
                let (must, may) = r.visible(t, ms(), 0);
                ensure!(must.first().map(|m| Some(&m.1) == got.as_ref()).unwrap_or(true) && got.as_ref().map(|g| may.first().map(|m| m.1 == *g).unwrap_or(false)).unwrap_or(true), "listing", "{}: listing shows {:?} retained for {:?}, expected {:?}", when, got, t, must);
            }
            note_state(&(&r, ms()));
        }
        Ok(())
    })
}

fn retained_names(ctx: &Ctx) -> Report {
    let mut names = all_topics(3, &["a", "", "b"]);
    names.extend(["ü/é".to_string(), "a'b\"c;--/d".into(), " ".into(), "a b/\u{0}".into(), "A".into()]);
    let names = Arc::new(names);
    ctx.run2(Plan::default().log(), move || {
        let names = names.clone();
        async move {
            let m = mk();
            quiesce().await;
            let mut r = Ret::default();
            let a = &names[choose(names.len(), "a")];
            let b = &names[choose(names.len(), "b")];
            for (t, v) in [(a, "1"), (b, "2")] { m.publish(t, Bytes::from(v), true, Some(600)); r.set(t, v.as_bytes(), Some(600), ms()); }
            let mut pats: Vec<&str> = vec!["#", a, b, "+", "a/#", "/#", "+/+"];
            pats.dedup();
            check_retained(&m, &r, &pats, 0, "before restart")?;
            sleep_ms(FLUSH * 2 + 100).await;
            note_state(&r);
            Ok(r)
        }
    }, |e, r| {
        recover_and_check(e, e.out.io.log.len(), None, vec![r.clone()], 0, "restart")
    })
}

/// Restart on the storage image after `upto` operations of the log and compare
/// with the states that would be acceptable.
fn recover_and_check<T>(e: &Exec<'_, T>, upto: usize, torn: Option<usize>, ok: Vec<Ret>, later_ms: u64, when: &str) -> Vec<Violation> {
    let dir = e.fresh_dir("r");
    mcrt::io::materialize(&dir, &e.out.io.log[..upto], torn);
    let when2 = when.to_string();
    let start = e.out.now_ns + later_ms * 1_000_000;
    let o = e.sub(&dir, start, move || Box::pin(async move {
        let m = mk();
        quiesce().await;
        let mut errs = vec![];
        let mut first = None;
        for (i, r) in ok.iter().enumerate() {
            match check_retained(&m, r, &["#"], 1001, &when2) { Ok(()) => { first = Some(i); break; } Err(v) => errs.push(v) }
        }
        let Some(i) = first else { let v = errs.pop().unwrap(); return Err(Violation { sig: "not-durable".into(), msg: v.msg }); };
        // remaining lifetime carries over; nothing changes by running on
        let r = &ok[i];
        sleep_ms(700).await;
        quiesce().await;
        check_retained(&m, r, &["#"], 1001, &format!("{}, a little later", when2))?;
        sleep_ms(3000).await;
        quiesce().await;
        check_retained(&m, r, &["#", "a/+", "a"], 1001, &format!("{}, 3.7 s later", when2))
    }));
    let own = match &o.result { Some(Err(v)) => vec![v.clone()], _ => vec![] };
    match mcrt::judge(&o, true, own) { Ok(v) => v, Err(e) => vec![Violation { sig: "machinery".into(), msg: e }] }
}

/// Every crash point of every short history of retained changes.
fn retained_crash(ctx: &Ctx) -> Report {
    let depth = ctx.pick(4, 5);
    let torn_all = ctx.thorough;
    ctx.run2(Plan::default().log(), move || async move {
        let m = mk();
        quiesce().await;
        let mut r = Ret::default();
        let mut states = vec![r.clone()];
        mcrt::io::mark(0);
        mcrt::io::mark(1000);
        for i in 0..depth {
            let op = choose(6, "op");
            let v = [b'0' + i as u8];
            match op {
                0 => { m.publish("a", Bytes::from(v.to_vec()), true, Some(60)); r.set("a", &v, Some(60), ms()); }
                1 => { m.publish("a", Bytes::new(), true, None); r.set("a", &[], None, ms()); }
                2 => { m.publish("a/b", Bytes::from(v.to_vec()), true, Some(5)); r.set("a/b", &v, Some(5), ms()); }
                3 => { m.publish("b", Bytes::from(vec![v[0]; 5000]), true, Some(600)); r.set("b", &vec![v[0]; 5000], Some(600), ms()); }
                4 => sleep_ms(FLUSH / 2 + 10).await,
                _ => { sleep_ms(FLUSH + 100).await; quiesce().await; mcrt::io::mark(1000 + states.len() as u64 - 1); }
            }
            if op < 4 { states.push(r.clone()); mcrt::io::mark(states.len() as u64 - 1); }
        }
        sleep_ms(FLUSH + 100).await;
        quiesce().await;
        mcrt::io::mark(1000 + states.len() as u64 - 1);
        note_state(&states);
        Ok(states)
    }, move |e, states| {
        let log = &e.out.io.log;
        let (mut done, mut durable) = (0usize, 0usize);
        let mut started = false;
        for p in 0..=log.len() {
            if p > 0 {
                match &log[p - 1] {
                    IoOp::Mark(k) if *k >= 1000 => { durable = (*k - 1000) as usize; started = true; }
                    IoOp::Mark(k) => { done = *k as usize; continue; }
                    _ => {}
                }
            }
            let _ = started;
            // an operation may take effect before it returns
            let hi = (done + 1).min(states.len() - 1);
            let ok: Vec<Ret> = states[durable..=hi].iter().rev().cloned().collect();
            let mut torn = vec![None];
            if p > 0 { if let IoOp::Write { data, .. } = &log[p - 1] { if torn_all { torn.extend([Some(data.len() / 2), Some(1.min(data.len())), Some(data.len().saturating_sub(1))]); } else { torn.push(Some(data.len() / 2)); } } }
            for t in torn {
                // a torn write has not been followed by anything: the previous durable state is what counts
                let v = recover_and_check(e, p, t, ok.clone(), 0, &format!("crash after storage operation {} of {} {}", p, log.len(), t.map(|t| format!("(last write torn at {})", t)).unwrap_or_default()));
                if !v.is_empty() { return v; }
            }
        }
        // restart much later: what expired meanwhile must not come back
        for later in [4000, 59_000, 61_000] {
            let v = recover_and_check(e, log.len(), None, vec![states.last().unwrap().clone()], later, &format!("restart {} ms later", later));
            if !v.is_empty() { return v; }
        }
        vec![]
    })
}

/// A storage failure during a flush is made up for once storage works again.
fn retained_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let m = mk();
        sleep_ms(FLUSH * 2 + 10).await;
        let mut r = Ret::default();
        m.publish("k", Bytes::from("0"), true, Some(600));
        r.set("k", b"0", Some(600), ms());
        let pre = choose(2, "pre");
        if pre == 1 { sleep_ms(FLUSH * 2).await; }
        m.publish("a", Bytes::from("1"), true, Some(600));
        r.set("a", b"1", Some(600), ms());
        mcrt::io::set_fault_kinds(true, true);
        mcrt::io::set_faults(true);
        sleep_ms(FLUSH + 50).await;
        quiesce().await;
        mcrt::io::set_faults(false);
        mcrt::io::set_fault_kinds(false, false);
        // running service is unaffected
        check_retained(&m, &r, &["#"], 0, "after a storage failure")?;
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        check_retained(&m, &r, &["#"], 0, "after a storage failure")?;
        let more = choose(2, "more");
        if more == 1 {
            m.publish("a", Bytes::from("2"), true, Some(600));
            r.set("a", b"2", Some(600), ms());
            sleep_ms(FLUSH * 3).await;
        }
        note_state(&(pre, more));
        Ok(r)
    }, |e, r| {
        recover_and_check(e, e.out.io.log.len(), None, vec![r.clone()], 0, &format!("restart after storage failures {:?}", e.out.io.faults))
    })
}

/// Storage that cannot be read or opened when the server starts: nothing of it
/// is lost, and it is served as soon as storage works.
fn startup_faults(ctx: &Ctx) -> Report {
    let b = ctx.pick(1, 2);
    ctx.run2(Plan::default().log().budget(b).no_time(), move || async move {
        let leave_to = |a: &str, b: &str| {
            let (a, b) = (root().join(a), root().join(b));
            let mut todo = vec![a.clone()];
            while let Some(d) = todo.pop() {
                let t = b.join(d.strip_prefix(&a).unwrap());
                std::fs::create_dir_all(&t).expect("scratch");
                for e in std::fs::read_dir(&d).expect("scratch").flatten() { if e.path().is_dir() { todo.push(e.path()) } else { std::fs::write(t.join(e.file_name()), std::fs::read(e.path()).expect("scratch")).expect("scratch"); } }
            }
        };
        let failures = || mcrt::io::with_io(|i| i.faults.clone());
        std::fs::create_dir_all(root().join("1")).expect("scratch");
        let m = mk_at(&root().join("1"));
        let mut r = Ret::default();
        let put = |m: &PubSubManager, r: &mut Ret, t: &str, v: &[u8]| { m.publish(t, Bytes::from(v.to_vec()), true, Some(600)); r.set(t, v, Some(600), ms()); };
        for t in ["k", "a/b", "/x"] { put(&m, &mut r, t, b"0"); }
        sleep_ms(FLUSH * 2 + 10).await;
        quiesce().await;
        leave_to("1", "2");
        mcrt::io::set_fault_kinds(true, true);
        mcrt::io::set_faults(true);
        let m = mk_at(&root().join("2"));
        quiesce().await;
        let long = choose(2, "long") == 1;
        if long { sleep_ms(FLUSH + 50).await; quiesce().await; }
        mcrt::io::set_fault_kinds(false, false);
        mcrt::io::set_faults(false);
        let when = format!("started with the failures {:?}", failures());
        if failures().is_empty() { check_retained(&m, &r, &["#"], 1001, "started")?; }
        let op = choose(5, "op");
        match op { 1 => put(&m, &mut r, "k", b"1"), 2 => put(&m, &mut r, "k", b""), 3 => put(&m, &mut r, "/x", b""), 4 => put(&m, &mut r, "new", b"2"), _ => {} }
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        check_retained(&m, &r, &["#"], 1001, &when)?;
        leave_to("2", "3");
        let m = mk_at(&root().join("3"));
        check_retained(&m, &r, &["#"], 1001, &format!("{}, then started again", when))?;
        note_state(&(op, long, failures().len()));
        Ok(())
    }, |_, _| vec![])
}

fn retained_ttl(ctx: &Ctx) -> Report {
    ctx.run2(Plan::default().log(), move || async move {
        let m = mk();
        quiesce().await;
        let ttls = [Some(u64::MAX), Some(i64::MAX as u64), Some(i64::MAX as u64 + 1), Some(u64::MAX - 1_800_000_000), Some(1_000_000_000_000), Some(1), Some(2), None];
        let t = ttls[choose(ttls.len(), "ttl")];
        let wait = [0u64, 600, 1999][choose(3, "wait")];
        let mut r = Ret::default();
        m.publish("a", Bytes::from("1"), true, t);
        r.set("a", b"1", t, ms());
        m.publish("b", Bytes::from("2"), true, Some(600));
        r.set("b", b"2", Some(600), ms());
        check_retained(&m, &r, &["#"], 0, "at once")?;
        sleep_ms(FLUSH + 100).await;
        sleep_ms(wait).await;
        quiesce().await;
        check_retained(&m, &r, &["#"], 0, &format!("ttl {:?}", t))?;
        note_state(&(t, wait));
        Ok(r)
    }, |e, r| {
        for later in [0, 1500, 5000, 100_000] {
            let v = recover_and_check(e, e.out.io.log.len(), None, vec![r.clone()], later, &format!("restart {} ms later", later));
            if !v.is_empty() { return v; }
        }
        vec![]
    })
}

/// A subscriber arriving while retained values are being published.
fn retained_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(3, 4);
    ctx.run_checked(Plan::default().budget(b).no_time(), move || async move {
        let m = mk_mem();
        quiesce().await;
        let pre = choose(2, "pre") == 1;
        if pre { m.publish("a/b", Bytes::from(vec![0u8]), true, Some(60)); }
        let pat = ["a/b", "a/+", "#"][choose(3, "pat")];
        let clear = choose(2, "clear") == 1;
        let second = choose(3, "second");
        let mut s = Cl::new(&m, "s");
        let mut p = par();
        set_explore(true);
        let m1 = m.clone();
        p.go(async move {
            m1.publish("a/b", Bytes::from(vec![1u8]), true, Some(60));
            sched_point("op");
            m1.publish("a/b", if clear { Bytes::new() } else { Bytes::from(vec![2u8]) }, true, Some(60));
            Ok(())
        });
        let (m2, id) = (m.clone(), s.id.clone());
        p.go(async move { m2.subscribe(&id, pat); Ok(()) });
        let m3 = m.clone();
        p.go(async move {
            match second {
                0 => {}
                1 => { m3.publish("a/c", Bytes::from(vec![9u8]), true, Some(60)); }
                _ => { let c = Cl::new(&m3, "x"); m3.subscribe(&c.id, "a/b"); m3.disconnect(&c.id); }
            }
            Ok(())
        });
        p.join(60_000, "publish and subscribe").await?;
        set_explore(false);
        let got: Vec<Vec<u8>> = s.drain().into_iter().filter(|g| g.0 == "a/b").map(|g| g.1).collect();
        let fin: Vec<u8> = if clear { vec![] } else { vec![2] };
        let full: Vec<Vec<u8>> = if pre { vec![vec![0], vec![1], fin.clone()] } else { vec![vec![1], fin.clone()] };
        // what is seen is the end of the sequence of values, each once
        let suffix = (0..=full.len()).any(|i| full[i..] == got[..]);
        ensure!(suffix, "retained-race", "values published {:?}, a subscriber joining meanwhile saw {:?}", full, got);
        ensure!(clear || !got.is_empty(), "retained-missed", "a subscriber saw no value although one is retained");
        let now = probe(&m, "a/b");
        let want: Vec<Msg> = if clear { vec![] } else { vec![("a/b".into(), vec![2])] };
        ensure!(now == want, "retained", "retained value afterwards is {:?}, expected {:?}", now, want);
        note_state(&(got, pat, second));
        Ok(())
    })
}

/// Expiry cleanup and flushing racing with publications.
fn retained_cleanup_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let m = mk();
        quiesce().await;
        m.publish("a/b", Bytes::from("old"), true, Some(1));
        m.publish("a/c", Bytes::from("keep"), true, Some(600));
        sleep_ms([1999u64, 1499][choose(2, "when")]).await;
        let op = choose(3, "op");
        let mut p = par();
        set_explore(true);
        let m1 = m.clone();
        p.go(async move {
            match op {
                0 => { m1.publish("a/b", Bytes::from("new"), true, Some(600)); }
                1 => { m1.publish("a/c", Bytes::new(), true, None); }
                _ => { m1.publish("a/b/c", Bytes::from("new"), true, Some(600)); }
            }
            Ok(())
        });
        p.go(async move { sleep_ms(2).await; Ok(()) });
        p.join(60_000, "publish").await?;
        sleep_ms(5).await;
        set_explore(false);
        sleep_ms(FLUSH * 3).await;
        let mut r = Ret::default();
        match op { 0 => { r.set("a/b", b"new", Some(600), 0); r.set("a/c", b"keep", Some(600), 0); } 1 => {} _ => { r.set("a/b/c", b"new", Some(600), 0); r.set("a/c", b"keep", Some(600), 0); } }
        check_retained(&m, &r, &["#", "a/b"], 1000, "after cleanup")?;
        note_state(&(op, ms()));
        Ok(r)
    }, |e, r| {
        recover_and_check(e, e.out.io.log.len(), None, vec![r.clone()], 0, "restart")
    })
}

/// Values that change while they are being stored: the next period stores the change.
fn flush_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(2, 3);
    ctx.run2(Plan::default().log().budget(b), move || async move {
        let m = mk();
        quiesce().await;
        m.publish("a", Bytes::from("old"), true, Some(600));
        m.publish("a/b", Bytes::from("keep"), true, None);
        let stored = choose(2, "stored") == 1;
        if stored { sleep_ms(FLUSH * 2).await; m.publish("c", Bytes::from("c"), true, Some(600)); }
        sleep_ms(FLUSH - 1 - ms() % FLUSH).await;
        let op = choose(4, "op");
        let mut r = Ret::default();
        r.set("a", b"old", Some(600), 0);
        r.set("a/b", b"keep", None, 0);
        if stored { r.set("c", b"c", Some(600), 0); }
        match op { 0 => r.set("a", b"new", Some(600), 0), 1 => r.set("a/b", b"", None, 0), 2 => r.set("d", b"new", Some(600), 0), _ => { r.set("a", b"", None, 0); r.set("a/b", b"new", Some(600), 0) } }
        let mut p = par();
        set_explore(true);
        let m1 = m.clone();
        p.go(async move {
            sleep_ms(1).await;
            match op {
                0 => { m1.publish("a", Bytes::from("new"), true, Some(600)); }
                1 => { m1.publish("a/b", Bytes::new(), true, None); }
                2 => { m1.publish("d", Bytes::from("new"), true, Some(600)); }
                _ => { m1.publish("a", Bytes::new(), true, None); sched_point("op"); m1.publish("a/b", Bytes::from("new"), true, Some(600)); }
            }
            Ok(())
        });
        p.join(60_000, "publish").await?;
        sleep_ms(3).await;
        quiesce().await;
        set_explore(false);
        sleep_ms(FLUSH * 3).await;
        quiesce().await;
        check_retained(&m, &r, &["#", "a"], 2000, "after a publication during a flush")?;
        note_state(&(op, stored));
        Ok(r)
    }, |e, r| {
        recover_and_check(e, e.out.io.log.len(), None, vec![r.clone()], 2000, "restart after a publication during a flush")
    })
}

fn main() {
    main_with("h_pubsub", vec![
        Prop { id: "P01", assumptions: vec!["patterns of up to 3 (thorough 4) segments over two names and wildcards; # only as last segment"], scenarios: vec![
            scn("routing_matrix", "every pair of patterns against every topic, before and after unsubscribing", routing_matrix),
            scn("routing_histories", "all short histories of two clients subscribing, leaving and returning, probed after every step", routing_histories),
            scn("concurrent_publish", "interleavings of two publishers with a client joining, leaving or dying", concurrent_publish),
        ]},
        Prop { id: "P02", assumptions: vec!["three clients, patterns of up to three segments"], scenarios: vec![
            scn("residue_histories", "all short histories; the listing is compared with a reference after every step", residue_histories),
            scn("prune_matrix", "every pattern left next to every other subscription or retained value", prune_matrix),
            scn("concurrent_lifecycle", "interleavings of three operations on one client's subscriptions", concurrent_lifecycle),
        ]},
        Prop { id: "P03", assumptions: vec!["up to four topics; virtual clock with millisecond steps"], scenarios: vec![
            scn("retained_histories", "all short histories of retained publications, clears, lifetimes and time", retained_histories),
            scn("prune_matrix", "every pattern left next to every retained value", prune_matrix),
            scn("retained_race", "a subscriber joining while retained values change", retained_race),
            scn("retained_cleanup_race", "publications racing with expiry cleanup and flushing", retained_cleanup_race),
        ]},
        Prop { id: "P04", assumptions: vec!["storage operations reach the disk in order; the last one may be torn", "expiry is stored with one-second resolution (deadlines are compared with 1 s tolerance after a restart)"], scenarios: vec![
            scn("retained_crash", "every crash point (and torn last write) of every short history", retained_crash),
            scn("retained_names", "topic names of every shape across a restart", retained_names),
            scn("retained_ttl", "lifetimes of every magnitude across restarts at several later times", retained_ttl),
            scn("flush_race", "values changing while they are being stored, then a restart", flush_race),
            scn("retained_faults", "every storage operation of a flush failing once", retained_faults),
            scn("startup_faults", "each storage operation failing while the server starts, then use and a restart", startup_faults),
        ]},
    ]);
}
