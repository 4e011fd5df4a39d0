//! Key/value store checks.
use bytes::Bytes;
use harness::*;
use nexo::brokers::store::config::StoreConfig;
use nexo::brokers::store::StoreManager;
use std::collections::BTreeMap;
use std::sync::Arc;

const CLEAN: u64 = 2;
const DEFTTL: u64 = 3;

fn mk() -> StoreManager {
    let mut c = StoreConfig::default();
    c.cleanup_interval_secs = CLEAN;
    c.default_ttl_secs = DEFTTL;
    StoreManager::new(Arc::new(c))
}

/// reference: value and the virtual instant (ms) after which it is gone
#[derive(Clone, Default, Hash, PartialEq, Eq, Debug)]
struct Model { m: BTreeMap<&'static str, (&'static str, u64)> }
impl Model {
    fn set(&mut self, k: &'static str, v: &'static str, ttl: Option<u64>, now: u64) {
        let secs = match ttl { None | Some(0) => DEFTTL, Some(s) => s };
        self.m.insert(k, (v, now.saturating_add(secs.saturating_mul(1000))));
    }
    /// Some(Some) must be there, Some(None) must be absent, None either (boundary instant)
    fn get(&self, k: &str, now: u64) -> Option<Option<&'static str>> {
        match self.m.get(k) {
            None => Some(None),
            Some((v, e)) => if now < *e { Some(Some(v)) } else if now > *e { Some(None) } else { None },
        }
    }
}
fn ms() -> u64 { now_ns() / 1_000_000 }

fn observe(s: &StoreManager, m: &Model, keys: &[&'static str], when: &str) -> R<()> {
    for k in keys {
        let got = s.map.get(k).map(|b| String::from_utf8_lossy(&b).to_string());
        if let Some(want) = m.get(k, ms()) {
            ensure!(got.as_deref() == want, "wrong-value", "{}: get({}) = {:?}, expected {:?} (t={} ms)", when, k, got, want, ms());
        }
    }
    Ok(())
}

fn histories(ctx: &Ctx) -> Report {
    let depth = ctx.pick(5, 6);
    ctx.run_checked(Plan::default(), move || async move {
        let s = mk();
        let mut m = Model::default();
        quiesce().await;
        for i in 0..depth {
            let op = choose(9, "op");
            let d = format!("step {} op {}", i, op);
            log_event(d.clone());
            match op {
                0 => { s.map.set("a".into(), Bytes::from("1"), None); m.set("a", "1", None, ms()); }
                1 => { s.map.set("a".into(), Bytes::from("2"), Some(1)); m.set("a", "2", Some(1), ms()); }
                2 => { s.map.set("a".into(), Bytes::from("3"), Some(4)); m.set("a", "3", Some(4), ms()); }
                3 => { s.map.set("b".into(), Bytes::from("4"), Some(0)); m.set("b", "4", Some(0), ms()); }
                4 => {
                    let had = m.get("a", ms());
                    let r = s.map.del("a");
                    if had == Some(Some("1")) || had == Some(Some("2")) || had == Some(Some("3")) { ensure!(r, "del-result", "{}: delete of a live key reported nothing deleted", d); }
                    m.m.remove("a");
                }
                5 => { s.map.del("b"); m.m.remove("b"); }
                6 => sleep_ms(500).await,
                7 => sleep_ms(1001).await,
                _ => sleep_ms(2600).await,
            }
            quiesce().await;
            observe(&s, &m, &["a", "b", "c"], &d)?;
            note_state(&(&m, ms()));
        }
        // nothing expired may outlive the next cleanup round
        sleep_ms((DEFTTL + 2 + CLEAN) * 1000 + 1000).await;
        quiesce().await;
        ensure!(s.map.len() == 0, "expired-kept", "{} expired entries still held after a full cleanup period", s.map.len());
        observe(&s, &m, &["a", "b"], "end")
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Set(u8, Option<u64>), Get, Del }
type St = Option<u8>;
fn step(s: &St, o: &Op) -> Vec<(Option<Option<u8>>, St)> {
    match o {
        Op::Set(v, _) => vec![(None, Some(*v))],
        Op::Get => vec![(Some(*s), *s)],
        Op::Del => vec![(None, None)],
    }
}
fn menu(i: usize) -> Op { [Op::Set(10, None), Op::Set(11, Some(1)), Op::Get, Op::Del, Op::Set(12, Some(4))][i] }

fn concurrent(ctx: &Ctx) -> Report {
    let n = 3;
    let b = ctx.pick(2, 4);
    ctx.run_checked(Plan::default().budget(b), move || async move {
        let s = Arc::new(mk());
        quiesce().await;
        // initial content: none / live / expired but not yet cleaned
        let init = choose(3, "init");
        let s0: St = match init {
            0 => None,
            1 => { s.map.set("k".into(), Bytes::from(vec![1u8]), None); Some(1) }
            _ => { s.map.set("k".into(), Bytes::from(vec![1u8]), Some(1)); sleep_ms(1500).await; None }
        };
        let ops: Vec<Op> = (0..n).map(|_| menu(choose(5, "op"))).collect();
        let two = choose(2, "shape"); // one op each, or a client doing two in a row
        let h = History::<Op, Option<Option<u8>>>::new();
        let mut p = par();
        let groups: Vec<Vec<Op>> = if two == 0 { ops.iter().map(|o| vec![*o]).collect() } else { vec![vec![ops[0], ops[1]], vec![ops[2], Op::Get]] };
        set_explore(true);
        for g in groups {
            let (s, h) = (s.clone(), h.clone());
            p.go(async move {
                for o in g {
                    let i = h.begin(o);
                    let r = match o {
                        Op::Set(v, ttl) => { s.map.set("k".into(), Bytes::from(vec![v]), ttl); None }
                        Op::Get => Some(s.map.get("k").map(|b| b[0])),
                        Op::Del => { s.map.del("k"); None }
                    };
                    h.end(i, r);
                    sched_point("op");
                }
                Ok(())
            });
        }
        p.join(60_000, "store operations").await?;
        set_explore(false);
        let i = h.begin(Op::Get);
        let fin = s.map.get("k").map(|b| b[0]);
        h.end(i, Some(fin));
        note_state(&(init, fin, two));
        let ops = h.with(|h| h.ops.clone());
        // time may have been moved past the short lifetimes by the exploration; those runs only
        // constrain what cannot have expired
        if ms() < 900 || (init == 2 && ms() < 2400) {
            ensure!(linearizable(&ops, &s0, &step, &|_| true), "not-linearizable", "no sequential order explains {:?} (start {:?})", ops, s0);
        }
        Ok(())
    })
}

/// A write racing with expiry, with lazy removal and with the cleanup round.
fn expiry_race(ctx: &Ctx) -> Report {
    let b = ctx.pick(3, 4);
    ctx.run_checked(Plan::default().budget(b), move || async move {
        let s = Arc::new(mk());
        quiesce().await;
        s.map.set("k".into(), Bytes::from("old"), Some(1));
        s.map.set("z".into(), Bytes::from("keep"), Some(60));
        // just before the cleanup round at 2 s / at it / expired and idle
        sleep_ms([1999, 2000, 1001][choose(3, "when")]).await;
        let other = choose(4, "other");
        let mut p = par();
        set_explore(true);
        let (s1, s2) = (s.clone(), s.clone());
        p.go(async move { s1.map.set("k".into(), Bytes::from("new"), Some(60)); Ok(()) });
        p.go(async move {
            match other {
                0 => { let v = s2.map.get("k"); ensure!(v.as_deref() != Some(b"old"), "stale-read", "an expired value was returned"); }
                1 => { s2.scan(10, 0, None); }
                2 => { s2.map.set("y".into(), Bytes::from("y"), Some(60)); }
                _ => sleep_ms(1).await,
            }
            Ok(())
        });
        p.join(60_000, "store operations").await?;
        sleep_ms(2001).await;
        set_explore(false);
        ensure!(s.map.get("k").as_deref() == Some(b"new"), "lost-write", "a value written with a 60 s lifetime is gone after {} ms", ms());
        ensure!(s.map.get("z").as_deref() == Some(b"keep"), "lost-write", "an unrelated live key vanished");
        note_state(&(other, ms()));
        Ok(())
    })
}

fn ttl_exact(ctx: &Ctx) -> Report {
    let depth = ctx.pick(3, 4);
    ctx.run_checked(Plan::default(), move || async move {
        let s = mk();
        let mut m = Model::default();
        quiesce().await;
        for i in 0..depth {
            let ttls = [None, Some(0), Some(1), Some(2), Some(5), Some(1_000_000_000), Some(u64::MAX), Some(u64::MAX / 2), Some(i64::MAX as u64)];
            let t = ttls[choose(ttls.len(), "ttl")];
            let v = ["x", "y", "z", "w"][i];
            s.map.set("a".into(), Bytes::from(v), t);
            m.set("a", v, t, ms());
            observe(&s, &m, &["a"], "after set")?;
            let wait = [1u64, 998, 999, 1000, 1001, 1999, 2001, 2999, 3001, 4999, 5001, 9000];
            let w = wait[choose(wait.len(), "wait")];
            sleep_ms(w).await;
            quiesce().await;
            observe(&s, &m, &["a"], &format!("ttl {:?} after {} ms", t, w))?;
            note_state(&(&m, ms()));
        }
        Ok(())
    })
}

fn main() {
    main_with("h_store", vec![
        Prop { id: "S01", assumptions: vec!["two keys, values of one byte; up to 3 concurrent clients"], scenarios: vec![
            scn("histories", "all operation sequences (set with and without lifetime, delete, time) against a reference map", histories),
            scn("concurrent", "all interleavings of three concurrent operations on one key, checked for linearizability", concurrent),
            scn("expiry_race", "a write racing with expiry, lazy removal, listing and the cleanup round", expiry_race),
        ]},
        Prop { id: "S02", assumptions: vec!["virtual clock with millisecond steps"], scenarios: vec![
            scn("ttl_exact", "lifetimes of every magnitude, overwrites, observation just before/at/after the deadline", ttl_exact),
            scn("histories", "all operation sequences against a reference map with lifetimes", histories),
            scn("expiry_race", "a write racing with expiry and the cleanup round", expiry_race),
        ]},
    ]);
}
