//! Exhaustive enumeration of choice sequences by re-execution.
use crate::io::IoState;
use crate::sys::real_now_ns;
use crate::task::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable identification of what fails (matched against known findings)
    pub sig: String,
    pub msg: String,
}
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { sig: sig.into(), msg: msg.into() })
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub name: String,
    pub cfg: Cfg,
    pub threads: usize,
    pub max_execs: u64,
    pub wall_s: f64,
    pub scratch: PathBuf,
    pub log_io: bool,
    pub max_violations: usize,
    /// panics of the code under test are violations
    pub panics: bool,
    pub start_ns: u64,
    pub disk: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub execs: u64,
    pub points: u64,
    pub steps: u64,
    pub switches: u64,
    pub sub_execs: u64,
    pub by_cost: Vec<u64>,
    pub max_points: usize,
    pub truncated: bool,
    /// every execution with at most this many deviations was run
    pub completed_cost: i64,
    pub rechecked: u64,
    pub outcomes: u64,
    pub states: u64,
    pub wall_s: f64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.execs += o.execs;
        self.points += o.points;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sub_execs += o.sub_execs;
        self.rechecked += o.rechecked;
        self.outcomes += o.outcomes;
        self.states += o.states;
        self.truncated |= o.truncated;
        self.max_points = self.max_points.max(o.max_points);
        self.wall_s += o.wall_s;
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub sig: String,
    pub msg: String,
    pub prefix: Vec<(u32, u32)>,
    pub events: Vec<String>,
    pub cost: u32,
}

#[derive(Default, Debug)]
pub struct Report {
    pub stats: Stats,
    pub found: Vec<Found>,
    pub error: Option<String>,
}

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

/// What one execution left behind, handed to the post-execution oracle.
pub struct Exec<'a, T> {
    pub out: &'a Outcome<T>,
    pub root: &'a Path,
    pub scratch: &'a Path,
    pub sub_execs: &'a Cell<u64>,
}

impl<T> Exec<'_, T> {
    /// Run another simulated process (e.g. recovery after a crash) on `root`.
    pub fn sub<U: Send + 'static>(&self, root: &Path, start_ns: u64, body: impl FnOnce() -> BoxFut<U> + Send + 'static) -> Outcome<U> {
        self.sub_execs.set(self.sub_execs.get() + 1);
        // a restarted process draws other random numbers
        run_once(Cfg { seed: 0xB007 ^ start_ns, ..Cfg::default() }, vec![], start_ns, root, false, body)
    }
    pub fn fresh_dir(&self, name: &str) -> PathBuf {
        let d = self.scratch.join(name);
        clear_dir(&d);
        d
    }
}

pub fn clear_dir(d: &Path) {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).expect("scratch");
}

struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}

thread_local! {
    static IN_EXEC: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<panic>".into());
        if IN_EXEC.with(|c| c.get()) {
            crate::task::LAST_PANIC.with(|l| l.set(Some((msg, loc))));
        } else {
            eprintln!("MACHINERY PANIC at {}: {}", loc, msg);
        }
    }));
}

/// Room for the handler that reports a crash (a stack overflow, say).
struct AltStack(usize, libc::stack_t);
static ALT: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());
const ALT_SIZE: usize = 512 << 10;
impl AltStack {
    fn install() -> AltStack {
        let p = ALT.lock().unwrap().pop().unwrap_or_else(|| Box::leak(vec![0u8; ALT_SIZE].into_boxed_slice()).as_mut_ptr() as usize);
        unsafe {
            let mut old: libc::stack_t = std::mem::zeroed();
            let new = libc::stack_t { ss_sp: p as *mut libc::c_void, ss_flags: 0, ss_size: ALT_SIZE };
            libc::sigaltstack(&new, &mut old);
            AltStack(p, old)
        }
    }
}
impl Drop for AltStack {
    fn drop(&mut self) {
        unsafe { libc::sigaltstack(&self.1, std::ptr::null_mut()); }
        ALT.lock().unwrap().push(self.0);
    }
}

/// One execution on a fresh OS thread.
pub fn run_once<T: Send + 'static>(cfg: Cfg, prefix: Vec<(u32, u32)>, start_ns: u64, root: &Path, log_io: bool, body: impl FnOnce() -> BoxFut<T> + Send + 'static) -> Outcome<T> {
    let root = root.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            crate::sys::seed_thread(cfg.seed);
            IN_EXEC.with(|c| c.set(true));
            let mut io = IoState::new(&root);
            io.log_on = log_io;
            let alt = AltStack::install();
            let o = run_here(RunArgs { cfg, prefix, start_ns, seed: 1, io }, body);
            drop(alt);
            IN_EXEC.with(|c| c.set(false));
            SendBox(o)
        })
        .expect("spawn");
    match h.join() {
        Ok(o) => o.0,
        Err(_) => {
            eprintln!("MACHINERY ERROR: execution thread panicked");
            std::process::exit(3);
        }
    }
}

#[derive(Clone)]
struct Item {
    base: Arc<Vec<(u32, u32)>>,
    at: usize,
    v: u32,
    n: u32,
}
impl Item {
    fn prefix(&self) -> Vec<(u32, u32)> {
        if self.n == 0 {
            return vec![];
        }
        let mut p = self.base[..self.at].to_vec();
        p.push((self.n, self.v));
        p
    }
}

struct Shared {
    buckets: Vec<Vec<Item>>,
    active: usize,
    active_cost: Vec<usize>,
    stop: bool,
}

pub static CURRENT: Mutex<Option<HashMap<usize, (String, Vec<(u32, u32)>, u64)>>> = Mutex::new(None);
thread_local! { pub static WORKER: Cell<usize> = const { Cell::new(usize::MAX) }; }
pub static HANG_S: AtomicU64 = AtomicU64::new(90);

fn set_current(w: usize, v: Option<(String, Vec<(u32, u32)>, u64)>) {
    let mut g = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    match v {
        Some(v) => { m.insert(w, v); }
        None => { m.remove(&w); }
    }
}

fn fingerprint<T>(o: &Outcome<T>) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    for c in &o.trace { (c.n, c.v).hash(&mut h); }
    o.steps.hash(&mut h);
    o.now_ns.hash(&mut h);
    o.panics.len().hash(&mut h);
    o.io.mutations.hash(&mut h);
    h.finish()
}

/// SQLite puts process-global random salts into its journals: contents of its
/// writes may differ between runs, nothing else may.
fn same_shape(a: &[crate::io::IoOp], b: &[crate::io::IoOp]) -> bool {
    use crate::io::IoOp::Write;
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Write { path: p, off: o, data: d }, Write { path: q, off: r, data: e }) => p == q && o == r && d.len() == e.len() && (d == e || p.contains(".db")),
        _ => x == y,
    })
}


pub fn judge<T>(o: &Outcome<T>, panics: bool, own: Vec<Violation>) -> Result<Vec<Violation>, String> {
    if let Some(d) = &o.diverged { return Err(format!("replay diverged: {}", d)); }
    let mut v = Vec::new();
    for p in &o.panics {
        if p.loc.contains("mcrt/src") && !p.teardown { return Err(format!("panic in the explorer at {}: {}", p.loc, p.msg)); }
        // the oracle was handed something it has no place for: the executions of
        // code that keeps the property never do that
        if p.loc.contains("harness/src") && !p.teardown {
            v.push(Violation { sig: "unforeseen".into(), msg: format!("the oracle cannot make sense of this execution ({}: {})", p.loc, p.msg) });
            continue;
        }
        if panics && !p.teardown {
            let file = p.loc.rsplit('/').next().unwrap_or("?").split(':').next().unwrap_or("?").to_string();
            v.push(Violation { sig: format!("panic:{}:{}", file, p.msg.chars().take(60).collect::<String>()), msg: format!("the code panicked at {} in task {}: {}", p.loc, p.task, p.msg) });
        }
    }
    match o.stop {
        Stop::Deadlock => v.push(Violation { sig: "deadlock".into(), msg: format!("deadlock: nothing can run any more; tasks stuck on a lock: {:?}", o.blocked) }),
        Stop::StepLimit => v.push(Violation { sig: "livelock".into(), msg: "execution does not terminate (step limit)".into() }),
        Stop::MainDone => {}
    }
    v.extend(own);
    Ok(v)
}

pub fn explore<T, B, P>(o: &Opts, body: B, post: P) -> Report
where
    T: Send + 'static,
    B: Fn() -> BoxFut<T> + Send + Sync + Clone + 'static,
    P: Fn(&Exec<'_, T>) -> Vec<Violation> + Send + Sync,
{
    let t0 = real_now_ns();
    let root_item = Item { base: Arc::new(vec![]), at: 0, v: 0, n: 0 };
    let nb = o.cfg.budget as usize + 1;
    let mut buckets = vec![Vec::new(); nb];
    buckets[0].push(root_item);
    let sh = Arc::new((Mutex::new(Shared { buckets, active: 0, active_cost: vec![0; nb], stop: false }), Condvar::new()));
    let stats = Mutex::new(Stats { by_cost: vec![0; nb], completed_cost: -1, ..Default::default() });
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let trunc = AtomicBool::new(false);
    let nexec = AtomicU64::new(0);
    let outcomes: Mutex<std::collections::HashSet<u64>> = Default::default();
    let states: Mutex<std::collections::HashSet<u64>> = Default::default();
    std::thread::scope(|s| {
        for wk in 0..o.threads {
            let sh = sh.clone();
            let body = body.clone();
            let (post, stats, found, error, trunc, nexec, outcomes, states) = (&post, &stats, &found, &error, &trunc, &nexec, &outcomes, &states);
            s.spawn(move || {
                WORKER.with(|w| w.set(wk));
                // a descriptor table of its own: workers do not slow each other down
                unsafe { libc::unshare(libc::CLONE_FILES); }
                let scratch = o.scratch.join(format!("w{}", wk));
                let root = scratch.join("d");
                std::fs::create_dir_all(&scratch).expect("scratch");
                std::fs::create_dir_all(&root).expect("scratch");
                loop {
                    let (item, cost) = {
                        let mut g = sh.0.lock().unwrap();
                        loop {
                            if g.stop { return; }
                            if let Some(c) = (0..nb).find(|&c| !g.buckets[c].is_empty()) {
                                let it = g.buckets[c].pop().unwrap();
                                g.active += 1;
                                g.active_cost[c] += 1;
                                break (it, c);
                            }
                            if g.active == 0 { g.stop = true; sh.1.notify_all(); return; }
                            g = sh.1.wait(g).unwrap();
                        }
                    };
                    let n = nexec.fetch_add(1, Ordering::Relaxed);
                    let over = n >= o.max_execs || (real_now_ns() - t0) as f64 / 1e9 > o.wall_s;
                    if over {
                        trunc.store(true, Ordering::Relaxed);
                        let mut g = sh.0.lock().unwrap();
                        g.stop = true;
                        g.buckets[cost].push(item);
                        sh.1.notify_all();
                        return;
                    }
                    let prefix = item.prefix();
                    let plen = prefix.len();
                    set_current(wk, Some((o.name.clone(), prefix.clone(), real_now_ns())));
                    if o.disk { clear_dir(&root); }
                    let b = body.clone();
                    let out = run_once(o.cfg.clone(), prefix.clone(), o.start_ns, &root, o.log_io, move || b());
                    let sub = Cell::new(0u64);
                    let own = { let ex = Exec { out: &out, root: &root, scratch: &scratch, sub_execs: &sub }; post(&ex) };
                    match judge(&out, o.panics, own) {
                        Err(e) => {
                            let mut g = error.lock().unwrap();
                            if g.is_none() { *g = Some(format!("{}: {} (prefix {:?})", o.name, e, prefix)); }
                            let mut g = sh.0.lock().unwrap();
                            g.stop = true;
                            sh.1.notify_all();
                            set_current(wk, None);
                            return;
                        }
                        Ok(vs) => {
                            if !vs.is_empty() {
                                let mut f = found.lock().unwrap();
                                for v in vs {
                                    let pre: Vec<(u32, u32)> = out.trace.iter().map(|c| (c.n, c.v)).collect();
                                    if let Some(e) = f.iter_mut().find(|x| x.sig == v.sig) {
                                        if (cost as u32, pre.len()) < (e.cost, e.prefix.len()) { *e = Found { sig: v.sig, msg: v.msg, prefix: pre, events: vec![], cost: cost as u32 }; }
                                    } else {
                                        f.push(Found { sig: v.sig, msg: v.msg, prefix: pre, events: vec![], cost: cost as u32 });
                                    }
                                }
                                if f.len() >= o.max_violations { trunc.store(true, Ordering::Relaxed); let mut g = sh.0.lock().unwrap(); g.stop = true; sh.1.notify_all(); }
                            }
                        }
                    }
                    // replay determinism, re-checked regularly
                    let mut rechecked = 0;
                    if n < 3 || n % 997 == 0 {
                        if o.disk { clear_dir(&root); }
                        let b = body.clone();
                        let again = run_once(o.cfg.clone(), prefix.clone(), o.start_ns, &root, o.log_io, move || b());
                        rechecked = 1;
                        if fingerprint(&again) != fingerprint(&out) || !same_shape(&again.io.log, &out.io.log) {
                            let mut g = error.lock().unwrap();
                            if g.is_none() { *g = Some(format!("{}: execution is not reproducible (prefix {:?}) steps {} vs {} points {} vs {}", o.name, prefix, out.steps, again.steps, out.trace.len(), again.trace.len())); }
                            let mut g = sh.0.lock().unwrap();
                            g.stop = true;
                            sh.1.notify_all();
                            set_current(wk, None);
                            return;
                        }
                    }
                    set_current(wk, None);
                    outcomes.lock().unwrap().insert(fingerprint(&out));
                    states.lock().unwrap().extend(out.states.iter().copied());
                    // successors
                    let full: Arc<Vec<(u32, u32)>> = Arc::new(out.trace.iter().map(|c| (c.n, c.v)).collect());
                    let mut spent: u32 = 0;
                    let mut new: Vec<(usize, Item)> = Vec::new();
                    for (i, c) in out.trace.iter().enumerate() {
                        if i >= plen {
                            let nc = spent + c.cost;
                            if nc as usize >= nb { continue; }
                            for v in 1..c.n { new.push((nc as usize, Item { base: full.clone(), at: i, v, n: c.n })); }
                        } else if c.v != 0 { spent += c.cost; }
                    }
                    {
                        let mut st = stats.lock().unwrap();
                        st.execs += 1;
                        st.by_cost[cost] += 1;
                        st.points += out.trace.len() as u64;
                        st.steps += out.steps;
                        st.switches += out.switches;
                        st.sub_execs += sub.get();
                        st.rechecked += rechecked;
                        st.max_points = st.max_points.max(out.trace.len());
                    }
                    let mut g = sh.0.lock().unwrap();
                    for (c, it) in new { g.buckets[c].push(it); }
                    g.active -= 1;
                    g.active_cost[cost] -= 1;
                    sh.1.notify_all();
                }
            });
        }
    });
    let mut st = stats.into_inner().unwrap();
    let g = sh.0.lock().unwrap();
    let first_open = (0..nb).find(|&c| !g.buckets[c].is_empty()).unwrap_or(nb);
    st.completed_cost = first_open as i64 - 1;
    st.truncated = trunc.load(Ordering::Relaxed);
    st.states = states.lock().unwrap().len() as u64;
    st.outcomes = outcomes.lock().unwrap().len() as u64;
    st.wall_s = (real_now_ns() - t0) as f64 / 1e9;
    let mut found = found.into_inner().unwrap();
    found.sort_by(|a, b| (a.cost, a.prefix.len(), &a.sig).cmp(&(b.cost, b.prefix.len(), &b.sig)));
    // narrate what was found
    for f in found.iter_mut().take(8) {
        let mut cfg = o.cfg.clone();
        cfg.tracing = true;
        let scratch = o.scratch.join("trace");
        let root = scratch.join("d");
        clear_dir(&root);
        let b = body.clone();
        let out = run_once(cfg, f.prefix.clone(), o.start_ns, &root, o.log_io, move || b());
        f.events = out.events;
    }
    Report { stats: st, found, error: error.into_inner().unwrap() }
}
