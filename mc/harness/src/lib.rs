//! Shared part of the checks: scenario registry, exploration driver, evidence,
//! known findings, containment of the process itself.
pub use mcrt::{choose, note_state, explore, log_event, now_ns, quiesce, sched_point, set_explore, viol, yield_now, BoxFut, Cfg, Exec, Found, Outcome, Report, Stats, Stop, Violation};
use std::collections::BTreeMap;
use std::future::Future;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub type R<T> = Result<T, Violation>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($t:tt)*) => { if !$c { return Err($crate::Violation { sig: ($sig).to_string(), msg: format!($($t)*) }); } };
}

// ---------------------------------------------------------------- allocator
pub struct CapAlloc;
const ALLOC_CAP: usize = 1 << 30;
unsafe fn counted(p: *mut u8, n: usize) -> *mut u8 {
    if mcrt::heap::on() && !p.is_null() { mcrt::heap::note_alloc(p as usize, n); }
    p
}
unsafe impl std::alloc::GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_CAP { return std::ptr::null_mut(); }
        counted(std::alloc::System.alloc(l), l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if mcrt::heap::active() { mcrt::heap::note_free(p as usize); }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_CAP { return std::ptr::null_mut(); }
        counted(std::alloc::System.alloc_zeroed(l), l.size())
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > ALLOC_CAP { return std::ptr::null_mut(); }
        let q = std::alloc::System.realloc(p, l, n);
        if !q.is_null() {
            if mcrt::heap::active() { mcrt::heap::note_free(p as usize); }
            counted(q, n);
        }
        q
    }
}
#[global_allocator]
static A: CapAlloc = CapAlloc;

// ---------------------------------------------------------------- context
pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub deadline: f64,
    pub replay: Option<Vec<(u32, u32)>>,
    pub threads: usize,
    pub scenario: std::cell::RefCell<String>,
    pub notes: std::cell::RefCell<Vec<String>>,
}

fn now_s() -> f64 { mcrt::sys::real_now_ns() as f64 / 1e9 }

#[derive(Clone)]
pub struct Plan {
    pub budget: u32,
    pub preempt: bool,
    pub time_preempt: bool,
    pub disk: bool,
    pub log_io: bool,
    pub max_execs: u64,
    pub wall_s: f64,
    pub panics: bool,
    pub max_steps: u64,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { budget: 0, preempt: true, time_preempt: true, disk: false, log_io: false, max_execs: u64::MAX, wall_s: f64::MAX, panics: true, max_steps: 2_000_000 }
    }
}
impl Plan {
    pub fn budget(mut self, b: u32) -> Self { self.budget = b; self }
    pub fn disk(mut self) -> Self { self.disk = true; self }
    pub fn log(mut self) -> Self { self.log_io = true; self.disk = true; self }
    pub fn no_time(mut self) -> Self { self.time_preempt = false; self }
    pub fn wall(mut self, s: f64) -> Self { self.wall_s = s; self }
}

impl Ctx {
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
    pub fn run<T, B, F, P>(&self, plan: Plan, body: B, post: P) -> Report
    where
        T: Send + 'static,
        B: Fn() -> F + Send + Sync + Clone + 'static,
        F: Future<Output = T> + 'static,
        P: Fn(&Exec<'_, T>) -> Vec<Violation> + Send + Sync,
    {
        let cfg = Cfg { budget: plan.budget, preempt: plan.preempt, time_preempt: plan.time_preempt, max_steps: plan.max_steps, ..Cfg::default() };
        let left = (self.deadline - now_s()).max(1.0);
        let o = mcrt::Opts {
            name: self.scenario.borrow().clone(),
            cfg,
            threads: self.threads,
            max_execs: plan.max_execs,
            wall_s: left.min(plan.wall_s),
            scratch: self.scratch.clone(),
            log_io: plan.log_io,
            max_violations: 4,
            panics: plan.panics,
            start_ns: 0,
            disk: plan.disk,
        };
        let b2 = move || -> BoxFut<T> { Box::pin(body()) };
        if let Some(p) = &self.replay {
            let mut cfg = o.cfg.clone();
            cfg.tracing = true;
            let scratch = o.scratch.join("replay");
            let root = scratch.join("d");
            mcrt::clear_dir(&root);
            let out = mcrt::run_once(cfg, p.clone(), 0, &root, o.log_io, move || b2());
            for e in &out.events { println!("  {}", e); }
            let sub = std::cell::Cell::new(0);
            let own = post(&Exec { out: &out, root: &root, scratch: &scratch, sub_execs: &sub });
            let mut rep = Report::default();
            rep.stats.execs = 1;
            match mcrt::judge(&out, o.panics, own) {
                Ok(v) => for x in v { rep.found.push(Found { sig: x.sig, msg: x.msg, prefix: p.clone(), events: vec![], cost: 0 }) },
                Err(e) => rep.error = Some(e),
            }
            return rep;
        }
        mcrt::explore::explore(&o, b2, post)
    }
    /// Scenario with an oracle inside the body and one over what it leaves behind.
    pub fn run2<T, B, F, P>(&self, plan: Plan, body: B, post: P) -> Report
    where
        T: Send + 'static,
        B: Fn() -> F + Send + Sync + Clone + 'static,
        F: Future<Output = R<T>> + 'static,
        P: Fn(&Exec<'_, R<T>>, &T) -> Vec<Violation> + Send + Sync,
    {
        self.run(plan, body, move |e| match &e.out.result { Some(Err(v)) => vec![v.clone()], Some(Ok(t)) => post(e, t), None => vec![] })
    }
    /// Scenario whose whole oracle is inside the body.
    pub fn run_checked<B, F>(&self, plan: Plan, body: B) -> Report
    where
        B: Fn() -> F + Send + Sync + Clone + 'static,
        F: Future<Output = R<()>> + 'static,
    {
        self.run(plan, body, |e| match &e.out.result { Some(Err(v)) => vec![v.clone()], _ => vec![] })
    }
}

pub struct Scn {
    pub name: &'static str,
    pub what: &'static str,
    pub f: Box<dyn Fn(&Ctx) -> Report>,
}
pub fn scn(name: &'static str, what: &'static str, f: impl Fn(&Ctx) -> Report + 'static) -> Scn { Scn { name, what, f: Box::new(f) } }

pub struct Prop {
    pub id: &'static str,
    pub assumptions: Vec<&'static str>,
    pub scenarios: Vec<Scn>,
}

// ---------------------------------------------------------------- time helpers
pub async fn sleep_ms(ms: u64) { mcrt::timer::sleep_ms(ms).await }
/// Run `f` to completion, or report that it does not finish within `ms` of
/// virtual time.  Time that the exploration lets pass while tasks are held up
/// does not count: after the deadline everything runnable runs first, and the
/// whole deadline is granted again as often as there can be such jumps.
pub async fn within<F: Future>(ms: u64, what: &str, f: F) -> R<F::Output> {
    let mut f = Box::pin(f);
    for _ in 0..5 {
        let mut g = Box::pin(async { mcrt::timer::guard_ms(ms).await; quiesce().await; });
        let r = std::future::poll_fn(|cx| {
            if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) { return std::task::Poll::Ready(Some(v)); }
            match g.as_mut().poll(cx) { std::task::Poll::Ready(()) => std::task::Poll::Ready(None), _ => std::task::Poll::Pending }
        }).await;
        if let Some(v) = r { return Ok(v); }
    }
    viol(format!("stuck:{}", what), format!("{} did not complete within {} ms of virtual time", what, ms))
}
/// poll a future once; None when it is pending
pub async fn poll_once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| std::task::Poll::Ready(match f.as_mut().poll(cx) { std::task::Poll::Ready(v) => Some(v), _ => None })).await
}
pub fn root() -> PathBuf { mcrt::io::with_io(|i| i.root.clone()) }

/// Spawn concurrent operations and wait for all of them.
pub struct Par { hs: Vec<tokio::task::JoinHandle<R<()>>> }
pub fn par() -> Par { Par { hs: vec![] } }
struct AssertSend<F>(F);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: Future> Future for AssertSend<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx) }
}
impl Par {
    #[track_caller]
    pub fn go(&mut self, f: impl Future<Output = R<()>> + 'static) { self.hs.push(tokio::spawn(AssertSend(f))); }
    pub async fn join(self, ms: u64, what: &str) -> R<()> {
        within(ms, what, async move {
            let mut err = None;
            for h in self.hs {
                match h.await {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => { err.get_or_insert(v); }
                    Err(_) => {} // a panic is reported by the runtime
                }
            }
            match err { Some(v) => Err(v), None => Ok(()) }
        }).await?
    }
}
pub fn spawn_local<T: 'static>(f: impl Future<Output = T> + 'static) -> tokio::task::JoinHandle<T> { tokio::task::spawn_local(f) }

/// Shared single-threaded cell usable across simulated tasks.
pub struct Shared<T>(std::cell::RefCell<T>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(t: T) -> Arc<Self> { Arc::new(Shared(std::cell::RefCell::new(t))) }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R { f(&mut self.0.borrow_mut()) }
}

// ---------------------------------------------------------------- linearizability
/// One completed (or pending) operation of a concurrent history.
#[derive(Clone, Debug)]
pub struct HOp<O, V> { pub op: O, pub ret: Option<V>, pub start: u64, pub end: u64 }
pub struct History<O, V> { pub clock: u64, pub ops: Vec<HOp<O, V>> }
impl<O: Clone, V: Clone> History<O, V> {
    pub fn new() -> Arc<Shared<Self>> { Shared::new(History { clock: 0, ops: vec![] }) }
}
impl<O: Clone, V: Clone> Shared<History<O, V>> {
    pub fn begin(&self, op: O) -> usize { self.with(|h| { h.clock += 1; let c = h.clock; h.ops.push(HOp { op, ret: None, start: c, end: u64::MAX }); h.ops.len() - 1 }) }
    pub fn end(&self, i: usize, v: V) { self.with(|h| { h.clock += 1; let c = h.clock; h.ops[i].ret = Some(v); h.ops[i].end = c; }) }
}
/// Is there an order of the operations, respecting real-time precedence, in
/// which a sequential model produces exactly the observed results, ending in an
/// accepted state?  `step` returns the possible (result, next state) pairs.
pub fn linearizable<O, V: PartialEq, S: Clone>(ops: &[HOp<O, V>], s0: &S, step: &dyn Fn(&S, &O) -> Vec<(V, S)>, accept: &dyn Fn(&S) -> bool) -> bool {
    fn rec<O, V: PartialEq, S: Clone>(ops: &[HOp<O, V>], done: u64, s: &S, step: &dyn Fn(&S, &O) -> Vec<(V, S)>, accept: &dyn Fn(&S) -> bool) -> bool {
        let n = ops.len();
        let pending_ok = (0..n).all(|i| done & (1 << i) != 0 || ops[i].ret.is_none());
        if pending_ok && accept(s) { return true; }
        let minend = (0..n).filter(|i| done & (1 << i) == 0).map(|i| ops[i].end).min().unwrap_or(u64::MAX);
        for i in 0..n {
            if done & (1 << i) != 0 || ops[i].start > minend { continue; }
            for (v, s2) in step(s, &ops[i].op) {
                if let Some(r) = &ops[i].ret { if *r != v { continue; } }
                if rec(ops, done | (1 << i), &s2, step, accept) { return true; }
            }
        }
        false
    }
    rec(ops, 0, s0, step, accept)
}

// ---------------------------------------------------------------- main
struct Known { prop: String, scenario: String, sig: String, text: String }
fn known(path: &Path) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // finding: property=X scenario=Y sig=<Z> :: text
        if let Some(r) = l.trim().strip_prefix("finding:") {
            let (head, text) = r.split_once("::").unwrap_or((r, ""));
            let get = |k: &str| head.find(k).map(|i| &head[i + k.len()..]).unwrap_or("");
            let prop = get("property=").split_whitespace().next().unwrap_or("").to_string();
            let scenario = get("scenario=").split_whitespace().next().unwrap_or("").to_string();
            let s = get("sig=<");
            let sig = s.rfind('>').map(|i| s[..i].to_string()).unwrap_or_default();
            v.push(Known { prop, scenario, sig, text: text.trim().to_string() });
        }
    }
    v
}

fn verif() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

fn drop_privileges() {
    unsafe {
        if libc::geteuid() == 0 {
            let _ = libc::setgroups(0, std::ptr::null());
            let _ = libc::setresgid(65534, 65534, 65534);
            let _ = libc::setresuid(65534, 65534, 65534);
        }
    }
}
fn own(p: &Path) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { libc::chown(c.as_ptr(), 65534, 65534); }
}

static mut PROP: [u8; 16] = [0; 16];
extern "C" fn on_fatal(sig: libc::c_int) {
    unsafe {
        // several executions may die of the same thing at once; the first one reports
        static OWNER: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
        let me = libc::syscall(libc::SYS_gettid) as i64;
        match OWNER.compare_exchange(0, me, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) {
            Ok(_) => {}
            Err(o) if o == me => { libc::signal(libc::SIGABRT, libc::SIG_DFL); libc::signal(libc::SIGSEGV, libc::SIG_DFL); libc::signal(libc::SIGBUS, libc::SIG_DFL); return; }
            Err(_) => loop { libc::pause(); },
        }
        let what = if sig == libc::SIGABRT { "abort" } else { "crash" };
        fatal_violation(what, None);
    }
}
fn fatal_violation(what: &str, worker: Option<usize>) -> ! {
    // the process is lost: say what was running and leave
    let prop = std::env::var("MC_PROP").unwrap_or_default();
    let cur = mcrt::explore::CURRENT.try_lock().ok().and_then(|g| g.clone());
    let mut scenario = String::new();
    let mut prefix = vec![];
    if let Some(m) = cur {
        let pick = worker.and_then(|w| m.get(&w).cloned()).or_else(|| m.values().max_by_key(|v| v.1.len()).cloned());
        if let Some((s, p, _)) = pick { scenario = s; prefix = p; }
    }
    let path = write_replay(&prop, &scenario, &format!("process:{}", what), &format!("the code made the whole process die ({})", what), &prefix, &[], 99);
    println!("VIOLATION property={} replay={}", prop, path.display());
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

fn write_replay(prop: &str, scenario: &str, sig: &str, msg: &str, prefix: &[(u32, u32)], events: &[String], n: usize) -> PathBuf {
    let dir = verif().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", prop, scenario, n));
    let j = serde_json::json!({"property": prop, "scenario": scenario, "signature": sig, "message": msg, "tier": std::env::var("MC_TIER").unwrap_or_else(|_| "quick".into()),
        "choices": prefix.iter().map(|p| vec![p.0, p.1]).collect::<Vec<_>>(), "events": events,
        "how_to_replay": format!("/verif/check.sh --replay {}", path.display())});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

pub fn main_with(bin: &str, props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(bin, props, &args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick"), args.get(4).cloned()),
        Some("replay") => replay(props, &args[2]),
        Some("list") => for p in props { for s in p.scenarios { println!("{} {} — {}", p.id, s.name, s.what); } },
        _ => { eprintln!("usage: {} check <property> <quick|thorough> | replay <file> | list", bin); std::process::exit(2) }
    }
}

fn setup(prop: &str) -> PathBuf {
    mcrt::explore::install_hooks();
    // no global statistics lock in the database library (workers run in parallel)
    extern "C" { fn sqlite3_config(op: libc::c_int, ...) -> libc::c_int; }
    unsafe { sqlite3_config(9, 0 as libc::c_int); }
    std::env::set_var("MC_PROP", prop);
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    // sweep scratch of dead runs
    if let Ok(rd) = std::fs::read_dir(&base) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if let Some(pid) = n.strip_prefix("nexo-mc-").and_then(|p| p.parse::<u32>().ok()) {
                if !Path::new(&format!("/proc/{}", pid)).exists() { let _ = std::fs::remove_dir_all(base.join(n)); }
            }
        }
    }
    let scratch = base.join(format!("nexo-mc-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    own(&scratch);
    let ev = verif().join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replay"));
    own(&ev.join("replay"));
    std::env::set_current_dir(&scratch).expect("cwd");
    unsafe {
        libc::umask(0o022);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fatal as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &sa, std::ptr::null_mut());
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let now = mcrt::sys::real_now_ns();
        let lim = mcrt::explore::HANG_S.load(std::sync::atomic::Ordering::Relaxed) * 1_000_000_000;
        let hit = mcrt::explore::CURRENT.lock().ok().and_then(|g| g.as_ref().and_then(|m| m.iter().find(|(_, v)| now.saturating_sub(v.2) > lim).map(|(k, _)| *k)));
        if let Some(w) = hit { fatal_violation("hang", Some(w)); }
    });
    scratch
}

fn check(bin: &str, props: Vec<Prop>, id: &str, tier: &str, only: Option<String>) {
    let Some(p) = props.into_iter().find(|p| p.id == id) else { eprintln!("{}: unknown property {}", bin, id); std::process::exit(2) };
    let scratch = setup(id);
    let ev_path = verif().join("evidence").join(format!("{}.json", id));
    let ev_file = if only.is_none() { Some(std::fs::File::create(&ev_path).unwrap_or_else(|e| { eprintln!("cannot write {}: {}", ev_path.display(), e); std::process::exit(2) })) } else { None };
    let kn = known(&verif().join("known_findings.txt"));
    drop_privileges();
    let thorough = tier == "thorough";
    std::env::set_var("MC_TIER", if thorough { "thorough" } else { "quick" });
    let t0 = now_s();
    let cap = std::env::var("MC_WALL").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 600.0 } else { 150.0 });
    let threads = std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let mut total = Stats::default();
    let mut per = vec![];
    let mut viols = vec![];
    let mut broken = false;
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let n = p.scenarios.iter().filter(|s| only.as_ref().map(|o| s.name.contains(o.as_str())).unwrap_or(true)).count();
    let mut k = 0;
    for s in &p.scenarios {
        if let Some(o) = &only { if !s.name.contains(o.as_str()) { continue; } }
        // what is left is shared: a scenario may use at most twice its fair share
        let left = (t0 + cap - now_s()).max(2.0);
        let share = if thorough { (left / (n - k) as f64 * 1.6).min(left) } else { left };
        k += 1;
        let ctx = Ctx { prop: id.into(), thorough, scratch: scratch.clone(), deadline: now_s() + share, replay: None, threads, scenario: std::cell::RefCell::new(s.name.into()), notes: Default::default() };
        let r = (s.f)(&ctx);
        if let Some(e) = r.error {
            eprintln!("MACHINERY ERROR in {}: {}", s.name, e);
            broken = true;
        }
        println!("{} {:<34} execs={} points={} switches={} sub={} depth={} completed_cost={} trunc={} {:.1}s found={}", id, s.name, r.stats.execs, r.stats.points, r.stats.switches, r.stats.sub_execs, r.stats.max_points, r.stats.completed_cost, r.stats.truncated, r.stats.wall_s, r.found.len());
        per.push(serde_json::json!({"scenario": s.name, "what": s.what, "executions": r.stats.execs, "executions_by_deviations": r.stats.by_cost, "choice_points": r.stats.points, "scheduler_steps": r.stats.steps, "context_switches_forced": r.stats.switches, "recovery_executions": r.stats.sub_execs, "distinct_executions": r.stats.outcomes, "distinct_model_states": r.stats.states, "all_executions_with_at_most_deviations": r.stats.completed_cost, "stopped_at_limit": r.stats.truncated, "determinism_rechecks": r.stats.rechecked, "wall_s": r.stats.wall_s, "notes": ctx.notes.borrow().clone()}));
        total.add(&r.stats);
        for f in r.found {
            if let Some(kf) = kn.iter().find(|x| x.prop == id && (x.scenario == s.name || x.scenario == "*") && x.sig == f.sig) {
                known_hits.insert(kf.text.clone(), f.sig.clone());
            } else { viols.push((s.name.to_string(), f)); }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    for (t, _) in &known_hits { println!("KNOWN-FINDING: property={} {}", id, t); }
    let mut vj = vec![];
    for (i, (s, f)) in viols.iter().enumerate() {
        let path = write_replay(id, s, &f.sig, &f.msg, &f.prefix, &f.events, i);
        println!("--- {} [{}] {}\n    {}", s, f.sig, f.msg, f.events.join("\n    "));
        println!("VIOLATION property={} replay={}", id, path.display());
        vj.push(serde_json::json!({"scenario": s, "signature": f.sig, "message": f.msg, "replay": path}));
    }
    let wall = now_s() - t0;
    if let Some(mut f) = ev_file {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut assumptions: Vec<String> = p.assumptions.iter().map(|s| s.to_string()).collect();
        assumptions.push("sequentially consistent memory; tasks interleave at lock, atomic, map, channel, notify, socket and file operations and at awaits".into());
        assumptions.push("the locks, maps, channels, timers, sockets and select! of tokio/std/dashmap/parking_lot behave as the substitutes in /verif/mc do".into());
        let samples: Vec<_> = per.iter().take(6).cloned().collect();
        let j = serde_json::json!({
            "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "model_checking", "wall_s": wall,
            "violations": vj.len(),
            "coverage": {
                "states": total.states.max(1),
                "distinct_executions": total.outcomes,
                "transitions": total.steps,
                "choice_points": total.points,
                "recovery_executions": total.sub_execs,
                "traces_validated_against_impl": total.execs,
                "determinism_rechecks": total.rechecked,
                "samples": samples,
                "scenarios": per,
                "stopped_at_limit": total.truncated,
                "violations": vj,
                "known_findings": known_hits.keys().cloned().collect::<Vec<_>>(),
            },
            "assumptions": assumptions,
        });
        let _ = f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes());
    }
    println!("{} {} executions={} steps={} recovery={} wall={:.1}s violations={}", id, tier, total.execs, total.steps, total.sub_execs, wall, viols.len());
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(if !viols.is_empty() { 1 } else if broken { 2 } else { 0 }) }
}

fn replay(props: Vec<Prop>, file: &str) {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap().to_string();
    let sc = j["scenario"].as_str().unwrap().to_string();
    let choices: Vec<(u32, u32)> = j["choices"].as_array().unwrap().iter().map(|c| (c[0].as_u64().unwrap() as u32, c[1].as_u64().unwrap() as u32)).collect();
    let scratch = setup(&id);
    drop_privileges();
    let p = props.into_iter().find(|p| p.id == id).expect("property");
    let s = p.scenarios.into_iter().find(|s| s.name == sc).expect("scenario");
    let ctx = Ctx { prop: id.clone(), thorough: j["tier"] != "quick", scratch: scratch.clone(), deadline: now_s() + 1e9, replay: Some(choices), threads: 1, scenario: std::cell::RefCell::new(sc.clone()), notes: Default::default() };
    let r = (s.f)(&ctx);
    let _ = std::fs::remove_dir_all(&scratch);
    if let Some(e) = r.error { eprintln!("MACHINERY ERROR {}", e); std::process::exit(2); }
    for f in &r.found { println!("REPRODUCED [{}] {}", f.sig, f.msg); }
    unsafe { libc::_exit(if r.found.is_empty() { 0 } else { 1 }) }
}
