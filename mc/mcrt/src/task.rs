use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;
pub type Payload = Box<dyn Any + Send>;

pub enum End {
    Panic(Payload),
    Cancelled,
}

pub enum Why {
    Ready,
    Pending,
    Panicked(Payload),
    Preempted,
    Blocked,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Idle,
    Ready,
    Running,
    Mid,
    MidBlocked,
    Done,
}


type Co = Coroutine<*mut Task, Why, (), DefaultStack>;

pub struct Task {
    pub id: TaskId,
    pub name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub st: St,
    notified: bool,
    abort: bool,
    co: Option<Co>,
    waker: Waker,
    on_end: Option<Box<dyn FnOnce(End)>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Choice {
    pub n: u32,
    pub v: u32,
    /// cost of any non-default alternative
    pub cost: u32,
    pub kind: &'static str,
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub task: String,
    pub msg: String,
    pub loc: String,
    /// panic happened while dropping/aborting (teardown)
    pub teardown: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub budget: u32,
    pub max_steps: u64,
    pub preempt: bool,
    pub time_preempt: bool,
    pub select_choice: bool,
    pub tracing: bool,
    /// seed of everything random the code draws (ids, hash keys)
    pub seed: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { budget: 0, max_steps: 2_000_000, preempt: true, time_preempt: true, select_choice: true, tracing: false, seed: 0x5EED }
    }
}

pub struct World {
    pub id: u64,
    pub cfg: Cfg,
    pub tasks: Vec<Option<Box<Task>>>,
    pub runq: VecDeque<TaskId>,
    pub lowq: VecDeque<TaskId>,
    pub quiesce: VecDeque<Waker>,
    pub cur: Option<TaskId>,
    pub blocked: Vec<(usize, TaskId)>,
    pub now: u64,
    pub timers: BTreeMap<(u64, u64), Waker>,
    pub guards: BTreeMap<(u64, u64), Waker>,
    pub timer_seq: u64,
    pub prefix: Vec<(u32, u32)>,
    pub trace: Vec<Choice>,
    pub spent: u32,
    pub diverged: Option<String>,
    pub explore: bool,
    pub steps: u64,
    pub switches: u64,
    pub steplimit: bool,
    pub time_budget_used: u32,
    pub panics: Vec<PanicRec>,
    pub pool: Vec<Co>,
    pub teardown: bool,
    pub events: Vec<String>,
    pub rng: u64,
    pub faults_on: bool,
    pub states: Vec<u64>,
}

thread_local! {
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static YIELDER: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
    pub(crate) static LAST_PANIC: Cell<Option<(String, String)>> = const { Cell::new(None) };
    /// >0 : sched points are ignored (atomic section of harness code)
    static ATOMIC: Cell<u32> = const { Cell::new(0) };
}
static WORLD_IDS: AtomicU64 = AtomicU64::new(1);
static STACKS: Mutex<Vec<DefaultStack>> = Mutex::new(Vec::new());
const STACK_SIZE: usize = 1024 * 1024;

#[inline]
pub fn world_ptr() -> *mut World {
    WORLD.with(|w| w.get())
}
#[inline]
pub fn in_world() -> bool {
    !world_ptr().is_null()
}
#[inline]
pub(crate) fn w() -> &'static mut World {
    unsafe { &mut *world_ptr() }
}
#[inline]
pub fn in_co() -> bool {
    !YIELDER.with(|y| y.get()).is_null()
}

struct TaskWaker {
    world: u64,
    task: TaskId,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !in_world() {
            return;
        }
        let w = w();
        if w.id != self.world {
            return;
        }
        wake_task(self.task);
    }
}

fn wake_task(id: TaskId) {
    let w = w();
    if let Some(t) = w.tasks[id].as_mut() {
        match t.st {
            St::Idle => {
                t.st = St::Ready;
                w.runq.push_back(id);
            }
            St::Running | St::Mid | St::MidBlocked => t.notified = true,
            St::Ready | St::Done => {}
        }
    }
}

fn get_co() -> Co {
    if let Some(c) = w().pool.pop() {
        return c;
    }
    let stack = STACKS.lock().unwrap().pop();
    let stack = stack.unwrap_or_else(|| DefaultStack::new(STACK_SIZE).expect("stack"));
    Coroutine::with_stack(stack, co_main)
}

fn co_main(y: &Yielder<*mut Task, Why>, mut job: *mut Task) {
    let yp = y as *const _ as *const ();
    loop {
        if job.is_null() {
            return;
        }
        YIELDER.with(|c| c.set(yp));
        let r = catch_unwind(AssertUnwindSafe(|| unsafe {
            let t = &mut *job;
            if t.abort {
                let f = t.fut.take();
                drop(f);
                return Poll::Ready(true);
            }
            let waker = t.waker.clone();
            let mut cx = Context::from_waker(&waker);
            match t.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(()) => {
                    let f = t.fut.take();
                    drop(f);
                    Poll::Ready(false)
                }
                Poll::Pending => Poll::Pending,
            }
        }));
        let why = match r {
            Ok(Poll::Ready(_)) => Why::Ready,
            Ok(Poll::Pending) => Why::Pending,
            Err(p) => Why::Panicked(p),
        };
        job = y.suspend(why);
    }
}

fn co_suspend(why: Why) {
    let yp = YIELDER.with(|c| c.get());
    let y = unsafe { &*(yp as *const Yielder<*mut Task, Why>) };
    y.suspend(why);
    YIELDER.with(|c| c.set(yp));
}

pub fn spawn_raw(name: &str, fut: Pin<Box<dyn Future<Output = ()>>>, on_end: Option<Box<dyn FnOnce(End)>>) -> TaskId {
    let _off = crate::heap::untracked();
    let w = w();
    let id = w.tasks.len();
    let waker = Waker::from(Arc::new(TaskWaker { world: w.id, task: id }));
    w.tasks.push(Some(Box::new(Task {
        id,
        name: name.to_string(),
        fut: Some(fut),
        st: St::Ready,
        notified: false,
        abort: w.teardown,
        co: None,
        waker,
        on_end,
    })));
    w.runq.push_back(id);
    id
}

pub fn abort_task(id: TaskId) {
    if !in_world() {
        return;
    }
    let w = w();
    if let Some(t) = w.tasks.get_mut(id).and_then(|t| t.as_mut()) {
        if t.st == St::Done {
            return;
        }
        t.abort = true;
        wake_task(id);
    }
}

/// names of the tasks that have not ended
pub fn live_tasks() -> Vec<String> {
    w().tasks.iter().flatten().filter(|t| t.st != St::Done).map(|t| t.name.clone()).collect()
}

pub fn task_done(id: TaskId) -> bool {
    match w().tasks.get(id) {
        Some(Some(t)) => t.st == St::Done,
        _ => true,
    }
}

/// Record a data choice (free: enumerated exhaustively) in 0..n.
pub fn choose(n: usize, kind: &'static str) -> usize {
    if n <= 1 {
        return 0;
    }
    choose_cost(n, 0, kind)
}

pub fn choose_cost(n: usize, cost: u32, kind: &'static str) -> usize {
    let w = w();
    let i = w.trace.len();
    let mut v = 0;
    if i < w.prefix.len() {
        let (pn, pv) = w.prefix[i];
        if pn != n as u32 {
            if w.diverged.is_none() {
                w.diverged = Some(format!("choice {} ({}): expected n={} got n={}", i, kind, pn, n));
            }
            v = (pv as usize).min(n - 1);
        } else {
            v = pv as usize;
        }
    }
    if v != 0 {
        w.spent += cost;
    }
    w.trace.push(Choice { n: n as u32, v: v as u32, cost, kind });
    v
}

pub fn is_exploring() -> bool {
    in_world() && w().explore
}
pub fn set_explore(on: bool) -> bool {
    std::mem::replace(&mut w().explore, on)
}
pub fn log_event(s: String) {
    if in_world() {
        let w = w();
        if w.cfg.tracing {
            let t = w.now / 1_000_000;
            let c = w.cur.map(|c| w.tasks[c].as_ref().map(|t| format!("{}#{}", t.name, t.id)).unwrap_or_default()).unwrap_or_default();
            w.events.push(format!("[{} ms] <{}> {}", t, c, s));
        }
    }
}

pub struct AtomicGuard;
pub fn atomic_section() -> AtomicGuard {
    ATOMIC.with(|a| a.set(a.get() + 1));
    AtomicGuard
}
impl Drop for AtomicGuard {
    fn drop(&mut self) {
        ATOMIC.with(|a| a.set(a.get() - 1));
    }
}

/// A point where the scheduler may take the processor away from the current task.
pub fn sched_point(kind: &'static str) {
    if !in_co() || std::thread::panicking() || ATOMIC.with(|a| a.get()) > 0 {
        return;
    }
    let w = w();
    w.steps += 1;
    if w.steps > w.cfg.max_steps {
        w.steplimit = true;
        if !w.teardown {
            co_suspend(Why::Preempted);
        }
        return;
    }
    if !w.explore || !w.cfg.preempt || w.teardown {
        return;
    }
    let others = w.runq.len() + w.lowq.len();
    let nlow = w.lowq.len();
    let stall = if w.runq.is_empty() { 0 } else { 1 };
    let time = if w.cfg.time_preempt && !w.timers.is_empty() { 1 } else { 0 };
    let n = 1 + others + stall + time;
    if n == 1 {
        return;
    }
    let v = choose_cost(n, 1, kind);
    if v == 0 {
        return;
    }
    let me = w.cur.unwrap();
    let nrun = w.runq.len();
    if v <= nrun {
        let t = w.runq.remove(v - 1).unwrap();
        w.runq.push_front(me);
        w.runq.push_front(t);
    } else if v <= nrun + nlow {
        let t = w.lowq.remove(v - 1 - nrun).unwrap();
        w.runq.push_front(me);
        w.runq.push_front(t);
    } else if v <= nrun + nlow + stall {
        w.lowq.push_back(me);
    } else {
        // time passes before the current task gets to run again
        w.lowq.push_back(me);
        crate::timer::advance_to_next_event();
    }
    w.switches += 1;
    log_event(format!("preempted at {} (alt {}/{})", kind, v, n));
    co_suspend(Why::Preempted);
}

/// Block the current coroutine until `wake_addr(addr)`.
pub fn block_on_addr(addr: usize, kind: &'static str) {
    if !in_co() {
        panic!("mcrt: blocking primitive {} would block outside the simulation", kind);
    }
    let w = w();
    w.blocked.push((addr, w.cur.unwrap()));
    co_suspend(Why::Blocked);
}

pub fn wake_addr(addr: usize) {
    if !in_world() {
        return;
    }
    let w = w();
    let mut i = 0;
    while i < w.blocked.len() {
        if w.blocked[i].0 == addr {
            let (_, t) = w.blocked.remove(i);
            if let Some(t) = w.tasks[t].as_mut() {
                t.st = St::Mid;
            }
            w.runq.push_back(t);
        } else {
            i += 1;
        }
    }
}

fn run_task(id: TaskId) {
    let w = w();
    let tp: *mut Task = match w.tasks[id].as_mut() {
        Some(t) => &mut **t,
        None => return,
    };
    let t = unsafe { &mut *tp };
    w.cur = Some(id);
    let mut co = match t.st {
        St::Ready => {
            t.notified = false;
            get_co()
        }
        St::Mid => t.co.take().unwrap(),
        _ => return,
    };
    t.st = St::Running;
    let r = co.resume(tp);
    YIELDER.with(|c| c.set(std::ptr::null()));
    let w = crate::task::w();
    w.cur = None;
    match r {
        CoroutineResult::Yield(why) => match why {
            Why::Ready => {
                w.pool.push(co);
                finish(id, None);
            }
            Why::Pending => {
                w.pool.push(co);
                if t.abort && t.fut.is_some() {
                    t.st = St::Ready;
                    w.runq.push_back(id);
                } else if t.notified {
                    t.notified = false;
                    t.st = St::Ready;
                    w.runq.push_back(id);
                } else {
                    t.st = St::Idle;
                }
            }
            Why::Panicked(p) => {
                w.pool.push(co);
                let (msg, loc) = LAST_PANIC.with(|l| l.take()).unwrap_or_else(|| {
                    let m = p
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| p.downcast_ref::<String>().cloned())
                        .unwrap_or_else(|| "<non-string panic>".into());
                    (m, "?".into())
                });
                let td = w.teardown;
                w.panics.push(PanicRec { task: t.name.clone(), msg, loc, teardown: td });
                // the future is poisoned: drop it without unwinding further
                if let Some(f) = t.fut.take() {
                    let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
                }
                finish(id, Some(p));
            }
            Why::Preempted => {
                t.st = St::Mid;
                t.co = Some(co);
                // queue placement was done by sched_point
                if w.steplimit {
                    w.runq.push_back(id);
                }
            }
            Why::Blocked => {
                t.st = St::MidBlocked;
                t.co = Some(co);
            }
        },
        CoroutineResult::Return(()) => unreachable!(),
    }
}

fn finish(id: TaskId, panic: Option<Payload>) {
    let w = w();
    let t = w.tasks[id].as_mut().unwrap();
    t.st = St::Done;
    let cancelled = t.abort;
    let on_end = t.on_end.take();
    if let Some(f) = on_end {
        match panic {
            Some(p) => f(End::Panic(p)),
            None if cancelled => f(End::Cancelled),
            None => drop(f),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Stop {
    MainDone,
    Deadlock,
    StepLimit,
}

/// Run until task 0 is done.
fn scheduler() -> Stop {
    loop {
        let w = w();
        if w.steplimit && !w.teardown {
            return Stop::StepLimit;
        }
        if w.tasks[0].as_ref().map(|t| t.st == St::Done).unwrap_or(true) {
            return Stop::MainDone;
        }
        let next = if !w.runq.is_empty() {
            let n = w.runq.len();
            let mut k = 0;
            if n > 1 && w.explore && w.cfg.preempt {
                k = choose_cost(n, 1, "next");
                if k > 0 {
                    w.switches += 1;
                }
            }
            w.runq.remove(k).unwrap()
        } else if let Some(t) = w.lowq.pop_front() {
            t
        } else if let Some(q) = w.quiesce.pop_front() {
            q.wake();
            continue;
        } else if !w.timers.is_empty() || !w.guards.is_empty() {
            crate::timer::advance_to_next();
            continue;
        } else {
            return Stop::Deadlock;
        };
        w.steps += 1;
        if w.steps > w.cfg.max_steps {
            w.steplimit = true;
        }
        run_task(next);
    }
}

fn teardown() {
    let w = w();
    w.teardown = true;
    w.explore = false;
    w.steplimit = false;
    w.steps = 0;
    let n = w.tasks.len();
    for i in 0..n {
        if let Some(t) = w.tasks[i].as_mut() {
            if t.st != St::Done {
                t.abort = true;
                if t.st == St::Idle {
                    t.st = St::Ready;
                    w.runq.push_back(i);
                }
            }
        }
    }
    let mut guard = 0u32;
    loop {
        let w = crate::task::w();
        let next = match w.runq.pop_front().or_else(|| w.lowq.pop_front()) {
            Some(t) => t,
            None => break,
        };
        run_task(next);
        guard += 1;
        if guard > 200_000 {
            break;
        }
    }
    // anything left is stuck in a blocking primitive: leak it
    let w = crate::task::w();
    for t in w.tasks.iter_mut() {
        if let Some(t) = t.as_mut() {
            if let Some(co) = t.co.take() {
                std::mem::forget(co);
                if let Some(f) = t.fut.take() {
                    std::mem::forget(f);
                }
            }
        }
    }
    for mut co in std::mem::take(&mut w.pool) {
        if co.started() {
            if let CoroutineResult::Return(()) = co.resume(std::ptr::null_mut()) {
                STACKS.lock().unwrap().push(co.into_stack());
            }
        }
    }
    YIELDER.with(|c| c.set(std::ptr::null()));
}

pub struct Outcome<T> {
    pub result: Option<T>,
    pub stop: Stop,
    pub trace: Vec<Choice>,
    pub panics: Vec<PanicRec>,
    pub steps: u64,
    pub switches: u64,
    pub now_ns: u64,
    pub events: Vec<String>,
    pub diverged: Option<String>,
    pub io: crate::io::IoState,
    pub blocked: Vec<String>,
    pub states: Vec<u64>,
}

pub struct RunArgs {
    pub cfg: Cfg,
    pub prefix: Vec<(u32, u32)>,
    pub start_ns: u64,
    pub seed: u64,
    pub io: crate::io::IoState,
}

/// Run one execution on the current OS thread (which should be fresh, so that
/// thread-local hash seeds are reproducible).
pub fn run_here<T: 'static, F, Fut>(args: RunArgs, body: F) -> Outcome<T>
where
    F: FnOnce() -> Fut + 'static,
    Fut: Future<Output = T> + 'static,
{
    let world = Box::new(World {
        id: WORLD_IDS.fetch_add(1, Ordering::Relaxed),
        cfg: args.cfg,
        tasks: Vec::new(),
        runq: VecDeque::new(),
        lowq: VecDeque::new(),
        quiesce: VecDeque::new(),
        cur: None,
        blocked: Vec::new(),
        now: args.start_ns,
        timers: BTreeMap::new(),
        guards: BTreeMap::new(),
        timer_seq: 0,
        prefix: args.prefix,
        trace: Vec::new(),
        spent: 0,
        diverged: None,
        explore: false,
        steps: 0,
        switches: 0,
        steplimit: false,
        time_budget_used: 0,
        panics: Vec::new(),
        pool: Vec::new(),
        teardown: false,
        events: Vec::new(),
        rng: args.seed ^ 0x9E37_79B9_7F4A_7C15,
        faults_on: false,
        states: Vec::new(),
    });
    let wp = Box::into_raw(world);
    WORLD.with(|c| c.set(wp));
    crate::io::install(args.io);
    crate::sys::set_clock(Some(args.start_ns));
    let slot: std::rc::Rc<std::cell::RefCell<Option<T>>> = Default::default();
    let s2 = slot.clone();
    spawn_raw(
        "main",
        Box::pin(async move {
            let v = body().await;
            *s2.borrow_mut() = Some(v);
        }),
        None,
    );
    let stop = scheduler();
    let mut blocked = Vec::new();
    {
        let w = w();
        for t in w.tasks.iter().flatten() {
            if t.st == St::MidBlocked {
                blocked.push(format!("{}#{}", t.name, t.id));
            }
        }
    }
    crate::io::set_faults(false);
    let io_stop = crate::io::freeze_log();
    let steps = w().steps;
    teardown();
    let io = crate::io::uninstall(io_stop);
    let result = slot.borrow_mut().take();
    let mut world = unsafe { Box::from_raw(wp) };
    // drop remaining futures/wakers while the world is still reachable
    world.timers.clear();
    world.guards.clear();
    world.quiesce.clear();
    let tasks = std::mem::take(&mut world.tasks);
    drop(tasks);
    crate::sys::set_clock(None);
    WORLD.with(|c| c.set(std::ptr::null_mut()));
    Outcome {
        result,
        stop,
        trace: std::mem::take(&mut world.trace),
        panics: std::mem::take(&mut world.panics),
        steps,
        switches: world.switches,
        now_ns: world.now,
        events: std::mem::take(&mut world.events),
        diverged: world.diverged.take(),
        io,
        blocked,
        states: std::mem::take(&mut world.states),
    }
}

/// Future: completes when nothing else is runnable at the current virtual time.
pub struct Quiesce(u8);
pub fn quiesce() -> Quiesce {
    Quiesce(0)
}
impl Future for Quiesce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            self.0 = 1;
            w().quiesce.push_back(cx.waker().clone());
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}

/// Future: lets every other runnable task go first, once.
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

pub fn now_ns() -> u64 {
    w().now
}

/// Count an abstract state reached by this execution.
pub fn note_state<H: std::hash::Hash>(h: &H) {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    h.hash(&mut s);
    w().states.push(s.finish());
}
