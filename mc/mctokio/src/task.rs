use std::any::Any;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub use mcrt::yield_now;

pub struct JoinError { repr: Repr }
enum Repr { Cancelled, Panic(Mutex<Box<dyn Any + Send>>) }
impl JoinError {
    pub fn is_cancelled(&self) -> bool { matches!(self.repr, Repr::Cancelled) }
    pub fn is_panic(&self) -> bool { matches!(self.repr, Repr::Panic(_)) }
    pub fn into_panic(self) -> Box<dyn Any + Send> { match self.repr { Repr::Panic(p) => p.into_inner().unwrap(), _ => panic!("not a panic") } }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> { match self.repr { Repr::Panic(p) => Ok(p.into_inner().unwrap()), r => Err(JoinError { repr: r }) } }
}
impl fmt::Debug for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" }) } }
impl fmt::Display for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" }) } }
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error { fn from(e: JoinError) -> Self { std::io::Error::other(e.to_string()) } }

struct Join<T> { out: Option<Result<T, JoinError>>, done: bool, waker: Option<Waker> }
fn complete<T>(j: &Arc<Mutex<Join<T>>>, r: Result<T, JoinError>) {
    let wk = { let mut g = j.lock().unwrap(); if g.done { return; } g.done = true; g.out = Some(r); g.waker.take() };
    if let Some(w) = wk { w.wake(); }
}

pub struct JoinHandle<T> { j: Arc<Mutex<Join<T>>>, id: mcrt::TaskId, blocking: bool }
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) { if !self.blocking { mcrt::sched_point("abort"); mcrt::abort_task(self.id) } }
    pub fn is_finished(&self) -> bool { self.j.lock().unwrap().done }
    pub fn abort_handle(&self) -> AbortHandle { AbortHandle { id: self.id, blocking: self.blocking } }
}
impl<T> fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinHandle") } }
#[derive(Clone, Debug)]
pub struct AbortHandle { id: mcrt::TaskId, blocking: bool }
impl AbortHandle {
    pub fn abort(&self) { if !self.blocking { mcrt::abort_task(self.id) } }
    pub fn is_finished(&self) -> bool { mcrt::task_done(self.id) }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.j.lock().unwrap();
        if let Some(r) = g.out.take() { return Poll::Ready(r); }
        if g.done { panic!("JoinHandle polled after completion"); }
        g.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

fn spawn_named<F>(name: &str, f: F, blocking: bool) -> JoinHandle<F::Output>
where F: Future + 'static, F::Output: 'static {
    let j = Arc::new(Mutex::new(Join { out: None, done: false, waker: None }));
    let (j2, j3) = (j.clone(), j.clone());
    let id = mcrt::spawn_raw(
        name,
        Box::pin(async move { let r = f.await; complete(&j2, Ok(r)); }),
        Some(Box::new(move |e| match e {
            mcrt::End::Panic(p) => complete(&j3, Err(JoinError { repr: Repr::Panic(Mutex::new(p)) })),
            mcrt::End::Cancelled => complete(&j3, Err(JoinError { repr: Repr::Cancelled })),
        })),
    );
    JoinHandle { j, id, blocking }
}

#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where F: Future + Send + 'static, F::Output: Send + 'static {
    let loc = std::panic::Location::caller();
    let name = format!("{}:{}", loc.file().rsplit('/').next().unwrap_or("?"), loc.line());
    spawn_named(&name, f, false)
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { spawn_named("local", f, false) }

/// Blocking work runs as its own task: it interleaves with everything else, and
/// is not cancelled when the task that awaits it goes away.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static {
    spawn_named("blocking", async move { mcrt::sched_point("blocking"); f() }, true)
}
pub fn block_in_place<F, R>(f: F) -> R where F: FnOnce() -> R { f() }

pub struct JoinSet<T> { hs: Vec<JoinHandle<T>> }
impl<T> Default for JoinSet<T> { fn default() -> Self { Self::new() } }
impl<T> JoinSet<T> {
    pub fn new() -> Self { JoinSet { hs: vec![] } }
    pub fn len(&self) -> usize { self.hs.len() }
    pub fn is_empty(&self) -> bool { self.hs.is_empty() }
    pub fn abort_all(&mut self) { for h in &self.hs { h.abort(); } }
    pub fn detach_all(&mut self) { self.hs.clear(); }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.hs.is_empty() { return Poll::Ready(None); }
        for i in 0..self.hs.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.hs[i]).poll(cx) { self.hs.remove(i); return Poll::Ready(Some(r)); }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> { std::future::poll_fn(|cx| self.poll_join_next(cx)).await }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        for i in 0..self.hs.len() {
            if self.hs[i].is_finished() { let h = self.hs.remove(i); let r = h.j.lock().unwrap().out.take(); return r; }
        }
        None
    }
    pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
}
impl<T: Send + 'static> JoinSet<T> {
    #[track_caller]
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + Send + 'static {
        let h = spawn(f); let a = h.abort_handle(); self.hs.push(h); a
    }
    pub async fn join_all(mut self) -> Vec<T> { let mut v = vec![]; while let Some(r) = self.join_next().await { v.push(r.unwrap()); } v }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.hs { if !h.blocking { mcrt::abort_task(h.id) } } } }

pub mod coop { pub use std::future::Future; pub async fn consume_budget() {} }
