pub use tokio::sync::{AcquireError, Barrier, Mutex, MutexGuard, OnceCell, OwnedMutexGuard, OwnedSemaphorePermit, RwLock, RwLockReadGuard, RwLockWriteGuard, Semaphore, SemaphorePermit, TryAcquireError, OwnedRwLockReadGuard, OwnedRwLockWriteGuard, TryLockError};
pub use tokio::sync::{broadcast, futures, watch};
use mcrt::sched_point;

#[derive(Debug, Default)]
pub struct Notify { n: tokio::sync::Notify }
impl Notify {
    pub const fn new() -> Self { Notify { n: tokio::sync::Notify::const_new() } }
    pub const fn const_new() -> Self { Self::new() }
    pub fn notified(&self) -> tokio::sync::futures::Notified<'_> { sched_point("notify.notified"); self.n.notified() }
    pub fn notify_one(&self) { sched_point("notify.one"); self.n.notify_one() }
    pub fn notify_last(&self) { sched_point("notify.last"); self.n.notify_last() }
    pub fn notify_waiters(&self) { sched_point("notify.waiters"); self.n.notify_waiters() }
}

pub mod oneshot {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use tokio::sync::oneshot::error;
    #[derive(Debug)]
    pub struct Sender<T>(tokio::sync::oneshot::Sender<T>);
    #[derive(Debug)]
    pub struct Receiver<T>(tokio::sync::oneshot::Receiver<T>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let (a, b) = tokio::sync::oneshot::channel(); (Sender(a), Receiver(b)) }
    impl<T> Sender<T> {
        pub fn send(self, t: T) -> Result<(), T> { mcrt::sched_point("oneshot.send"); self.0.send(t) }
        pub fn is_closed(&self) -> bool { self.0.is_closed() }
        pub async fn closed(&mut self) { self.0.closed().await }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { mcrt::sched_point("oneshot.try"); self.0.try_recv() }
        pub fn close(&mut self) { self.0.close() }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut self.0).poll(cx) }
    }
}

pub mod mpsc {
    use std::task::{Context, Poll};
    pub use tokio::sync::mpsc::error;
    use tokio::sync::mpsc as real;
    pub use real::{OwnedPermit, Permit};
    use mcrt::sched_point;

    pub struct UnboundedSender<T>(real::UnboundedSender<T>);
    pub struct UnboundedReceiver<T>(real::UnboundedReceiver<T>);
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let (a, b) = real::unbounded_channel(); (UnboundedSender(a), UnboundedReceiver(b)) }
    impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { UnboundedSender(self.0.clone()) } }
    impl<T> std::fmt::Debug for UnboundedSender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("UnboundedSender") } }
    impl<T> std::fmt::Debug for UnboundedReceiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("UnboundedReceiver") } }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, t: T) -> Result<(), error::SendError<T>> { sched_point("mpsc.send"); self.0.send(t) }
        pub fn is_closed(&self) -> bool { self.0.is_closed() }
        pub async fn closed(&self) { self.0.closed().await }
        pub fn same_channel(&self, o: &Self) -> bool { self.0.same_channel(&o.0) }
    }
    impl<T> UnboundedReceiver<T> {
        pub async fn recv(&mut self) -> Option<T> { std::future::poll_fn(|cx| self.poll_recv(cx)).await }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> { sched_point("mpsc.recv"); self.0.poll_recv(cx) }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { sched_point("mpsc.try_recv"); self.0.try_recv() }
        pub fn close(&mut self) { self.0.close() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn is_closed(&self) -> bool { self.0.is_closed() }
        pub fn len(&self) -> usize { self.0.len() }
        pub async fn recv_many(&mut self, b: &mut Vec<T>, n: usize) -> usize { self.0.recv_many(b, n).await }
    }

    pub struct Sender<T>(real::Sender<T>);
    pub struct Receiver<T>(real::Receiver<T>);
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) { let (a, b) = real::channel(n); (Sender(a), Receiver(b)) }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender(self.0.clone()) } }
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    impl<T> Sender<T> {
        pub async fn send(&self, t: T) -> Result<(), error::SendError<T>> { sched_point("mpsc.send"); self.0.send(t).await }
        pub fn try_send(&self, t: T) -> Result<(), error::TrySendError<T>> { sched_point("mpsc.try_send"); self.0.try_send(t) }
        pub async fn send_timeout(&self, t: T, d: std::time::Duration) -> Result<(), error::SendTimeoutError<T>> {
            match crate::time::timeout(d, self.0.reserve()).await {
                Ok(Ok(p)) => { p.send(t); Ok(()) }
                Ok(Err(_)) => Err(error::SendTimeoutError::Closed(t)),
                Err(_) => Err(error::SendTimeoutError::Timeout(t)),
            }
        }
        pub async fn reserve(&self) -> Result<Permit<'_, T>, error::SendError<()>> { self.0.reserve().await }
        pub fn is_closed(&self) -> bool { self.0.is_closed() }
        pub async fn closed(&self) { self.0.closed().await }
        pub fn capacity(&self) -> usize { self.0.capacity() }
        pub fn max_capacity(&self) -> usize { self.0.max_capacity() }
    }
    impl<T> Receiver<T> {
        pub async fn recv(&mut self) -> Option<T> { std::future::poll_fn(|cx| self.poll_recv(cx)).await }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> { sched_point("mpsc.recv"); self.0.poll_recv(cx) }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { sched_point("mpsc.try_recv"); self.0.try_recv() }
        pub fn close(&mut self) { self.0.close() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn len(&self) -> usize { self.0.len() }
    }
}
