use mcrt::timer::Timer;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
pub use tokio_instant::Instant;

mod tokio_instant {
    use std::ops::*;
    use std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant { std: std::time::Instant }
    impl Instant {
        pub fn now() -> Self { Instant { std: std::time::Instant::now() } }
        pub fn from_std(std: std::time::Instant) -> Self { Instant { std } }
        pub fn into_std(self) -> std::time::Instant { self.std }
        pub fn duration_since(&self, o: Instant) -> Duration { self.std.saturating_duration_since(o.std) }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.std.saturating_duration_since(o.std) }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.std.checked_duration_since(o.std) }
        pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.std.checked_add(d).map(Instant::from_std) }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.std.checked_sub(d).map(Instant::from_std) }
        pub(crate) fn far_future() -> Instant { Instant::now() + Duration::from_secs(86400 * 365 * 30) }
        pub(crate) fn ns(&self) -> u64 {
            // virtual nanoseconds since the world's time origin
            let now = Instant::now();
            let n = mcrt::now_ns();
            match self.std.checked_duration_since(now.std) {
                Some(d) => n.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64),
                None => n.saturating_sub(now.std.duration_since(self.std).as_nanos() as u64),
            }
        }
    }
    impl From<std::time::Instant> for Instant { fn from(t: std::time::Instant) -> Self { Instant { std: t } } }
    impl From<Instant> for std::time::Instant { fn from(t: Instant) -> Self { t.std } }
    impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant { std: self.std + d } } }
    impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
    impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.std.saturating_duration_since(o.std) } }
    impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant { std: self.std - d } } }
    impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
}

pub struct Sleep { t: Timer, at: Instant }
impl Sleep {
    pub fn deadline(&self) -> Instant { self.at }
    pub fn is_elapsed(&self) -> bool { self.t.elapsed() }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) { self.at = at; self.t.reset(at.ns()); }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { self.t.poll_timer(cx) }
}
pub fn sleep(d: Duration) -> Sleep { sleep_until(Instant::now().checked_add(d).unwrap_or_else(Instant::far_future)) }
pub fn sleep_until(at: Instant) -> Sleep { Sleep { t: Timer::new(at.ns()), at } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }
#[derive(Debug)]
pub struct Interval { next: Instant, period: Duration, m: MissedTickBehavior, sl: Pin<Box<Sleep>> }
impl std::fmt::Debug for Sleep { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sleep") } }
pub fn interval(p: Duration) -> Interval { assert!(p > Duration::new(0, 0), "`period` must be non-zero."); interval_at(Instant::now(), p) }
pub fn interval_at(start: Instant, p: Duration) -> Interval {
    assert!(p > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: start, period: p, m: MissedTickBehavior::Burst, sl: Box::pin(sleep_until(start)) }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant { std::future::poll_fn(|cx| self.poll_tick(cx)).await }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.sl.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let timeout = self.next;
                let now = Instant::now();
                let far = |i: Instant| i.checked_add(self.period).unwrap_or_else(Instant::far_future);
                self.next = if now > timeout + Duration::from_millis(5) {
                    match self.m {
                        MissedTickBehavior::Burst => far(timeout),
                        MissedTickBehavior::Delay => far(now),
                        MissedTickBehavior::Skip => {
                            let p = self.period.as_nanos();
                            let late = (now - timeout).as_nanos() % p;
                            now + Duration::from_nanos((p - late) as u64)
                        }
                    }
                } else { far(timeout) };
                let n = self.next;
                self.sl.as_mut().reset(n);
                Poll::Ready(timeout)
            }
        }
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) { self.m = m }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior { self.m }
    pub fn reset(&mut self) { self.next = Instant::now() + self.period; let n = self.next; self.sl.as_mut().reset(n); }
    pub fn reset_immediately(&mut self) { self.next = Instant::now(); let n = self.next; self.sl.as_mut().reset(n); }
    pub fn period(&self) -> Duration { self.period }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
    impl std::error::Error for Elapsed {}
}
pub struct Timeout<F> { f: F, s: Sleep }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) { return Poll::Ready(Ok(v)); }
        match Pin::new(&mut me.s).poll(cx) { Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))), Poll::Pending => Poll::Pending }
    }
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep(d) } }
pub fn timeout_at<F: std::future::IntoFuture>(d: Instant, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep_until(d) } }
