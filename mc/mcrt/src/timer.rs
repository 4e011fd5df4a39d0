use crate::task::{in_world, w};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// Move the virtual clock to the earliest armed timer and fire everything due.
pub fn advance_to_next() {
    let w = w();
    let a = w.timers.keys().next().map(|k| k.0);
    let b = w.guards.keys().next().map(|k| k.0);
    let Some(dl) = [a, b].into_iter().flatten().min() else { return };
    advance_to(dl);
}
/// As above, but deadlines of the harness do not count as events of the system.
pub fn advance_to_next_event() {
    let Some(dl) = w().timers.keys().next().map(|k| k.0) else { return };
    advance_to(dl);
}
fn advance_to(dl: u64) {
    let w = w();
    if dl > w.now {
        w.now = dl;
        crate::sys::set_clock(Some(dl));
    }
    fire_due();
}

pub fn fire_due() {
    loop {
        let w = w();
        let m = if w.timers.keys().next().map(|k| k.0 <= w.now).unwrap_or(false) { &mut w.timers } else { &mut w.guards };
        let Some((&k, _)) = m.iter().next() else { return };
        if k.0 > w.now {
            return;
        }
        let wk = m.remove(&k).unwrap();
        wk.wake();
    }
}

fn map(guard: bool) -> &'static mut std::collections::BTreeMap<(u64, u64), Waker> { let w = w(); if guard { &mut w.guards } else { &mut w.timers } }

pub struct Timer {
    pub deadline: u64,
    key: Option<(u64, u64)>,
    guard: bool,
}

impl Timer {
    pub fn new(deadline: u64) -> Self {
        // tokio's timer has millisecond granularity and never fires early
        let ms = 1_000_000;
        let deadline = deadline.checked_add(ms - 1).map(|d| d / ms * ms).unwrap_or(u64::MAX);
        Timer { deadline, key: None, guard: false }
    }
    pub fn elapsed(&self) -> bool {
        w().now >= self.deadline
    }
    pub fn reset(&mut self, deadline: u64) {
        self.disarm();
        self.deadline = Timer::new(deadline).deadline;
    }
    fn disarm(&mut self) {
        if let Some(k) = self.key.take() {
            if in_world() {
                map(self.guard).remove(&k);
            }
        }
    }
    fn arm(&mut self, waker: &Waker) {
        let _off = crate::heap::untracked();
        let w = w();
        if self.deadline == u64::MAX {
            return; // "never"
        }
        match self.key {
            Some(k) => {
                map(self.guard).insert(k, waker.clone());
            }
            None => {
                w.timer_seq += 1;
                let k = (self.deadline, w.timer_seq);
                self.key = Some(k);
                map(self.guard).insert(k, waker.clone());
            }
        }
    }
    pub fn poll_timer(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if self.elapsed() {
            self.disarm();
            Poll::Ready(())
        } else {
            self.arm(cx.waker());
            Poll::Pending
        }
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        self.disarm();
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.poll_timer(cx)
    }
}

pub fn sleep_ms(ms: u64) -> Timer {
    Timer::new(w().now + ms * 1_000_000)
}

/// A deadline of the harness: fires like a timer, but exploration never lets
/// time pass just to reach it.
pub fn guard_ms(ms: u64) -> Timer {
    let mut t = Timer::new(w().now + ms * 1_000_000);
    t.guard = true;
    t
}
