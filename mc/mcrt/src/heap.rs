//! What the code under test keeps in memory: allocations made while tracking is on
//! and not yet freed, on this thread. The simulation's own bookkeeping is left out.
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_usize(&mut self, v: usize) { self.0 = (v as u64 >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15); }
}
type Map = HashMap<usize, (usize, u32, Option<String>), BuildHasherDefault<Id>>;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// there is a map, and this thread is not at work on it
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static MAP: Cell<*mut Map> = const { Cell::new(std::ptr::null_mut()) };
    static ROUND: Cell<u32> = const { Cell::new(0) };
    static WHERE: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn on() -> bool { ON.with(|o| o.get()) && active() }
#[inline]
pub fn active() -> bool { ACTIVE.with(|o| o.get()) }
struct Busy;
fn busy() -> Busy { ACTIVE.with(|o| o.set(false)); Busy }
impl Drop for Busy { fn drop(&mut self) { ACTIVE.with(|o| o.set(true)); } }
pub struct Off(bool);
impl Drop for Off { fn drop(&mut self) { ON.with(|o| o.set(self.0)); } }
/// what is allocated while the guard lives does not count
pub fn untracked() -> Off { Off(ON.with(|o| o.replace(false))) }

fn map() -> &'static mut Map { unsafe { &mut *MAP.with(|m| m.get()) } }
pub fn note_alloc(p: usize, n: usize) {
    let _busy = busy();
    let at = if WHERE.with(|w| w.get()) { Some(std::backtrace::Backtrace::force_capture().to_string()) } else { None };
    map().insert(p, (n, ROUND.with(|r| r.get()), at));
}
pub fn note_free(p: usize) {
    let _busy = busy();
    map().remove(&p);
}

/// Tracking is on while this lives.
pub struct Tracking(());
impl Tracking {
    pub fn start() -> Tracking {
        assert!(MAP.with(|m| m.get()).is_null());
        MAP.with(|m| m.set(Box::into_raw(Box::default())));
        WHERE.with(|w| w.set(std::env::var_os("MC_HEAP_WHERE").is_some()));
        ROUND.with(|r| r.set(0));
        ON.with(|o| o.set(true));
        ACTIVE.with(|o| o.set(true));
        Tracking(())
    }
    pub fn round(&self, r: u32) { ROUND.with(|x| x.set(r)); }
    pub fn live(&self) -> (usize, usize) { let _busy = busy(); (map().values().map(|v| v.0).sum(), map().len()) }
    /// sizes of what round `r` has left
    pub fn left_by(&self, r: u32) -> Vec<usize> {
        let _busy = busy();
        let mut v: Vec<usize> = map().values().filter(|v| v.1 == r).map(|v| v.0).collect();
        v.sort();
        if WHERE.with(|w| w.get()) { for x in map().values().filter(|v| v.1 >= r) { println!("--- {} bytes, round {}\n{}", x.0, r, x.2.as_deref().unwrap_or("")); } }
        v
    }
}
impl Drop for Tracking {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
        ACTIVE.with(|o| o.set(false));
        let p = MAP.with(|m| m.replace(std::ptr::null_mut()));
        drop(unsafe { Box::from_raw(p) });
    }
}
