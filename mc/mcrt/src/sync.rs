//! Blocking primitives with scheduling points, API-compatible with std where
//! the code under test uses them.
use crate::task::{block_on_addr, sched_point, wake_addr};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

/// Raw reader/writer lock state; single-threaded worlds, so plain cells.
pub struct RawRw {
    st: Cell<i64>, // -1 writer, n readers
}
impl RawRw {
    pub const fn new() -> Self { RawRw { st: Cell::new(0) } }
    pub fn try_read(&self) -> bool { if self.st.get() >= 0 { self.st.set(self.st.get() + 1); true } else { false } }
    pub fn try_write(&self) -> bool { if self.st.get() == 0 { self.st.set(-1); true } else { false } }
    pub fn read(&self, k: &'static str) {
        sched_point(k);
        while !self.try_read() { block_on_addr(self as *const _ as usize, k); }
    }
    pub fn write(&self, k: &'static str) {
        sched_point(k);
        while !self.try_write() { block_on_addr(self as *const _ as usize, k); }
    }
    pub fn unlock_read(&self) { self.st.set(self.st.get() - 1); wake_addr(self as *const _ as usize); }
    pub fn unlock_write(&self) { self.st.set(0); wake_addr(self as *const _ as usize); }
    pub fn downgrade(&self) { self.st.set(1); wake_addr(self as *const _ as usize); }
    pub fn state(&self) -> i64 { self.st.get() }
}
unsafe impl Send for RawRw {}
unsafe impl Sync for RawRw {}

pub struct Mutex<T: ?Sized> { raw: RawRw, poison: Cell<bool>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T>, panicking: bool, _ns: std::marker::PhantomData<*const ()> }
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { raw: RawRw::new(), poison: Cell::new(false), data: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.get();
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> MutexGuard<'_, T> { MutexGuard { m: self, panicking: std::thread::panicking(), _ns: std::marker::PhantomData } }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.write("mutex");
        if self.poison.get() { Err(PoisonError::new(self.guard())) } else { Ok(self.guard()) }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched_point("try_lock");
        if self.raw.try_write() {
            if self.poison.get() { Err(TryLockError::Poisoned(PoisonError::new(self.guard()))) } else { Ok(self.guard()) }
        } else { Err(TryLockError::WouldBlock) }
    }
    pub fn is_poisoned(&self) -> bool { self.poison.get() }
    pub fn clear_poison(&self) { self.poison.set(false) }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poison.get();
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex{..}") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() { self.m.poison.set(true); }
        self.m.raw.unlock_write();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

pub struct Condvar(());
impl Condvar {
    pub const fn new() -> Self { Condvar(()) }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        drop(g);
        block_on_addr(self as *const _ as usize, "condvar");
        m.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn notify_all(&self) { wake_addr(self as *const _ as usize) }
    pub fn notify_one(&self) { wake_addr(self as *const _ as usize) }
}
impl Default for Condvar { fn default() -> Self { Self::new() } }

/// RwLock core without poisoning; std and parking_lot flavours wrap it.
pub struct Rw<T: ?Sized> { pub raw: RawRw, pub data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Rw<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for Rw<T> {}
pub struct RwR<'a, T: ?Sized> { l: &'a Rw<T>, _ns: std::marker::PhantomData<*const ()> }
pub struct RwW<'a, T: ?Sized> { l: &'a Rw<T>, _ns: std::marker::PhantomData<*const ()> }
unsafe impl<T: ?Sized + Sync> Sync for RwR<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwW<'_, T> {}
impl<T> Rw<T> {
    pub const fn new(t: T) -> Self { Rw { raw: RawRw::new(), data: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> T { self.data.into_inner() }
}
impl<T: ?Sized> Rw<T> {
    pub fn read(&self) -> RwR<'_, T> { self.raw.read("rw.read"); RwR { l: self, _ns: std::marker::PhantomData } }
    pub fn write(&self) -> RwW<'_, T> { self.raw.write("rw.write"); RwW { l: self, _ns: std::marker::PhantomData } }
    pub fn try_read(&self) -> Option<RwR<'_, T>> { sched_point("rw.try"); if self.raw.try_read() { Some(RwR { l: self, _ns: std::marker::PhantomData }) } else { None } }
    pub fn try_write(&self) -> Option<RwW<'_, T>> { sched_point("rw.try"); if self.raw.try_write() { Some(RwW { l: self, _ns: std::marker::PhantomData }) } else { None } }
    pub fn get_mut(&mut self) -> &mut T { self.data.get_mut() }
}
impl<T: Default> Default for Rw<T> { fn default() -> Self { Rw::new(T::default()) } }
impl<T: ?Sized> fmt::Debug for Rw<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock{..}") } }
impl<T: ?Sized> Deref for RwR<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.data.get() } } }
impl<T: ?Sized> Deref for RwW<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.data.get() } } }
impl<T: ?Sized> DerefMut for RwW<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.data.get() } } }
impl<T: ?Sized> Drop for RwR<'_, T> { fn drop(&mut self) { self.l.raw.unlock_read() } }
impl<T: ?Sized> Drop for RwW<'_, T> { fn drop(&mut self) { self.l.raw.unlock_write() } }
