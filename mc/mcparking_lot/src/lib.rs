pub use mcrt::sync::{Rw as RwLock, RwR as RwLockReadGuard, RwW as RwLockWriteGuard};
#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized> { m: mcrt::sync::Mutex<T> }
pub type MutexGuard<'a, T> = mcrt::sync::MutexGuard<'a, T>;
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { m: mcrt::sync::Mutex::new(t) } }
    pub fn lock(&self) -> MutexGuard<'_, T> { match self.m.lock() { Ok(g) => g, Err(e) => e.into_inner() } }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { self.m.try_lock().ok() }
    pub fn into_inner(self) -> T { match self.m.into_inner() { Ok(g) => g, Err(e) => e.into_inner() } }
    pub fn get_mut(&mut self) -> &mut T { match self.m.get_mut() { Ok(g) => g, Err(e) => e.into_inner() } }
}
