//! `std` as seen by the code under test: identical, except that locks, atomics,
//! file-system calls and threads are scheduling points of the model checker.
pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub use mcrt::sync::{Condvar, Mutex, MutexGuard};

    pub struct RwLock<T: ?Sized> { l: mcrt::sync::Rw<T> }
    pub type RwLockReadGuard<'a, T> = mcrt::sync::RwR<'a, T>;
    pub type RwLockWriteGuard<'a, T> = mcrt::sync::RwW<'a, T>;
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self { RwLock { l: mcrt::sync::Rw::new(t) } }
        pub fn into_inner(self) -> LockResult<T> { Ok(self.l.into_inner()) }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { Ok(self.l.read()) }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { Ok(self.l.write()) }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { self.l.try_read().ok_or(TryLockError::WouldBlock) }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { self.l.try_write().ok_or(TryLockError::WouldBlock) }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.l.get_mut()) }
    }
    impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
    impl<T> ::std::fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("RwLock{..}") } }

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use mcrt::sched_point;
        macro_rules! at {
            ($n:ident, $t:ty) => {
                #[derive(Debug, Default)]
                pub struct $n(::std::sync::atomic::$n);
                impl $n {
                    pub const fn new(v: $t) -> Self { $n(::std::sync::atomic::$n::new(v)) }
                    pub fn load(&self, o: Ordering) -> $t { sched_point("atomic.load"); self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { sched_point("atomic.store"); self.0.store(v, o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.swap"); self.0.swap(v, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> { sched_point("atomic.cas"); self.0.compare_exchange(a, b, x, y) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, x: Ordering, y: Ordering) -> Result<$t, $t> { sched_point("atomic.cas"); self.0.compare_exchange(a, b, x, y) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, x: Ordering, y: Ordering, f: F) -> Result<$t, $t> { sched_point("atomic.upd"); self.0.fetch_update(x, y, f) }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                }
                impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
            };
        }
        macro_rules! arith {
            ($n:ident, $t:ty) => {
                at!($n, $t);
                impl $n {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.rmw"); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.rmw"); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.rmw"); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.rmw"); self.0.fetch_min(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.rmw"); self.0.fetch_and(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { sched_point("atomic.rmw"); self.0.fetch_or(v, o) }
                }
            };
        }
        arith!(AtomicU64, u64);
        arith!(AtomicI64, i64);
        arith!(AtomicU32, u32);
        arith!(AtomicI32, i32);
        arith!(AtomicU16, u16);
        arith!(AtomicU8, u8);
        arith!(AtomicUsize, usize);
        arith!(AtomicIsize, isize);
        at!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { sched_point("atomic.rmw"); self.0.fetch_or(v, o) }
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { sched_point("atomic.rmw"); self.0.fetch_and(v, o) }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { sched_point("atomic.rmw"); self.0.fetch_xor(v, o) }
        }
    }
}

pub mod fs {
    pub use ::std::fs::*;
    use ::std::io::Result;
    use ::std::path::{Path, PathBuf};
    use mcrt::sched_point;
    pub fn create_dir_all<P: AsRef<Path>>(p: P) -> Result<()> { sched_point("fs.mkdir"); ::std::fs::create_dir_all(p) }
    pub fn create_dir<P: AsRef<Path>>(p: P) -> Result<()> { sched_point("fs.mkdir"); ::std::fs::create_dir(p) }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> { sched_point("fs.unlink"); ::std::fs::remove_file(p) }
    pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> Result<()> { sched_point("fs.rmtree"); ::std::fs::remove_dir_all(p) }
    pub fn remove_dir<P: AsRef<Path>>(p: P) -> Result<()> { sched_point("fs.rmdir"); ::std::fs::remove_dir(p) }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<()> { sched_point("fs.rename"); ::std::fs::rename(p, q) }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<u64> { sched_point("fs.copy"); ::std::fs::copy(p, q) }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> { sched_point("fs.write"); ::std::fs::write(p, c) }
    pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> { sched_point("fs.read"); ::std::fs::read(p) }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> { sched_point("fs.read"); ::std::fs::read_to_string(p) }
    pub fn read_dir<P: AsRef<Path>>(p: P) -> Result<SortedReadDir> {
        sched_point("fs.readdir");
        let mut v: Vec<_> = ::std::fs::read_dir(p)?.collect();
        // directory order is arbitrary in reality; fix one order for replay
        v.sort_by_key(|e| e.as_ref().map(|e| e.file_name()).ok());
        Ok(SortedReadDir(v.into_iter()))
    }
    pub struct SortedReadDir(::std::vec::IntoIter<Result<DirEntry>>);
    impl Iterator for SortedReadDir {
        type Item = Result<DirEntry>;
        fn next(&mut self) -> Option<Self::Item> { self.0.next() }
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> { sched_point("fs.stat"); ::std::fs::metadata(p) }
    pub fn canonicalize<P: AsRef<Path>>(p: P) -> Result<PathBuf> { ::std::fs::canonicalize(p) }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn sleep(_d: ::std::time::Duration) { mcrt::sched_point("thread.sleep") }
    pub fn yield_now() { mcrt::sched_point("thread.yield") }
}
