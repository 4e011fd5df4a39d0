//! Storage layer: every file-system mutation performed by the code under test
//! is recorded (for crash-point enumeration), may be made to fail (fault
//! injection), and is confined: a mutation outside the scratch root is recorded
//! and refused, never performed.
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, off_t, size_t, ssize_t};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IoOp {
    Create(String),
    Write { path: String, off: u64, data: Vec<u8> },
    Truncate { path: String, len: u64 },
    Rename { from: String, to: String },
    Unlink(String),
    Mkdir(String),
    Rmdir(String),
    /// harness marker
    Mark(u64),
}

#[derive(Clone, Debug)]
struct FdInfo {
    path: String,
    dead: bool,
    append: bool,
    /// the next write fails
    full: bool,
}

#[derive(Default, Clone, Debug)]
pub struct IoState {
    pub root: PathBuf,
    pub log_on: bool,
    pub mtime: bool,
    pub log: Vec<IoOp>,
    /// virtual time of each entry of the log
    pub times: Vec<u64>,
    pub escapes: Vec<String>,
    /// paths (relative) matching this substring are never logged
    pub skip: Vec<&'static str>,
    fds: HashMap<c_int, FdInfo>,
    pub faults_on: bool,
    pub faults: Vec<String>,
    /// opening and reading files may fail too
    pub fault_reads: bool,
    /// a write may fail half way
    pub fault_torn: bool,
    /// when set: every matching mutation fails until cleared
    pub fail_all: bool,
    frozen: Option<usize>,
    pub mutations: u64,
}

impl IoState {
    pub fn new(root: &Path) -> Self {
        IoState { root: root.to_path_buf(), log_on: false, mtime: true, skip: vec!["-shm"], ..Default::default() }
    }
}

thread_local! {
    static IO: Cell<*mut IoState> = const { Cell::new(std::ptr::null_mut()) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub(crate) fn install(s: IoState) {
    IO.with(|c| c.set(Box::into_raw(Box::new(s))));
}
pub(crate) fn freeze_log() -> usize {
    io().map(|i| { i.frozen = Some(i.log.len()); i.log.len() }).unwrap_or(0)
}
pub(crate) fn uninstall(stop: usize) -> IoState {
    let p = IO.with(|c| c.replace(std::ptr::null_mut()));
    let mut s = *unsafe { Box::from_raw(p) };
    s.log.truncate(stop);
    s.times.truncate(stop);
    s
}
fn io() -> Option<&'static mut IoState> {
    let p = IO.with(|c| c.get());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}
pub fn with_io<R>(f: impl FnOnce(&mut IoState) -> R) -> R {
    f(io().expect("no io state"))
}
pub fn mark(v: u64) {
    if let Some(i) = io() {
        if i.log_on { i.log.push(IoOp::Mark(v)); i.times.push(crate::sys::clock().unwrap_or(0)); }
    }
}
pub fn set_faults(on: bool) {
    if let Some(i) = io() { i.faults_on = on; if !on { i.fail_all = false; } }
}
pub fn set_fault_kinds(reads: bool, torn: bool) {
    if let Some(i) = io() { i.fault_reads = reads; i.fault_torn = torn; }
}
pub fn set_log(on: bool) {
    if let Some(i) = io() { i.log_on = on; }
}

/// files opened for writing and not closed
pub fn open_files() -> Vec<String> {
    let mut v: Vec<String> = io().map(|i| i.fds.values().map(|f| f.path.clone()).collect()).unwrap_or_default();
    v.sort();
    v
}

fn errno(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e; }
    -1
}

/// lexical absolute path
fn absolutize(p: &Path) -> PathBuf {
    let base = if p.is_absolute() { PathBuf::new() } else { std::env::current_dir().unwrap_or_default() };
    let mut out = PathBuf::from("/");
    for c in base.join(p).components() {
        match c {
            std::path::Component::ParentDir => { out.pop(); }
            std::path::Component::Normal(n) => out.push(n),
            _ => {}
        }
    }
    out
}

enum Where { In(String), Out }

fn classify(i: &mut IoState, dirfd: c_int, path: *const c_char, what: &str) -> Where {
    let s = unsafe { CStr::from_ptr(path) }.to_string_lossy().to_string();
    let p = Path::new(&s);
    let abs = if p.is_absolute() || dirfd == libc::AT_FDCWD {
        absolutize(p)
    } else {
        let d = std::fs::read_link(format!("/proc/thread-self/fd/{}", dirfd)).unwrap_or_else(|_| PathBuf::from("/?"));
        absolutize(&d.join(p))
    };
    match abs.strip_prefix(&i.root) {
        Ok(r) => {
            // the root itself may be touched, not removed
            Where::In(r.to_string_lossy().to_string())
        }
        Err(_) => {
            let a = abs.to_string_lossy().to_string();
            if a == "/dev/null" || a.starts_with("/proc/") { return Where::Out; }
            if i.escapes.len() < 100 { i.escapes.push(format!("{} {}", what, a)); }
            Where::Out
        }
    }
}

fn skip(i: &IoState, p: &str) -> bool { i.skip.iter().any(|s| p.contains(s)) }

fn push(i: &mut IoState, op: IoOp) {
    i.mutations += 1;
    if i.log_on && i.frozen.is_none() { i.log.push(op); i.times.push(crate::sys::clock().unwrap_or(0)); }
}

/// true = inject a failure here
fn fault(i: &mut IoState, what: &str, path: &str) -> bool { fault_kind(i, what, path, 2) != 0 }
fn fault_kind(i: &mut IoState, what: &str, path: &str, n: usize) -> usize {
    if i.fail_all { return 1; }
    if !i.faults_on || !crate::task::in_world() || skip(i, path) { return 0; }
    let v = crate::task::choose_cost(n, 1, "fault");
    if v != 0 { i.faults.push(format!("{}{} {}", what, if v == 2 { " (half of it)" } else { "" }, path)); }
    v
}

struct Busy;
impl Busy {
    fn enter() -> Option<Busy> {
        BUSY.with(|b| if b.get() { None } else { b.set(true); Some(Busy) })
    }
}
impl Drop for Busy { fn drop(&mut self) { BUSY.with(|b| b.set(false)); } }

unsafe fn raw_openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    ret(libc::syscall(libc::SYS_openat, dirfd as c_long, path, (flags | libc::O_LARGEFILE) as c_long, mode as c_long)) as c_int
}
fn ret(r: c_long) -> c_long { r }

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let Some(i) = io() else { return raw_openat(dirfd, path, flags, mode) };
    let Some(_b) = Busy::enter() else { return raw_openat(dirfd, path, flags, mode) };
    let acc = flags & libc::O_ACCMODE;
    let mutating = acc != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if !mutating {
        if !i.fault_reads || !i.faults_on { return raw_openat(dirfd, path, flags, mode); }
        let rel = match classify_quiet(i, dirfd, path) { Some(r) if i.root.join(&r).is_file() => r, _ => return raw_openat(dirfd, path, flags, mode) };
        if fault(i, "open", &rel) { return errno(libc::EMFILE); }
        let fd = raw_openat(dirfd, path, flags, mode);
        if fd >= 0 { i.fds.insert(fd, FdInfo { path: rel, dead: false, append: false, full: false }); }
        return fd;
    }
    match classify(i, dirfd, path, "open-for-write") {
        Where::Out => {
            let s = CStr::from_ptr(path).to_string_lossy();
            if s == "/dev/null" || s.starts_with("/proc/") { return raw_openat(dirfd, path, flags, mode); }
            errno(libc::EACCES)
        }
        Where::In(rel) => {
            let full = i.root.join(&rel);
            let existed = full.exists();
            if flags & libc::O_CREAT != 0 && !existed && fault(i, "create", &rel) { return errno(libc::ENOSPC); }
            if i.fault_reads && existed && fault(i, "open", &rel) { return errno(libc::EMFILE); }
            let fd = raw_openat(dirfd, path, flags, mode);
            if fd >= 0 {
                if !existed && flags & libc::O_CREAT != 0 {
                    if !skip(i, &rel) { push(i, IoOp::Create(rel.clone())); }
                } else if flags & libc::O_TRUNC != 0 && !skip(i, &rel) {
                    push(i, IoOp::Truncate { path: rel.clone(), len: 0 });
                }
                if i.mtime && (!existed || flags & libc::O_TRUNC != 0) { touch(fd); }
                i.fds.insert(fd, FdInfo { path: rel, dead: false, append: flags & libc::O_APPEND != 0, full: false });
            }
            fd
        }
    }
}

unsafe fn touch(fd: c_int) {
    if let Some(now) = crate::sys::clock() {
        let t = libc::timespec { tv_sec: (crate::sys::REAL_BASE_S + now / 1_000_000_000) as _, tv_nsec: (now % 1_000_000_000) as _ };
        let ts = [t, t];
        libc::syscall(libc::SYS_utimensat, fd as c_long, std::ptr::null::<c_char>(), ts.as_ptr(), 0 as c_long);
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(d, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(d, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: c_uint) -> c_int { do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(i) = io() { i.fds.remove(&fd); }
    libc::syscall(libc::SYS_close, fd as c_long) as c_int
}

unsafe fn raw_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: i64) -> ssize_t {
    libc::syscall(libc::SYS_pwrite64, fd as c_long, buf, n, off) as ssize_t
}
unsafe fn raw_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    libc::syscall(libc::SYS_write, fd as c_long, buf, n) as ssize_t
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<i64>) -> ssize_t {
    let raw = |n: size_t| match off { Some(o) => raw_pwrite(fd, buf, n, o), None => raw_write(fd, buf, n) };
    let Some(i) = io() else { return raw(n) };
    let Some(_b) = Busy::enter() else { return raw(n) };
    let Some(info) = i.fds.get(&fd).cloned() else { return raw(n) };
    if info.full {
        if let Some(f) = i.fds.get_mut(&fd) { f.full = false; }
        return errno(libc::ENOSPC) as ssize_t;
    }
    let mut n = n;
    match fault_kind(i, "write", &info.path, if i.fault_torn && n > 1 { 3 } else { 2 }) {
        0 => {}
        1 => return errno(libc::ENOSPC) as ssize_t,
        _ => {
            n /= 2;
            if let Some(f) = i.fds.get_mut(&fd) { f.full = true; }
        }
    }
    let at = match off {
        Some(o) => o as u64,
        None => {
            if info.append {
                let mut st: libc::stat64 = std::mem::zeroed();
                libc::fstat64(fd, &mut st);
                st.st_size as u64
            } else {
                libc::syscall(libc::SYS_lseek, fd as c_long, 0 as c_long, libc::SEEK_CUR as c_long) as u64
            }
        }
    };
    let r = raw(n);
    if r > 0 {
        if !info.dead && !skip(i, &info.path) {
            i.mutations += 1;
            if i.log_on && i.frozen.is_none() {
                let data = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
                i.log.push(IoOp::Write { path: info.path.clone(), off: at, data });
                i.times.push(crate::sys::clock().unwrap_or(0));
            }
        }
        if i.mtime && info.path.ends_with(".log") { touch(fd); }
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t { do_write(fd, buf, n, None) }
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t { do_write(fd, buf, n, Some(off)) }
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t { do_write(fd, buf, n, Some(off)) }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if io().is_none() {
        return libc::syscall(libc::SYS_writev, fd as c_long, iov, cnt as c_long) as ssize_t;
    }
    let mut tot = 0;
    for k in 0..cnt as usize {
        let v = &*iov.add(k);
        if v.iov_len == 0 { continue; }
        let r = do_write(fd, v.iov_base, v.iov_len, None);
        if r < 0 { return if tot > 0 { tot } else { r }; }
        tot += r;
        if (r as usize) < v.iov_len { break; }
    }
    tot
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let raw = || libc::syscall(libc::SYS_read, fd as c_long, buf, n) as ssize_t;
    let Some(i) = io() else { return raw() };
    if !i.fault_reads || !i.faults_on { return raw(); }
    let Some(_b) = Busy::enter() else { return raw() };
    let Some(info) = i.fds.get(&fd).cloned() else { return raw() };
    if fault(i, "read", &info.path) { return errno(libc::EIO) as ssize_t; }
    raw()
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    let raw = || libc::syscall(libc::SYS_pread64, fd as c_long, buf, n, off) as ssize_t;
    let Some(i) = io() else { return raw() };
    if !i.fault_reads || !i.faults_on { return raw(); }
    let Some(_b) = Busy::enter() else { return raw() };
    let Some(info) = i.fds.get(&fd).cloned() else { return raw() };
    if fault(i, "read", &info.path) { return errno(libc::EIO) as ssize_t; }
    raw()
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t { do_pread(fd, buf, n, off) }
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t { do_pread(fd, buf, n, off) }

unsafe fn do_ftruncate(fd: c_int, len: i64) -> c_int {
    let raw = || libc::syscall(libc::SYS_ftruncate, fd as c_long, len as c_long) as c_int;
    let Some(i) = io() else { return raw() };
    let Some(_b) = Busy::enter() else { return raw() };
    let Some(info) = i.fds.get(&fd).cloned() else { return raw() };
    if fault(i, "truncate", &info.path) { return errno(libc::EIO); }
    let r = raw();
    if r == 0 && i.mtime && info.path.ends_with(".log") { touch(fd); }
    if r == 0 && !info.dead && !skip(i, &info.path) {
        push(i, IoOp::Truncate { path: info.path, len: len as u64 });
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int { do_ftruncate(fd, len) }
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int { do_ftruncate(fd, len) }

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if io().is_some() { return 0; }
    libc::syscall(libc::SYS_fsync, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if io().is_some() { return 0; }
    libc::syscall(libc::SYS_fdatasync, fd as c_long) as c_int
}

unsafe fn do_rename(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_renameat, d1 as c_long, from, d2 as c_long, to) as c_int;
    let Some(i) = io() else { return raw() };
    let Some(_b) = Busy::enter() else { return raw() };
    let a = classify(i, d1, from, "rename-from");
    let b = classify(i, d2, to, "rename-to");
    match (a, b) {
        (Where::In(a), Where::In(b)) => {
            if fault(i, "rename", &b) { return errno(libc::EIO); }
            let r = raw();
            if r == 0 {
                for f in i.fds.values_mut() {
                    if f.path == b { f.dead = true; }
                }
                for f in i.fds.values_mut() {
                    if f.path == a && !f.dead { f.path = b.clone(); }
                    else if let Some(rest) = f.path.strip_prefix(&format!("{}/", a)) { f.path = format!("{}/{}", b, rest); }
                }
                push(i, IoOp::Rename { from: a, to: b });
            }
            r
        }
        _ => errno(libc::EACCES),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int { do_rename(libc::AT_FDCWD, from, libc::AT_FDCWD, to) }
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char) -> c_int { do_rename(d1, from, d2, to) }
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, from: *const c_char, d2: c_int, to: *const c_char, _f: c_uint) -> c_int { do_rename(d1, from, d2, to) }

unsafe fn do_unlink(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    let raw = || libc::syscall(libc::SYS_unlinkat, d as c_long, path, flags as c_long) as c_int;
    let Some(i) = io() else { return raw() };
    let Some(_b) = Busy::enter() else { return raw() };
    let dir = flags & libc::AT_REMOVEDIR != 0;
    match classify(i, d, path, if dir { "rmdir" } else { "unlink" }) {
        Where::In(rel) if rel.is_empty() => {
            i.escapes.push("rmdir <scratch root>".into());
            errno(libc::EACCES)
        }
        Where::In(rel) => {
            if !dir && fault(i, "unlink", &rel) { return errno(libc::EIO); }
            let r = raw();
            if r == 0 {
                for f in i.fds.values_mut() { if f.path == rel { f.dead = true; } }
                if dir { push(i, IoOp::Rmdir(rel)); } else if !skip(i, &rel) { push(i, IoOp::Unlink(rel)); }
            }
            r
        }
        Where::Out => errno(libc::EACCES),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int { do_unlink(libc::AT_FDCWD, path, 0) }
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int { do_unlink(d, path, flags) }
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int { do_unlink(libc::AT_FDCWD, path, libc::AT_REMOVEDIR) }
#[no_mangle]
pub unsafe extern "C" fn remove(path: *const c_char) -> c_int {
    let r = do_unlink(libc::AT_FDCWD, path, 0);
    if r != 0 && *libc::__errno_location() == libc::EISDIR { return do_unlink(libc::AT_FDCWD, path, libc::AT_REMOVEDIR); }
    r
}

unsafe fn do_mkdir(d: c_int, path: *const c_char, mode: mode_t) -> c_int {
    let raw = || libc::syscall(libc::SYS_mkdirat, d as c_long, path, mode as c_long) as c_int;
    let Some(i) = io() else { return raw() };
    let Some(_b) = Busy::enter() else { return raw() };
    // asking for a directory that exists is not a mutation
    match classify_quiet(i, d, path) {
        Some(rel) => {
            if i.root.join(&rel).exists() { return errno(libc::EEXIST); }
            if fault(i, "mkdir", &rel) { return errno(libc::ENOSPC); }
            let r = raw();
            if r == 0 { push(i, IoOp::Mkdir(rel)); }
            r
        }
        None => {
            let s = CStr::from_ptr(path).to_string_lossy().to_string();
            if d == libc::AT_FDCWD && Path::new(&s).exists() { return errno(libc::EEXIST); }
            let _ = classify(i, d, path, "mkdir");
            errno(libc::EACCES)
        }
    }
}
fn classify_quiet(i: &mut IoState, d: c_int, path: *const c_char) -> Option<String> {
    let n = i.escapes.len();
    match classify(i, d, path, "mkdir") {
        Where::In(r) => Some(r),
        Where::Out => { i.escapes.truncate(n); None }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int { do_mkdir(libc::AT_FDCWD, path, mode) }
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, mode: mode_t) -> c_int { do_mkdir(d, path, mode) }

unsafe fn two(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, what: &str, nr: c_long, flags: c_int) -> c_int {
    let raw = || {
        if nr == libc::SYS_symlinkat { libc::syscall(nr, a, d2 as c_long, b) as c_int }
        else { libc::syscall(nr, d1 as c_long, a, d2 as c_long, b, flags as c_long) as c_int }
    };
    let Some(i) = io() else { return raw() };
    let Some(_b) = Busy::enter() else { return raw() };
    match classify(i, d2, b, what) { Where::In(_) => raw(), Where::Out => errno(libc::EACCES) }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int { two(libc::AT_FDCWD, a, libc::AT_FDCWD, b, "link", libc::SYS_linkat, 0) }
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int { two(d1, a, d2, b, "link", libc::SYS_linkat, f) }
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int { two(libc::AT_FDCWD, a, libc::AT_FDCWD, b, "symlink", libc::SYS_symlinkat, 0) }

// copy through the kernel would bypass the log: force the read/write fallback
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, x: *mut off64_t, b: c_int, y: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if io().is_some() { return errno(libc::ENOSYS) as ssize_t; }
    libc::syscall(libc::SYS_copy_file_range, a as c_long, x, b as c_long, y, n, f as c_long) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if io().is_some() { return errno(libc::EINVAL) as ssize_t; }
    libc::syscall(libc::SYS_sendfile, a as c_long, b as c_long, o, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    let raw = || libc::syscall(libc::SYS_truncate, path, len as c_long) as c_int;
    let Some(i) = io() else { return raw() };
    let Some(_b) = Busy::enter() else { return raw() };
    match classify(i, libc::AT_FDCWD, path, "truncate") {
        Where::In(rel) => { let r = raw(); if r == 0 { push(i, IoOp::Truncate { path: rel, len: len as u64 }); } r }
        Where::Out => errno(libc::EACCES),
    }
}

/// Re-create in `dir` the storage state after `ops` (a prefix of a log), the
/// last write optionally torn to `torn` bytes.
pub fn materialize(dir: &Path, ops: &[IoOp], torn: Option<usize>) { materialize_at(dir, ops, &[], torn) }
/// Same; `.log` files get the (virtual) modification times they had.
pub fn materialize_at(dir: &Path, ops: &[IoOp], times: &[u64], torn: Option<usize>) {
    let mut mtimes: HashMap<String, u64> = HashMap::new();
    use std::collections::BTreeMap;
    enum Node { Dir, File(Vec<u8>) }
    let mut fs: BTreeMap<String, Node> = BTreeMap::new();
    let n = ops.len();
    for (k, op) in ops.iter().enumerate() {
        if let (Some(t), IoOp::Create(p) | IoOp::Write { path: p, .. } | IoOp::Truncate { path: p, .. }) = (times.get(k), op) { if p.ends_with(".log") { mtimes.insert(p.clone(), *t); } }
        match op {
            IoOp::Create(p) => { fs.insert(p.clone(), Node::File(vec![])); }
            IoOp::Write { path, off, data } => {
                let data: &[u8] = if k + 1 == n { match torn { Some(t) => &data[..t.min(data.len())], None => data } } else { data };
                let e = fs.entry(path.clone()).or_insert(Node::File(vec![]));
                if let Node::File(f) = e {
                    let end = *off as usize + data.len();
                    if !data.is_empty() {
                        if f.len() < end { f.resize(end, 0); }
                        f[*off as usize..end].copy_from_slice(data);
                    }
                }
            }
            IoOp::Truncate { path, len } => {
                if let Some(Node::File(f)) = fs.get_mut(path) { f.resize(*len as usize, 0); }
            }
            IoOp::Rename { from, to } => {
                if let Some(x) = fs.remove(from) { fs.insert(to.clone(), x); }
                let pre = format!("{}/", from);
                let moved: Vec<String> = fs.keys().filter(|k| k.starts_with(&pre)).cloned().collect();
                for m in moved { let x = fs.remove(&m).unwrap(); fs.insert(format!("{}/{}", to, &m[pre.len()..]), x); }
            }
            IoOp::Unlink(p) | IoOp::Rmdir(p) => { fs.remove(p); }
            IoOp::Mkdir(p) => { fs.insert(p.clone(), Node::Dir); }
            IoOp::Mark(_) => {}
        }
    }
    for (p, n) in &fs { if let Node::Dir = n { std::fs::create_dir_all(dir.join(p)).expect("mk"); } }
    for (p, n) in &fs {
        if let Node::File(f) = n {
            let full = dir.join(p);
            if let Some(par) = full.parent() { std::fs::create_dir_all(par).expect("mk"); }
            std::fs::write(&full, f).expect("write image");
            if let Some(t) = mtimes.get(p) {
                use std::os::unix::ffi::OsStrExt;
                let ts = libc::timespec { tv_sec: (crate::sys::REAL_BASE_S + t / 1_000_000_000) as _, tv_nsec: (t % 1_000_000_000) as _ };
                let c = std::ffi::CString::new(full.as_os_str().as_bytes()).unwrap();
                unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), 0); }
            }
        }
    }
}
