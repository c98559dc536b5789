//! Interposition of the system calls the library uses for file I/O: records them, and injects
//! faults chosen by the explorer. Only active on a thread between `start` and `stop`.
#![allow(dead_code)]
use libc::{c_int, c_void, off64_t, size_t, ssize_t};
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fault { Short1, ShortHalf, ShortAll1, Eintr, Enospc, Eio, Zero, Errno(c_int) }
#[derive(Clone, Debug)]
pub enum Ev { Read { fd: i32, req: usize, got: isize }, Write { fd: i32, pos: u64, data: Vec<u8>, ret: isize }, Seek { fd: i32, ret: i64 }, Trunc { fd: i32, len: u64 } }

#[derive(Default)]
pub struct Shim {
    pub log: Vec<Ev>,
    pub record: bool,
    /// ordinal of the next interposed call (reads, writes, seeks)
    pub n: u64,
    /// (ordinal, fault)
    pub plan: Vec<(u64, Fault)>,
    /// apply `ShortAll1`-like behaviour to every call
    pub always: Option<Fault>,
    pub hits: u64,
    /// kind of each call: 'r','w','s'
    pub kinds: Vec<(char, usize)>,
    /// every other transfer is interrupted
    pub alt_eintr: bool,
    pub alt_state: bool,
    /// every transfer from this ordinal on fails that way
    pub from: Option<(u64, Fault)>,
    /// (first, how many, fault): so many transfers in a row
    pub burst: Option<(u64, u64, Fault)>,
    /// nothing reaches the file system: the writes are kept as runs (see `Virt`)
    pub virt: Option<Virt>,
    /// ordinal of the next system call of any interposed kind
    pub calls: u64,
    /// actions of the environment: (ordinal of the system call they precede, action)
    pub env: Vec<(u64, Box<dyn FnMut() -> ()>)>,
    /// faults of open and stat: (ordinal among them, errno)
    pub meta_n: u64,
    pub meta_plan: Option<(u64, c_int)>,
    /// no memory is used for the calls (neither `log` nor `kinds`): `bytes_read`, `bytes_written` and `n` only
    pub count_only: bool,
    pub bytes_read: u64,
    pub bytes_written: u64,
}
/// A virtual file: runs of 8-byte patterns (huge ones stay small) or raw bytes, in the order they were written.
#[derive(Default)]
pub struct Virt { pub pos: u64, pub end: u64, pub runs: Vec<Run> }
pub struct Run { pub start: u64, pub end: u64, pub what: What }
#[derive(PartialEq, Eq, Clone, Debug)]
pub enum What { /// byte at `start + i` is `p[i % 8]`
    Pat([u8; 8]), Raw(Vec<u8>) }
impl Virt {
    fn write(&mut self, at: u64, b: &[u8]) {
        let n = b.len();
        if n == 0 { return; }
        let pat: Option<[u8; 8]> = match n {
            1 | 2 | 4 | 8 => { let mut p = [0; 8]; for i in 0..8 { p[i] = b[i % n]; } Some(p) }
            n if n > 8 && (8..n).all(|i| b[i] == b[i - 8]) => Some(b[..8].try_into().unwrap()),
            _ => None,
        };
        self.end = self.end.max(at + n as u64);
        if let (Some(p), Some(last)) = (pat, self.runs.last_mut()) {
            if last.end == at {
                if let What::Pat(q) = &last.what {
                    let k = ((at - last.start) % 8) as usize;
                    if (0..8).all(|i| q[(k + i) % 8] == p[i]) { last.end += n as u64; return; }
                }
            }
        }
        self.runs.push(Run { start: at, end: at + n as u64, what: match pat { Some(p) => What::Pat(p), None => What::Raw(b.to_vec()) } });
    }
    /// The final content as disjoint intervals, in order.
    pub fn content(&self) -> std::collections::BTreeMap<u64, (u64, usize)> {
        let mut m: std::collections::BTreeMap<u64, (u64, usize)> = Default::default(); // start -> (end, run)
        for (i, r) in self.runs.iter().enumerate() {
            let over: Vec<(u64, (u64, usize))> = m.range(..r.end).rev().take_while(|x| x.1 .0 > r.start).map(|x| (*x.0, *x.1)).collect();
            for (s, (e, k)) in over { m.remove(&s); if s < r.start { m.insert(s, (r.start, k)); } if e > r.end { m.insert(r.end, (e, k)); } }
            m.insert(r.start, (r.end, i));
        }
        m
    }
    fn byte(&self, k: usize, at: u64) -> u8 { let r = &self.runs[k]; match &r.what { What::Pat(p) => p[((at - r.start) % 8) as usize], What::Raw(b) => b[(at - r.start) as usize] } }
    /// `Err(offset)` of the first byte of [at, at+len) which is not the repetition of `pat` (or was never written).
    pub fn check(&self, m: &std::collections::BTreeMap<u64, (u64, usize)>, at: u64, len: u64, pat: &[u8]) -> Result<(), u64> {
        let mut p = at;
        while p < at + len {
            let (e, k) = match m.range(..=p).next_back() { Some((_, (e, k))) if *e > p => (*e, *k), _ => return Err(p) };
            let e = e.min(at + len);
            // patterns are periodic: 8 * pat.len() bytes decide
            let n = match &self.runs[k].what { What::Pat(_) => (e - p).min(8 * pat.len() as u64), What::Raw(_) => e - p };
            for i in 0..n { if self.byte(k, p + i) != pat[((p + i - at) % pat.len() as u64) as usize] { return Err(p + i); } }
            p = e;
        }
        Ok(())
    }
}
thread_local! { static CUR: Cell<*mut Shim> = const { Cell::new(std::ptr::null_mut()) }; }

pub fn start(s: &mut Shim) { CUR.with(|c| c.set(s as *mut Shim)); }
pub fn stop() { CUR.with(|c| c.set(std::ptr::null_mut())); }
pub fn reset() { stop() }
/// Runs `f` under the shim.
pub fn with<T>(s: &mut Shim, f: impl FnOnce() -> T) -> T {
    struct G; impl Drop for G { fn drop(&mut self) { stop(); } }
    start(s); let _g = G; f()
}
fn cur() -> Option<&'static mut Shim> { CUR.try_with(|c| { let p = c.get(); if p.is_null() { None } else { Some(unsafe { &mut *p }) } }).unwrap_or(None) }
/// The environment acts before the system call.
fn env_point() {
    if let Some(s) = cur() {
        let k = s.calls; s.calls += 1;
        if s.env.is_empty() { return; }
        let sp = s as *mut Shim;
        stop();
        for e in unsafe { (*sp).env.iter_mut() } { if e.0 == k { e.0 = u64::MAX; (e.1)() } } // once, even when `calls` is set back
        CUR.with(|c| c.set(sp));
    }
}
/// `true`: an open or stat call must fail (errno is set).
fn meta_fault() -> bool {
    if let Some(s) = cur() {
        let k = s.meta_n; s.meta_n += 1;
        if let Some((a, e)) = s.meta_plan { if a == k { s.hits += 1; unsafe { errno(e); } return true; } }
    }
    false
}
unsafe fn errno(e: c_int) { *libc::__errno_location() = e; }

impl Shim {
    fn fault(&mut self, kind: char, len: usize) -> Option<Fault> {
        let k = self.n; self.n += 1;
        if self.virt.is_some() { return None; }
        if !self.count_only { self.kinds.push((kind, len)); }
        if self.alt_eintr && kind != 's' { self.alt_state = !self.alt_state; if self.alt_state { self.hits += 1; return Some(Fault::Eintr); } }
        if let Some((a, f)) = self.from { if k >= a && kind != 's' { self.hits += 1; return Some(f); } }
        if let Some((a, l, f)) = self.burst { if k >= a && k < a + l && kind != 's' { self.hits += 1; return Some(f); } }
        if let Some(f) = self.plan.iter().find(|p| p.0 == k).map(|p| p.1) { self.hits += 1; return Some(f); }
        self.always
    }
}
unsafe fn raw_pos(fd: c_int) -> u64 { libc::syscall(libc::SYS_lseek, fd, 0 as libc::c_long, libc::SEEK_CUR) as u64 }
fn shorten(f: Fault, n: usize) -> usize { match f { Fault::Short1 | Fault::ShortAll1 => n.min(1), Fault::ShortHalf => (n + 1) / 2, _ => n } }

/// What to do with a transfer of `n` bytes: `Err(return value)` or `Ok(shortened length)`.
unsafe fn plan_transfer(s: &mut Shim, kind: char, n: usize) -> Result<usize, ssize_t> {
    match s.fault(kind, n) {
        None => Ok(n),
        Some(Fault::Eintr) => { errno(libc::EINTR); Err(-1) }
        Some(Fault::Enospc) => { errno(if kind == 'w' { libc::ENOSPC } else { libc::EIO }); Err(-1) }
        Some(Fault::Eio) => { errno(libc::EIO); Err(-1) }
        Some(Fault::Zero) => Err(0),
        Some(Fault::Errno(e)) => { errno(e); Err(-1) }
        Some(f) => Ok(shorten(f, n)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    yield_point();
    env_point();
    let mut n2 = n;
    if let Some(s) = cur() { match plan_transfer(s, 'r', n) { Ok(m) => n2 = m, Err(r) => return r } }
    let r = libc::syscall(libc::SYS_read, fd, buf, n2) as ssize_t;
    if let Some(s) = cur() { s.bytes_read += r.max(0) as u64; if s.record { s.log.push(Ev::Read { fd, req: n, got: r }); } }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    yield_point();
    env_point();
    let mut n2 = n;
    if let Some(s) = cur() { match plan_transfer(s, 'w', n) { Ok(m) => n2 = m, Err(r) => return r } }
    if let Some(v) = cur().and_then(|s| s.virt.as_mut()) { let p = v.pos; v.write(p, std::slice::from_raw_parts(buf as *const u8, n2)); v.pos += n2 as u64; return n2 as ssize_t; }
    let pos = if cur().map(|s| s.record).unwrap_or(false) { raw_pos(fd) } else { 0 };
    let r = libc::syscall(libc::SYS_write, fd, buf, n2) as ssize_t;
    if let Some(s) = cur() { s.bytes_written += r.max(0) as u64; if s.record && r > 0 { s.log.push(Ev::Write { fd, pos, data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec(), ret: r }); } }
    r
}
unsafe fn do_seek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    yield_point();
    env_point();
    if let Some(s) = cur() {
        match s.fault('s', 0) { Some(Fault::Eio) | Some(Fault::Enospc) => { errno(libc::EIO); return -1; } Some(Fault::Eintr) => { errno(libc::EINTR); return -1; } Some(Fault::Errno(e)) => { errno(e); return -1; } _ => {} }
    }
    if let Some(v) = cur().and_then(|s| s.virt.as_mut()) {
        let p = match whence { libc::SEEK_SET => off as i128, libc::SEEK_CUR => v.pos as i128 + off as i128, _ => v.end as i128 + off as i128 };
        if p < 0 || p > i64::MAX as i128 { errno(libc::EINVAL); return -1; }
        v.pos = p as u64; return p as off64_t;
    }
    let r = libc::syscall(libc::SYS_lseek, fd, off as libc::c_long, whence) as off64_t;
    if let Some(s) = cur() { if s.record { s.log.push(Ev::Seek { fd, ret: r }); } }
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t { do_seek(fd, off, whence) }
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t { do_seek(fd, off, whence) }
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    yield_point();
    env_point();
    let mut n2 = n;
    if let Some(s) = cur() { match plan_transfer(s, 'r', n) { Ok(m) => n2 = m, Err(r) => return r } }
    let r = libc::syscall(libc::SYS_pread64, fd, buf, n2, off as libc::c_long) as ssize_t;
    if let Some(s) = cur() { s.bytes_read += r.max(0) as u64; if s.record { s.log.push(Ev::Read { fd, req: n, got: r }); } }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    yield_point();
    env_point();
    let mut n2 = n;
    if let Some(s) = cur() { match plan_transfer(s, 'w', n) { Ok(m) => n2 = m, Err(r) => return r } }
    if let Some(v) = cur().and_then(|s| s.virt.as_mut()) { v.write(off as u64, std::slice::from_raw_parts(buf as *const u8, n2)); return n2 as ssize_t; }
    let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n2, off as libc::c_long) as ssize_t;
    if let Some(s) = cur() { s.bytes_written += r.max(0) as u64; if s.record && r > 0 { s.log.push(Ev::Write { fd, pos: off as u64, data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec(), ret: r }); } }
    r
}
unsafe fn vec_total(iov: *const libc::iovec, cnt: c_int) -> usize { (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum() }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if cur().is_none() { return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t; }
    // under the shim a vectored write is a write of its first non-empty buffer (a legal short write)
    for i in 0..cnt as usize { let v = &*iov.add(i); if v.iov_len > 0 { return write(fd, v.iov_base, v.iov_len); } }
    let _ = vec_total(iov, cnt);
    0
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if cur().is_none() { return libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t; }
    for i in 0..cnt as usize { let v = &*iov.add(i); if v.iov_len > 0 { return read(fd, v.iov_base, v.iov_len); } }
    0
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if let Some(v) = cur().and_then(|s| s.virt.as_mut()) { v.end = len as u64; return 0; }
    let r = libc::syscall(libc::SYS_ftruncate, fd, len as libc::c_long) as c_int;
    if let Some(s) = cur() { if s.record && r == 0 { s.log.push(Ev::Trunc { fd, len: len as u64 }); } }
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int { ftruncate64(fd, len) }


// ---------------------------------------------------------------- controlled scheduling of threads
/// One thread runs at a time; it can lose its turn at the scheduling points only (every interposed
/// system call, and every call of `yield_point`), where the plan says so, and at its end.
pub struct Sched { m: std::sync::Mutex<SchedState>, cv: std::sync::Condvar }
struct SchedState { turn: usize, live: Vec<bool>, point: u64, plan: Vec<(u64, usize)>, free: bool, started: usize }
impl Sched {
    pub fn new(n: usize, first: usize, plan: Vec<(u64, usize)>) -> std::sync::Arc<Sched> {
        std::sync::Arc::new(Sched { m: std::sync::Mutex::new(SchedState { turn: first, live: vec![true; n], point: 0, plan, free: false, started: 0 }), cv: std::sync::Condvar::new() })
    }
    pub fn points(&self) -> u64 { self.m.lock().unwrap().point }
    pub fn stalled(&self) -> bool { self.m.lock().unwrap().free }
    /// Waits for the turn of thread `k`. A thread which keeps the turn for long without reaching a
    /// scheduling point waits for a lock of another one: the scheduling is given up for this run.
    fn wait(&self, k: usize) {
        let mut g = self.m.lock().unwrap();
        let mut seen = (g.point, g.turn, std::time::Instant::now());
        while g.turn != k && !g.free {
            g = self.cv.wait_timeout(g, std::time::Duration::from_millis(200)).unwrap().0;
            if (g.point, g.turn) != (seen.0, seen.1) { seen = (g.point, g.turn, std::time::Instant::now()); }
            else if seen.2.elapsed() > std::time::Duration::from_secs(5) { g.free = true; self.cv.notify_all(); }
        }
    }
    fn point(&self, k: usize) {
        {
            let mut g = self.m.lock().unwrap();
            if g.free { return; }
            let p = g.point; g.point += 1;
            if let Some(t) = g.plan.iter().find(|x| x.0 == p).map(|x| x.1) {
                let others: Vec<usize> = (0..g.live.len()).filter(|x| *x != k && g.live[*x]).collect();
                if !others.is_empty() { g.turn = others[t % others.len()]; self.cv.notify_all(); }
            }
        }
        self.wait(k);
    }
    fn end(&self, k: usize) {
        let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        g.live[k] = false;
        if let Some(t) = (0..g.live.len()).find(|x| g.live[*x]) { g.turn = t; }
        self.cv.notify_all();
    }
}
thread_local! { static SCHED: Cell<(*const Sched, usize)> = const { Cell::new((std::ptr::null(), 0)) }; }
pub struct Turn { s: std::sync::Arc<Sched>, k: usize }
impl Drop for Turn { fn drop(&mut self) { SCHED.with(|c| c.set((std::ptr::null(), 0))); self.s.end(self.k); } }
/// The calling thread becomes thread `k` of the schedule, until the guard is dropped.
pub fn enter(s: &std::sync::Arc<Sched>, k: usize) -> Turn {
    s.wait(k);
    SCHED.with(|c| c.set((std::sync::Arc::as_ptr(s), k)));
    Turn { s: s.clone(), k }
}
pub fn yield_point() {
    let (p, k) = SCHED.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
    if !p.is_null() {
        // no scheduling inside the scheduler itself
        SCHED.with(|c| c.set((std::ptr::null(), 0)));
        unsafe { (*p).point(k) };
        SCHED.with(|c| c.set((p, k)));
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    yield_point();
    env_point();
    if meta_fault() { return -1; }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_ulong) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const libc::c_char) -> c_int {
    yield_point();
    libc::syscall(libc::SYS_chdir, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    yield_point();
    env_point();
    libc::syscall(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const libc::c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    yield_point();
    env_point();
    if meta_fault() { return -1; }
    let r = libc::syscall(libc::SYS_statx, fd, path, flags, mask, buf);
    r as c_int
}
