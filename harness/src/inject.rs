//! Faults at the border to the operating system: stand-ins for send, recv, pthread_create and clock_gettime, which the
//! executable defines and the C library's own are reached through. Only what POSIX allows is done: fewer
//! bytes than asked for, EINTR before any byte moved, EAGAIN instead of a thread, a system clock that is set (the monotonic one
//! goes on).
//!
//! Socket calls are disturbed on threads of a server's pool and on threads that asked for it, never on
//! those of the monitors.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};

use libc::{c_int, c_void, size_t, ssize_t};

/// socket calls are disturbed at all
static SOCKETS: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);
static SHORT: AtomicU64 = AtomicU64::new(0);
static INTERRUPTED: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);
static SHIFT: AtomicI64 = AtomicI64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
/// threads named so (the end of the name) are refused their next creations
static REFUSE: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    /// 0: not known yet, 1: disturbed, 2: left alone
    static SCOPE: Cell<u8> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(0) };
    /// EINTR comes at most this often in a row
    static ROW: Cell<u8> = const { Cell::new(0) };
    /// this many thread creations go through, then so many are refused
    static SPAWNS: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

pub fn sockets(on: bool) {
    SOCKETS.store(on, Ordering::SeqCst)
}

/// short reads and writes, interrupted calls, refused threads so far
pub fn counts() -> (u64, u64, u64) {
    (SHORT.load(Ordering::SeqCst), INTERRUPTED.load(Ordering::SeqCst), REFUSED.load(Ordering::SeqCst))
}

/// the system clock reads this many milliseconds more than it should
pub fn set_clock(ms: i64) {
    SHIFT.store(ms, Ordering::SeqCst);
    STEPS.fetch_add(1, Ordering::SeqCst);
}

pub fn clock_steps() -> u64 {
    STEPS.load(Ordering::SeqCst)
}

/// runs `f` with the socket calls of this thread disturbed
pub fn disturbed<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u8);
    impl Drop for Back {
        fn drop(&mut self) {
            SCOPE.with(|s| s.set(self.0))
        }
    }
    let _back = Back(SCOPE.with(|s| s.replace(1)));
    f()
}

/// runs `f`; of the threads this thread creates meanwhile, those after the first `after` are refused, `times` at most
pub fn refusing<R>(after: usize, times: usize, f: impl FnOnce() -> R) -> R {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            SPAWNS.with(|s| s.set((0, 0)))
        }
    }
    SPAWNS.with(|s| s.set((after, times)));
    let _back = Back;
    f()
}

/// the next `n` threads a pool's (or server's) own threads create are refused
pub fn refuse_pools(n: usize) {
    REFUSE.store(n, Ordering::SeqCst)
}

pub fn left_to_refuse() -> usize {
    REFUSE.load(Ordering::SeqCst)
}

fn random() -> u64 {
    STATE
        .try_with(|s| {
            let mut x = s.get();
            if x == 0 {
                x = SEED.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed) | 1
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            s.set(x);
            x.wrapping_mul(0x2545_f491_4f6c_dd1d) >> 16
        })
        .unwrap_or(0)
}

fn scoped() -> bool {
    if !SOCKETS.load(Ordering::Relaxed) {
        return false;
    }
    SCOPE
        .try_with(|s| {
            if s.get() == 0 {
                let pool = std::thread::current().name().map(|n| n.starts_with("starry-http-pool")).unwrap_or(false);
                s.set(if pool { 1 } else { 2 })
            }
            s.get() == 1
        })
        .unwrap_or(false)
}

fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

/// how much of `len` this call may move; None: it is interrupted
fn allowed(len: usize) -> Option<usize> {
    if !scoped() {
        return Some(len);
    }
    let x = random();
    if x % 24 == 0 {
        let row = ROW.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        if row <= 3 {
            INTERRUPTED.fetch_add(1, Ordering::Relaxed);
            return None;
        }
    }
    ROW.with(|r| r.set(0));
    if x % 12 == 1 && len > 1 {
        SHORT.fetch_add(1, Ordering::Relaxed);
        return Some(1 + (random() as usize) % (len - 1));
    }
    Some(len)
}

unsafe fn next(name: &'static [u8], cache: &AtomicUsize) -> usize {
    let mut p = cache.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
        if p == 0 {
            libc::abort()
        }
        cache.store(p, Ordering::Relaxed)
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    static P: AtomicUsize = AtomicUsize::new(0);
    match allowed(len) {
        Some(n) => {
            let f: unsafe extern "C" fn(c_int, *const c_void, size_t, c_int) -> ssize_t = std::mem::transmute(next(b"send\0", &P));
            f(fd, buf, n, flags)
        }
        None => {
            errno(libc::EINTR);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    static P: AtomicUsize = AtomicUsize::new(0);
    match allowed(len) {
        Some(n) => {
            let f: unsafe extern "C" fn(c_int, *mut c_void, size_t, c_int) -> ssize_t = std::mem::transmute(next(b"recv\0", &P));
            f(fd, buf, n, flags)
        }
        None => {
            errno(libc::EINTR);
            -1
        }
    }
}

fn refused() -> bool {
    let mine = SPAWNS
        .try_with(|s| match s.get() {
            (0, 0) => false,
            (0, n) => {
                s.set((0, n - 1));
                true
            }
            (a, n) => {
                s.set((a - 1, n));
                false
            }
        })
        .unwrap_or(false);
    if mine {
        return true;
    }
    if REFUSE.load(Ordering::SeqCst) == 0 {
        return false;
    }
    // the scheduler thread of a pool, or a worker of a server's
    let pool = std::thread::current().name().map(|n| n.ends_with("pool") || n.starts_with("starry-http-pool")).unwrap_or(false);
    pool && REFUSE.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1)).is_ok()
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    static P: AtomicUsize = AtomicUsize::new(0);
    if refused() {
        REFUSED.fetch_add(1, Ordering::SeqCst);
        return libc::EAGAIN;
    }
    let g: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int =
        std::mem::transmute(next(b"pthread_create\0", &P));
    g(t, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    static P: AtomicUsize = AtomicUsize::new(0);
    let f: unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> c_int = std::mem::transmute(next(b"clock_gettime\0", &P));
    let r = f(id, t);
    if r == 0 && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) {
        let ms = SHIFT.load(Ordering::Relaxed);
        if ms != 0 {
            let ns = (*t).tv_nsec + ms.rem_euclid(1000) * 1_000_000;
            (*t).tv_sec += ms.div_euclid(1000) + ns / 1_000_000_000;
            (*t).tv_nsec = ns % 1_000_000_000;
        }
    }
    r
}
