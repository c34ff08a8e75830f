//! The hostile surroundings of a run: guarded memory, an allocator that can refuse, crash and hang detection.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU64, AtomicUsize, Ordering};

// ---------------------------------------------------------------- allocator

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
}
pub static REFUSED: AtomicU64 = AtomicU64::new(0);

pub struct RefusingAlloc;
fn refuse() -> bool {
    ARMED.with(|a| a.get()) && !std::thread::panicking() && {
        REFUSED.fetch_add(1, Ordering::Relaxed);
        true
    }
}
unsafe impl GlobalAlloc for RefusingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: RefusingAlloc = RefusingAlloc;

/// Arms or disarms allocation failure on this thread; returns the previous state.
pub fn arm(on: bool) -> bool {
    ARMED.with(|a| a.replace(on))
}

// ---------------------------------------------------------------- guarded memory

const PAGE: usize = 4096;
pub struct Arena {
    base: *mut u8,
    size: usize,
}
unsafe impl Send for Arena {}
unsafe impl Sync for Arena {}

pub const N_ARENAS: usize = 40;
pub const ARENA_SIZE: usize = 2 << 20;
static ARENA_LO: AtomicUsize = AtomicUsize::new(0);
static ARENA_HI: AtomicUsize = AtomicUsize::new(0);

pub struct Arenas {
    v: Vec<Arena>,
    used: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// the byte after the buffer is unmapped
    EndFlush,
    /// the byte before the buffer is unmapped; poison follows the buffer
    StartFlush(u8),
}

impl Arenas {
    /// Guard page, space, guard page, ... all in one reservation.
    pub fn new() -> Self {
        let stride = ARENA_SIZE + PAGE;
        let total = N_ARENAS * stride + PAGE;
        let p = unsafe {
            // the same addresses in every process, so that replays are exact
            let want = 0x5300_0000_0000usize as *mut libc::c_void;
            let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS;
            match libc::mmap(want, total, libc::PROT_NONE, flags | libc::MAP_FIXED_NOREPLACE, -1, 0) {
                libc::MAP_FAILED => libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, flags, -1, 0),
                p => p,
            }
        };
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        let p = p as *mut u8;
        ARENA_LO.store(p as usize, Ordering::Relaxed);
        ARENA_HI.store(p as usize + total, Ordering::Relaxed);
        let mut v = Vec::new();
        for i in 0..N_ARENAS {
            let base = unsafe { p.add(PAGE + i * stride) };
            let r = unsafe { libc::mprotect(base as *mut _, ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE) };
            assert!(r == 0, "harness: mprotect");
            v.push(Arena { base, size: ARENA_SIZE });
        }
        Arenas { v, used: 0 }
    }
    pub fn reset(&mut self) {
        self.used = 0;
    }
    /// Copies the bytes into a fresh arena. The slice stays valid until the next reset.
    pub fn place(&mut self, bytes: &[u8], place: Place) -> &'static [u8] {
        assert!(self.used < self.v.len(), "harness: out of arenas");
        let a = &self.v[self.used];
        self.used += 1;
        assert!(bytes.len() <= a.size, "harness: capture larger than an arena");
        unsafe {
            let at = match place {
                Place::EndFlush => {
                    let at = a.base.add(a.size - bytes.len());
                    // something different from the last run in front
                    let before = 64.min(a.size - bytes.len());
                    std::ptr::write_bytes(at.sub(before), 0xA5, before);
                    at
                }
                Place::StartFlush(poison) => {
                    let after = 1024.min(a.size - bytes.len());
                    std::ptr::write_bytes(a.base.add(bytes.len()), poison, after);
                    a.base
                }
            };
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), at, bytes.len());
            std::slice::from_raw_parts(at, bytes.len())
        }
    }
    pub fn left(&self) -> usize {
        self.v.len() - self.used
    }
}

// ---------------------------------------------------------------- crash and hang reports

pub const EXIT_SEGV: i32 = 77;
pub const EXIT_ABRT: i32 = 76;
pub const EXIT_HANG: i32 = 78;
/// nobody computes: a client waits for another one that is suspended
pub const EXIT_BLOCKED: i32 = 79;

/// Where the current run is, readable from a signal handler.
pub static CUR_RUN: AtomicU64 = AtomicU64::new(0);
pub static CUR_OP: AtomicUsize = AtomicUsize::new(0);
static REPORT_FD: AtomicI32 = AtomicI32::new(1);

fn put_num(buf: &mut [u8], at: &mut usize, mut n: u64) {
    let mut d = [0u8; 20];
    let mut k = 0;
    loop {
        d[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
        if n == 0 {
            break;
        }
    }
    for i in (0..k).rev() {
        buf[*at] = d[i];
        *at += 1;
    }
}

extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let mut buf = [0u8; 128];
        let mut n = 0;
        let addr = if sig == libc::SIGSEGV || sig == libc::SIGBUS { (*info).si_addr() as usize } else { 0 };
        let inside = addr >= ARENA_LO.load(Ordering::Relaxed) && addr < ARENA_HI.load(Ordering::Relaxed);
        for b in b"\nCRASH " {
            buf[n] = *b;
            n += 1;
        }
        let code = match sig {
            libc::SIGVTALRM => EXIT_HANG,
            libc::SIGALRM => EXIT_BLOCKED,
            libc::SIGABRT | libc::SIGILL | libc::SIGTRAP | libc::SIGFPE => EXIT_ABRT,
            _ => EXIT_SEGV,
        };
        put_num(&mut buf, &mut n, CUR_RUN.load(Ordering::Relaxed));
        buf[n] = b' ';
        n += 1;
        put_num(&mut buf, &mut n, code as u64);
        buf[n] = b' ';
        n += 1;
        put_num(&mut buf, &mut n, CUR_OP.load(Ordering::Relaxed) as u64);
        buf[n] = b' ';
        n += 1;
        put_num(&mut buf, &mut n, inside as u64);
        buf[n] = b' ';
        n += 1;
        put_num(&mut buf, &mut n, ARMED.with(|a| a.get()) as u64);
        buf[n] = b'\n';
        n += 1;
        libc::write(REPORT_FD.load(Ordering::Relaxed), buf.as_ptr() as *const _, n);
        libc::_exit(code);
    }
}

/// An alternate signal stack for the calling thread.
pub fn thread_stack() {
    unsafe {
        let size = 32 * 1024;
        let stack = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}

pub fn install_handlers() {
    thread_stack();
    unsafe {
        for sig in
            [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE, libc::SIGVTALRM, libc::SIGALRM]
        {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        // no core files from deliberate crashes
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
    }
}

/// A run may use this much processor time (user mode); runs normally take a few milliseconds.
pub const HANG_SECONDS: i64 = 4;
pub const BLOCKED_SECONDS: u32 = 60;
pub fn watchdog(on: bool) {
    unsafe {
        let v = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: if on { HANG_SECONDS } else { 0 }, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_VIRTUAL, &v, std::ptr::null_mut());
        libc::alarm(if on { BLOCKED_SECONDS } else { 0 });
    }
}
