//! Scheduling points inside library calls. In the variant "fine" the library, and nothing else, is compiled with
//! coverage instrumentation: every branch, load and store in it calls one of the functions below. The scheduler hands
//! out time slices counted in such points; when a slice runs out in the middle of a call, the client is suspended there.
//! In the other variants nothing calls these functions and the scheduler hands out no slices.
use crate::host;
use crate::sys::CUR_OP;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

/// A client that has run this long without a scheduling point may be waiting for another one.
const LONG: u64 = 300_000;
const MAX_GUARDS: usize = 1 << 15;

static LEFT: AtomicU64 = AtomicU64::new(0);
/// Accesses to writable static or thread-local memory that are still to be granted; 0: any number.
static SHARED_LEFT: AtomicU64 = AtomicU64::new(0);
static SHARED_STOPS: AtomicU64 = AtomicU64::new(0);
static DATA: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];
static TLS: AtomicUsize = AtomicUsize::new(0);
static INSIDE: AtomicBool = AtomicBool::new(false);
static GUARDS: AtomicU32 = AtomicU32::new(0);
static LAST: AtomicU32 = AtomicU32::new(0);
/// per edge: 1 reached, 2 a client was suspended right behind it
static SEEN: [AtomicU8; MAX_GUARDS] = [const { AtomicU8::new(0) }; MAX_GUARDS];

/// Is the library instrumented?
pub fn present() -> bool {
    GUARDS.load(Relaxed) > 0
}
/// The next client to run gets this many points; 0: until its own next scheduling point. `shared` further limits how
/// often it may touch memory that calls could share; it is suspended right before the access behind that.
pub fn slice(n: u32, shared: u32) {
    LEFT.store(if n == 0 { LONG } else { n as u64 }, Relaxed);
    SHARED_LEFT.store(shared as u64, Relaxed);
}
pub fn off() {
    LEFT.store(0, Relaxed);
    SHARED_LEFT.store(0, Relaxed);
}
/// How often a client was suspended in front of an access to memory that calls could share.
pub fn shared_stops() -> u64 {
    SHARED_STOPS.swap(0, Relaxed)
}
/// Finds out where writable static memory and thread-local memory of the program lie. The library has neither, so on
/// the unchanged tree nothing is ever suspended for this reason.
fn regions() {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe extern "C" fn one(i: *mut libc::dl_phdr_info, _: usize, _: *mut libc::c_void) -> i32 {
        let i = &*i;
        for k in 0..i.dlpi_phnum as usize {
            let h = &*i.dlpi_phdr.add(k);
            if h.p_type == libc::PT_TLS {
                let a = (h.p_align as usize).max(1);
                TLS.store((h.p_memsz as usize).div_ceil(a) * a, Relaxed);
            }
        }
        1 // the program itself comes first
    }
    unsafe {
        DATA[0].store(&__data_start as *const u8 as usize, Relaxed);
        DATA[1].store(&_end as *const u8 as usize, Relaxed);
        libc::dl_iterate_phdr(Some(one), std::ptr::null_mut());
    }
}
fn could_be_shared(a: usize) -> bool {
    if a >= DATA[0].load(Relaxed) && a < DATA[1].load(Relaxed) {
        return true;
    }
    let fs: usize;
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) fs, options(nostack, readonly, preserves_flags)) };
    a < fs && fs - a <= TLS.load(Relaxed)
}
#[inline(always)]
fn access(a: *const u8) {
    let n = SHARED_LEFT.load(Relaxed);
    if n != 0 && CUR_OP.load(Relaxed) != 0 && could_be_shared(a as usize) {
        if n == 1 {
            SHARED_STOPS.fetch_add(1, Relaxed);
            SHARED_LEFT.store(0, Relaxed);
            stop();
            return;
        }
        SHARED_LEFT.store(n - 1, Relaxed);
    }
    point();
}
/// Did the client that ran last stop in the middle of a call?
pub fn inside() -> bool {
    INSIDE.swap(false, Relaxed)
}
/// Edges reached and edges behind which a client was suspended, one hex digit per edge.
pub fn map() -> String {
    let n = GUARDS.load(Relaxed) as usize;
    SEEN[..(n + 1).min(MAX_GUARDS)].iter().map(|x| (b'0' + x.load(Relaxed)) as char).collect()
}

#[inline(always)]
fn point() {
    let n = LEFT.load(Relaxed);
    if n == 0 || CUR_OP.load(Relaxed) == 0 {
        return;
    }
    LEFT.store(n - 1, Relaxed);
    if n == 1 {
        stop();
    }
}
#[cold]
fn stop() {
    if std::thread::panicking() {
        return;
    }
    SEEN[LAST.load(Relaxed) as usize % MAX_GUARDS].fetch_or(2, Relaxed);
    INSIDE.store(true, Relaxed);
    host::yield_now();
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        regions();
        while p < stop {
            *p = (GUARDS.fetch_add(1, Relaxed) + 1).min(MAX_GUARDS as u32 - 1);
            p = p.add(1);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    let g = unsafe { *g };
    if CUR_OP.load(Relaxed) != 0 {
        LAST.store(g, Relaxed);
        let s = &SEEN[g as usize % MAX_GUARDS];
        if s.load(Relaxed) == 0 {
            s.store(1, Relaxed);
        }
    }
    point();
}
macro_rules! points {
    ($($n:ident)*) => { $(
        #[no_mangle]
        extern "C" fn $n(a: *const u8) {
            access(a);
        }
    )* };
}
points! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
