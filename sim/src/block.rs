//! Waiting is a scheduling point too. Should the library ever wait for a lock in the kernel, the wait would never end:
//! whoever holds the lock is a suspended client. So a wait from inside a library call gives way to the scheduler and
//! reports a spurious wake-up, which every user of the system call has to expect.
use crate::host;
use crate::sys::CUR_OP;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static WAITED: AtomicBool = AtomicBool::new(false);

/// Did the client that ran last stop because it waits for something?
pub fn waited() -> bool {
    WAITED.swap(false, Relaxed)
}

/// Takes the place of the C library's function of this name.
#[no_mangle]
unsafe extern "C-unwind" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    const WAIT: usize = libc::FUTEX_WAIT as usize;
    const WAIT_BITSET: usize = libc::FUTEX_WAIT_BITSET as usize;
    if n == libc::SYS_futex && CUR_OP.load(Relaxed) != 0 && matches!(b & 0x7F, WAIT | WAIT_BITSET) && host::can_yield() {
        WAITED.store(true, Relaxed);
        host::yield_now();
        *libc::__errno_location() = libc::EAGAIN;
        return -1;
    }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as libc::c_long
}
