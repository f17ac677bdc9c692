//! Deterministic randomness: `getrandom`, as a libc function and as a system call, returns a stream which
//! only depends on the thread-local seed. So hash maps, random IDs, keys, and random choices of the code
//! under test are a function of the explored path.
use std::cell::Cell;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x5eed) };
    static CTR: Cell<u64> = const { Cell::new(0) };
}

/// Resets the stream of the current thread. Must be called before the first use of a hash map in a thread
/// to have an influence on the hash keys.
pub fn reset(seed: u64) {
    SEED.with(|s| s.set(seed));
    CTR.with(|s| s.set(0));
}

fn next() -> u64 {
    let n = CTR.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n
    });
    // splitmix64
    let mut z = SEED
        .with(|s| s.get())
        .wrapping_mul(0x2545F4914F6CDD1D)
        .wrapping_add(n.wrapping_mul(0x9E3779B97F4A7C15))
        .wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let r = next().to_le_bytes();
        for b in r.iter().take(len - i) {
            unsafe { *buf.add(i) = *b };
            i += 1;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    unsafe { fill(buf as *mut u8, len) };
    len as isize
}

/// Same as libc's `syscall`, except for SYS_getrandom.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: libc::c_long,
    a1: usize,
    a2: usize,
    a3: usize,
    a4: usize,
    a5: usize,
    a6: usize,
) -> libc::c_long {
    if num == libc::SYS_getrandom {
        unsafe { fill(a1 as *mut u8, a2) };
        return a2 as libc::c_long;
    }
    let ret: isize;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") num as isize => ret,
            in("rdi") a1,
            in("rsi") a2,
            in("rdx") a3,
            in("r10") a4,
            in("r8") a5,
            in("r9") a6,
            lateout("rcx") _,
            lateout("r11") _,
        );
        if ret < 0 && ret >= -4095 {
            *libc::__errno_location() = -ret as i32;
            return -1;
        }
    }
    ret as libc::c_long
}
