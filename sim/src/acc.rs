//! Memory-access seam, only in the build made with `--cfg acc`: the compiler then calls a hook before
//! every load and store of the system under test and of the simulator, and `memcpy`, `memmove` and
//! `memset` go through a wrapper. While code of the system under test runs, each access is checked
//! against the simulated heap and is a point at which the scheduler may run another client.
#[cfg(not(acc))]
mod imp {
    pub const ON: bool = false;
    #[inline(always)]
    pub fn set(_: u8) {}
    #[inline(always)]
    pub fn get() -> u8 {
        0
    }
    pub fn reset() {}
    pub fn arena(_: usize, _: usize) {}
    pub fn count() -> u64 {
        0
    }
    pub fn work() -> u64 {
        0
    }
}
#[cfg(acc)]
mod imp {
    use crate::ctx::*;
    pub const ON: bool = true;
    /// Of each thread: a thread that waits for its turn must not take part.
    #[no_mangle]
    #[thread_local]
    pub static mut SIM_ACC_ON: u8 = 0;
    #[no_mangle]
    static mut SIM_ACC_BASE: usize = 1 << 62;
    #[no_mangle]
    static mut SIM_ACC_LEN: usize = 0;
    static mut TOTAL: u64 = 0;
    static mut MAIN: u64 = 0;
    static mut WORK: u64 = 0;
    #[inline(always)]
    pub fn set(v: u8) {
        unsafe { std::ptr::write_volatile(&raw mut SIM_ACC_ON, v) }
    }
    #[inline(always)]
    pub fn get() -> u8 {
        // the hook before this very load leaves the flag as it is
        unsafe { std::ptr::read_volatile(&raw const SIM_ACC_ON) }
    }
    pub fn arena(base: usize, len: usize) {
        unsafe {
            SIM_ACC_BASE = base;
            SIM_ACC_LEN = len
        }
    }
    pub fn reset() {
        unsafe { MAIN = 0 }
    }
    pub fn count() -> u64 {
        unsafe { TOTAL }
    }
    /// Accesses so far, copies counted by their length.
    pub fn work() -> u64 {
        unsafe { TOTAL + WORK }
    }
    std::arch::global_asm!(
        ".macro SIM_HOOK name, size, write",
        ".globl \\name",
        "\\name:",
        "mov rax, qword ptr [rip + SIM_ACC_ON@GOTTPOFF]",
        "cmp byte ptr fs:[rax], 0",
        "jne 1f",
        "ret",
        // only what can be shared: the simulated heap and statics
        "1:",
        "mov rax, rdi",
        "sub rax, [rip + {base}]",
        "cmp rax, [rip + {len}]",
        "jb 2f",
        "lea rax, [rip + __data_start]",
        "cmp rdi, rax",
        "jb 3f",
        "lea rax, [rip + _end]",
        "cmp rdi, rax",
        "jb 2f",
        "3:",
        "ret",
        "2:",
        "mov rax, qword ptr [rip + SIM_ACC_ON@GOTTPOFF]",
        "mov byte ptr fs:[rax], 0",
        "sub rsp, 8",
        "mov esi, \\size",
        "mov edx, \\write",
        "call {f}",
        "add rsp, 8",
        "mov rax, qword ptr [rip + SIM_ACC_ON@GOTTPOFF]",
        "mov byte ptr fs:[rax], 1",
        "ret",
        ".endm",
        "SIM_HOOK __sanitizer_cov_load1, 1, 0",
        "SIM_HOOK __sanitizer_cov_load2, 2, 0",
        "SIM_HOOK __sanitizer_cov_load4, 4, 0",
        "SIM_HOOK __sanitizer_cov_load8, 8, 0",
        "SIM_HOOK __sanitizer_cov_load16, 16, 0",
        "SIM_HOOK __sanitizer_cov_store1, 1, 1",
        "SIM_HOOK __sanitizer_cov_store2, 2, 1",
        "SIM_HOOK __sanitizer_cov_store4, 4, 1",
        "SIM_HOOK __sanitizer_cov_store8, 8, 1",
        "SIM_HOOK __sanitizer_cov_store16, 16, 1",
        ".macro SIM_WRAP name, copy",
        ".globl __wrap_\\name",
        "__wrap_\\name:",
        "mov rax, qword ptr [rip + SIM_ACC_ON@GOTTPOFF]",
        "cmp byte ptr fs:[rax], 0",
        "jne 1f",
        "jmp __real_\\name",
        "1:",
        "mov rax, qword ptr [rip + SIM_ACC_ON@GOTTPOFF]",
        "mov byte ptr fs:[rax], 0",
        "push rdi",
        "push rsi",
        "push rdx",
        "mov ecx, \\copy",
        "call {g}",
        "pop rdx",
        "pop rsi",
        "pop rdi",
        "mov rax, qword ptr [rip + SIM_ACC_ON@GOTTPOFF]",
        "mov byte ptr fs:[rax], 1",
        "jmp __real_\\name",
        ".endm",
        "SIM_WRAP memcpy, 1",
        "SIM_WRAP memmove, 1",
        "SIM_WRAP memset, 0",
        base = sym SIM_ACC_BASE,
        len = sym SIM_ACC_LEN,
        f = sym hook,
        g = sym hook_copy,
    );
    extern "C" fn hook(p: usize, n: usize, write: u32) {
        unsafe {
            TOTAL += 1;
            check(p, n, write != 0);
            turn();
        }
    }
    extern "C" fn hook_copy(dst: usize, src: usize, n: usize, copy: u32) {
        if n == 0 {
            return;
        }
        unsafe {
            TOTAL += 1;
            WORK += n as u64 / 64;
            if copy != 0 {
                check(src, n, false);
            }
            check(dst, n, true);
            turn();
        }
    }
    unsafe fn check(p: usize, n: usize, write: bool) {
        if let Some(what) = crate::heap::heap().access_fault(p, n) {
            let _g = set_mode(OFF);
            crate::bad!("mem", "{} of {n} bytes {what}", if write { "a write" } else { "a read" });
        }
    }
    unsafe fn turn() {
        if crate::sched::on_client() {
            if let Some(c) = ctx() {
                c.accesses += 1;
                if c.accesses % 200_000 == 0 {
                    return crate::sched::force();
                }
                if c.yields_left > 0 {
                    crate::sched::yield_point(3);
                }
            }
        } else {
            MAIN += 1;
            if MAIN % 3_000_000 == 0 {
                crate::sched::rescue()
            }
        }
    }
}
pub use imp::*;
