//! Per-thread simulation context: which side of the seam is running, the fault plan of the
//! operation in progress, the violation sink and the value ledger.
use std::cell::Cell;
use std::collections::HashMap;
use std::hash::BuildHasherDefault;

/// Deterministic hasher (no random state anywhere in the simulator).
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 32;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// The one PRNG of a run (xorshift64* seeded from the run seed).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed, 0x5eed) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True with probability p/1000.
    pub fn pm(&mut self, p: u32) -> bool {
        self.below(1000) < p as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub const OFF: u8 = 0;
/// Code of the system under test is running.
pub const REG: u8 = 1;
/// A component value allocates or frees its own interior memory.
pub const CLI: u8 = 2;

#[derive(Default)]
pub struct OpCtx {
    pub owner: u8,
    pub alloc_calls: u32,
    pub alloc_fail_at: u32,
    pub alloc_fail_len: u32,
    pub alloc_fired: u32,
    pub drops: Vec<(u8, u64)>,
    pub drop_calls: u32,
    pub drop_panic_at: u32,
    pub drop_fired: Option<(u8, u64)>,
    pub cb_calls: u32,
    pub cb_panic_at: u32,
    pub cb_fired: u32,
    pub yields_left: u32,
    pub yield_skip: u32,
    pub yield_gap: u32,
    pub accesses: u64,
}

thread_local! {
    pub static MODE: Cell<u8> = const { Cell::new(OFF) };
    pub static CTX: Cell<*mut OpCtx> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn mode() -> u8 {
    MODE.with(|m| m.get())
}
pub struct ModeGuard(u8, u8);
impl Drop for ModeGuard {
    fn drop(&mut self) {
        MODE.with(|m| m.set(self.0));
        crate::acc::set(self.1);
    }
}
pub fn set_mode(n: u8) -> ModeGuard {
    let a = crate::acc::get();
    crate::acc::set(0);
    let g = ModeGuard(MODE.with(|m| m.replace(n)), a);
    crate::acc::set((n == REG) as u8);
    g
}
/// Memory accesses of the simulator itself, made while code of the system under test runs.
pub struct Quiet(u8);
impl Drop for Quiet {
    fn drop(&mut self) {
        crate::acc::set(self.0)
    }
}
pub fn quiet() -> Quiet {
    let q = Quiet(crate::acc::get());
    crate::acc::set(0);
    q
}
/// Runs `f` as code of the system under test.
pub fn reg<R>(f: impl FnOnce() -> R) -> R {
    let _g = set_mode(REG);
    f()
}
/// Runs `f` as simulator code called back from the system under test.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let _g = set_mode(OFF);
    f()
}
pub fn ctx() -> Option<&'static mut OpCtx> {
    let p = CTX.with(|c| c.get());
    unsafe { p.as_mut() }
}
pub fn with_ctx<R>(c: &mut OpCtx, f: impl FnOnce() -> R) -> R {
    struct G(*mut OpCtx);
    impl Drop for G {
        fn drop(&mut self) {
            CTX.with(|c| c.set(self.0))
        }
    }
    let _g = G(CTX.with(|x| x.replace(c)));
    f()
}

/// Payload of panics the simulator injects on purpose.
pub struct SimFault;
pub struct OomPanic;

/// Called from user callbacks (filters and loop bodies): may inject a panic.
pub fn callback_point() {
    if let Some(c) = ctx() {
        c.cb_calls += 1;
        if c.cb_panic_at != 0 && c.cb_calls == c.cb_panic_at && !std::thread::panicking() {
            c.cb_fired += 1;
            std::panic::panic_any(SimFault);
        }
    }
    crate::sched::yield_point(2);
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}
// The simulator runs exactly one thread at a time, so plain statics are race free.
pub static mut VIOL: Vec<Violation> = Vec::new();
#[allow(static_mut_refs)]
pub fn viol() -> &'static mut Vec<Violation> {
    unsafe { &mut VIOL }
}
pub fn violate(kind: &str, detail: String) {
    let _g = set_mode(OFF);
    if viol().len() < 50 {
        viol().push(Violation { kind: kind.to_string(), detail });
    }
}
#[macro_export]
macro_rules! bad {
    ($k:expr, $($a:tt)*) => {{ let _g = $crate::ctx::set_mode($crate::ctx::OFF); $crate::ctx::violate($k, format!($($a)*)) }};
}

// ---- value ledger: how many live objects carry each token ----
static mut LEDGER: Option<Map<(u8, u64), i32>> = None;
#[allow(static_mut_refs)]
pub fn ledger() -> &'static mut Map<(u8, u64), i32> {
    unsafe { LEDGER.get_or_insert_with(Default::default) }
}
pub fn ledger_add(ty: u8, tok: u64) {
    *ledger().entry((ty, tok)).or_insert(0) += 1;
}
/// Returns false when no live object carries this token.
pub fn ledger_sub(ty: u8, tok: u64) -> bool {
    match ledger().get_mut(&(ty, tok)) {
        Some(n) if *n > 0 => {
            *n -= 1;
            if *n == 0 {
                ledger().remove(&(ty, tok));
            }
            true
        }
        _ => false,
    }
}
/// Logs the destructor of a tracked value. `tok` is None when the bytes are not a live value.
pub fn on_drop(ty: u8, tok: Option<u64>, dead_bytes: bool) {
    let m = mode();
    if m == REG {
        crate::sched::yield_point(1);
    }
    let _g = set_mode(OFF);
    match tok {
        None => {
            if dead_bytes {
                bad!("double_drop", "a value of type #{ty} was dropped again after it had been dropped")
            } else {
                bad!("drop_garbage", "the destructor of type #{ty} ran on bytes that are not a value of that type")
            }
            return;
        }
        Some(t) => {
            if !ledger_sub(ty, t) {
                bad!("double_drop", "value {t:#x} of type #{ty} dropped although no live object carries it");
            }
            if m == REG {
                if let Some(c) = ctx() {
                    c.drops.push((ty, t));
                    c.drop_calls += 1;
                    if c.drop_panic_at != 0 && c.drop_calls == c.drop_panic_at && !std::thread::panicking() {
                        c.drop_fired = Some((ty, t));
                        std::panic::panic_any(SimFault);
                    }
                }
            }
        }
    }
}

// ---- last panic message, for reports ----
static mut LAST_PANIC: String = String::new();
#[allow(static_mut_refs)]
pub fn last_panic() -> &'static mut String {
    unsafe { &mut LAST_PANIC }
}
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let _g = set_mode(OFF);
        if info.payload().is::<SimFault>() || info.payload().is::<OomPanic>() {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // only the file's base name: paths differ between checkouts
        let loc = info.location().map(|l| l.file().rsplit('/').next().unwrap_or("?").to_string()).unwrap_or_default();
        let msg: String = msg.chars().take(160).collect();
        *last_panic() = format!("{} ({})", msg.replace('\n', " "), loc);
        if std::env::var("SIM_TRACE_PANIC").is_ok() {
            eprintln!("panic: {:?} {}", info.location(), last_panic());
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        let _g = set_mode(OFF);
        std::panic::panic_any(OomPanic)
    });
}
