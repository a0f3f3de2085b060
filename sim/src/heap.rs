//! The simulated heap. It owns placement, reuse, movement on reallocation, prior memory content and
//! failure of every allocation the system under test makes, and checks the allocator contract.
use crate::bad;
use crate::ctx::*;
use std::alloc::{GlobalAlloc, Layout, System};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn madvise(a: *mut u8, l: usize, adv: i32) -> i32;
}

const ARENA: usize = 96 << 30;
const RECS: usize = 1 << 22;
const RZ: usize = 32;
const RZ_BYTE: u8 = 0xFB;
const DEAD: u8 = 0xDD;
const HOME: u8 = 252;

#[derive(Clone, Copy, Debug)]
pub struct HeapCfg {
    pub seed: u64,
    /// 0: 0xCB, 1: zero, 2: 0xFF, 3: pseudo-random bytes, 4: leave untouched (huge scenarios)
    pub fill: u8,
    pub reuse_pm: u16,
    pub inplace_pm: u16,
    pub slack_pm: u16,
    pub tight: bool,
}
impl Default for HeapCfg {
    fn default() -> Self {
        HeapCfg { seed: 0, fill: 0, reuse_pm: 0, inplace_pm: 0, slack_pm: 0, tight: true }
    }
}

#[derive(Clone, Copy)]
struct Rec {
    start: usize,
    size: usize,
    cap: usize,
    align: u32,
    alive: bool,
    owner: u8,
}
pub struct Heap {
    base: usize,
    cur: usize,
    recs: *mut Rec,
    n: usize,
    rng: u64,
    pub cfg: HeapCfg,
    pub live: [i64; 256],
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
    pub moved: u64,
    pub inplace: u64,
    pub reused: u64,
    pub failed: u64,
    peak: usize,
    /// the live block accessed last
    hot: (usize, usize),
}
pub static mut H: Heap = Heap {
    base: 0, cur: 0, recs: std::ptr::null_mut(), n: 0, rng: 1,
    cfg: HeapCfg { seed: 0, fill: 0, reuse_pm: 0, inplace_pm: 0, slack_pm: 0, tight: true },
    live: [0; 256], allocs: 0, reallocs: 0, frees: 0, moved: 0, inplace: 0, reused: 0, failed: 0, peak: 0, hot: (1, 0),
};
#[allow(static_mut_refs)]
pub fn heap() -> &'static mut Heap {
    unsafe { &mut H }
}

impl Heap {
    fn init(&mut self) {
        if self.base == 0 {
            unsafe {
                // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
                // the same address in every process when the kernel allows it (MAP_FIXED_NOREPLACE)
                let at = if std::env::var_os("SIM_ARENA").is_some() { 0x1357_8000_0000usize } else { 0x2000_0000_0000 };
                self.base = mmap(at as *mut u8, ARENA, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0) as usize;
                if self.base == usize::MAX {
                    self.base = mmap(std::ptr::null_mut(), ARENA, 3, 0x2 | 0x20 | 0x4000, -1, 0) as usize;
                }
                self.recs = mmap(std::ptr::null_mut(), RECS * std::mem::size_of::<Rec>(), 3, 0x2 | 0x20 | 0x4000, -1, 0) as *mut Rec;
            }
            if self.base == usize::MAX || self.recs as usize == usize::MAX {
                eprintln!("simulator: cannot reserve the arena");
                std::process::exit(2);
            }
            crate::acc::arena(self.base, ARENA);
            self.cur = self.base + 4096;
        }
    }
    /// Starts a run with pristine memory.
    pub fn reset(&mut self, cfg: HeapCfg) {
        self.init();
        let used = self.cur - self.base;
        unsafe {
            madvise(self.base as *mut u8, (used + 8191) & !4095, 4);
        }
        self.cur = self.base + 4096;
        self.n = 0;
        self.cfg = cfg;
        self.rng = mix(cfg.seed, 0xa110c) | 1;
        self.live = [0; 256];
        self.peak = 0;
        self.hot = (1, 0);
        crate::acc::reset();
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng >> 12;
        self.rng ^= self.rng << 25;
        self.rng ^= self.rng >> 27;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    fn rec(&mut self, i: usize) -> &mut Rec {
        unsafe { &mut *self.recs.add(i) }
    }
    fn owns(&self, p: usize) -> bool {
        self.base != 0 && p >= self.base && p < self.base + ARENA
    }
    fn find(&mut self, p: usize) -> Option<usize> {
        let (mut lo, mut hi) = (0, self.n);
        while lo < hi {
            let m = (lo + hi) / 2;
            if self.rec(m).start < p {
                lo = m + 1
            } else {
                hi = m
            }
        }
        if lo < self.n && self.rec(lo).start == p {
            Some(lo)
        } else {
            None
        }
    }
    unsafe fn fill_fresh(&mut self, p: usize, n: usize) {
        match self.cfg.fill {
            0 => std::ptr::write_bytes(p as *mut u8, 0xCB, n),
            1 => std::ptr::write_bytes(p as *mut u8, 0, n),
            2 => std::ptr::write_bytes(p as *mut u8, 0xFF, n),
            3 => {
                let mut s = self.rnd() | 1;
                let mut i = 0;
                while i < n {
                    s ^= s << 13;
                    s ^= s >> 7;
                    s ^= s << 17;
                    let k = (n - i).min(8);
                    std::ptr::copy_nonoverlapping(&s as *const u64 as *const u8, (p + i) as *mut u8, k);
                    i += k;
                }
            }
            _ => {}
        }
    }
    unsafe fn red(&mut self, i: usize) {
        let r = *self.rec(i);
        std::ptr::write_bytes((r.start - RZ) as *mut u8, RZ_BYTE, RZ);
        std::ptr::write_bytes((r.start + r.size) as *mut u8, RZ_BYTE, r.cap - r.size + RZ);
    }
    unsafe fn check_red(&mut self, i: usize) {
        let r = *self.rec(i);
        let lo = std::slice::from_raw_parts((r.start - RZ) as *const u8, RZ);
        let hi = std::slice::from_raw_parts((r.start + r.size) as *const u8, (r.cap - r.size + RZ).min(4096));
        if lo.iter().any(|b| *b != RZ_BYTE) {
            bad!("mem", "write before the start of a block of {} bytes", r.size);
            self.red(i);
        } else if hi.iter().any(|b| *b != RZ_BYTE) {
            bad!("mem", "write past the end of a block of {} bytes", r.size);
            self.red(i);
        }
    }
    unsafe fn new_block(&mut self, size: usize, align: usize, owner: u8) -> *mut u8 {
        if self.cfg.reuse_pm > 0 && self.n > 0 && (self.rnd() % 1000) < self.cfg.reuse_pm as u64 {
            // Reuse the most recently created dead block that fits exactly.
            let lo = self.n.saturating_sub(200);
            for i in (lo..self.n).rev() {
                let r = *self.rec(i);
                if !r.alive && r.cap >= size && r.cap <= size + size / 2 + 16 && r.start % align == 0 {
                    self.check_dead(i);
                    let q = self.rec(i);
                    q.size = size;
                    q.align = align as u32;
                    q.alive = true;
                    q.owner = owner;
                    self.reused += 1;
                    self.fill_fresh(r.start, size);
                    self.red(i);
                    self.live[owner as usize] += size as i64;
                    return r.start as *mut u8;
                }
            }
        }
        let slack = if self.cfg.slack_pm > 0 && self.rnd() % 1000 < self.cfg.slack_pm as u64 { size } else { 0 };
        let mut start = (self.cur + RZ + align - 1) & !(align - 1);
        if self.cfg.tight && start % (align * 2) == 0 {
            start += align; // exactly the alignment asked for, not more
        }
        let cap = size + slack;
        if start + cap + 2 * RZ > self.base + ARENA || self.n >= RECS {
            eprintln!("simulator: arena exhausted");
            std::process::exit(2);
        }
        let i = self.n;
        self.n += 1;
        *self.rec(i) = Rec { start, size, cap, align: align as u32, alive: true, owner };
        self.cur = start + cap + RZ;
        self.fill_fresh(start, size);
        self.red(i);
        self.live[owner as usize] += size as i64;
        start as *mut u8
    }
    /// A place for a value of the simulator that belongs among the system's own memory.
    pub fn home(&mut self, size: usize, align: usize) -> *mut u8 {
        unsafe { self.new_block(size.max(1), align, HOME) }
    }
    pub fn unhome(&mut self, p: usize) {
        match self.find(p) {
            Some(i) => unsafe { self.kill(i) },
            None => unreachable!(),
        }
    }
    unsafe fn check_dead(&mut self, i: usize) {
        if self.cfg.fill == 4 {
            return;
        }
        let r = *self.rec(i);
        let n = r.size.min(1 << 16);
        let s = std::slice::from_raw_parts(r.start as *const u8, n);
        if s.iter().any(|b| *b != DEAD) {
            bad!("mem", "write into a block of {} bytes after it was freed", r.size);
            std::ptr::write_bytes(r.start as *mut u8, DEAD, n);
        }
    }
    unsafe fn kill(&mut self, i: usize) {
        self.check_red(i);
        self.hot = (1, 0);
        let r = self.rec(i);
        r.alive = false;
        let (s, n, o) = (r.start, r.size, r.owner);
        self.live[o as usize] -= n as i64;
        if self.cfg.fill == 4 && n > (1 << 16) {
            // release the pages of big blocks; stale reads then see zeroes
            let a = (s + 4095) & !4095;
            let e = (s + n) & !4095;
            if e > a {
                madvise(a as *mut u8, e - a, 4);
            }
            std::ptr::write_bytes(s as *mut u8, DEAD, 4096);
        } else {
            std::ptr::write_bytes(s as *mut u8, DEAD, n);
        }
    }
    fn inject(&mut self) -> bool {
        if mode() != REG || std::thread::panicking() {
            return false;
        }
        if let Some(c) = ctx() {
            c.alloc_calls += 1;
            let k = c.alloc_calls;
            if c.alloc_fail_at != 0 && k >= c.alloc_fail_at && k - c.alloc_fail_at < c.alloc_fail_len {
                c.alloc_fired += 1;
                self.failed += 1;
                return true;
            }
        }
        false
    }
    fn owner() -> u8 {
        if mode() == CLI {
            255
        } else {
            ctx().map(|c| c.owner).unwrap_or(254)
        }
    }
    /// Checks the red zones of every live block and that freed blocks stayed untouched.
    pub fn audit(&mut self) {
        let _g = set_mode(OFF);
        let lo = self.n.saturating_sub(3000);
        for i in lo..self.n {
            unsafe {
                if self.rec(i).alive {
                    self.check_red(i)
                }
            }
        }
    }
    pub fn audit_dead(&mut self) {
        let _g = set_mode(OFF);
        for i in 0..self.n.min(20000) {
            unsafe {
                if !self.rec(i).alive {
                    self.check_dead(i)
                }
            }
        }
    }
    /// What is wrong with an access to `n` bytes at `p`, if anything.
    pub fn access_fault(&mut self, p: usize, n: usize) -> Option<&'static str> {
        if !self.owns(p) || self.covers(p, n) {
            return None;
        }
        let mut i = self.n;
        while i > 0 {
            let r = *self.rec(i - 1);
            if r.start <= p {
                return Some(if p >= r.start + r.size { "outside every block" } else if !r.alive { "in a freed block" } else { "reaching past the end of a block" });
            }
            i -= 1;
        }
        Some("outside every block")
    }
    /// True when `n` bytes at `p` lie inside one live block.
    pub fn covers(&mut self, p: usize, n: usize) -> bool {
        if p >= self.hot.0 && p + n <= self.hot.1 {
            return true;
        }
        if !self.owns(p) {
            return false;
        }
        let (mut lo, mut hi) = (0, self.n);
        while lo < hi {
            let m = (lo + hi) / 2;
            if self.rec(m).start <= p {
                lo = m + 1
            } else {
                hi = m
            }
        }
        if lo == 0 {
            return false;
        }
        let r = *self.rec(lo - 1);
        let ok = r.alive && p + n <= r.start + r.size;
        if ok {
            self.hot = (r.start, r.start + r.size)
        }
        ok
    }
    pub fn outstanding(&self, owner: u8) -> i64 {
        self.live[owner as usize]
    }
    pub fn outstanding_blocks(&mut self, owner: u8) -> usize {
        let mut k = 0;
        for i in 0..self.n {
            let r = self.rec(i);
            if r.alive && r.owner == owner {
                k += 1
            }
        }
        k
    }
    pub fn forget_owner(&mut self, owner: u8) {
        self.live[owner as usize] = 0;
        for i in 0..self.n {
            let r = self.rec(i);
            if r.owner == owner {
                r.owner = 253
            }
        }
    }
    pub fn swap_owner(&mut self, a: u8, b: u8) {
        self.live.swap(a as usize, b as usize);
        for i in 0..self.n {
            let r = self.rec(i);
            if r.owner == a {
                r.owner = b
            } else if r.owner == b {
                r.owner = a
            }
        }
    }
}

pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _q = quiet();
        if mode() == OFF {
            return System.alloc(l);
        }
        if mode() == REG {
            crate::sched::yield_point(0);
        }
        let h = heap();
        h.init();
        h.allocs += 1;
        if l.size() == 0 {
            bad!("mem", "a zero-sized block was requested from the allocator");
        }
        if l.align() == 0 || !l.align().is_power_of_two() {
            bad!("mem", "a block with alignment {} was requested", l.align());
            return std::ptr::null_mut();
        }
        if l.size() > (1 << 36) {
            bad!("mem", "a block of {} bytes was requested", l.size());
            return std::ptr::null_mut();
        }
        if h.inject() {
            return std::ptr::null_mut();
        }
        h.new_block(l.size(), l.align(), Heap::owner())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _q = quiet();
        if mode() == OFF {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _q = quiet();
        let h = heap();
        if !h.owns(p as usize) {
            if mode() == REG && (p as usize) < 65536 {
                bad!("mem", "deallocation of an address that was never allocated");
                return;
            }
            return System.dealloc(p, l);
        }
        if mode() == REG {
            crate::sched::yield_point(0);
        }
        let h = heap();
        h.frees += 1;
        match h.find(p as usize) {
            None => bad!("mem", "deallocation of an address inside the heap that is not the start of a block"),
            Some(i) => {
                let r = *h.rec(i);
                if !r.alive {
                    bad!("mem", "a block of {} bytes was freed twice", r.size);
                    return;
                }
                if r.size != l.size() || r.align as usize != l.align() {
                    bad!("mem", "a block obtained as {} bytes align {} was freed as {} bytes align {}", r.size, r.align, l.size(), l.align());
                }
                h.kill(i)
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _q = quiet();
        let h = heap();
        if !h.owns(p as usize) {
            if mode() == REG {
                bad!("mem", "reallocation of an address that was never allocated");
                if new == 0 {
                    return std::ptr::null_mut();
                }
                return h.new_block(new, l.align(), Heap::owner());
            }
            return System.realloc(p, l, new);
        }
        if mode() == REG {
            crate::sched::yield_point(0);
        }
        let h = heap();
        h.reallocs += 1;
        let i = match h.find(p as usize) {
            None => {
                bad!("mem", "reallocation of an address inside the heap that is not the start of a block");
                return std::ptr::null_mut();
            }
            Some(i) => i,
        };
        let r = *h.rec(i);
        if !r.alive {
            bad!("mem", "a freed block of {} bytes was reallocated", r.size);
            return std::ptr::null_mut();
        }
        if r.size != l.size() || r.align as usize != l.align() {
            bad!("mem", "a block obtained as {} bytes align {} was reallocated as {} bytes align {}", r.size, r.align, l.size(), l.align());
        }
        if new == 0 {
            bad!("mem", "a block was reallocated to zero bytes");
        }
        if new > (1 << 36) {
            bad!("mem", "a block of {} bytes was requested", new);
            return std::ptr::null_mut();
        }
        if h.inject() {
            return std::ptr::null_mut();
        }
        if new <= r.cap && h.rnd() % 1000 < h.cfg.inplace_pm as u64 {
            h.check_red(i);
            h.hot = (1, 0);
            h.inplace += 1;
            let q = h.rec(i);
            q.size = new;
            let o = q.owner;
            h.live[o as usize] += new as i64 - r.size as i64;
            if new > r.size {
                h.fill_fresh(r.start + r.size, new - r.size);
            }
            h.red(i);
            return p;
        }
        h.moved += 1;
        let q = h.new_block(new, r.align as usize, r.owner);
        std::ptr::copy_nonoverlapping(p, q, r.size.min(new));
        h.kill(i);
        q
    }
}
