//! Real threads that are parked and released one at a time: which one runs is decided by the
//! simulator, never by the operating system.
use crate::ctx::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::thread::Thread;

const IDLE: u32 = 0;
const RUN: u32 = 1;
const YIELDED: u32 = 2;

struct Slot {
    state: AtomicU32,
    job: Option<Box<dyn FnOnce()>>,
    thread: Option<Thread>,
    main: Option<Thread>,
    done: bool,
}
pub const N: usize = 6;
static mut SLOTS: [Slot; N] = [const { Slot { state: AtomicU32::new(IDLE), job: None, thread: None, main: None, done: true } }; N];
#[allow(static_mut_refs)]
fn slot(i: usize) -> &'static mut Slot {
    unsafe { &mut SLOTS[i] }
}
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn spawn(i: usize) {
    slot(i).main = Some(std::thread::current());
    slot(i).state.store(IDLE, SeqCst);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            ME.with(|m| m.set(i));
            loop {
                while slot(i).state.load(Acquire) != RUN {
                    std::thread::park();
                }
                if let Some(j) = slot(i).job.take() {
                    j();
                }
                slot(i).done = true;
                slot(i).state.store(IDLE, Release);
                slot(i).main.as_ref().unwrap().unpark();
            }
        })
        .expect("spawn");
    slot(i).thread = Some(h.thread().clone());
}

/// Hands `job` to thread `i` and runs it until it finishes or yields. Returns true when finished.
pub fn start(i: usize, job: Box<dyn FnOnce()>) -> bool {
    if slot(i).thread.is_none() {
        spawn(i);
    }
    slot(i).job = Some(job);
    slot(i).done = false;
    resume(i)
}
pub fn resume(i: usize) -> bool {
    let s = slot(i);
    s.state.store(RUN, Release);
    s.thread.as_ref().unwrap().unpark();
    while s.state.load(Acquire) == RUN {
        std::thread::park();
    }
    s.done
}

/// Lets clients that wait inside an operation go on, for an operation of the main thread that may
/// be waiting for them.
pub fn rescue() {
    if ME.with(|m| m.get()) == usize::MAX {
        for i in 0..N {
            if slot(i).state.load(Acquire) == YIELDED {
                resume(i);
            }
        }
    }
}
pub fn on_client() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}
pub static mut YIELDS: [u64; 4] = [0; 4];
/// A point at which the simulator may run another client: 0 allocator call, 1 destructor,
/// 2 user callback or iteration step, 3 one memory access.
pub fn yield_point(kind: usize) {
    let i = ME.with(|m| m.get());
    if i == usize::MAX || std::thread::panicking() {
        return;
    }
    match ctx() {
        Some(c) if c.yields_left > 0 => {
            if c.yield_skip > 0 {
                c.yield_skip -= 1;
                return;
            }
            c.yields_left -= 1;
            if crate::acc::ON {
                c.yield_skip = (mix(c.yield_gap as u64, c.yields_left as u64) % (2 * c.yield_gap as u64 + 1)) as u32;
            }
        }
        _ => return,
    }
    give(i, kind);
}
/// Hands control back whatever the plan of the operation says.
pub fn force() {
    let i = ME.with(|m| m.get());
    if i != usize::MAX && !std::thread::panicking() {
        give(i, 3)
    }
}
fn give(i: usize, kind: usize) {
    unsafe { YIELDS[kind] += 1 };
    let _g = set_mode(OFF);
    let s = slot(i);
    s.state.store(YIELDED, Release);
    s.main.as_ref().unwrap().unpark();
    while s.state.load(Acquire) != RUN {
        std::thread::park();
    }
}
