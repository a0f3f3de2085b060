//! Deterministic simulation of shard-ecs: see /verif/DESIGN.md.
#![feature(alloc_error_hook)]
#![cfg_attr(acc, feature(thread_local))]
mod acc;
mod comps;
mod ctx;
mod gen;
mod groups;
mod heap;
mod limit;
mod model;
mod orch;
mod parts;
mod props;
mod run;
mod sched;
mod step;
mod world;

use std::io::Write;

/// Whether `Registry` is Send and Sync, decided without failing to compile when it is not.
pub fn send_sync() -> bool {
    struct W<T>(std::marker::PhantomData<T>);
    trait No {
        fn yes(&self) -> bool {
            false
        }
    }
    impl<T> No for &W<T> {}
    trait Yes {
        fn yes(&self) -> bool;
    }
    impl<T: Send + Sync> Yes for W<T> {
        fn yes(&self) -> bool {
            true
        }
    }
    #[allow(unused_imports)]
    use {No as _, Yes as _};
    (&W::<shard_ecs::Registry>(std::marker::PhantomData)).yes()
}

fn arg(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(k: &str, d: u64) -> u64 {
    arg(k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
fn map_progress(path: &str) {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) {
        unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0);
            if p as usize != usize::MAX {
                run::PROG = p as *mut u64;
            }
        }
    }
}
pub fn found_line(f: &run::Found) -> String {
    format!("V {}|{}|{}|{}", f.kind, f.op, f.tags, f.detail.replace('\n', " "))
}

/// Executes seeds `start..start+count` and reports to a file; stops at the first violation that
/// ends a run or decides the property.
fn worker() -> i32 {
    let prop = arg("--prop").unwrap();
    let base = num("--base", 1);
    let start = num("--start", 0);
    let count = num("--count", 1);
    if let Some(p) = arg("--prog") {
        map_progress(&p);
    }
    let mut log = arg("--log").map(|p| std::fs::File::create(p).unwrap());
    let mut out = std::fs::File::create(arg("--out").unwrap()).unwrap();
    let want_trace = arg("--trace");
    let mut tot = world::Stats::default();
    let mut evals = 0u64;
    let mut nontriv = vec![];
    let mut sits: std::collections::BTreeSet<u64> = Default::default();
    let mut foreign: std::collections::BTreeMap<String, u64> = Default::default();
    let mut lines: Vec<String> = vec![];
    let mut done = start;
    let mut code = 0;
    for i in start..start + count {
        run::progress_run(i);
        let r = run::run_seed(orch::run_seed_of(base, i), &prop, &mut log);
        done = i + 1;
        evals += 1;
        tot.add(&r.stats);
        sits.extend(r.situations.iter().copied());
        let d = run::digest_hash(&r.digest) ^ r.stats.steps;
        if r.nontrivial {
            nontriv.push(d);
        }
        if i % (1 << 40) < 400 {
            lines.push(format!("D {i} {d:x}"));
        }
        if i == start && r.found.is_empty() && arg("--sample").is_some() {
            for l in run::describe(&r.trace) {
                lines.push(format!("S {l}"));
            }
        }
        let hit = r.found.iter().find(|f| props::accept(&prop, &f.kind, &f.op, f.tags));
        for f in &r.found {
            if !props::accept(&prop, &f.kind, &f.op, f.tags) {
                *foreign.entry(format!("{}/{}", f.kind, f.op)).or_insert(0) += 1;
            }
        }
        if let Some(f) = hit {
            lines.push(found_line(f));
            if let Some(p) = &want_trace {
                let mut t = head_line(&r.trace);
                for e in &r.trace.evs {
                    t.push_str(&step::ev_text(e));
                    t.push('\n');
                }
                std::fs::write(p, t).unwrap();
            }
            code = 3;
            break;
        }
        if r.found.iter().any(|f| !props::tolerable(&f.kind)) {
            if std::env::var("SIM_SHOW_FOREIGN").is_ok() {
                for f in &r.found {
                    eprintln!("foreign seed {i}: {}", found_line(f));
                }
            }
            // the damage may reach beyond this run: go on in a fresh process
            code = 4;
            break;
        }
    }
    lines.push(format!("DONE {done} {evals}"));
    lines.push(format!("T {}", tot.text()));
    lines.push(format!("N {}", nontriv.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")));
    lines.push(format!("Q {}", sits.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")));
    for (k, n) in foreign {
        lines.push(format!("F {n} {k}"));
    }
    let h = heap::heap();
    unsafe {
        lines.push(format!("H {} {} {} {} {} {} {} {} {} {} {} {}", h.allocs, h.reallocs, h.frees, h.moved, h.inplace, h.reused, h.failed, sched::YIELDS[0], sched::YIELDS[1], sched::YIELDS[2], sched::YIELDS[3], acc::count()));
    }
    let _ = out.write_all((lines.join("\n") + "\n").as_bytes());
    code
}
pub fn head_line(t: &step::Trace) -> String {
    step::head_text(t) + "\n"
}
/// Executes one recorded run and prints what it found.
fn exec() -> i32 {
    let p = arg("--file").unwrap();
    if let Some(p) = arg("--prog") {
        map_progress(&p);
    }
    let s = std::fs::read_to_string(&p).expect("replay file");
    let t = match step::parse(&s) {
        Some(t) => t,
        None => {
            println!("ERR cannot parse {p}");
            return 2;
        }
    };
    let r = run::run_trace(&t);
    let mut o = String::new();
    for f in &r.found {
        o += &found_line(f);
        o.push('\n');
    }
    o += &format!("END {:x} {}\n", run::digest_hash(&r.digest), r.found.len());
    let _ = std::io::stdout().write_all(o.as_bytes());
    let _ = std::io::stdout().flush();
    0
}
fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match cmd.as_str() {
        "worker" => {
            ctx::install_hooks();
            worker()
        }
        "exec" => {
            ctx::install_hooks();
            exec()
        }
        "check" => orch::check(),
        "replay" => orch::replay(),
        _ => {
            eprintln!("usage: shard-sim check|replay|worker|exec");
            2
        }
    };
    let _ = std::io::stdout().flush();
    // skip destructors: worker threads may be parked inside an abandoned run
    std::process::exit(code);
}
