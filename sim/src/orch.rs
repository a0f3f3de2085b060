//! The orchestrator: distributes seeds over processes, attributes violations, minimises them and
//! writes replay and evidence files.
use crate::props::*;
use crate::run::{Found, CLASSES};
use crate::step::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn run_seed_of(base: u64, i: u64) -> u64 {
    base.wrapping_mul(1_000_003).wrapping_add(i)
}
/// Seed indices of the runs of the build with the memory-access seam.
const ACC0: u64 = 1 << 40;
const BUILDS: [&str; 3] = ["dev", "rel", "acc"];
fn bins() -> Vec<PathBuf> {
    ["--dev", "--rel", "--acc"].iter().filter_map(|k| crate::arg(k)).map(PathBuf::from).collect()
}
const STALL: Duration = Duration::from_secs(120);
/// Or this much processor time, in hundredths of a second.
const STALL_TICKS: u64 = 2000;

#[derive(Clone)]
struct Cfg {
    prop: String,
    tier: String,
    base: u64,
    /// with and without debug assertions, and the one with the memory-access seam (when asked for)
    bins: Vec<PathBuf>,
    root: PathBuf,
    tmp: PathBuf,
}
#[derive(Clone)]
struct Job {
    build: usize,
    start: u64,
    count: u64,
    first: u64,
}
#[derive(Clone)]
struct Cand {
    build: usize,
    idx: u64,
    chunk: u64,
    found: Found,
    trace: Option<Trace>,
}
#[derive(Default)]
struct Totals {
    evals: u64,
    nontriv: BTreeSet<u64>,
    sits: BTreeSet<u64>,
    stats: BTreeMap<String, u64>,
    heap: [u64; 12],
    foreign: BTreeMap<String, u64>,
    samples: Vec<Vec<String>>,
    digests: [BTreeMap<u64, String>; 3],
    crashes: u64,
    errors: Vec<String>,
    cands: Vec<Cand>,
    unreproduced: u64,
    gated: u64,
}
/// What a child process did: exit code, or None with the progress words when it crashed or hung.
enum End {
    Code(i32),
    Dead { kind: &'static str, prog: [u64; 5] },
}
fn spawn_watch(cmd: &mut Command, prog: &Path, stop: Option<&Mutex<bool>>) -> End {
    std::fs::write(prog, vec![0u8; 4096]).unwrap();
    unsafe {
        // no child outlives the one that watches it
        std::os::unix::process::CommandExt::pre_exec(cmd, || {
            extern "C" {
                fn prctl(option: i32, arg: u64) -> i32;
            }
            prctl(1, 9);
            Ok(())
        });
    }
    let mut ch = cmd.arg("--prog").arg(prog).stdin(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let stat = format!("/proc/{}/stat", ch.id());
    // processor time used so far, in ticks
    let cpu = || -> u64 {
        let s = std::fs::read_to_string(&stat).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_ascii_whitespace().collect();
        [11, 12].iter().filter_map(|i| f.get(*i)?.parse::<u64>().ok()).sum()
    };
    let read = || -> [u64; 5] {
        let b = std::fs::read(prog).unwrap_or_default();
        let mut r = [0u64; 5];
        for i in 0..5 {
            if b.len() >= 8 * i + 8 {
                r[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
            }
        }
        r
    };
    let mut last = (u64::MAX, Instant::now(), 0);
    let mut wait = 1;
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => match st.code() {
                Some(2) => return End::Dead { kind: "hang", prog: read() },
                Some(c) if c < 100 => return End::Code(c),
                _ => return End::Dead { kind: "crash", prog: read() },
            },
            None => {
                let p = read();
                if p[4] != last.0 {
                    last = (p[4], Instant::now(), 0);
                } else if last.2 == 0 && last.1.elapsed() > Duration::from_secs(2) {
                    last.2 = cpu();
                } else if last.1.elapsed() > STALL || last.1.elapsed() > STALL / 6 && last.2 > 0 && cpu() > last.2 + STALL_TICKS {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Dead { kind: "hang", prog: p };
                }
                if let Some(s) = stop {
                    if *s.lock().unwrap() {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        return End::Code(99);
                    }
                }
                std::thread::sleep(Duration::from_millis(wait));
                wait = (wait + 1).min(10);
            }
        }
    }
}
fn parse_found(l: &str) -> Option<Found> {
    let l = l.strip_prefix("V ")?;
    let mut it = l.splitn(4, '|');
    Some(Found { kind: it.next()?.into(), op: it.next()?.into(), tags: it.next()?.parse().ok()?, detail: it.next()?.into() })
}
/// Executes one trace in a fresh process.
fn exec(cfg: &Cfg, build: usize, t: &Trace, name: &str) -> Vec<Found> {
    let f = cfg.tmp.join(format!("{name}.trace"));
    let mut s = crate::head_line(t);
    for e in &t.evs {
        s.push_str(&ev_text(e));
        s.push('\n');
    }
    std::fs::write(&f, s).unwrap();
    let o = cfg.tmp.join(format!("{name}.out"));
    let mut c = Command::new(&cfg.bins[build]);
    c.arg("exec").arg("--file").arg(&f).stdout(Stdio::from(std::fs::File::create(&o).unwrap()));
    let end = spawn_watch(&mut c, &cfg.tmp.join(format!("{name}.prog")), None);
    match end {
        End::Code(_) => std::fs::read_to_string(&o).unwrap_or_default().lines().filter_map(parse_found).collect(),
        End::Dead { kind, prog } => vec![dead(kind, prog)],
    }
}
fn dead(kind: &str, prog: [u64; 5]) -> Found {
    let op = CLASSES.get(prog[2] as usize).copied().unwrap_or("");
    let what = if kind == "crash" { "the process was killed by a signal or aborted" } else { "the operation did not end" };
    Found { kind: kind.into(), op: op.into(), tags: prog[3] as u8, detail: format!("{what} during event {} ({op})", prog[1]) }
}
fn hit<'a>(prop: &str, v: &'a [Found]) -> Option<&'a Found> {
    v.iter().find(|f| accept(prop, &f.kind, &f.op, f.tags))
}
/// Gated properties: the violation must go away when the faults concerned are taken out.
fn gate_ok(cfg: &Cfg, build: usize, t: &Trace, f: &Found, name: &str) -> bool {
    let g = gate(&cfg.prop);
    if g == 0 || f.tags & g == 0 || matches!(f.kind.as_str(), "nonint" | "reader" | "sendsync") {
        return true;
    }
    let bare = crate::run::strip(t, g);
    let v = exec(cfg, build, &bare, name);
    // tags as if the fault had been there: any damage counts
    !v.iter().any(|x| accept(&cfg.prop, &x.kind, &x.op, g | x.tags))
}

fn minimise(cfg: &Cfg, build: usize, t: &Trace, f: &Found, budget: Duration) -> (Trace, Found) {
    let t0 = Instant::now();
    let best = Mutex::new((t.clone(), f.clone()));
    if t.evs.is_empty() {
        return best.into_inner().unwrap();
    }
    let test = |c: &Trace, name: &str| -> Option<Found> { hit(&cfg.prop, &exec(cfg, build, c, name)).filter(|x| x.kind == f.kind || f.kind != "crash").cloned() };
    // first reproducing candidate out of several, tried in parallel
    let first = |cands: Vec<Trace>| -> Option<(Trace, Found)> {
        for (bi, group) in cands.chunks(8).enumerate() {
            if t0.elapsed() > budget {
                return None;
            }
            let res: Vec<Option<Found>> = std::thread::scope(|s| {
                let hs: Vec<_> = group.iter().enumerate().map(|(i, c)| s.spawn(move || test(c, &format!("min{}_{i}", bi % 2)))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for (i, r) in res.into_iter().enumerate() {
                if let Some(x) = r {
                    return Some((group[i].clone(), x));
                }
            }
        }
        None
    };
    let mut cur = (t.clone(), f.clone());
    // fewer events
    let mut size = (cur.0.evs.len() / 2).max(1);
    loop {
        let n = cur.0.evs.len();
        let mut cands = vec![];
        let mut i = n;
        while i > 0 {
            let lo = i.saturating_sub(size);
            let mut c = cur.0.clone();
            c.evs.drain(lo..i);
            cands.push(c);
            i = lo;
        }
        match first(cands) {
            Some(x) => {
                cur = x;
                size = size.min((cur.0.evs.len() / 2).max(1));
            }
            None => {
                if size == 1 || t0.elapsed() > budget {
                    break;
                }
                size = (size / 2).max(1);
            }
        }
    }
    // simpler events
    for _ in 0..6 {
        let mut cands = vec![];
        let mut base = cur.0.clone();
        let d = crate::heap::HeapCfg { fill: base.heap.fill, ..Default::default() };
        if base.heap.seed != 0 || base.heap.reuse_pm != 0 || base.heap.inplace_pm != 0 || base.heap.slack_pm != 0 {
            base.heap = d;
            cands.push(base.clone());
        }
        for (i, e) in cur.0.evs.iter().enumerate() {
            let mut put = |m: Ev| {
                if m != *e {
                    let mut c = cur.0.clone();
                    c.evs[i] = m;
                    cands.push(c);
                }
            };
            if let Ev::Step(s) = e {
                let mut m = *s;
                m.fault = Fault::None;
                put(Ev::Step(m));
                let mut m = *s;
                m.y = 0;
                m.ys = 0;
                put(Ev::Step(m));
                let mut m = *s;
                m.client = 0;
                put(Ev::Step(m));
                if s.op != Op::Iter && s.n > 1 {
                    for n in [1, s.n / 2, s.n - 1] {
                        let mut m = *s;
                        m.n = n;
                        put(Ev::Step(m));
                    }
                }
                if let Fault::Alloc(a, l) = s.fault {
                    if l > 1 {
                        let mut m = *s;
                        m.fault = Fault::Alloc(a, 1);
                        put(Ev::Step(m));
                    }
                }
            }
        }
        match first(cands) {
            Some(x) => cur = x,
            None => break,
        }
    }
    *best.lock().unwrap() = cur;
    best.into_inner().unwrap()
}

fn log_trace(cfg: &Cfg, c: &Cand) -> Option<Trace> {
    let lg = cfg.tmp.join("relog");
    let mut k = Command::new(&cfg.bins[c.build]);
    k.args(["worker", "--prop", &cfg.prop, "--base", &cfg.base.to_string(), "--start", &c.idx.to_string(), "--count", "1", "--log"]).arg(&lg).arg("--out").arg(cfg.tmp.join("relog.out"));
    let _ = spawn_watch(&mut k, &cfg.tmp.join("relog.prog"), None);
    parse(&std::fs::read_to_string(&lg).ok()?)
}

fn plan(prop: &str, tier: &str) -> (u64, u64) {
    // (runs per build, runs per process)
    let quick = tier != "thorough";
    match prop {
        "C11" => (if quick { 6 } else { 36 }, 1),
        "C12" => (if quick { 6 } else { 160 }, 1),
        _ => {
            let n = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok());
            let q = match prop {
                "C17" => 7_000,
                "C18" => 2_000,
                "C28" => 100,
                _ => 16_000,
            };
            (n.unwrap_or(if quick { q } else { q * 60 }), if prop == "C18" { 40 } else { 250 })
        }
    }
}

fn acc_runs(prop: &str, tier: &str) -> u64 {
    let n = std::env::var("SIM_ACC_RUNS").ok().and_then(|x| x.parse().ok());
    let q = match prop {
        "C14" => 6_000,
        "C28" => 1_500,
        _ => 2_000,
    };
    n.unwrap_or(if tier != "thorough" { q } else { q * 60 })
}
pub fn check() -> i32 {
    let t0 = Instant::now();
    let g = |k: &str| crate::arg(k);
    let root = PathBuf::from(g("--root").unwrap_or("/verif".into()));
    let prop = g("--property").unwrap_or_default();
    if !ALL.contains(&prop.as_str()) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let tmp = PathBuf::from(format!("{}/simtmp-{}-{}", if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" }, prop, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let cfg = Cfg { prop: prop.clone(), tier: g("--tier").unwrap_or("quick".into()), base: crate::num("--seed", 1), bins: bins(), root, tmp: tmp.clone() };
    let r = check_in(&cfg, t0);
    let _ = std::fs::remove_dir_all(&tmp);
    r
}
fn check_in(cfg: &Cfg, t0: Instant) -> i32 {
    let (runs, chunk) = plan(&cfg.prop, &cfg.tier);
    let cap = Duration::from_secs(if cfg.tier == "thorough" { 6 * 3600 } else { 420 });
    let mut q: VecDeque<Job> = VecDeque::new();
    let mut i = 0;
    while i < runs {
        let n = chunk.min(runs - i);
        for b in 0..2 {
            // both builds see the same seeds where results are compared, else different ones
            let start = if matches!(cfg.prop.as_str(), "C17") { i } else { i * 2 + b as u64 * n };
            q.push_back(Job { build: b, start, count: n, first: start });
        }
        i += n;
    }
    if cfg.bins.len() > 2 {
        let runs = acc_runs(&cfg.prop, &cfg.tier);
        let mut at = 0;
        let mut jobs = vec![];
        while at < runs {
            let n = 100.min(runs - at);
            jobs.push(Job { build: 2, start: ACC0 + at, count: n, first: ACC0 + at });
            at += n;
        }
        // spread among the others
        let gap = (q.len() / jobs.len().max(1)).max(1);
        let mut mixed = VecDeque::new();
        let mut it = jobs.into_iter();
        for (k, j) in q.into_iter().enumerate() {
            mixed.push_back(j);
            if k % gap == 0 {
                mixed.extend(it.next());
            }
        }
        mixed.extend(it);
        q = mixed;
    }
    let queue = Mutex::new(q);
    let tot = Mutex::new(Totals::default());
    let stop = Mutex::new(false);
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16);
    // the entity limit runs need about a gigabyte each
    let t_start = Instant::now();
    let mut code = 0;
    let mut report = String::new();
    // what does not reproduce does not end the search
    for _round in 0..50 {
    std::thread::scope(|s| {
        for w in 0..workers {
            let (queue, tot, stop) = (&queue, &tot, &stop);
            s.spawn(move || loop {
                if *stop.lock().unwrap() || t_start.elapsed() > cap {
                    return;
                }
                let job = match queue.lock().unwrap().pop_front() {
                    Some(j) => j,
                    None => return,
                };
                let out = cfg.tmp.join(format!("w{w}.out"));
                let tr = cfg.tmp.join(format!("w{w}.tr"));
                let _ = std::fs::remove_file(&out);
                let mut c = Command::new(&cfg.bins[job.build]);
                c.args(["worker", "--prop", &cfg.prop, "--base", &cfg.base.to_string(), "--start", &job.start.to_string(), "--count", &job.count.to_string()]);
                c.arg("--out").arg(&out).arg("--trace").arg(&tr).stdout(Stdio::null());
                if job.start < 500 && tot.lock().unwrap().samples.len() < 3 {
                    c.args(["--sample", "1"]);
                }
                if cfg.prop == "C17" && job.build == 1 {
                    // another process, with its heap at another place
                    c.env("SIM_ARENA", "1");
                }
                let end = spawn_watch(&mut c, &cfg.tmp.join(format!("w{w}.prog")), Some(stop));
                let text = std::fs::read_to_string(&out).unwrap_or_default();
                let mut t = tot.lock().unwrap();
                let mut done = job.start;
                let mut found = None;
                for l in text.lines() {
                    let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
                    match k {
                        "DONE" => {
                            let mut p = rest.split(' ');
                            done = p.next().unwrap().parse().unwrap();
                            t.evals += p.next().unwrap().parse::<u64>().unwrap();
                        }
                        "T" => {
                            for kv in rest.split(' ') {
                                if let Some((k, v)) = kv.split_once('=') {
                                    let v: u64 = v.parse().unwrap_or(0);
                                    let e = t.stats.entry(k.to_string()).or_insert(0);
                                    *e = if k.ends_with("_max") { v.max(*e) } else { *e + v };
                                }
                            }
                        }
                        "N" => t.nontriv.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                        "Q" => t.sits.extend(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok())),
                        "F" => {
                            if let Some((n, k)) = rest.split_once(' ') {
                                *t.foreign.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                            }
                        }
                        "H" => {
                            for (i, x) in rest.split(' ').enumerate().take(12) {
                                t.heap[i] += x.parse::<u64>().unwrap_or(0);
                            }
                        }
                        "D" => {
                            if let Some((i, d)) = rest.split_once(' ') {
                                t.digests[job.build].insert(i.parse().unwrap(), d.to_string());
                            }
                        }
                        "S" => {
                            let n = job.start as usize;
                            let _ = n;
                            if rest.starts_with("run ") {
                                t.samples.push(vec![]);
                            }
                            if let Some(s) = t.samples.last_mut() {
                                s.push(rest.to_string());
                            }
                        }
                        "V" => found = parse_found(l),
                        _ => {}
                    }
                }
                match end {
                    End::Code(0) => {}
                    End::Code(99) => {
                        queue.lock().unwrap().push_front(job);
                        return;
                    }
                    End::Code(3) => {
                        let trace = std::fs::read_to_string(&tr).ok().and_then(|s| parse(&s));
                        let c = Cand { build: job.build, idx: done - 1, chunk: job.first, found: found.unwrap(), trace };
                        // gated properties: find out whether the fault is to blame
                        drop(t);
                        let ok = match &c.trace {
                            Some(tr) => gate_ok(cfg, c.build, tr, &c.found, &format!("g{w}")),
                            None => true,
                        };
                        let mut t = tot.lock().unwrap();
                        if done < job.start + job.count {
                            queue.lock().unwrap().push_back(Job { start: done, count: job.start + job.count - done, ..job });
                        }
                        if ok {
                            t.cands.push(c);
                            *stop.lock().unwrap() = true;
                            return;
                        }
                        t.gated += 1;
                    }
                    End::Code(4) => {
                        if done < job.start + job.count {
                            queue.lock().unwrap().push_back(Job { start: done, count: job.start + job.count - done, ..job });
                        }
                    }
                    End::Code(c) => t.errors.push(format!("worker ended with code {c} at {}", job.start)),
                    End::Dead { kind, prog } => {
                        t.crashes += 1;
                        t.evals += prog[0].saturating_sub(job.start) + 1;
                        let f = dead(kind, prog);
                        let idx = prog[0].max(job.start);
                        if idx + 1 < job.start + job.count && t.crashes < 400 {
                            queue.lock().unwrap().push_back(Job { start: idx + 1, count: job.start + job.count - idx - 1, ..job });
                        }
                        if accept(&cfg.prop, &f.kind, &f.op, f.tags) {
                            t.cands.push(Cand { build: job.build, idx, chunk: job.first, found: f, trace: None });
                            *stop.lock().unwrap() = true;
                            return;
                        }
                        *t.foreign.entry(format!("{}/{}", f.kind, f.op)).or_insert(0) += 1;
                    }
                }
            });
        }
    });
    let mut t = tot.lock().unwrap();
    let mut cands = std::mem::take(&mut t.cands);
    if cands.is_empty() {
        break;
    }
    cands.sort_by_key(|c| c.idx);
    for c in cands {
        if let Some(p) = report_cand(cfg, &c, &mut t) {
            report = p;
            code = 1;
            break;
        }
    }
    if code == 1 {
        break;
    }
    *stop.lock().unwrap() = false;
    }
    let mut t = tot.into_inner().unwrap();
    let mut self_ok = true;
    let mut self_n = 0;
    if code == 1 {
    } else if cfg.prop == "C17" {
        for (i, d) in &t.digests[0] {
            if let Some(e) = t.digests[1].get(i) {
                self_n += 1;
                if d != e && t.cands.is_empty() {
                    let mut c = Cand { build: 0, idx: *i, chunk: *i, found: Found { kind: "determinism".into(), op: "".into(), tags: 0, detail: "the same operations gave different results in two processes".into() }, trace: None };
                    c.trace = log_trace(cfg, &c);
                    t.cands.push(c);
                }
            }
        }
    } else if t.cands.is_empty() && !matches!(cfg.prop.as_str(), "C11" | "C12") {
        // one seed is one repeatable execution: repeat some in fresh processes
        let out = cfg.tmp.join("self.out");
        for b in 0..cfg.bins.len() {
            let start = if b == 2 { ACC0 } else { b as u64 * chunk.min(runs) };
            let mut c = Command::new(&cfg.bins[b]);
            c.args(["worker", "--prop", &cfg.prop, "--base", &cfg.base.to_string(), "--start", &start.to_string(), "--count", "12"]).arg("--out").arg(&out);
            let _ = spawn_watch(&mut c, &cfg.tmp.join("self.prog"), None);
            for l in std::fs::read_to_string(&out).unwrap_or_default().lines() {
                if let Some((i, d)) = l.strip_prefix("D ").and_then(|x| x.split_once(' ')) {
                    let i: u64 = i.parse().unwrap();
                    if let Some(e) = t.digests[b].get(&i) {
                        self_n += 1;
                        self_ok &= d == e;
                    }
                }
            }
        }
    }
    let wall = t_start.elapsed().as_secs_f64();
    for c in t.cands.clone() {
        if let Some(p) = report_cand(cfg, &c, &mut t) {
            report = p;
            code = 1;
            break;
        }
    }
    if code == 0 && t.unreproduced > 0 {
        eprintln!("a violation was seen that did not reproduce; see the evidence file");
    }
    for (k, n) in &t.foreign {
        eprintln!("note: {n} runs showed {k}, which another property decides");
    }
    for e in &t.errors {
        eprintln!("error: {e}");
    }
    write_evidence(cfg, &t, t0.elapsed().as_secs_f64(), wall, self_n, self_ok, &report);
    println!("{}: {} runs in {:.1} s, {} distinct non-trivial, {} situations", cfg.prop, t.evals, wall, t.nontriv.len(), t.sits.len());
    if code == 0 && (t.evals == 0 || !t.errors.is_empty()) {
        return 2;
    }
    code
}
fn report_cand(cfg: &Cfg, c: &Cand, t: &mut Totals) -> Option<String> {
    let dir = cfg.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.replay", cfg.prop, cfg.base, c.idx));
    let trace = c.trace.clone().or_else(|| log_trace(cfg, c));
    let bname = BUILDS[c.build];
    let mut body = None;
    if let Some(tr) = &trace {
        let v = exec(cfg, c.build, tr, "fresh");
        let cross = c.found.detail.contains("in two processes");
        if let Some(f) = hit(&cfg.prop, &v).cloned() {
            if gate_ok(cfg, c.build, tr, &f, "gate") {
                let (m, mf) = minimise(cfg, c.build, tr, &f, Duration::from_secs(std::env::var("SIM_MIN_S").ok().and_then(|x| x.parse().ok()).unwrap_or(60)));
                let (m, mf) = if gate_ok(cfg, c.build, &m, &mf, "gate") { (m, mf) } else { (tr.clone(), f) };
                body = Some((m, mf));
            } else {
                t.gated += 1;
                return None;
            }
        } else if cross {
            body = Some((tr.clone(), c.found.clone()));
        }
    }
    match body {
        Some((m, f)) => {
            let mut s = format!("# property={} build={bname} seed-index={} base={}\n# violation: {}: {}\n# replay with: /verif/check.sh replay {}\n", cfg.prop, c.idx, cfg.base, f.kind, f.detail, path.display());
            s += &crate::head_line(&m);
            for (e, d) in m.evs.iter().zip(crate::run::describe(&Trace { evs: m.evs.clone(), ..m.clone() }).into_iter().skip(1).chain(std::iter::repeat(String::new()))) {
                s += &ev_text(e);
                if let Some((_, x)) = d.split_once(" # ") {
                    s += &format!(" #{x}");
                }
                s.push('\n');
            }
            std::fs::write(&path, s).unwrap();
            println!("{}: {} ({} build, {} events after minimisation from {})", f.kind, f.detail, bname, m.evs.len(), trace.map(|t| t.evs.len()).unwrap_or(0));
        }
        None => {
            // not reproducible from one run alone: replay the whole process
            let n = c.idx - c.chunk + 1;
            let again = run_seeds(cfg, c.build, c.chunk, n);
            let ok = again.is_some_and(|f| accept(&cfg.prop, &f.kind, &f.op, f.tags));
            if !ok {
                t.unreproduced += 1;
                eprintln!("unreproduced: seed index {} of the {bname} build: {}: {}", c.idx, c.found.kind, c.found.detail);
                return None;
            }
            let s = format!("# property={} build={bname} base={}\n# violation: {}: {}\nseeds prop={} base={} start={} count={n}\n", cfg.prop, cfg.base, c.found.kind, c.found.detail, cfg.prop, cfg.base, c.chunk);
            std::fs::write(&path, s).unwrap();
            println!("{}: {} ({} build, needs the {} runs before it)", c.found.kind, c.found.detail, bname, n - 1);
        }
    }
    println!("VIOLATION property={} replay={}", cfg.prop, path.display());
    Some(path.display().to_string())
}
fn run_seeds(cfg: &Cfg, build: usize, start: u64, count: u64) -> Option<Found> {
    let out = cfg.tmp.join("again.out");
    let _ = std::fs::remove_file(&out);
    let mut k = Command::new(&cfg.bins[build]);
    k.args(["worker", "--prop", &cfg.prop, "--base", &cfg.base.to_string(), "--start", &start.to_string(), "--count", &count.to_string()]).arg("--out").arg(&out).stdout(Stdio::null());
    match spawn_watch(&mut k, &cfg.tmp.join("again.prog"), None) {
        End::Dead { kind, prog } => Some(dead(kind, prog)),
        End::Code(_) => std::fs::read_to_string(&out).unwrap_or_default().lines().find_map(parse_found),
    }
}
/// Replays a file written by a check; exit 1 when the violation shows again.
pub fn replay() -> i32 {
    let g = |k: &str| crate::arg(k);
    let file = g("--file").unwrap_or_default();
    let s = match std::fs::read_to_string(&file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let build = BUILDS.iter().position(|b| s.contains(&format!(" build={b} "))).unwrap_or(0);
    if build >= bins().len() {
        eprintln!("replaying {file} needs the build with the memory-access seam");
        return 2;
    }
    let word = |k: &str| s.split_whitespace().find_map(|w| w.strip_prefix(k)).map(|x| x.to_string()).unwrap_or_default();
    let prop = word("property=");
    let expect = s.lines().find_map(|l| l.strip_prefix("# violation: ")).unwrap_or("").to_string();
    let tmp = PathBuf::from(format!("/tmp/simreplay-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let cfg = Cfg { prop: prop.clone(), tier: "quick".into(), base: word("base=").parse().unwrap_or(1), bins: bins(), root: "/verif".into(), tmp: tmp.clone() };
    let v: Vec<Found> = if s.lines().any(|l| l.starts_with("seeds ")) {
        run_seeds(&cfg, build, word("start=").parse().unwrap_or(0), word("count=").parse().unwrap_or(1)).into_iter().collect()
    } else {
        match parse(&s) {
            Some(t) => {
                if expect.contains("in two processes") {
                    let a = exec_digest(&cfg, 0, &t);
                    let b = exec_digest(&cfg, 1, &t);
                    if a != b {
                        vec![Found { kind: "determinism".into(), op: "".into(), tags: 0, detail: "the same operations gave different results in two processes".into() }]
                    } else {
                        vec![]
                    }
                } else {
                    exec(&cfg, build, &t, "replay")
                }
            }
            None => {
                eprintln!("cannot parse {file}");
                return 2;
            }
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    match hit(&prop, &v) {
        Some(f) => {
            let same = format!("{}: {}", f.kind, f.detail) == expect;
            println!("{}: {}", f.kind, f.detail);
            println!("{}", if same { "exactly the recorded violation" } else { "a different violation than recorded" });
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("the violation does not occur");
            0
        }
    }
}
fn exec_digest(cfg: &Cfg, build: usize, t: &Trace) -> String {
    let f = cfg.tmp.join("d.trace");
    let mut s = crate::head_line(t);
    for e in &t.evs {
        s.push_str(&ev_text(e));
        s.push('\n');
    }
    std::fs::write(&f, s).unwrap();
    let mut c = Command::new(&cfg.bins[build]);
    c.arg("exec").arg("--file").arg(&f);
    if build == 1 {
        c.env("SIM_ARENA", "1");
    }
    let o = c.output().expect("exec");
    String::from_utf8_lossy(&o.stdout).lines().find(|l| l.starts_with("END ")).unwrap_or("").to_string()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "at least one operation went through a dead, foreign or never issued handle while several entities were alive",
        "C04" | "C05" | "C06" | "C16" => "an iteration of the property's kind yielded rows",
        "C07" => "at least one request was rejected",
        "C08" => "at least one injected allocation failure fired",
        "C09" => "at least one injected destructor panic fired",
        "C11" => "the registry was filled to 16,777,215 entities",
        "C12" => "the registry was driven towards 65,534 component sets",
        "C13" => "more than two different component sets existed",
        "C14" => "operations of several clients overlapped, or several registries were in use",
        "C15" => "at least one iteration was abandoned or unwound",
        "C18" => "the cycle was repeated at least four times",
        "C24" | "C25" | "C26" => "more than five operations ran",
        _ => "more than one entity was alive and more than five operations ran",
    }
}
#[allow(clippy::too_many_arguments)]
fn write_evidence(cfg: &Cfg, t: &Totals, wall_all: f64, wall: f64, self_n: u64, self_ok: bool, report: &str) {
    let s = |k: &str| t.stats.get(k).copied().unwrap_or(0);
    let samples: Vec<String> = t.samples.iter().take(3).map(|v| esc(&v.join("; "))).collect();
    let level = if matches!(cfg.prop.as_str(), "C08" | "C09") { "fault_enumeration" } else { "exploration" };
    let j = format!(
        r#"{{
 "property": {p}, "tier": {tier}, "seed": {seed}, "level": "{level}", "wall_s": {wa:.2},
 "coverage": {{
  "evaluations": {ev}, "distinct_nontrivial": {dn},
  "rule": {rule},
  "samples": [{samples}],
  "runs_per_hour": {rph}, "search_wall_s": {wall:.2},
  "simulated_time": {{"unit": "operations (the system has no clock)", "client_steps": {steps}, "bulk_operations": {sub}, "scheduler_resumes": {res}}},
  "distinct_situations": {sit},
  "situation_measure": "operation x outcome x liveness of the handle x size of the component set x log2 of the entities sharing it x iteration variant x fault position x preemptible",
  "faults_injected": {{
   "allocation_failure_armed": {aa}, "allocation_failure_fired_operations": {af}, "allocator_calls_failed": {hf},
   "destructor_panic_armed": {da}, "destructor_panic_fired": {df},
   "callback_panic_armed": {ca}, "callback_panic_fired": {cf}, "iterations_abandoned": {ab},
   "dead_or_foreign_handle_operations": {stale}, "rejected_requests": {refd},
   "registry_moves_and_swaps": {mv}, "registry_drops_midway": {rd},
   "realloc_moved_block": {hm}, "realloc_in_place": {hi}, "freed_block_reused": {hr},
   "preemptions_in_allocator": {y0}, "preemptions_in_destructor": {y1}, "preemptions_in_callback": {y2}, "preemptions_at_a_memory_access": {y3},
   "overlapped_operations": {ov}, "max_clients_in_flight": {im}, "nested_reads": {ne}
  }},
  "checks": {{"iterations_compared": {its}, "rows_compared": {rows}, "entities_compared": {ec}, "max_live_entities": {lm}, "max_component_sets": {sm}, "memory_accesses_checked": {acn}}},
  "allocator": {{"allocs": {h0}, "reallocs": {h1}, "frees": {h2}}},
  "repeatability": {{"runs_repeated_in_another_process": {self_n}, "identical": {self_ok}}},
  "discarded": {{"violations_of_other_properties": {foreign}, "not_caused_by_the_fault": {gated}, "unreproduced": {unr}, "crashed_or_hung_processes": {cr}}},
  "real_code": "all of shard-ecs (registry, archetype storage, archetype registry, entity registry, iterators, descriptors), unmodified, built from /repo in two profiles: with and without debug assertions and overflow checks{accn}",
  "stubs": "the global allocator (simulated heap), the scheduling of client threads, the component types, filters and loop bodies of clients",
  "violation_replay": {rep}
 }}
}}
"#,
        p = esc(&cfg.prop), tier = esc(if cfg.tier == "thorough" { "thorough" } else { "quick" }), seed = cfg.base, wa = wall_all, ev = t.evals, dn = t.nontriv.len(),
        rule = esc(&format!("a run is one seed: a generated sequence of client operations, interleavings and faults, judged after every step; counted distinct by the hash of everything it returned, and non-trivial when {}", rule(&cfg.prop))),
        samples = samples.join(", "), rph = (t.evals as f64 / wall.max(0.001) * 3600.0) as u64, steps = s("steps"), sub = s("subops"), res = s("resumes"), sit = t.sits.len(),
        aa = s("alloc_armed"), af = s("alloc_fired"), hf = t.heap[6], da = s("drop_armed"), df = s("drop_fired"), ca = s("cb_armed"), cf = s("cb_fired"), ab = s("abandoned"),
        stale = s("stale"), refd = s("refused"), mv = s("moves"), rd = s("regdrops"), hm = t.heap[3], hi = t.heap[4], hr = t.heap[5],
        y0 = t.heap[7], y1 = t.heap[8], y2 = t.heap[9], y3 = t.heap[10], acn = t.heap[11], ov = s("overlapped"), im = s("inflight_max"), ne = s("nested"),
        its = s("iterations"), rows = s("rows"), ec = s("entity_checks"), lm = s("live_max"), sm = s("sets_max"),
        h0 = t.heap[0], h1 = t.heap[1], h2 = t.heap[2],
        foreign = t.foreign.values().sum::<u64>(), gated = t.gated, unr = t.unreproduced, cr = t.crashes,
        accn = if cfg.bins.len() > 2 { ", and once more with a hook before every load and store" } else { "" },
        rep = if report.is_empty() { "null".to_string() } else { esc(report) },
    );
    let d = cfg.root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{}.json", cfg.prop)), j);
}
