//! One simulated execution: generating it, executing a recorded one, and the re-executions some
//! properties are decided by.
use crate::comps::*;
use crate::ctx::*;
use crate::gen::*;
use crate::groups::GROUPS;
use crate::heap::HeapCfg;
use crate::props::*;
use crate::step::*;
use crate::world::*;

// ---- progress shared with the orchestrator, for attributing crashes and hangs ----
pub static mut PROG: *mut u64 = std::ptr::null_mut();
pub const CLASSES: &[&str] = &["", "struct", "query", "query_mut", "enum", "match", "filter", "exact", "drop", "audit"];
pub fn progress(ev: u64, op: &str, tags: u8) {
    unsafe {
        if !PROG.is_null() {
            *PROG.add(1) = ev;
            *PROG.add(2) = CLASSES.iter().position(|c| *c == op).unwrap_or(0) as u64;
            *PROG.add(3) = tags as u64;
            *PROG.add(4) += 1;
        }
    }
}
pub fn progress_run(idx: u64) {
    unsafe {
        if !PROG.is_null() {
            *PROG = idx;
            *PROG.add(4) += 1;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub kind: String,
    pub op: String,
    pub tags: u8,
    pub detail: String,
}
pub struct Res {
    pub found: Vec<Found>,
    pub trace: Trace,
    pub digest: Vec<(u32, u8, u64)>,
    pub resolved: Vec<(u32, u32)>,
    pub stats: Stats,
    pub situations: std::collections::BTreeSet<u64>,
    pub marks: Vec<(u32, i64, u64)>,
    pub nontrivial: bool,
}
fn collect(w: &World, out: &mut Vec<Found>) -> bool {
    // returns true when the run has to stop
    if viol().is_empty() {
        return false;
    }
    let mut stop = false;
    for v in viol().drain(..) {
        if !tolerable(&v.kind) {
            stop = true;
        }
        if out.len() < 40 {
            out.push(Found { kind: v.kind, op: w.last_op.to_string(), tags: w.tags, detail: v.detail });
        }
    }
    // what follows from a reported violation is judged on its own
    stop
}
pub fn digest_hash(d: &[(u32, u8, u64)]) -> u64 {
    d.iter().fold(3, |h, x| mix(mix(h, x.0 as u64 * 8 + x.1 as u64), x.2))
}

/// Runs events from `next` until it returns None or the run has to stop.
fn drive(mut t: Trace, prop: &str, mut next: impl FnMut(&World) -> Option<Ev>, log: &mut Option<std::fs::File>) -> Res {
    let mut w = World::new(t.heap, t.nregs, t.audit);
    w.order = prop == "C07";
    unsafe {
        crate::model::COST = match prop {
            "C27" => 1,
            "C28" => 2,
            _ => 0,
        }
    }
    let mut found = vec![];
    let mut stop = false;
    t.evs.clear();
    while let Some(ev) = next(&w) {
        if let Some(f) = log {
            use std::io::Write;
            let _ = writeln!(f, "{}", ev_text(&ev));
        }
        t.evs.push(ev);
        w.apply(&ev);
        let n0 = found.len();
        if collect(&w, &mut found) {
            stop = true;
        }
        if found[n0..].iter().any(|v| accept(prop, &v.kind, &v.op, v.tags)) {
            stop = true;
        }
        if stop {
            break;
        }
    }
    if !stop {
        w = w.end();
        collect(&w, &mut found);
    } else {
        // leave threads that are still inside the registry parked; the process ends soon
        std::mem::forget(std::mem::take(&mut w.models));
    }
    let w = Box::leak(w);
    let r = Res {
        found,
        trace: t,
        digest: std::mem::take(&mut w.digest),
        resolved: std::mem::take(&mut w.resolved),
        stats: w.stats.clone(),
        situations: std::mem::take(&mut w.situations),
        marks: std::mem::take(&mut w.marks),
        nontrivial: false,
    };
    if !stop {
        drop(unsafe { Box::from_raw(w as *mut World) });
    }
    r
}
pub fn mode_of(prop: &str) -> &'static str {
    match prop {
        "C11" => "limit11",
        "C12" => "limit12",
        "C14" => "nonint",
        "C17" => "det",
        "C18" => "cycles",
        "C24" | "C25" | "C26" => "parts",
        _ => "normal",
    }
}
fn shift(e: &Ev, k: u32) -> Option<Ev> {
    match e {
        Ev::Resume(c) => Some(Ev::Resume(*c)),
        Ev::Step(s) => {
            let mut s = *s;
            s.id += k * 1_000_000;
            s.h = match s.h {
                Href::By(i, j) => Href::By(i + k * 1_000_000, j),
                Href::Raw(_) => return None,
                Href::None => Href::None,
            };
            Some(Ev::Step(s))
        }
    }
}
/// Generates and executes the run of one seed.
pub fn run_seed(seed: u64, prop: &str, log: &mut Option<std::fs::File>) -> Res {
    let mode = mode_of(prop);
    let mut h = 0u64;
    for b in prop.bytes() {
        h = mix(h, b as u64)
    }
    let s2 = mix(seed, h);
    let mut trace = Trace { seed, prop: prop.to_string(), mode: mode.to_string(), heap: HeapCfg::default(), nregs: 1, audit: 1, evs: vec![] };
    if mode == "limit11" {
        write_head(log, &trace);
        return crate::limit::run(&trace);
    }
    if mode == "parts" {
        let mut rng = Rng::new(s2);
        if prop == "C26" && seed % 2000 == 7 {
            trace.mode = "limit26".into();
        } else {
            trace.heap = heap_cfg(&mut rng);
            trace.evs = crate::parts::generate(&mut rng, prop);
            if matches!(trace.evs[0], Ev::Step(Step { op: Op::AFar, .. })) {
                trace.heap = HeapCfg { fill: 4, ..HeapCfg::default() };
            }
        }
        write_head(log, &trace);
        if let Some(f) = log {
            use std::io::Write;
            for e in &trace.evs {
                let _ = writeln!(f, "{}", ev_text(e));
            }
        }
        return crate::parts::run(&trace);
    }
    let p = profile(prop);
    let mut g = Gen::new(s2, &p);
    trace.heap = heap_cfg(&mut g.rng);
    trace.nregs = g.nregs();
    if mode == "nonint" && g.rng.pm(500) {
        trace.nregs = trace.nregs.max(2);
    }
    trace.audit = if g.rng.pm(800) { p.audit } else { *g.rng.pick(&[0, 3, 10]) };
    write_head(log, &trace);
    if mode == "limit12" {
        trace.heap.fill = 4;
        trace.nregs = 1;
        trace.audit = 7;
        return limit12(trace, prop, g, log);
    }
    if mode == "cycles" {
        return cycles(trace, prop, g, log);
    }
    if matches!(prop, "C02" | "C03" | "C10") && seed % 65_536 == FAR {
        trace.heap = HeapCfg { fill: 4, seed: trace.heap.seed, ..HeapCfg::default() };
        trace.nregs = 1;
        trace.audit = 0;
        let evs = g.far();
        let mut i = 0;
        return drive(
            trace,
            prop,
            |_| {
                i += 1;
                evs.get(i - 1).copied()
            },
            log,
        );
    }
    let r = drive(trace, prop, |w| g.next(w), log);
    post(r)
}
/// The rare seeds of runs whose columns are longer than 4 GiB.
const FAR: u64 = (1_000_003 + 260) % 65_536;
fn write_head(log: &mut Option<std::fs::File>, t: &Trace) {
    if let Some(f) = log {
        use std::io::Write;
        let _ = writeln!(f, "{}", head_text(t));
    }
}
/// Executes a recorded run.
pub fn run_trace(t: &Trace) -> Res {
    if t.mode == "limit11" {
        return crate::limit::run(t);
    }
    if t.mode == "parts" || t.mode == "limit26" {
        return crate::parts::run(t);
    }
    let evs = t.evs.clone();
    let mut i = 0;
    let prop = t.prop.clone();
    let r = drive(
        Trace { evs: vec![], ..t.clone() },
        &prop,
        |_| {
            i += 1;
            evs.get(i - 1).copied()
        },
        &mut None,
    );
    post(r)
}
fn exec_quiet(t: &Trace) -> Res {
    let mut i = 0;
    let evs = t.evs.clone();
    drive(
        Trace { evs: vec![], ..t.clone() },
        "-",
        |_| {
            i += 1;
            evs.get(i - 1).copied()
        },
        &mut None,
    )
}
fn cmp_digest(a: &[(u32, u8, u64)], b: &[(u32, u8, u64)]) -> Option<u32> {
    let m: Map<u32, u64> = b.iter().map(|x| (x.0, x.2)).collect();
    for x in a {
        match m.get(&x.0) {
            Some(y) if *y == x.2 => {}
            _ => return Some(x.0),
        }
    }
    None
}
fn step_text(t: &Trace, id: u32) -> String {
    t.evs.iter().filter(|e| matches!(e, Ev::Step(s) if s.id == id)).map(ev_text).next().unwrap_or_default()
}
/// Further executions some properties need.
fn post(mut r: Res) -> Res {
    let ok = r.found.is_empty();
    match r.trace.mode.as_str() {
        "det" if ok => {
            let s = r.trace.heap.seed;
            for k in 0..2u64 {
                let mut rng = Rng::new(mix(s, 900 + k));
                let mut t = r.trace.clone();
                t.heap = heap_cfg(&mut rng);
                t.audit = if k == 0 { 0 } else { t.audit };
                if k == 0 {
                    // the other extreme of what memory may contain and where it lies
                    t.heap.fill = if r.trace.heap.fill == 1 { 3 } else { 1 };
                    t.heap.inplace_pm = 1000 - r.trace.heap.inplace_pm;
                    t.heap.reuse_pm = 1000 - r.trace.heap.reuse_pm.min(1000);
                }
                let q = exec_quiet(&t);
                if !q.found.is_empty() {
                    let v = &q.found[0];
                    r.found.push(Found { kind: "determinism".into(), op: v.op.clone(), tags: 0, detail: format!("the same operations misbehave under another placement of memory: {}", v.detail) });
                    break;
                }
                if let Some(id) = cmp_digest(&r.digest, &q.digest) {
                    r.found.push(Found { kind: "determinism".into(), op: "".into(), tags: 0, detail: format!("the same operations gave different results under another placement of memory, at [{}]", step_text(&r.trace, id)) });
                    break;
                }
            }
        }
        "nonint" if ok && r.trace.nregs > 1 && !r.trace.evs.iter().any(|e| matches!(e, Ev::Step(s) if s.op == Op::SwapRegs)) => {
            let res: Map<u32, u32> = r.resolved.iter().copied().collect();
            for q in 0..r.trace.nregs {
                let mut t = r.trace.clone();
                t.evs.retain(|e| matches!(e, Ev::Resume(_)) || matches!(e, Ev::Step(s) if s.reg % r.trace.nregs == q));
                for e in t.evs.iter_mut() {
                    if let Ev::Step(s) = e {
                        if let (Href::By(..), Some(raw)) = (s.h, res.get(&s.id)) {
                            s.h = Href::Raw(*raw);
                        }
                    }
                }
                let x = exec_quiet(&t);
                let mine: Vec<_> = r.digest.iter().filter(|d| d.1 == q).copied().collect();
                if !x.found.is_empty() {
                    let v = &x.found[0];
                    r.found.push(Found { kind: "nonint".into(), op: v.op.clone(), tags: 0, detail: format!("without the work on the other registries, registry {q} misbehaves: {}", v.detail) });
                    break;
                }
                if let Some(id) = cmp_digest(&mine, &x.digest) {
                    r.found.push(Found { kind: "nonint".into(), op: "".into(), tags: 0, detail: format!("registry {q} answers differently when other registries are not used, at [{}]", step_text(&r.trace, id)) });
                    break;
                }
            }
        }
        "cycles" if ok => growth(&mut r),
        _ => {}
    }
    if r.trace.mode == "nonint" && !crate::send_sync() {
        r.found.push(Found { kind: "sendsync".into(), op: "".into(), tags: 0, detail: "Registry is no longer Send + Sync".into() });
    }
    r.nontrivial = nontrivial(&r);
    r
}
fn growth(r: &mut Res) {
    let m = &r.marks;
    // only cycles that did exactly the same work count: the longest tail of such
    let k = m.len() - m.iter().rev().take_while(|x| x.2 == m[m.len() - 1].2).count();
    let m = &m[k..];
    if m.len() >= 3 && m[0].2 != 0 {
        let a = m[m.len() / 2].1;
        let b = m[m.len() - 1].1;
        if b > a {
            r.found.push(Found {
                kind: "growth".into(),
                op: "".into(),
                tags: 0,
                detail: format!("repeating the same cycle of work grows memory: {} bytes after cycle {}, {} after cycle {}", a, m[m.len() / 2].0, b, m[m.len() - 1].0),
            });
        }
    }
}
fn cycles(t: Trace, prop: &str, mut g: Gen, log: &mut Option<std::fs::File>) -> Res {
    let long = g.rng.pm(3);
    let reps = if long { 4 } else { *g.rng.pick(&[4u32, 6, 6, 10, 30]) };
    let reps = if g.left < 15 && !long && g.rng.pm(300) { 280 } else { reps };
    let mut body: Vec<Ev> = vec![];
    let mut queue: Vec<Ev> = vec![];
    let mut phase = 0;
    let mut cyc = 0u32;
    let mut pos = 0;
    if long {
        let mut c = Step::new(1, 0, Op::BulkCreate);
        c.g = g.rng.below(8) as u16;
        c.n = 65_540 + g.rng.below(4000) as u32;
        queue.push(Ev::Step(c));
        g.left = 1;
    }
    let r = drive(
        t,
        prop,
        |w| loop {
            match phase {
                0 => {
                    let e = if !queue.is_empty() { Some(queue.remove(0)) } else { g.next(w) };
                    match e {
                        Some(e) => {
                            body.push(e);
                            return Some(e);
                        }
                        None => {
                            // everything is destroyed at the end of each cycle
                            let mut ids: Vec<(u32, u32)> = w.made.iter().map(|(k, v)| (*k, v.len() as u32)).collect();
                            ids.sort_unstable();
                            for (id, n) in ids {
                                if w.made[&id].iter().any(|x| w.models[0].ents.contains_key(x)) {
                                    let mut s = Step::new(500_000 + id, 0, if n > 1 { Op::BulkDestroy } else { Op::Destroy });
                                    s.h = Href::By(id, 0);
                                    s.n = n;
                                    s.a = 1;
                                    queue.push(Ev::Step(s));
                                }
                            }
                            phase = 1;
                        }
                    }
                }
                1 => match queue.is_empty() {
                    false => {
                        let e = queue.remove(0);
                        body.push(e);
                        return Some(e);
                    }
                    true => {
                        let mut s = Step::new(900_000, 0, Op::Mark);
                        s.n = 0;
                        phase = 2;
                        cyc = 1;
                        return Some(Ev::Step(s));
                    }
                },
                _ => {
                    if cyc >= reps {
                        return None;
                    }
                    if pos < body.len() {
                        pos += 1;
                        if let Some(e) = shift(&body[pos - 1], cyc) {
                            return Some(e);
                        }
                    } else {
                        let mut s = Step::new(900_000 + cyc * 1_000_000, 0, Op::Mark);
                        s.n = cyc;
                        pos = 0;
                        cyc += 1;
                        return Some(Ev::Step(s));
                    }
                }
            }
        },
        log,
    );
    post(r)
}
/// Drives a registry to the limit on component sets and works there.
fn limit12(t: Trace, prop: &str, mut g: Gen, log: &mut Option<std::fs::File>) -> Res {
    let pal = LIMIT12;
    let mut plan: Vec<Ev> = vec![];
    let mut id = 2_000_000;
    let mut push = |plan: &mut Vec<Ev>, op: Op, gr: u16, h: Href, n: u32, a: u32| {
        id += 1;
        let mut s = Step::new(id, 0, op);
        s.g = gr;
        s.h = h;
        s.n = n;
        s.a = a;
        s.b = pal;
        plan.push(Ev::Step(s));
        id
    };
    let ok: Vec<u16> = (0..GROUPS.len() as u16).filter(|g| GROUPS[*g as usize].valid() && GROUPS[*g as usize].mask() & !pal == 0).collect();
    let walker = push(&mut plan, Op::Create, *g.rng.pick(&ok), Href::None, 0, 0);
    let bulk = push(&mut plan, Op::BulkCreate, *g.rng.pick(&ok), Href::None, 40 + g.rng.below(200) as u32, 0);
    push(&mut plan, Op::Spread, 0, Href::By(bulk, 0), 200, g.rng.next() as u32);
    let start = g.rng.next() as u32;
    let near = MAX_SETS as u32 - g.rng.below(40) as u32;
    if g.rng.pm(500) {
        push(&mut plan, Op::Walk, 0, Href::By(walker, 0), 30_000 + g.rng.below(30_000) as u32, start);
        push(&mut plan, Op::Spread, 0, Href::By(bulk, 0), 200, g.rng.next() as u32);
    }
    push(&mut plan, Op::Walk, 0, Href::By(walker, 0), near, start);
    let a = 20 + g.rng.below(60);
    let mut tail: Vec<Ev> = vec![];
    push(&mut tail, Op::Walk, 0, Href::By(walker, 0), MAX_SETS as u32, start);
    push(&mut tail, Op::Walk, 0, Href::By(walker, 0), MAX_SETS as u32, g.rng.next() as u32);
    push(&mut tail, Op::Spread, 0, Href::By(bulk, 0), 200, g.rng.next() as u32);
    for q in ok.iter() {
        // every group once more: present sets work, absent ones are refused
        if g.rng.pm(500) {
            push(&mut tail, Op::Create, *q, Href::None, 0, 0);
        }
    }
    let w2 = push(&mut tail, Op::Create, *g.rng.pick(&ok), Href::None, 0, 0);
    push(&mut tail, Op::Walk, 0, Href::By(w2, 0), MAX_SETS as u32, g.rng.next() as u32);
    let (mut i, mut k) = (0, 0);
    g.confine(pal);
    let b = 60;
    let mut n = 0;
    let r = drive(
        t,
        prop,
        |w| {
            if i < plan.len() {
                i += 1;
                return Some(plan[i - 1]);
            }
            if n < a {
                n += 1;
                g.left = 10;
                if let Some(e) = g.next(w) {
                    return Some(e);
                }
            }
            if k < tail.len() {
                k += 1;
                return Some(tail[k - 1]);
            }
            if n < a + b {
                n += 1;
                g.left = 10;
                return g.next(w);
            }
            None
        },
        log,
    );
    post(r)
}
/// Seventeen small types: 2^17 sets are more than a registry supports.
pub const LIMIT12: u32 = 1 | 2 | 4 | 8 | 32 | 128 | 256 | 1 << 11 | 1 << 12 | 1 << 14 | 1 << 15 | 1 << 16 | 1 << 17 | 1 << 18 | 7 << 29;
/// Whether the run did something its property is about.
pub fn nontrivial(r: &Res) -> bool {
    let s = &r.stats;
    match r.trace.prop.as_str() {
        "C01" => s.stale > 0 && s.live_max > 1,
        "C04" | "C05" | "C06" => s.rows > 0 && s.iterations > 0,
        "C07" => s.refused + s.stale > 0,
        "C08" => s.alloc_fired > 0,
        "C09" => s.drop_fired > 0,
        "C13" => s.sets_max > 2,
        "C14" => s.overlapped > 0 || (r.trace.nregs > 1 && s.live_max > 0),
        "C15" => s.abandoned + s.cb_fired > 0,
        "C16" => s.rows > 0,
        "C18" => r.marks.len() > 3 && s.live_max > 1,
        "C19" => s.live_max > 1,
        _ => s.live_max > 1 && s.steps > 5,
    }
}
/// The same trace without the faults of one kind.
pub fn strip(t: &Trace, tag: u8) -> Trace {
    let mut t = t.clone();
    for e in t.evs.iter_mut() {
        if let Ev::Step(s) = e {
            match (tag, s.fault) {
                (T_OOM, Fault::Alloc(..)) | (T_DROP, Fault::Drop(_)) | (T_ABANDON, Fault::Cb(_)) => s.fault = Fault::None,
                _ => {}
            }
            if tag == T_ABANDON && matches!(s.op, Op::Iter | Op::Ents) {
                s.a = 0;
            }
            if tag == T_CONC {
                s.y = 0;
                s.ys = 0;
            }
        }
    }
    t
}
pub fn describe(t: &Trace) -> Vec<String> {
    let mut v = vec![head_text(t)];
    for e in t.evs.iter().take(14) {
        let mut l = ev_text(e);
        if let Ev::Step(s) = e {
            match s.op {
                Op::Create | Op::Remove | Op::HasG | Op::GetG | Op::SetG | Op::BulkCreate | Op::BulkRemove | Op::Churn | Op::Iter => l += &format!(" # {}", names(GROUPS[s.g as usize % GROUPS.len()].types)),
                Op::Add | Op::Rem | Op::Has | Op::Get | Op::Set | Op::BulkAdd | Op::BulkRem => l += &format!(" # {}", INFO[s.g as usize % NT].name),
                _ => {}
            }
        }
        v.push(l);
    }
    if t.evs.len() > 14 {
        v.push(format!("... {} more events", t.evs.len() - 14));
    }
    v
}
