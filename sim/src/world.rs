//! The simulated world: registries under test, the clients operating on them and the oracle.
use crate::bad;
use crate::comps::*;
use crate::ctx::*;
use crate::groups::*;
use crate::heap::{heap, HeapCfg};
use crate::model::*;
use crate::sched;
use crate::step::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Entity, Registry};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const NCLIENTS: usize = 5;
pub const MAX_SETS: usize = 65_534;

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub subops: u64,
    pub resumes: u64,
    pub alloc_armed: u64,
    pub alloc_fired: u64,
    pub drop_armed: u64,
    pub drop_fired: u64,
    pub cb_armed: u64,
    pub cb_fired: u64,
    pub abandoned: u64,
    pub stale: u64,
    pub refused: u64,
    pub iterations: u64,
    pub rows: u64,
    pub entity_checks: u64,
    pub nested: u64,
    pub inflight_max: u64,
    pub overlapped: u64,
    pub sets_max: u64,
    pub live_max: u64,
    pub regdrops: u64,
    pub moves: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.subops += o.subops;
        self.resumes += o.resumes;
        self.alloc_armed += o.alloc_armed;
        self.alloc_fired += o.alloc_fired;
        self.drop_armed += o.drop_armed;
        self.drop_fired += o.drop_fired;
        self.cb_armed += o.cb_armed;
        self.cb_fired += o.cb_fired;
        self.abandoned += o.abandoned;
        self.stale += o.stale;
        self.refused += o.refused;
        self.iterations += o.iterations;
        self.rows += o.rows;
        self.entity_checks += o.entity_checks;
        self.nested += o.nested;
        self.inflight_max = self.inflight_max.max(o.inflight_max);
        self.overlapped += o.overlapped;
        self.sets_max = self.sets_max.max(o.sets_max);
        self.live_max = self.live_max.max(o.live_max);
        self.regdrops += o.regdrops;
        self.moves += o.moves;
    }
    pub fn text(&self) -> String {
        format!("steps={} subops={} resumes={} alloc_armed={} alloc_fired={} drop_armed={} drop_fired={} cb_armed={} cb_fired={} abandoned={} stale={} refused={} iterations={} rows={} entity_checks={} nested={} inflight_max={} overlapped={} sets_max={} live_max={} regdrops={} moves={}", self.steps, self.subops, self.resumes, self.alloc_armed, self.alloc_fired, self.drop_armed, self.drop_fired, self.cb_armed, self.cb_fired, self.abandoned, self.stale, self.refused, self.iterations, self.rows, self.entity_checks, self.nested, self.inflight_max, self.overlapped, self.sets_max, self.live_max, self.regdrops, self.moves)
    }
}
pub enum Out {
    None,
    Created(u32),
    CreateErr(Toks),
    Bool(bool),
    Removed(Option<Toks>),
    Added(Result<(), Option<u64>>),
    Rem(Option<Option<u64>>),
    Got(Option<Toks>),
    Ents(Vec<u32>, bool),
    Iter(IterEnd),
    PanicOom,
    PanicFault,
    Panic(String),
}
#[derive(Default)]
pub struct Rows {
    pub n: usize,
    pub nc: usize,
    pub ents: Vec<u32>,
    pub toks: Toks,
    /// (first row, rows, written)
    pub batches: Vec<(usize, usize, bool)>,
    pub decisions: Vec<(u32, bool)>,
    pub problem: Option<String>,
    pub spans: Vec<(usize, usize)>,
    pub overlap: Option<String>,
}
pub struct Flight {
    s: Step,
    reg: *mut Registry,
    raw: Option<u32>,
    toks: Vec<u64>,
    out: Out,
    rows: Rows,
    ctx: OpCtx,
    write: bool,
    started: u64,
}
pub const T_OOM: u8 = 1;
pub const T_DROP: u8 = 2;
pub const T_ABANDON: u8 = 4;
pub const T_CONC: u8 = 8;
pub const T_REJ: u8 = 16;

/// Allowed accesses: of an operation on one entity, per slot of an enumeration, per set of an iteration.
const OP_WORK: u64 = 2000;
const ENT_WORK: u64 = 60;
const SET_WORK: u64 = 1000;
pub struct World {
    pub regs: Vec<*mut Registry>,
    pub models: Vec<Model>,
    pub made: Map<u32, Vec<u32>>,
    infl: Vec<Option<Box<Flight>>>,
    readers: Vec<u32>,
    writer: Vec<bool>,
    pub tags: u8,
    pub stats: Stats,
    /// (step, registry, hash of everything the step returned)
    pub digest: Vec<(u32, u8, u64)>,
    pub audit_every: u32,
    /// raw handles as resolved, for projections
    pub resolved: Vec<(u32, u32)>,
    leaky: bool,
    evno: u64,
    pub last_op: &'static str,
    pub marks: Vec<(u32, i64, u64)>,
    /// what has been done since the last mark, up to the names of the entities
    cyc: u64,
    /// refused operations must not change the order of iteration either
    pub order: bool,
    /// memory each registry held when it was new, and whether it has run out of memory since
    base: Vec<(i64, bool)>,
    /// cost of the operations of the bulk step under way: calls of the allocator, accesses
    spent: (u64, u64),
    /// abstract situations met: operation, outcome, size of the set and of its storage, fault
    pub situations: std::collections::BTreeSet<u64>,
}

fn vals_of(mask: u32, types: &[u8], toks: &[u64]) -> Vec<u64> {
    types_of(mask).map(|t| canon(t, toks[types.iter().position(|x| *x == t).unwrap()])).collect()
}
pub fn ent(raw: u32) -> Entity {
    unsafe { Entity::from_raw(raw) }
}
fn is_read(s: &Step) -> bool {
    match s.op {
        Op::Has | Op::HasG | Op::Get | Op::GetG | Op::Ents | Op::Audit => true,
        Op::Iter => s.n as u8 & MUT == 0,
        _ => false,
    }
}
fn class(kind: u8) -> &'static str {
    if kind & EXACT != 0 {
        "exact"
    } else if kind & FILT != 0 {
        "filter"
    } else {
        "match"
    }
}
pub fn opname(s: &Step) -> &'static str {
    if s.op == Op::Iter {
        return class(s.n as u8);
    }
    match s.op {
        Op::Has | Op::HasG | Op::Get | Op::GetG => "query",
        Op::Set | Op::SetG => "query_mut",
        Op::Ents => "enum",
        Op::DropReg => "drop",
        Op::Audit => "audit",
        _ => "struct",
    }
}

impl World {
    pub fn new(hc: HeapCfg, nregs: u8, audit_every: u32) -> Box<World> {
        let _g = set_mode(OFF);
        heap().reset(hc);
        ledger().clear();
        viol().clear();
        let mut w = Box::new(World {
            regs: vec![],
            models: vec![],
            made: Default::default(),
            infl: (0..NCLIENTS).map(|_| None).collect(),
            readers: vec![0; nregs as usize],
            writer: vec![false; nregs as usize],
            tags: 0,
            stats: Stats::default(),
            digest: vec![],
            audit_every,
            resolved: vec![],
            leaky: false,
            evno: 0,
            last_op: "",
            marks: vec![],
            cyc: 0,
            order: false,
            base: vec![(0, false); nregs as usize],
            spent: (0, 0),
            situations: Default::default(),
        });
        for i in 0..nregs {
            let p = w.new_reg(i);
            w.base[i as usize].0 = heap().outstanding(i + 1);
            w.regs.push(p);
            w.models.push(Model::default());
        }
        w
    }
    fn new_reg(&mut self, i: u8) -> *mut Registry {
        let mut c = OpCtx { owner: i + 1, ..Default::default() };
        let r = with_ctx(&mut c, || reg(Registry::default));
        let p = heap().home(std::mem::size_of::<Registry>(), std::mem::align_of::<Registry>()) as *mut Registry;
        unsafe { p.write(r) };
        p
    }
    pub fn busy(&self, r: usize) -> bool {
        self.readers[r] > 0 || self.writer[r]
    }
    pub fn writing(&self, r: usize) -> bool {
        self.writer[r]
    }
    pub fn inflight(&self, c: usize) -> bool {
        self.infl[c].is_some()
    }
    pub fn any_inflight(&self) -> bool {
        self.infl.iter().any(|f| f.is_some())
    }
    pub fn resolve(&self, h: Href) -> Option<u32> {
        match h {
            Href::None => None,
            Href::Raw(r) => Some(r),
            Href::By(i, k) => self.made.get(&i).and_then(|v| v.get(k as usize)).copied(),
        }
    }
    fn drain_client(&mut self, c: usize) {
        let mut k = 0;
        while self.infl[c].is_some() {
            self.resume(c);
            k += 1;
            if k % 64 == 0 {
                // it may be waiting for another one
                for o in (0..NCLIENTS).filter(|o| *o != c) {
                    self.resume(o)
                }
            }
        }
    }
    fn drain_reg(&mut self, r: usize) {
        for c in 0..NCLIENTS {
            if self.infl[c].as_ref().is_some_and(|f| f.s.reg as usize == r) {
                self.drain_client(c)
            }
        }
    }
    pub fn drain(&mut self) {
        for c in 0..NCLIENTS {
            self.drain_client(c)
        }
    }
    fn resume(&mut self, c: usize) {
        if self.infl[c].is_none() {
            return;
        }
        self.stats.resumes += 1;
        if sched::resume(c) {
            let f = self.infl[c].take().unwrap();
            self.complete(f);
        }
    }
    pub fn apply(&mut self, ev: &Ev) {
        let _g = set_mode(OFF);
        self.evno += 1;
        match ev {
            Ev::Resume(c) => self.resume(*c as usize % NCLIENTS),
            Ev::Step(s) => self.step(*s),
        }
    }
    fn step(&mut self, s: Step) {
        self.stats.steps += 1;
        self.last_op = opname(&s);
        crate::run::progress(self.evno, self.last_op, self.tags);
        let r = s.reg as usize % self.regs.len();
        let s = Step { reg: r as u8, ..s };
        let c = s.client as usize % NCLIENTS;
        self.drain_client(c);
        if self.writer[r] || (self.readers[r] > 0 && !is_read(&s)) {
            self.drain_reg(r);
        }
        match s.fault {
            Fault::Alloc(..) => self.stats.alloc_armed += 1,
            Fault::Drop(_) => self.stats.drop_armed += 1,
            Fault::Cb(_) => self.stats.cb_armed += 1,
            Fault::None => {}
        }
        match s.op {
            Op::BulkCreate | Op::BulkDestroy | Op::BulkAdd | Op::BulkRem | Op::BulkRemove | Op::Spread | Op::Churn => self.bulk(s),
            Op::Walk => self.walk(s),
            Op::DropReg => self.drop_reg(s),
            Op::MoveReg => {
                // move the value to another place and scribble over the old one
                self.stats.moves += 1;
                unsafe {
                    let old = self.regs[r];
                    let n = std::mem::size_of::<Registry>();
                    let new = heap().home(n, std::mem::align_of::<Registry>()) as *mut Registry;
                    std::ptr::copy_nonoverlapping(old, new, 1);
                    std::ptr::write_bytes(old as *mut u8, 0xA5, n);
                    heap().unhome(old as usize);
                    self.regs[r] = new;
                }
            }
            Op::SwapRegs => {
                let q = s.a as usize % self.regs.len();
                self.stats.moves += 1;
                if q != r {
                    self.drain_reg(q);
                    self.drain_reg(r);
                    unsafe { std::ptr::swap(self.regs[r], self.regs[q]) };
                    self.models.swap(r, q);
                    self.base.swap(r, q);
                    heap().swap_owner(r as u8 + 1, q as u8 + 1);
                }
            }
            Op::Audit => self.audit(r, s.n as u64, true),
            Op::Mark => {
                let b = heap().outstanding(r as u8 + 1);
                self.marks.push((s.n, b, std::mem::take(&mut self.cyc)));
            }
            _ => {
                if let Some(f) = self.prepare(s) {
                    self.launch(f, s.y > 0);
                }
            }
        }
    }
    fn prepare(&mut self, s: Step) -> Option<Box<Flight>> {
        let raw = self.resolve(s.h);
        let needs = !matches!(s.op, Op::Create | Op::Ents | Op::Iter);
        if needs {
            raw?;
        }
        if let Some(r) = raw {
            self.resolved.push((s.id, r));
        }
        let g = &GROUPS[s.g as usize % GROUPS.len()];
        let toks: Vec<u64> = match s.op {
            Op::Create | Op::SetG => (0..g.types.len()).map(|i| canon(g.types[i], self.tok(s.id, 0, i))).collect(),
            Op::Add | Op::Set => vec![canon(s.g as u8 % NT as u8, self.tok(s.id, 0, 0))],
            _ => vec![],
        };
        Some(self.flight(s, raw, toks))
    }
    fn tok(&self, id: u32, j: u32, i: usize) -> u64 {
        mix(mix(id as u64 + 1, j as u64 + 77), i as u64) | 1
    }
    fn flight(&mut self, s: Step, raw: Option<u32>, toks: Vec<u64>) -> Box<Flight> {
        let mut ctx = OpCtx { owner: s.reg + 1, ..Default::default() };
        arm(&mut ctx, s.fault);
        let g = &GROUPS[s.g as usize % GROUPS.len()];
        let write = s.op == Op::Iter && s.n as u8 & MUT != 0 && (s.n as u8 & ENT != 0 || g.types.iter().any(|t| INFO[*t as usize].n >= 8));
        Box::new(Flight { s, reg: self.regs[s.reg as usize], raw, toks, out: Out::None, rows: Rows::default(), ctx, write, started: self.evno })
    }
    fn launch(&mut self, mut f: Box<Flight>, threaded: bool) {
        let r = f.s.reg as usize;
        if is_read(&f.s) {
            self.readers[r] += 1
        } else {
            self.writer[r] = true
        }
        let c = f.s.client as usize % NCLIENTS;
        let wp = self as *mut World;
        let fp = &mut *f as *mut Flight;
        if threaded {
            f.ctx.yields_left = f.s.y;
            f.ctx.yield_skip = f.s.ys;
            f.ctx.yield_gap = f.s.ys;
            let done = sched::start(c, Box::new(move || unsafe { run(wp, &mut *fp) }));
            if done {
                self.complete(f)
            } else {
                self.infl[c] = Some(f);
                let k = self.infl.iter().filter(|x| x.is_some()).count() as u64;
                self.stats.inflight_max = self.stats.inflight_max.max(k);
            }
        } else {
            let before = self.order_before(&f.s, f.raw);
            run(wp, unsafe { &mut *fp });
            let s = f.s;
            let n0 = self.models[r].live.len();
            self.complete(f);
            if self.models[r].live.len() == n0 {
                self.order_after(&s, before)
            }
        }
    }
    fn complete(&mut self, mut f: Box<Flight>) {
        let r = f.s.reg as usize;
        if is_read(&f.s) {
            self.readers[r] -= 1
        } else {
            self.writer[r] = false
        }
        if f.s.y > 0 && self.evno > f.started {
            self.stats.overlapped += 1;
            self.tags |= T_CONC;
        }
        self.last_op = opname(&f.s);
        let refused0 = self.stats.refused + self.stats.stale;
        self.finish(&mut f, 0);
        let rejected = self.tags & T_REJ != 0 || self.stats.refused + self.stats.stale > refused0;
        let fired = f.ctx.alloc_fired > 0 || f.ctx.drop_fired.is_some() || f.ctx.cb_fired > 0;
        if fired {
            self.audit(r, f.s.id as u64, true);
        } else if !is_read(&f.s) && self.audit_every > 0 && self.evno % self.audit_every as u64 == 0 && !self.writer[r] {
            if rejected {
                self.tags |= T_REJ;
            }
            self.audit(r, f.s.id as u64, false);
        }
        if viol().is_empty() {
            self.tags &= !T_REJ;
        }
        if cost() != 0 && !is_read(&f.s) {
            self.judge_memory(r);
        }
    }

    // ------------------------------------------------------------------ costs
    /// Judges what one operation asked of the allocator and how much memory it touched.
    fn judge(&mut self, f: &Flight, calls: u64, work: u64, made: u64) {
        let _g = set_mode(OFF);
        let s = &f.s;
        self.spent.0 += calls;
        self.spent.1 += work;
        if f.ctx.alloc_fired > 0 {
            self.base[s.reg as usize].1 = true;
        }
        if matches!(f.out, Out::Panic(_) | Out::PanicOom | Out::PanicFault) {
            return;
        }
        let reads = matches!(s.op, Op::Has | Op::HasG | Op::Get | Op::GetG | Op::Set | Op::SetG | Op::Ents | Op::Iter);
        if cost() & 1 != 0 {
            let m = &self.models[s.reg as usize];
            let log = |n: usize| 2 * (64 - n.leading_zeros() as u64) + 8;
            let allowed = match s.op {
                Op::Ents => made * log(m.peak),
                // there may be other iterations within
                Op::Iter => made * log(if made > 1 { m.peak.max(m.counts.len()) } else { m.counts.len() }),
                _ if reads => 0,
                _ => 3 * 16 + 12,
            };
            if calls > allowed {
                bad!("demand", "one {:?} made {calls} requests to the allocator", s.op);
            }
        }
        if cost() & 2 != 0 && crate::acc::ON {
            let m = &self.models[s.reg as usize];
            let (sets, slots) = (m.counts.len() as u64, m.peak as u64);
            // rows are copied, some of them byte by byte
            let bytes = m.counts.keys().map(|k| types_of(*k).map(|t| INFO[t as usize].size as u64).sum::<u64>()).max().unwrap_or(0);
            let op_work = OP_WORK + 10 * bytes;
            let allowed = match s.op {
                Op::Ents => ENT_WORK * (slots + 20),
                Op::Iter => SET_WORK * (sets + 2),
                _ if calls > 0 => return,
                _ => op_work,
            };
            #[cfg(costlog)]
            eprintln!("WORK {:?} {work} live {} slots {slots} sets {sets} bytes {bytes} allowed {allowed}", s.op, m.live.len());
            if work > allowed {
                bad!("work", "{:?} accessed memory {work} times with {} entities of {sets} sets", s.op, m.live.len());
            }
        }
    }
    /// Judges what a bulk step of creations cost altogether.
    fn judge_bulk(&mut self, s: &Step) {
        let (calls, work) = self.spent;
        let n = s.n as u64;
        if s.op != Op::BulkCreate || self.base[s.reg as usize].1 {
            return;
        }
        let types = GROUPS[s.g as usize % GROUPS.len()].types.len() as u64;
        // growth by a half at a time from 16 on, for the handles, the columns and the slots, passes
        let log = (64 - n.leading_zeros() as u64).max(4);
        let allowed = (types + 1) * (17 * (log - 4) / 10 + 4) + 2 * log + 10;
        #[cfg(costlog)]
        eprintln!("CALLS {n} {types} {calls} {allowed}");
        if cost() & 1 != 0 && calls > allowed {
            bad!("demand", "the creation of {n} entities of {types} types made {calls} requests to the allocator");
        }
        if cost() & 2 != 0 && work > (n + 300) * (OP_WORK + 10 * types_of(GROUPS[s.g as usize % GROUPS.len()].mask()).map(|t| INFO[t as usize].size as u64).sum::<u64>()) {
            bad!("work", "the creation of {n} entities accessed memory {work} times");
        }
    }
    /// Compares the memory a registry holds with what its largest populations need.
    fn judge_memory(&mut self, r: usize) {
        let (base, oom) = self.base[r];
        if cost() & 1 == 0 || oom || self.tags != 0 {
            return;
        }
        let held = heap().outstanding(r as u8 + 1) - base;
        let m = &self.models[r];
        let mut allowed = 2048 + 24 * m.peak as i64;
        for (mask, n) in &m.peaks {
            let row: usize = 4 + types_of(*mask).map(|t| INFO[t as usize].size).sum::<usize>();
            allowed += row as i64 * (3 * *n as i64).max(300) + 3 * std::mem::size_of::<shard_ecs::Archetype>() as i64 + 64;
        }
        if held > allowed {
            bad!("demand", "the registry holds {held} bytes; {} entities at most in {} sets explain no more than {allowed}", m.peak, m.peaks.len());
        }
    }

    // ------------------------------------------------------------------ bulk operations
    fn bulk(&mut self, s: Step) {
        let r = s.reg as usize;
        let g = &GROUPS[s.g as usize % GROUPS.len()];
        let c = s.g as u8 % NT as u8;
        let mut ctx = OpCtx { owner: s.reg + 1, ..Default::default() };
        arm(&mut ctx, s.fault);
        let (bi, bk) = match s.h {
            Href::By(i, k) => (i, k),
            _ => (u32::MAX, 0),
        };
        let base = self.made.get(&bi).map(|v| v.len() as u32).unwrap_or(0);
        let mut oldest: Option<u32> = None;
        let mut any = false;
        let mut dig = 0u64;
        let pal = s.b;
        self.spent = (0, 0);
        for j in 0..s.n {
            if viol().len() > 3 {
                break;
            }
            // which single operations make up round j
            let mut subs: Vec<(Op, Option<u32>, u8)> = vec![];
            match s.op {
                Op::BulkCreate => subs.push((Op::Create, None, 0)),
                Op::Churn => subs.push((Op::Create, None, 0)),
                Op::Spread => {
                    if base == 0 {
                        break;
                    }
                    let raw = self.made[&bi][((bk + j) % base) as usize];
                    let k = mix(s.a as u64, j as u64);
                    let p: Vec<u8> = types_of(pal).collect();
                    if p.is_empty() {
                        break;
                    }
                    for q in 0..(1 + k % 4) {
                        let t = p[(mix(k, q) % p.len() as u64) as usize];
                        let has = self.models[r].ents.get(&raw).is_some_and(|e| e.mask >> t & 1 == 1);
                        subs.push((if has { Op::Rem } else { Op::Add }, Some(raw), t));
                    }
                }
                _ => {
                    if base == 0 {
                        break;
                    }
                    let raw = self.made[&bi][((bk as u64 + j as u64 * s.a.max(1) as u64) % base as u64) as usize];
                    let op = match s.op {
                        Op::BulkDestroy => Op::Destroy,
                        Op::BulkAdd => Op::Add,
                        Op::BulkRem => Op::Rem,
                        _ => Op::Remove,
                    };
                    subs.push((op, Some(raw), c));
                }
            }
            let mut i = 0;
            while i < subs.len() {
                let (op, raw, t) = subs[i];
                i += 1;
                self.stats.subops += 1;
                if self.stats.subops % 64 == 0 {
                    crate::run::progress(self.evno, self.last_op, self.tags);
                }
                if op == Op::Add || op == Op::Rem {
                    // a set change decided before an earlier one was refused stays meaningful
                    if s.op == Op::Spread && raw.is_some_and(|x| !self.models[r].ents.contains_key(&x)) {
                        continue;
                    }
                }
                let toks: Vec<u64> = match op {
                    Op::Create => (0..g.types.len()).map(|k| canon(g.types[k], self.tok(s.id, j, k))).collect(),
                    Op::Add => vec![canon(t, self.tok(s.id, j, i + 20))],
                    _ => vec![],
                };
                let created = self.one(s, op, t, raw, toks, j, &mut ctx, &mut any, &mut dig);
                if s.op == Op::Churn {
                    if let Some(x) = created {
                        if let Some(o) = oldest {
                            // a handle from an earlier round must stay dead
                            if !self.models[r].ents.contains_key(&o) {
                                self.stale_probe(r, o);
                            }
                        }
                        if j % 97 == 0 {
                            oldest = Some(x);
                        }
                        subs.push((if j % 3 == 1 { Op::Remove } else { Op::Destroy }, Some(x), 0));
                        if i > 1 {
                            subs.pop();
                        }
                    }
                }
            }
        }
        self.digest.push((s.id, s.reg, dig));
        if cost() != 0 {
            self.judge_bulk(&s);
            self.judge_memory(r);
        }
        if self.audit_every > 0 || any {
            self.audit(r, s.id as u64, any || s.n > 1);
        }
    }
    /// One operation of a bulk step.
    #[allow(clippy::too_many_arguments)]
    fn one(&mut self, s: Step, op: Op, t: u8, raw: Option<u32>, toks: Vec<u64>, j: u32, ctx: &mut OpCtx, any: &mut bool, dig: &mut u64) -> Option<u32> {
        ctx.drops.clear();
        let fired0 = (ctx.alloc_fired, ctx.drop_fired.is_some());
        let gi = if op == Op::Add || op == Op::Rem { t as u16 } else { s.g };
        let mut f = Flight {
            s: Step { op, g: gi, ..s },
            reg: self.regs[s.reg as usize],
            raw,
            toks,
            out: Out::None,
            rows: Rows::default(),
            ctx: std::mem::take(ctx),
            write: false,
            started: self.evno,
        };
        let wp = self as *mut World;
        run(wp, &mut f);
        let fired1 = (f.ctx.alloc_fired, f.ctx.drop_fired.is_some());
        let created = if let Out::Created(x) = &f.out { Some(*x) } else { None };
        if fired1 == fired0 {
            // faults of earlier rounds are history for this one
            let (a, d) = (f.ctx.alloc_fired, f.ctx.drop_fired.take());
            f.ctx.alloc_fired = 0;
            self.finish(&mut f, j);
            f.ctx.alloc_fired = a;
            f.ctx.drop_fired = d;
        } else {
            self.finish(&mut f, j);
            *any = true;
        }
        *dig = mix(*dig, self.digest.pop().map(|d| d.2).unwrap_or(0));
        if viol().is_empty() {
            self.tags &= !T_REJ;
        }
        *ctx = std::mem::take(&mut f.ctx);
        created
    }
    /// Walks one entity through component sets in Gray-code order until the registry has seen `n`
    /// sets; when it already has, makes 400 further attempts.
    fn walk(&mut self, s: Step) {
        let r = s.reg as usize;
        let raw = match self.resolve(s.h) {
            Some(x) => x,
            None => return,
        };
        let bits: Vec<u8> = types_of(s.b).collect();
        let mut ctx = OpCtx { owner: s.reg + 1, ..Default::default() };
        let (mut any, mut dig) = (false, 0u64);
        let full = self.models[r].counts.len() >= s.n as usize;
        let mut i = 0u32;
        let mut rounds = 0u32;
        while i < 1 << bits.len() && viol().is_empty() && self.models[r].ents.contains_key(&raw) {
            if (full && rounds >= 400) || (!full && self.models[r].counts.len() >= s.n as usize) {
                break;
            }
            let code = (i ^ (i >> 1)) ^ (s.a & ((1 << bits.len()) - 1));
            let target = bits.iter().enumerate().filter(|(k, _)| code >> k & 1 == 1).fold(0u32, |m, (_, t)| m | 1 << t);
            let cur = self.models[r].ents[&raw].mask;
            if target.count_ones() == 0 || target.count_ones() > 14 || cur == target {
                i += 1;
                continue;
            }
            let drop = cur & !target;
            let (op, t) = if drop != 0 && cur.count_ones() > 1 { (Op::Rem, drop.trailing_zeros() as u8) } else { (Op::Add, (target & !cur).trailing_zeros() as u8) };
            let toks = if op == Op::Add { vec![canon(t, self.tok(s.id, rounds, 3))] } else { vec![] };
            rounds += 1;
            self.stats.subops += 1;
            if rounds % 64 == 0 {
                crate::run::progress(self.evno, self.last_op, self.tags);
            }
            self.one(s, op, t, Some(raw), toks, rounds, &mut ctx, &mut any, &mut dig);
            if self.models[r].ents.get(&raw).is_some_and(|e| e.mask == cur) {
                i += 1; // refused at the limit: go for the next set
            }
        }
        self.digest.push((s.id, s.reg, dig));
        self.audit(r, s.id as u64, true);
    }
    /// Whether the limit on component sets forbids a change that needs this set.
    fn set_limit(&self, r: usize, mask: u32) -> bool {
        let c = &self.models[r].counts;
        c.len() >= MAX_SETS && !c.contains_key(&mask)
    }
    fn drop_reg(&mut self, s: Step) {
        let r = s.reg as usize;
        self.drain_reg(r);
        self.stats.regdrops += 1;
        let mut ctx = OpCtx { owner: s.reg + 1, ..Default::default() };
        arm(&mut ctx, s.fault);
        self.finish_reg(r, &mut ctx);
        let p = self.new_reg(s.reg);
        self.base[s.reg as usize] = (heap().outstanding(s.reg + 1), false);
        self.regs[r] = p;
        self.models[r] = Model::default();
        self.digest.push((s.id, s.reg, mix(1, ctx.drops.len() as u64)));
    }
    /// Drops registry `r` and checks what it released.
    fn finish_reg(&mut self, r: usize, ctx: &mut OpCtx) {
        crate::run::progress(self.evno, "drop", self.tags);
        let p = self.regs[r];
        let v = unsafe { p.read() };
        heap().unhome(p as usize);
        let res = with_ctx(ctx, || catch_unwind(AssertUnwindSafe(|| reg(move || drop(v)))));
        self.last_op = "drop";
        let panicked = res.is_err();
        if panicked && ctx.drop_fired.is_none() {
            bad!("panic", "dropping the registry panicked: {}", last_panic());
        }
        if ctx.drop_fired.is_some() {
            self.stats.drop_fired += 1;
            self.tags |= T_DROP;
        }
        let m = &self.models[r];
        if m.tracked > 0 || !ctx.drops.is_empty() {
            let mut want: Vec<(u8, u64)> = vec![];
            for raw in &m.live {
                let e = &m.ents[raw];
                for (i, t) in types_of(e.mask).enumerate() {
                    if INFO[t as usize].tracked {
                        want.push((t, e.vals[i]));
                    }
                }
            }
            let mut got = ctx.drops.clone();
            want.sort_unstable();
            got.sort_unstable();
            let (missing, extra) = diff(&want, &got);
            if let Some((t, v)) = extra.first() {
                bad!("drops", "dropping the registry ran a destructor too many: {}({v:#x})", INFO[*t as usize].name);
            }
            if let Some((t, v)) = missing.first() {
                if ctx.drop_fired.is_some() {
                    // values behind a panicking destructor may be leaked, never dropped twice
                    self.leaky = true;
                    for (t, v) in &missing {
                        ledger_sub(*t, *v);
                    }
                } else {
                    bad!("drops", "dropping the registry did not drop {} of the values inside, e.g. {}({v:#x})", missing.len(), INFO[*t as usize].name);
                }
            }
        }
        let left = heap().outstanding(r as u8 + 1);
        drop(res);
        let left = left.min(heap().outstanding(r as u8 + 1));
        if left != 0 {
            let k = heap().outstanding_blocks(r as u8 + 1);
            bad!("leak_mem", "{left} bytes in {k} blocks are still allocated after the registry was dropped");
        }
        heap().forget_owner(r as u8 + 1);
        heap().audit_dead();
    }
    /// Ends the run: drops every registry and checks that nothing is left.
    pub fn end(mut self: Box<World>) -> Box<World> {
        let _g = set_mode(OFF);
        self.drain();
        for r in 0..self.regs.len() {
            if viol().is_empty() {
                self.audit(r, 99, true);
            }
        }
        for r in 0..self.regs.len() {
            let mut ctx = OpCtx { owner: r as u8 + 1, ..Default::default() };
            if viol().is_empty() {
                self.finish_reg(r, &mut ctx);
            }
            self.models[r] = Model::default();
        }
        if viol().is_empty() {
            if !ledger().is_empty() {
                bad!("leak", "{} values handed to a registry were never dropped or given back", ledger().len());
            }
            let left = heap().outstanding(255);
            if left != 0 && !self.leaky {
                bad!("leak", "values leaked: {left} bytes owned by component values are still allocated");
            }
        }
        self.regs.clear();
        self
    }

    // ------------------------------------------------------------------ checking single steps
    /// Whether the request is one that has to be carried out.
    fn allowed(&self, s: &Step, raw: Option<u32>) -> bool {
        let r = s.reg as usize;
        let g = &GROUPS[s.g as usize % GROUPS.len()];
        let c = s.g as u8 % NT as u8;
        let live = raw.is_some_and(|x| self.models[r].ents.contains_key(&x));
        let emask = raw.and_then(|x| self.models[r].ents.get(&x)).map(|e| e.mask).unwrap_or(0);
        match s.op {
            Op::Create => g.valid() && !self.set_limit(r, g.mask()),
            Op::Destroy => live,
            Op::Remove => live && g.valid() && emask == g.mask(),
            Op::Add => live && emask >> c & 1 == 0 && emask.count_ones() < 14 && !self.set_limit(r, emask | 1 << c),
            Op::Rem => live && emask >> c & 1 == 1 && emask.count_ones() > 1 && !self.set_limit(r, emask & !(1 << c)),
            Op::Has | Op::Get | Op::Set => live,
            Op::HasG | Op::GetG | Op::SetG | Op::Iter => g.valid(),
            _ => true,
        }
    }
    /// The order in which everything is iterated, where it is worth recording before this request.
    fn order_before(&mut self, s: &Step, raw: Option<u32>) -> Option<Vec<u32>> {
        let r = s.reg as usize;
        let n = self.models[r].live.len();
        if !self.order || s.fault != Fault::None || n == 0 || n > 600 || !matches!(s.op, Op::Create | Op::Destroy | Op::Remove | Op::Add | Op::Rem | Op::Set | Op::SetG) {
            return None;
        }
        if self.allowed(s, raw) && !matches!(s.op, Op::Set | Op::SetG) {
            return None;
        }
        let (a, b) = (self.order_now(r), self.order_now(r));
        if a == b {
            a
        } else {
            None
        }
    }
    fn order_after(&mut self, s: &Step, before: Option<Vec<u32>>) {
        if before.is_some() && viol().is_empty() && self.order_now(s.reg as usize) != before {
            self.tags |= T_REJ;
            bad!("reordered", "a refused {:?} changed the order in which entities are enumerated or iterated", s.op);
        }
    }
    fn order_now(&self, r: usize) -> Option<Vec<u32>> {
        let rp = self.regs[r];
        let n = self.models[r].live.len();
        let present = self.models[r].counts.keys().fold(0u32, |a, m| a | m);
        let mut v = match catch_unwind(AssertUnwindSafe(|| enumerate(unsafe { &*rp }, 0, n + 8, 0))) {
            Ok((v, _)) => v,
            Err(_) => return None,
        };
        for g in GROUPS.iter().filter(|g| g.types.len() == 1 && g.mask() & !present == 0) {
            let mut k = 0;
            let res = catch_unwind(AssertUnwindSafe(|| unsafe {
                (g.iter)(rp, ENT, 0, &|_| true, &mut |b: Batch| {
                    if let Some((p, len)) = b.ents {
                        k += len;
                        if k > n + 8 || (len > 0 && !heap().covers(p as usize, len * 4)) {
                            return false;
                        }
                        v.extend(std::slice::from_raw_parts(p as *const u32, len));
                    }
                    true
                })
            }));
            res.ok()?;
        }
        Some(v)
    }
    fn finish(&mut self, f: &mut Flight, j: u32) {
        let s = f.s;
        let r = s.reg as usize;
        let g = &GROUPS[s.g as usize % GROUPS.len()];
        let c = s.g as u8 % NT as u8;
        let live = f.raw.is_some_and(|x| self.models[r].ents.contains_key(&x));
        let emask = f.raw.and_then(|x| self.models[r].ents.get(&x)).map(|e| e.mask).unwrap_or(0);
        let oom = f.ctx.alloc_fired > 0;
        if oom {
            self.tags |= T_OOM;
            self.stats.alloc_fired += 1;
        }
        if !live && f.raw.is_some() {
            self.stats.stale += 1;
        }
        let allowed = self.allowed(&s, f.raw);
        if !allowed {
            self.tags |= T_REJ;
        }
        let mut want_drops: Vec<(u8, u64)> = vec![];
        let mut subset_ok = false;
        let passed: Vec<(u8, u64)> = match s.op {
            Op::Create => g.types.iter().copied().zip(f.toks.iter().copied()).collect(),
            Op::Add => vec![(c, f.toks[0])],
            _ => vec![],
        };
        let mut dig = s.op as u64;
        let hs = match f.raw {
            Some(x) => format!("{x:#x}"),
            None => String::new(),
        };
        match &f.out {
            Out::None => {}
            Out::PanicOom | Out::PanicFault | Out::Panic(_) => {
                dig = mix(dig, 99);
                if oom && !matches!(f.out, Out::PanicFault) {
                    // the operation did not happen; its arguments must have been dropped
                    want_drops = passed.iter().copied().filter(|(t, _)| INFO[*t as usize].tracked).collect();
                    if s.op == Op::Destroy || s.op == Op::Remove || s.op == Op::Rem {
                        // no allocation needed in these; a panic here is still "did not happen"
                    }
                } else if f.ctx.drop_fired.is_some() {
                    self.tags |= T_DROP;
                    self.stats.drop_fired += 1;
                    subset_ok = true;
                    if s.op == Op::Destroy && live {
                        let e = self.models[r].kill(f.raw.unwrap());
                        for (i, t) in types_of(e.mask).enumerate() {
                            if INFO[t as usize].tracked {
                                want_drops.push((t, e.vals[i]));
                            }
                        }
                    }
                } else if f.ctx.cb_fired > 0 {
                    self.tags |= T_ABANDON;
                    self.stats.cb_fired += 1;
                } else {
                    let m = match &f.out {
                        Out::Panic(m) => m.clone(),
                        _ => "no fault was injected".into(),
                    };
                    let k = if f.raw.is_some() && !live {
                        "stale_panic"
                    } else if !allowed {
                        "req_panic"
                    } else {
                        "panic"
                    };
                    bad!(k, "{:?} panicked: {m}", s.op);
                }
            }
            Out::Created(raw) => {
                dig = mix(dig, *raw as u64);
                if !allowed {
                    bad!("accepted", "creating an entity from {} succeeded although it is not allowed (a repeated type, or one set too many)", names(g.types));
                } else {
                    let made = self.made.entry(s.id).or_default();
                    let by = (s.id, made.len() as u32);
                    made.push(*raw);
                    let v = vals_of(g.mask(), g.types, &f.toks);
                    if let Some((k, d)) = self.models[r].create(*raw, g.mask(), v, by) {
                        bad!(k, "{d}");
                    }
                }
            }
            Out::CreateErr(t) => {
                dig = mix(dig, 2);
                self.stats.refused += 1;
                if allowed && !oom {
                    bad!("refused", "creating an entity from {} distinct types was refused", g.types.len());
                }
                for (i, x) in t.iter().enumerate() {
                    if *x != Some(f.toks[i]) {
                        bad!("ret_refused", "a refused creation gave back {} instead of the value passed for {}", show(*x), INFO[g.types[i] as usize].name);
                        break;
                    }
                }
            }
            Out::Bool(b) => {
                dig = mix(dig, *b as u64);
                match s.op {
                    Op::Destroy => {
                        if *b && !live {
                            bad!("stale", "destroying the dead handle {hs} reported success");
                        } else if !*b && live && !oom {
                            bad!("refused", "destroying the live entity {hs} was refused");
                        } else if *b {
                            let e = self.models[r].kill(f.raw.unwrap());
                            for (i, t) in types_of(e.mask).enumerate() {
                                if INFO[t as usize].tracked {
                                    want_drops.push((t, e.vals[i]));
                                }
                            }
                        }
                    }
                    Op::Has => {
                        let w = emask >> c & 1 == 1;
                        if *b != w {
                            bad!(if live { "compset" } else { "stale" }, "has_component::<{}> of {} entity {hs} answered {b}", INFO[c as usize].name, lv(live));
                        }
                    }
                    _ => {
                        let w = live && g.valid() && emask & g.mask() == g.mask();
                        if *b != w {
                            bad!(if !live { "stale" } else if g.valid() { "groupquery" } else { "invalidq" }, "has_components for {} of {} entity {hs} answered {b}", names(g.types), lv(live));
                        }
                    }
                }
            }
            Out::Removed(v) => {
                let ok = live && g.valid() && emask == g.mask();
                dig = mix(dig, v.is_some() as u64);
                match v {
                    Some(t) => {
                        if !live {
                            bad!("stale", "removing the dead handle {hs} returned values");
                        } else if !ok {
                            bad!("accepted", "removing an entity as {} succeeded although its set is {}", names(g.types), mnames(emask));
                        } else {
                            let e = self.models[r].kill(f.raw.unwrap());
                            for (i, x) in t.iter().enumerate() {
                                if *x != Some(e.val(g.types[i])) {
                                    bad!("ret", "removing entity {hs} gave back {} instead of its current {} {:#x}", show(*x), INFO[g.types[i] as usize].name, e.val(g.types[i]));
                                    break;
                                }
                            }
                        }
                    }
                    None => {
                        self.stats.refused += 1;
                        if ok && !oom {
                            bad!("refused", "removing the live entity {hs} as exactly its set was refused");
                        }
                    }
                }
            }
            Out::Added(v) => {
                let ok = allowed;
                dig = mix(dig, v.is_ok() as u64 + 5);
                match v {
                    Ok(()) => {
                        if !live {
                            bad!("stale", "adding a component to the dead handle {hs} succeeded");
                        } else if !ok {
                            bad!("accepted", "adding {} to an entity with set {} succeeded", INFO[c as usize].name, mnames(emask));
                        } else {
                            self.models[r].add(f.raw.unwrap(), c, f.toks[0]);
                        }
                    }
                    Err(x) => {
                        self.stats.refused += 1;
                        if ok && !oom {
                            bad!("refused", "adding {} to live entity {hs} with set {} was refused", INFO[c as usize].name, mnames(emask));
                        }
                        if *x != Some(f.toks[0]) {
                            bad!("ret_refused", "a refused addition gave back {} instead of the value passed", show(*x));
                        }
                    }
                }
            }
            Out::Rem(v) => {
                let ok = allowed;
                dig = mix(dig, v.is_some() as u64 + 7);
                match v {
                    Some(x) => {
                        if !live {
                            bad!("stale", "removing a component from the dead handle {hs} succeeded");
                        } else if !ok {
                            bad!("accepted", "removing {} from an entity with set {} succeeded", INFO[c as usize].name, mnames(emask));
                        } else {
                            let w = self.models[r].rem(f.raw.unwrap(), c);
                            if *x != Some(w) {
                                bad!("ret", "removing {} from {hs} gave back {} instead of its current value {w:#x}", INFO[c as usize].name, show(*x));
                            }
                        }
                    }
                    None => {
                        self.stats.refused += 1;
                        if ok && !oom {
                            bad!("refused", "removing {} from live entity {hs} with set {} was refused", INFO[c as usize].name, mnames(emask));
                        }
                    }
                }
            }
            Out::Got(v) => {
                let types: &[u8] = if matches!(s.op, Op::Get | Op::Set) { std::slice::from_ref(&c) } else { g.types };
                let gm = types.iter().fold(0u32, |m, t| m | 1 << t);
                let valid = gm.count_ones() as usize == types.len();
                let w = live && valid && emask & gm == gm;
                match v {
                    None => {
                        dig = mix(dig, 3);
                        if w {
                            bad!("live_fail", "a lookup of {} on live entity {hs} with set {} found nothing", names(types), mnames(emask));
                        }
                    }
                    Some(t) => {
                        for x in t {
                            dig = mix(dig, x.unwrap_or(1));
                        }
                        if !w {
                            bad!(if !live { "stale" } else if valid { "compset" } else { "invalidq" }, "a lookup of {} on {} entity {hs} with set {} returned something", names(types), lv(live), mnames(emask));
                        } else {
                            let raw = f.raw.unwrap();
                            for (i, x) in t.iter().enumerate() {
                                let want = self.models[r].ents[&raw].val(types[i]);
                                match x {
                                    None => bad!("garbage", "a lookup of {} on entity {hs} returned bytes that are not such a value", INFO[types[i] as usize].name),
                                    Some(x) if *x != want => {
                                        bad!(self.models[r].whose(raw, types[i], *x), "a lookup of {} on entity {hs} returned {x:#x}, last written was {want:#x}", INFO[types[i] as usize].name)
                                    }
                                    _ => {}
                                }
                            }
                            if matches!(s.op, Op::Set | Op::SetG) && t.iter().all(|x| x.is_some()) {
                                for (i, ty) in types.iter().enumerate() {
                                    self.models[r].set(raw, *ty, f.toks[i]);
                                }
                            }
                        }
                    }
                }
            }
            Out::Ents(v, fused) => {
                for x in v {
                    dig = mix(dig, *x as u64);
                }
                self.check_enum(r, v, s.a != 0);
                if !fused {
                    bad!("enum", "the entity enumeration yielded again after it had ended");
                }
            }
            Out::Iter(_) => {}
        }
        if s.op == Op::Iter && !matches!(f.out, Out::None) && !matches!(f.out, Out::Panic(_)) {
            for x in &f.rows.ents {
                dig = mix(dig, *x as u64);
            }
            for x in &f.rows.toks {
                dig = mix(dig, x.unwrap_or(3));
            }
            for (m, d) in &f.rows.decisions {
                dig = mix(dig, *m as u64 * 2 + *d as u64);
            }
            self.finish_iter(f);
        }
        let _ = j;
        // destructors run by the operation
        if !(want_drops.is_empty() && f.ctx.drops.is_empty()) {
            want_drops.sort_unstable();
            f.ctx.drops.sort_unstable();
            let (missing, extra) = diff(&want_drops, &f.ctx.drops);
            if let Some((t, v)) = extra.first() {
                bad!("drops", "{:?} ran the destructor of {}({v:#x}), which was not to be released", s.op, INFO[*t as usize].name);
            }
            if let Some((t, v)) = missing.first() {
                if subset_ok {
                    self.leaky = true;
                    for (t, v) in &missing {
                        ledger_sub(*t, *v);
                    }
                } else {
                    bad!("drops", "{:?} did not run the destructor of {}({v:#x})", s.op, INFO[*t as usize].name);
                }
            }
            f.ctx.drops.clear();
        }
        let oc = match &f.out {
            Out::Created(_) | Out::Bool(true) | Out::Removed(Some(_)) | Out::Added(Ok(())) | Out::Rem(Some(_)) | Out::Got(Some(_)) | Out::Iter(IterEnd::Done) => 0u64,
            Out::PanicOom | Out::PanicFault | Out::Panic(_) => 2,
            Out::Iter(IterEnd::Stopped) => 3,
            _ => 1,
        };
        if s.op != Op::Iter && s.op != Op::Ents {
            let m = &self.models[r];
            self.cyc = mix(self.cyc, mix(mix(s.op as u64 * 4 + oc, s.g as u64), mix(emask as u64, m.live.len() as u64 * 1000 + m.counts.len() as u64)));
        }
        let nset = self.models[r].counts.get(&if emask == 0 { g.mask() } else { emask }).copied().unwrap_or(0);
        let flt = if f.ctx.alloc_fired > 0 { 1 + f.ctx.alloc_calls as u64 } else if f.ctx.drop_fired.is_some() { 100 + f.ctx.drop_calls as u64 } else { 0 };
        let sit = [s.op as u64, oc, live as u64, emask.count_ones() as u64, 32 - nset.leading_zeros() as u64, if s.op == Op::Iter { s.n as u64 & 0xfff } else { 0 }, flt.min(140), (f.s.y > 0) as u64];
        if self.situations.len() < 4000 {
            self.situations.insert(sit.iter().fold(1, |h, x| mix(h, *x)));
        }
        let st = &mut self.stats;
        st.live_max = st.live_max.max(self.models[r].live.len() as u64);
        st.sets_max = st.sets_max.max(self.models[r].counts.len() as u64);
        self.digest.push((s.id, s.reg, dig));
    }

    fn finish_iter(&mut self, f: &mut Flight) {
        let s = f.s;
        let r = s.reg as usize;
        let kind = s.n as u8;
        let cls = class(kind);
        self.stats.iterations += 1;
        self.stats.rows += f.rows.n as u64;
        let complete = match &f.out {
            Out::Iter(IterEnd::Done) => true,
            Out::Iter(IterEnd::Stopped) => {
                self.stats.abandoned += 1;
                self.tags |= T_ABANDON;
                false
            }
            Out::Iter(IterEnd::NotFused) => {
                bad!(cls, "the iteration yielded again after it had ended");
                true
            }
            Out::Iter(IterEnd::Odd(x)) => {
                let x = format!("an iteration over {} {x}", names(GROUPS[s.g as usize % GROUPS.len()].types));
                bad!(cls, "{x}");
                false
            }
            _ => false,
        };
        if let Some(p) = f.rows.problem.take() {
            if f.write {
                bad!(cls, "{p}");
            } else {
                self.blame(r, cls, p);
            }
        }
        if let Some(p) = f.rows.overlap.take() {
            bad!("overlap", "{p}");
        }
        let types = GROUPS[s.g as usize % GROUPS.len()].types;
        let fk = (s.n >> 8) as u8;
        if let Some(p) = self.check_rows(r, types, kind, fk, s.b, &f.rows, complete) {
            // what such a row gives access to is not what an entity visited there owns
            let foreign = kind & MUT != 0 && (p.contains(" showed ") || p.contains("yielded bytes") || p.contains("that no matching entity"));
            let k = viol().len();
            if f.write {
                // the writes hide whether the values were in place before
                bad!(cls, "{p}");
            } else {
                self.blame(r, cls, p.clone());
            }
            if foreign && viol().get(k).is_some_and(|v| v.kind == cls) {
                bad!("mutiter", "a mutable {p}");
            }
        }
        // adopt what the client wrote through the batches
        if f.write && viol().is_empty() {
            let salt = mix(s.id as u64, 0x5a17) | 0x0101010101010101;
            let mut by_hash: Map<u64, Vec<u32>> = Map::default();
            let ent_kind = kind & ENT != 0;
            if !ent_kind {
                for raw in &self.models[r].live {
                    let e = &self.models[r].ents[raw];
                    if types.iter().all(|t| e.mask >> t & 1 == 1) {
                        let h = types.iter().fold(7u64, |h, t| mix(h, e.val(*t)));
                        by_hash.entry(h).or_default().push(*raw);
                    }
                }
            }
            for (b0, bn, wr) in &f.rows.batches {
                if !wr {
                    continue;
                }
                for row in *b0..*b0 + *bn {
                    let old = &f.rows.toks[row * f.rows.nc..(row + 1) * f.rows.nc];
                    let raw = if ent_kind {
                        Some(f.rows.ents[row])
                    } else {
                        let h = old.iter().fold(7u64, |h, x| mix(h, x.unwrap_or(0)));
                        by_hash.get_mut(&h).and_then(|v| v.pop())
                    };
                    let raw = match raw {
                        Some(x) => x,
                        None => continue,
                    };
                    for (i, t) in types.iter().enumerate() {
                        if let Some(o) = old[i] {
                            self.models[r].set(raw, *t, canon(*t, o ^ salt));
                        }
                    }
                }
            }
            // the writes, and nothing else, must show through every other path
            let k = viol().len();
            self.point_audit(r, s.id as u64, 300, Some("mutiter"));
            let _ = k;
        }
    }
    /// Reports an iteration mismatch unless plain lookups show the same damage.
    fn blame(&mut self, r: usize, cls: &'static str, msg: String) {
        let k = viol().len();
        self.point_audit(r, 5, 2000, None);
        if viol().len() == k {
            bad!(cls, "{msg}");
        }
    }
    fn check_rows(&mut self, r: usize, types: &[u8], kind: u8, fk: u8, fa: u32, rows: &Rows, complete: bool) -> Option<String> {
        let m = &self.models[r];
        let gm = types.iter().fold(0u32, |m, t| m | 1 << t);
        let valid = gm.count_ones() as usize == types.len();
        let nc = types.len();
        for (mask, _) in &rows.decisions {
            if *mask == 0 {
                return Some("a filter was shown a description that names no possible component set truthfully".into());
            }
            if mask & gm != gm {
                return Some(format!("a filter was asked about {}, which lacks a type of the group", mnames(*mask)));
            }
        }
        let mut said: Map<u32, u8> = Map::default();
        if kind & FILT != 0 && filter_pure(fk, fa, 0, gm).is_none() {
            for (mask, ans) in &rows.decisions {
                *said.entry(*mask).or_insert(0) |= 1 << *ans as u8;
            }
        }
        let pass = |mask: u32| -> (bool, bool) {
            // (may be included, must be included)
            if kind & FILT == 0 {
                return (true, true);
            }
            match filter_pure(fk, fa, mask, gm) {
                Some(b) => (b, b),
                None => {
                    let x = said.get(&mask).copied().unwrap_or(0);
                    (x & 2 != 0, x == 2)
                }
            }
        };
        let matches = |mask: u32| -> bool {
            valid && if kind & EXACT != 0 { mask == gm } else { mask & gm == gm }
        };
        // every yielded row must be a live, matching, accepted entity with its current values
        if kind & ENT != 0 {
            let mut seen: Map<u32, ()> = Map::default();
            for i in 0..rows.n {
                let raw = rows.ents[i];
                let e = match m.ents.get(&raw) {
                    None => return Some(format!("iteration over {} yielded handle {raw:#x}, which is not alive", names(types))),
                    Some(e) => e,
                };
                if seen.insert(raw, ()).is_some() {
                    return Some(format!("iteration over {} yielded entity {raw:#x} twice", names(types)));
                }
                if !matches(e.mask) {
                    return Some(format!("iteration over {} yielded entity {raw:#x} whose set is {}", names(types), mnames(e.mask)));
                }
                if !pass(e.mask).0 {
                    return Some(format!("filtered iteration over {} yielded entity {raw:#x} of the rejected set {}", names(types), mnames(e.mask)));
                }
                for (k, t) in types.iter().enumerate() {
                    let got = rows.toks[i * nc + k];
                    if got != Some(e.val(*t)) {
                        return Some(format!("iteration over {} showed {} as {} of entity {raw:#x} whose value is {:#x}", names(types), show(got), INFO[*t as usize].name, e.val(*t)));
                    }
                }
            }
            if complete {
                let mut must = 0;
                for (mask, n) in &m.counts {
                    if *n > 0 && matches(*mask) && pass(*mask).1 {
                        must += n;
                    }
                }
                if rows.n < must as usize {
                    return Some(format!("iteration over {} yielded {} entities, {} match", names(types), rows.n, must));
                }
                if kind & FILT != 0 && filter_pure(fk, fa, 0, 0).is_none() {
                    if let Some(x) = unasked(m, gm, valid, rows) {
                        return Some(x);
                    }
                }
            }
            return None;
        }
        let mut may: Map<u64, i32> = Map::default();
        let mut must: Map<u64, i32> = Map::default();
        let mut nmust = 0usize;
        for raw in &m.live {
            let e = &m.ents[raw];
            if !matches(e.mask) {
                continue;
            }
            let (a, b) = pass(e.mask);
            if a || b {
                let h = types.iter().fold(7u64, |h, t| mix(h, e.val(*t)));
                *may.entry(h).or_insert(0) += 1;
                if b {
                    *must.entry(h).or_insert(0) += 1;
                    nmust += 1;
                }
            }
        }
        let mut met = 0usize;
        for i in 0..rows.n {
            let t = &rows.toks[i * nc..(i + 1) * nc];
            if let Some(k) = t.iter().position(|x| x.is_none()) {
                return Some(format!("iteration over {} yielded bytes that are not a {}", names(types), INFO[types[k] as usize].name));
            }
            let h = t.iter().fold(7u64, |h, x| mix(h, x.unwrap()));
            match may.get_mut(&h) {
                Some(n) if *n > 0 => *n -= 1,
                _ => return Some(format!("iteration over {} yielded a row that no matching entity has left: {}", names(types), t.iter().map(|x| show(*x)).collect::<Vec<_>>().join(", "))),
            }
            if let Some(n) = must.get_mut(&h) {
                if *n > 0 {
                    *n -= 1;
                    met += 1;
                }
            }
        }
        if complete {
            if met < nmust {
                return Some(format!("iteration over {} yielded {} entities, {} match", names(types), rows.n, nmust));
            }
            if kind & FILT != 0 && filter_pure(fk, fa, 0, 0).is_none() {
                if let Some(x) = unasked(m, gm, valid, rows) {
                    return Some(x);
                }
            }
        }
        None
    }
    fn check_enum(&mut self, r: usize, v: &[u32], partial: bool) {
        let m = &self.models[r];
        let mut seen: Map<u32, ()> = Map::default();
        for x in v {
            if !m.ents.contains_key(x) {
                bad!("enum", "the entity enumeration yielded {x:#x}, which is not a live entity");
                return;
            }
            if seen.insert(*x, ()).is_some() {
                bad!("enum", "the entity enumeration yielded {x:#x} twice");
                return;
            }
        }
        if !partial && v.len() != m.live.len() {
            bad!("enum", "the entity enumeration yielded {} handles, {} entities are alive", v.len(), m.live.len());
        }
    }

    // ------------------------------------------------------------------ audits
    fn stale_probe(&mut self, r: usize, raw: u32) {
        let rg = unsafe { &*self.regs[r] };
        let e = ent(raw);
        let res = catch_unwind(AssertUnwindSafe(|| {
            for t in [0usize, (raw as usize >> 3) % NT, (raw as usize) % NT] {
                if (COMPS[t].has)(rg, e) {
                    bad!("stale", "has_component::<{}> of the dead handle {raw:#x} answered true", INFO[t].name);
                    return;
                }
                if (COMPS[t].get)(rg, e).is_some() {
                    bad!("stale", "a lookup through the dead handle {raw:#x} returned a value");
                    return;
                }
            }
        }));
        if res.is_err() {
            bad!("panic", "a lookup through the dead handle {raw:#x} panicked: {}", last_panic());
        }
    }
    /// Compares every (or a sample of the) live entities with the model by plain lookups.
    fn point_audit(&mut self, r: usize, salt: u64, cap: usize, rename: Option<&'static str>) {
        let k0 = viol().len();
        let n = self.models[r].live.len();
        let rg = self.regs[r];
        let picks: Vec<usize> = if n <= cap {
            (0..n).collect()
        } else {
            // rows at the ends, around powers of two, and a random sample
            let mut v: Vec<usize> = vec![0, 1, n - 1, n - 2];
            let mut p = 64;
            while p < n {
                v.extend_from_slice(&[p - 1, p]);
                p *= 2;
            }
            v.extend((0..cap.min(120)).map(|i| (mix(salt, i as u64) % n as u64) as usize));
            v.sort_unstable();
            v.dedup();
            v
        };
        let m = &self.models[r];
        let mut cnt = 0;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let rg = unsafe { &*rg };
            for i in picks {
                let raw = m.live[i];
                let e = &m.ents[&raw];
                cnt += 1;
                for t in 0..NT {
                    let w = e.mask >> t & 1 == 1;
                    if !w && n > 40 && (mix(salt, raw as u64) >> t) & 3 != 0 {
                        continue;
                    }
                    if (COMPS[t].has)(rg, ent(raw)) != w {
                        bad!(if w { "live_fail" } else { "compset" }, "has_component::<{}> of live entity {raw:#x} with set {} answered {}", INFO[t].name, mnames(e.mask), !w);
                        return;
                    }
                    match (COMPS[t].get)(rg, ent(raw)) {
                        None if w => {
                            bad!("live_fail", "a lookup of {} on live entity {raw:#x} with set {} found nothing", INFO[t].name, mnames(e.mask));
                            return;
                        }
                        Some(p) if w => {
                            let want = e.val(t as u8);
                            match peek(t as u8, p) {
                                None => {
                                    bad!("garbage", "a lookup of {} on entity {raw:#x} returned bytes that are not such a value", INFO[t].name);
                                    return;
                                }
                                Some(x) if x != want => {
                                    bad!(m.whose(raw, t as u8, x), "a lookup of {} on entity {raw:#x} returned {x:#x}, last written was {want:#x}", INFO[t].name);
                                    return;
                                }
                                _ => {}
                            }
                        }
                        Some(_) => {
                            bad!("compset", "a lookup of {} on entity {raw:#x} with set {} returned something", INFO[t].name, mnames(e.mask));
                            return;
                        }
                        None => {}
                    }
                }
            }
        }));
        self.stats.entity_checks += cnt;
        if res.is_err() {
            bad!("panic", "looking a live entity up panicked: {}", last_panic());
        }
        if let Some(nm) = rename {
            for v in viol().iter_mut().skip(k0) {
                if v.kind == "value" || v.kind == "garbage" || v.kind == "misdirected" {
                    v.kind = nm.to_string();
                }
            }
        }
    }
    pub fn audit(&mut self, r: usize, salt: u64, full: bool) {
        if self.writer[r] || !viol().is_empty() {
            return;
        }
        let n = self.models[r].live.len();
        self.point_audit(r, salt, if full { 400 } else { 48 }, None);
        if viol().is_empty() {
            let rp = self.regs[r];
            match catch_unwind(AssertUnwindSafe(|| enumerate(unsafe { &*rp }, 0, n + 8, self.evno as u64 % 4))) {
                Ok((v, _)) => self.check_enum(r, &v, false),
                Err(_) => bad!("panic", "enumerating the entities panicked: {}", last_panic()),
            }
        }
        if !full {
            return;
        }
        for i in 0..6u64 {
            let d = &self.models[r].dead;
            if d.is_empty() || !viol().is_empty() {
                break;
            }
            let raw = d[(mix(salt, i) % d.len() as u64) as usize].0;
            if !self.models[r].ents.contains_key(&raw) {
                self.stale_probe(r, raw);
            }
        }
        // values alive must be exactly those the models hold (checked when nothing is in flight)
        if viol().is_empty() && !self.any_inflight() {
            let want: i64 = self.models.iter().map(|m| m.tracked).sum();
            let have: i64 = ledger().values().map(|x| *x as i64).sum();
            if want != have {
                bad!("leak", "{have} tracked values are alive, the registries should hold {want}");
            }
        }
        // iterate a few groups that concern the sets present
        if viol().is_empty() && n > 0 && n <= 5000 {
            let masks: Vec<u32> = {
                let m = &self.models[r];
                (0..3u64).map(|i| m.ents[&m.live[(mix(salt, 40 + i) % n as u64) as usize]].mask).collect()
            };
            for (i, mk) in masks.iter().enumerate() {
                if let Some(g) = group_within(*mk, mix(salt, 60 + i as u64)) {
                    let kind = [2u8, 0, 10, 6, 8, 4][(mix(salt, 80 + i as u64) % 6) as usize];
                    self.quiet_iter(r, g, kind, salt);
                }
            }
        }
        heap().audit();
    }
    /// A read-only iteration made by the auditor itself.
    fn quiet_iter(&mut self, r: usize, g: usize, kind: u8, _salt: u64) {
        let mut s = Step::new(u32::MAX, r as u8, Op::Iter);
        s.g = g as u16;
        s.n = kind as u32;
        let mut f = self.flight(s, None, vec![]);
        let wp = self as *mut World;
        run(wp, &mut f);
        if let Out::Panic(m) = &f.out {
            bad!("panic", "iteration panicked: {m}");
            return;
        }
        self.finish_iter(&mut f);
    }
    /// A read made from inside another client's filter or loop body.
    fn nested(&mut self, r: usize, salt: u64) {
        self.stats.nested += 1;
        let n = self.models[r].live.len();
        let k0 = viol().len();
        let rg = self.regs[r];
        match salt % 3 {
            0 => {
                let (v, _) = enumerate(unsafe { &*rg }, 0, n + 8, 0);
                self.check_enum(r, &v, false);
            }
            1 => {
                if n > 0 {
                    let m = &self.models[r];
                    let raw = m.live[(mix(salt, 1) % n as u64) as usize];
                    let e = &m.ents[&raw];
                    for t in types_of(e.mask) {
                        match (COMPS[t as usize].get)(unsafe { &*rg }, ent(raw)) {
                            Some(p) => {
                                if peek(t, p) != Some(e.val(t)) {
                                    bad!("value", "a lookup of {} on entity {raw:#x} from inside an iteration returned a wrong value", INFO[t as usize].name)
                                }
                            }
                            None => bad!("live_fail", "a lookup of {} on entity {raw:#x} from inside an iteration found nothing", INFO[t as usize].name),
                        }
                    }
                }
            }
            _ => {
                if n > 0 {
                    let mk = self.models[r].ents[&self.models[r].live[(mix(salt, 2) % n as u64) as usize]].mask;
                    if let Some(g) = group_within(mk, salt) {
                        let saved = CTX.with(|c| c.replace(std::ptr::null_mut()));
                        self.quiet_iter(r, g, [2u8, 0, 10, 8][(mix(salt, 3) % 4) as usize], salt);
                        CTX.with(|c| c.set(saved));
                    }
                }
            }
        }
        for v in viol().iter_mut().skip(k0) {
            if v.kind != "panic" {
                v.kind = "reader".into();
            }
        }
    }
}

/// A valid group whose types all lie in `mask`.
pub fn group_within(mask: u32, salt: u64) -> Option<usize> {
    let n = GROUPS.len() as u64;
    let st = mix(salt, 11) % n;
    let mut single = None;
    for i in 0..n {
        let g = ((st + i) % n) as usize;
        let gm = GROUPS[g].mask();
        if gm & !mask == 0 && GROUPS[g].valid() {
            if GROUPS[g].types.len() > 1 || salt & 1 == 0 {
                return Some(g);
            }
            single = Some(g);
        }
    }
    single
}
/// Answers of the filters that depend on nothing but the description.
fn filter_pure(fk: u8, fa: u32, mask: u32, gm: u32) -> Option<bool> {
    let t = fa % NT as u32;
    match fk & 0x0f {
        0 => Some(true),
        1 => Some(false),
        2 => Some(mask >> t & 1 == 1),
        3 => Some(mask >> t & 1 == 0),
        4 => {
            let m = GROUPS[fa as usize % GROUPS.len()].mask();
            Some(mask & m == m)
        }
        5 => Some(mask & GROUPS[fa as usize % GROUPS.len()].mask() == 0),
        6 => Some(mask.count_ones() % 2 == fa % 2),
        7 => Some(mask.count_ones() > gm.count_ones() + fa % 3),
        8 => Some(mix(mask as u64, fa as u64) & 1 == 0),
        _ => None,
    }
}

fn unasked(m: &Model, gm: u32, valid: bool, rows: &Rows) -> Option<String> {
    for (mask, n) in &m.counts {
        if *n > 0 && valid && mask & gm == gm && !rows.decisions.iter().any(|d| d.0 == *mask) {
            return Some(format!("the filter was never asked about the non-empty matching set {}", mnames(*mask)));
        }
    }
    None
}
fn arm(c: &mut OpCtx, f: Fault) {
    match f {
        Fault::Alloc(a, l) => {
            c.alloc_fail_at = a;
            c.alloc_fail_len = l;
        }
        Fault::Drop(a) => c.drop_panic_at = a,
        Fault::Cb(a) => c.cb_panic_at = a,
        Fault::None => {}
    }
}
fn diff(want: &[(u8, u64)], got: &[(u8, u64)]) -> (Vec<(u8, u64)>, Vec<(u8, u64)>) {
    let (mut i, mut j) = (0, 0);
    let (mut miss, mut extra) = (vec![], vec![]);
    while i < want.len() || j < got.len() {
        if j >= got.len() || (i < want.len() && want[i] < got[j]) {
            miss.push(want[i]);
            i += 1;
        } else if i >= want.len() || got[j] < want[i] {
            extra.push(got[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    (miss, extra)
}
fn lv(l: bool) -> &'static str {
    if l {
        "live"
    } else {
        "dead"
    }
}
fn show(t: Option<u64>) -> String {
    match t {
        Some(x) => format!("{x:#x}"),
        None => "bytes that are no such value".into(),
    }
}
pub fn names(t: &[u8]) -> String {
    format!("({})", t.iter().map(|x| INFO[*x as usize].name).collect::<Vec<_>>().join(","))
}
pub fn mnames(m: u32) -> String {
    format!("{{{}}}", types_of(m).map(|x| INFO[x as usize].name).collect::<Vec<_>>().join(","))
}
/// Lists the entities; stops after `stop` (0: never) or when far more come than can exist.
fn enumerate(r: &Registry, stop: u32, cap: usize, cons: Cons) -> (Vec<u32>, bool) {
    let mut v = vec![];
    fn raw(e: Entity) -> Batch {
        let mut b = Batch { ents: None, cols: [std::ptr::null_mut(); 14], lens: [0; 14], n: 1 };
        b.lens[0] = e.raw() as usize;
        b
    }
    let r: &'static Registry = unsafe { std::mem::transmute(r) };
    let end = drive(&|| shim(r.iter_entities(), raw), cons, &mut |b| {
        v.push(b.lens[0] as u32);
        if stop != 0 && v.len() >= stop as usize || v.len() > cap {
            return false;
        }
        callback_point();
        true
    });
    if let IterEnd::Odd(x) = end {
        bad!("enum", "the entity enumeration {}", x.replace("batch", "handle"));
    }
    (v, end != IterEnd::NotFused)
}

/// Runs the operation of `f` against the registry, on whatever thread this is.
fn run(w: *mut World, f: &mut Flight) {
    let fp = f as *mut Flight;
    let cp = unsafe { &mut (*fp).ctx };
    let (w0, a0, m0) = (crate::acc::work(), cp.alloc_calls, MADE.with(Cell::get));
    let res = with_ctx(cp, || catch_unwind(AssertUnwindSafe(|| unsafe { body(w, &mut *fp) })));
    f.out = match res {
        Ok(o) => o,
        Err(p) => {
            let _g = set_mode(OFF);
            if p.is::<SimFault>() {
                Out::PanicFault
            } else if p.is::<OomPanic>() {
                Out::PanicOom
            } else {
                Out::Panic(last_panic().clone())
            }
        }
    };
    if cost() != 0 && f.s.y == 0 {
        unsafe { (*w).judge(f, (f.ctx.alloc_calls - a0) as u64, crate::acc::work() - w0, (MADE.with(Cell::get) - m0).max(1)) }
    }
}
unsafe fn body(w: *mut World, f: &mut Flight) -> Out {
    let s = f.s;
    let g = &GROUPS[s.g as usize % GROUPS.len()];
    let c = &COMPS[s.g as usize % NT];
    let ct = (s.g as usize % NT) as u8;
    let e = ent(f.raw.unwrap_or(0));
    let rp = f.reg;
    match s.op {
        Op::Create => match (g.create)(&mut *rp, &f.toks) {
            Ok(e) => Out::Created(e.raw()),
            Err(t) => Out::CreateErr(t),
        },
        Op::Destroy => Out::Bool(reg(|| (*rp).destroy_entity(e))),
        Op::Remove => Out::Removed((g.remove)(&mut *rp, e)),
        Op::Add => Out::Added((c.add)(&mut *rp, e, f.toks[0])),
        Op::Rem => Out::Rem((c.rem)(&mut *rp, e)),
        Op::Has => Out::Bool((c.has)(&*rp, e)),
        Op::HasG => Out::Bool((g.has)(&*rp, e)),
        Op::Get => Out::Got((c.get)(&*rp, e).map(|p| vec![peek(ct, p)])),
        Op::GetG => Out::Got((g.get)(&*rp, e).map(|p| g.types.iter().enumerate().map(|(i, t)| peek(*t, p[i])).collect())),
        Op::Set => Out::Got((c.get_mut)(&mut *rp, e).map(|p| {
            let o = peek(ct, p);
            if let Some(o) = o {
                overwrite(ct, p, o, f.toks[0]);
            }
            vec![o]
        })),
        Op::SetG => Out::Got((g.get_mut)(&mut *rp, e).map(|p| {
            let o: Toks = g.types.iter().enumerate().map(|(i, t)| peek(*t, p[i])).collect();
            let distinct = (0..g.types.len()).all(|i| INFO[g.types[i] as usize].size == 0 || (0..i).all(|j| p[i] != p[j]));
            if !distinct {
                bad!("overlap", "a mutable lookup of {} returned two references to one place", names(g.types));
            } else if o.iter().all(|x| x.is_some()) && g.valid() {
                for (i, t) in g.types.iter().enumerate() {
                    overwrite(*t, p[i], o[i].unwrap(), f.toks[i]);
                }
            }
            o
        })),
        Op::Ents => {
            let cap = (&(*w).models)[s.reg as usize].live.len() + 8;
            let (v, fused) = enumerate(&*rp, s.a, cap, s.n as u64);
            Out::Ents(v, fused)
        }
        Op::Iter => iterate(w, f),
        _ => Out::None,
    }
}
unsafe fn iterate(w: *mut World, f: &mut Flight) -> Out {
    let s = f.s;
    let r = s.reg as usize;
    let kind = s.n as u8;
    let fk = (s.n >> 8) as u8;
    let wmode = if f.write { (s.n >> 16) as u8 & 3 } else { 0 };
    let nest = (s.n >> 18) & 1 == 1 && kind & MUT == 0;
    let g = &GROUPS[s.g as usize % GROUPS.len()];
    let gm = g.mask();
    let salt = mix(s.id as u64, 0x5a17) | 0x0101010101010101;
    let calls = Cell::new(0u64);
    let rows = &mut f.rows as *mut Rows;
    let filter = |d: &ArchetypeDescriptor| -> bool {
        off(|| {
            calls.set(calls.get() + 1);
            let mask = desc_mask(d).unwrap_or(0);
            let ans = match filter_pure(fk, s.b, mask, gm) {
                Some(b) => match fk & 0x0f {
                    // ask the description itself, as client filters do
                    2 => (COMPS[s.b as usize % NT].desc_has)(d),
                    3 => !(COMPS[s.b as usize % NT].desc_has)(d),
                    4 if GROUPS[s.b as usize % GROUPS.len()].valid() => (GROUPS[s.b as usize % GROUPS.len()].contains)(d),
                    5 if GROUPS[s.b as usize % GROUPS.len()].valid() => (GROUPS[s.b as usize % GROUPS.len()].excludes)(d),
                    _ => b,
                },
                // stateful filters
                None if fk & 0x0f == 9 => calls.get() % 2 == 1,
                None => mix(calls.get(), s.b as u64) & 1 == 0,
            };
            if calls.get() < 200_000 {
                (*rows).decisions.push((mask, ans));
            }
            if nest && kind & FILT != 0 {
                (*w).nested(r, mix(s.id as u64, calls.get() + 1000));
            }
            callback_point();
            ans
        })
    };
    let fdyn: Filter<'_> = &filter;
    // the registry only keeps the filter for the duration of this call
    let fstatic: Filter<'static> = std::mem::transmute::<Filter<'_>, Filter<'static>>(fdyn);
    let mut held: Vec<(Batch, usize, usize)> = vec![];
    let nsets = (&(*w).models)[r].counts.len();
    let nlive = (&(*w).models)[r].live.len();
    let mut nb = 0u32;
    (*rows).nc = g.types.len();
    let mut sink = |b: Batch| -> bool {
        let _g = set_mode(OFF);
        let rows = &mut *rows;
        nb += 1;
        let st = rows.n;
        take(rows, &b, g.types, kind);
        let len = rows.n - st;
        rows.batches.push((st, len, false));
        if wmode == 1 {
            put(rows, &b, st, len, g.types, salt);
            rows.batches.last_mut().unwrap().2 = true;
        }
        if wmode == 2 {
            held.push((b, st, len));
        }
        if nb % 1024 == 0 {
            crate::run::progress((*w).evno, (*w).last_op, (*w).tags);
        }
        if nb as usize > 4 * nsets + 64 || rows.n > 2 * nlive + 64 {
            rows.problem.get_or_insert_with(|| format!("iteration over {} does not end", names(g.types)));
            return false;
        }
        if nest {
            (*w).nested(r, mix(s.id as u64, nb as u64));
        }
        callback_point();
        if s.a != 0 && nb >= s.a {
            return false;
        }
        true
    };
    let mut cons = (s.n >> 19) as u64;
    // filters whose answer changes see each set once
    if kind & FILT != 0 && cons & 7 >= 4 && filter_pure(fk, s.b, 0, 0).is_none() {
        cons = 0;
    }
    let end = (g.iter)(rp_of(f), kind, cons, fstatic, &mut sink);
    // batches held until now are written together
    for (k, (b, st, len)) in held.iter().enumerate() {
        put(&mut *rows, b, *st, *len, g.types, salt);
        (&mut (*rows).batches)[k].2 = true;
    }
    if kind & MUT != 0 {
        let sp = &mut (*rows).spans;
        sp.sort_unstable();
        for p in sp.windows(2) {
            if p[0].1 > p[1].0 {
                (*rows).overlap = Some(format!("two batches of one mutable iteration over {} overlap in memory", names(g.types)));
                break;
            }
        }
    }
    Out::Iter(end)
}
fn rp_of(f: &Flight) -> *mut Registry {
    f.reg
}
unsafe fn take(rows: &mut Rows, b: &Batch, types: &[u8], kind: u8) {
    let mut len = b.lens[0];
    for i in 1..b.n {
        if b.lens[i] != len {
            rows.problem = Some(format!("a batch over {} has columns of different lengths", names(types)));
            len = len.min(b.lens[i]);
        }
    }
    if let Some((p, n)) = b.ents {
        if n != len {
            rows.problem = Some(format!("a batch over {} has {} handles for {} rows", names(types), n, len));
            len = len.min(n);
        }
        if p as usize % 4 != 0 || p.is_null() || (n > 0 && kind & EXACT == 0 && !heap().covers(p as usize, 4 * n)) {
            bad!("mem", "the handles of a batch lie outside the blocks the registry owns");
            len = 0;
        }
        if kind & MUT != 0 && n > 0 {
            rows.spans.push((p as usize, p as usize + 4 * n));
        }
    }
    for i in 0..b.n {
        let inf = &INFO[types[i] as usize];
        let (p, n) = (b.cols[i] as usize, b.lens[i]);
        if p % inf.align != 0 || p == 0 {
            bad!("mem", "a column of {} in a batch is null or misaligned", inf.name);
            len = 0;
        }
        if n > 0 && inf.size > 0 && p != 0 && !heap().covers(p, inf.size * n) {
            bad!("mem", "a column of {} in a batch lies outside the blocks the registry owns", inf.name);
            len = 0;
        }
        if kind & MUT != 0 && n > 0 && inf.size > 0 {
            rows.spans.push((p, p + inf.size * n));
        }
    }
    for j in 0..len {
        if let Some((p, _)) = b.ents {
            rows.ents.push((*p.add(j)).raw());
        }
        for i in 0..b.n {
            let t = types[i];
            let q = b.cols[i].add(j * INFO[t as usize].size);
            rows.toks.push(read(t, q));
        }
    }
    rows.n += len;
}
unsafe fn put(rows: &mut Rows, b: &Batch, st: usize, n: usize, types: &[u8], salt: u64) {
    for j in 0..n {
        for i in 0..b.n {
            let t = types[i];
            if let Some(o) = rows.toks[(st + j) * rows.nc + i] {
                overwrite(t, b.cols[i].add(j * INFO[t as usize].size), o, canon(t, o ^ salt));
            }
        }
    }
}
