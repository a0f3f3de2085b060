//! Seeded generation of client steps, schedules and faults.
use crate::comps::*;
use crate::ctx::*;
use crate::groups::*;
use crate::heap::HeapCfg;
use crate::model::types_of;
use crate::step::*;
use crate::world::*;

/// What one property's runs look like.
#[derive(Clone)]
pub struct Prof {
    pub w: Vec<(Op, u32)>,
    pub steps: (u64, u64),
    pub max_regs: u64,
    pub conc_pm: u32,
    pub alloc_pm: u32,
    pub drop_pm: u32,
    pub cb_pm: u32,
    pub abandon_pm: u32,
    pub stale_pm: u32,
    pub invalid_pm: u32,
    pub big_pm: u32,
    pub huge_pm: u32,
    /// big runs make thousands of entities at a time
    pub mass: bool,
    pub wide_pm: u32,
    pub many_pm: u32,
    pub coll_pm: u32,
    pub mut_pm: u32,
    pub write_pm: u32,
    pub nest_pm: u32,
    /// iteration classes: matching, filtered, exact weights
    pub cls: [u32; 3],
    pub audit: u32,
    /// share of runs (per mille) that keep the fault rates; the others run fault free
    pub fault_runs_pm: u32,
}
impl Prof {
    pub fn base() -> Prof {
        use Op::*;
        Prof {
            w: vec![
                (Create, 26), (Destroy, 11), (Remove, 6), (Add, 16), (Rem, 12), (Has, 2), (HasG, 3), (Get, 2), (GetG, 4), (Set, 3), (SetG, 4),
                (Ents, 2), (Iter, 8), (BulkCreate, 3), (BulkDestroy, 2), (BulkAdd, 2), (BulkRem, 2), (BulkRemove, 1), (Spread, 1), (Churn, 1),
                (DropReg, 1), (MoveReg, 1), (SwapRegs, 1), (Audit, 1),
            ],
            steps: (8, 60), max_regs: 2, conc_pm: 0, alloc_pm: 30, drop_pm: 30, cb_pm: 60, abandon_pm: 150, stale_pm: 80, invalid_pm: 60,
            big_pm: 60, huge_pm: 4, mass: false, wide_pm: 120, many_pm: 20, coll_pm: 60, mut_pm: 400, write_pm: 800, nest_pm: 100, cls: [3, 3, 3], audit: 1, fault_runs_pm: 200,
        }
    }
    pub fn set(mut self, ws: &[(Op, u32)]) -> Prof {
        for (o, n) in ws {
            self.w.iter_mut().find(|x| x.0 == *o).unwrap().1 = *n;
        }
        self
    }
}

#[derive(Clone)]
struct Made {
    id: u32,
    reg: u8,
    n: u32,
    g: u16,
}
pub struct Gen {
    pub rng: Rng,
    pub p: Prof,
    palette: u32,
    groups: Vec<u16>,
    invalid: Vec<u16>,
    comps: Vec<u8>,
    next_id: u32,
    pending: Vec<Step>,
    made: Vec<Made>,
    soft_cap: usize,
    faults: bool,
    conc: bool,
    pub left: u64,
    heavy: bool,
    big: bool,
    huge_left: u32,
    /// clients advance by a few memory accesses at a time
    dense: bool,
    /// what one client starts, another one starts too, on another registry
    twins: bool,
    /// many short queries of one registry by several clients, parked at single accesses
    readers: bool,
    twin: Option<(Op, u8, u16, u32)>,
}

pub fn heap_cfg(rng: &mut Rng) -> HeapCfg {
    HeapCfg {
        seed: rng.next(),
        fill: *rng.pick(&[0u8, 0, 1, 2, 3, 3]),
        reuse_pm: *rng.pick(&[0u16, 0, 300, 900, 1000]),
        inplace_pm: *rng.pick(&[0u16, 0, 500, 1000]),
        slack_pm: *rng.pick(&[0u16, 300, 1000]),
        tight: rng.below(4) != 0,
    }
}
const SMALL: u32 = 1 | 2 | 4 | 8 | 32 | 64 | 128 | 256 | 1 << 11 | 1 << 12 | 1 << 14 | 1 << 15 | 1 << 16 | 1 << 17 | 1 << 18 | 7 << 29;
const HEAVY: u32 = 1 << 13 | 1 << 20 | 1 << 21;

fn w_of(p: &Prof, op: Op) -> u32 {
    p.w.iter().find(|x| x.0 == op).map_or(0, |x| x.1)
}
impl Gen {
    pub fn new(seed: u64, p: &Prof) -> Gen {
        let mut rng = Rng::new(seed);
        let mut p = p.clone();
        // swarm: switch off a random part of the workload in each run
        for x in p.w.iter_mut() {
            if rng.pm(150) && !matches!(x.0, Op::Create) {
                x.1 = 0;
            } else if rng.pm(100) {
                x.1 *= 4;
            }
        }
        let faults = rng.pm(p.fault_runs_pm);
        if !faults {
            p.alloc_pm = 0;
            p.drop_pm = 0;
            p.cb_pm = 0;
        } else if rng.pm(500) {
            // one fault kind at a time in half of the fault runs
            let k = rng.below(3);
            if k != 0 {
                p.alloc_pm = 0
            }
            if k != 1 {
                p.drop_pm = 0
            }
            if k != 2 {
                p.cb_pm = 0
            }
        }
        let conc = rng.pm(p.conc_pm);
        let palette = Self::palette(&mut rng, &p);
        let mut groups: Vec<u16> = vec![];
        let mut invalid = vec![];
        for (i, g) in GROUPS.iter().enumerate() {
            if g.mask() & !palette == 0 {
                if g.valid() {
                    groups.push(i as u16)
                } else {
                    invalid.push(i as u16)
                }
            }
        }
        if invalid.is_empty() {
            invalid = GROUPS.iter().enumerate().filter(|(_, g)| !g.valid()).map(|(i, _)| i as u16).collect();
        }
        // a narrow run uses few groups, so that sets coincide often
        while groups.len() > 10 && rng.pm(600) {
            let k = rng.below(groups.len() as u64) as usize;
            groups.swap_remove(k);
        }
        let comps: Vec<u8> = types_of(palette).collect();
        let heavy = palette & HEAVY != 0;
        let left = rng.range(p.steps.0, p.steps.1);
        let big = rng.pm(p.big_pm);
        let huge = if !heavy && !conc && rng.pm(p.huge_pm) { 1 } else { 0 };
        let soft_cap = *rng.pick(&[4usize, 8, 16, 24, 40]);
        let dense = crate::acc::ON && conc && rng.pm(400);
        let readers = crate::acc::ON && conc && rng.pm(300);
        let (dense, twins) = (dense && !readers, crate::acc::ON && conc && !readers && rng.pm(500));
        if twins && rng.pm(500) {
            // values of more than a few words
            let of = if rng.pm(700) { 1 << 6 | 1 << 17 | 1 << 19 } else { 1 << 9 | 1 << 13 };
            groups = (0..GROUPS.len() as u16).filter(|g| GROUPS[*g as usize].valid() && GROUPS[*g as usize].mask() & of != 0 && GROUPS[*g as usize].types.len() < 5).collect();
        }
        while twins && groups.len() > 4 {
            let k = rng.below(groups.len() as u64) as usize;
            groups.swap_remove(k);
        }
        if twins {
            for x in p.w.iter_mut() {
                x.1 = match x.0 {
                    Op::Create => 12,
                    Op::Destroy | Op::Add | Op::Rem => 25,
                    Op::Remove => 14,
                    Op::GetG | Op::SetG | Op::Ents => 3,
                    Op::Iter => 8,
                    _ => 0,
                }
            }
        }
        Gen { dense, twins, readers, twin: None, rng, p, palette, groups, invalid, comps, next_id: 1, pending: vec![], made: vec![], soft_cap, faults, conc, left, heavy, big, huge_left: huge }
    }
    fn palette(rng: &mut Rng, p: &Prof) -> u32 {
        let coll = 0xFu32 << 22;
        let trip = 7u32 << 26;
        if rng.pm(p.coll_pm) {
            return match rng.below(5) {
                // identifiers that agree in one of their bytes
                4 => 1 | 1 << 1 | 1 << 2 | 1 << 3 | 1 << 4 | 1 << 10 | 1 << 17 | 1 << 19 | if rng.pm(100) { 1 << 13 | 1 << 20 } else { 0 },
                0 => trip | 1 << 29,
                1 => coll,
                2 => coll | 7 << 29,
                _ => coll | trip | 7 << 29 | 1,
            };
        }
        if rng.pm(p.wide_pm) {
            // up to fourteen and more types
            return match rng.below(3) {
                0 => SMALL,
                1 => GROUPS.iter().filter(|g| g.valid() && g.types.len() == 14).nth(2).map(|g| g.mask()).unwrap_or(SMALL) | 1 << 12,
                _ => {
                    let mut m = SMALL;
                    for _ in 0..rng.below(6) {
                        m &= !(1 << rng.below(32));
                    }
                    m | 1
                }
            };
        }
        match rng.below(10) {
            0..=3 => {
                // a part of the first family
                let mut m = 0xFFu32;
                for _ in 0..rng.below(5) {
                    m &= !(1 << rng.below(8));
                }
                if m == 0 {
                    3
                } else {
                    m
                }
            }
            4 => 0xFF,
            5 => 0x000F_DF00,
            6 | 7 => {
                let mut m = 0;
                for _ in 0..rng.range(2, 4) {
                    let g = rng.pick(GROUPS);
                    if g.mask() & HEAVY == 0 {
                        m |= g.mask();
                    }
                }
                if m == 0 {
                    7
                } else {
                    m
                }
            }
            8 => 0x000F_DFFF & !(rng.next() as u32 & rng.next() as u32) | 1,
            _ => {
                if rng.pm(300) {
                    HEAVY | 1 | 2 | 4 | 0x80 | 0x80000
                } else {
                    0x10 | 0x80 | 0x800 | 0x40 | 1 | 0x2000
                }
            }
        }
    }
    /// Keeps the workload within these types.
    pub fn confine(&mut self, pal: u32) {
        self.palette = pal;
        self.comps = types_of(pal).collect();
        self.groups = GROUPS.iter().enumerate().filter(|(_, g)| g.valid() && g.mask() & !pal == 0).map(|(i, _)| i as u16).collect();
        self.heavy = false;
        self.big = false;
        self.huge_left = 0;
    }
    pub fn nregs(&mut self) -> u8 {
        1 + self.rng.below(self.p.max_regs) as u8
    }
    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }
    fn pick_op(&mut self, live: usize) -> Op {
        if live == 0 && self.rng.pm(700) {
            return Op::Create;
        }
        let tot = self.p.w.iter().map(|x| x.1).sum::<u32>().max(1);
        let mut k = self.rng.below(tot as u64) as u32;
        for (o, w) in self.p.w.clone() {
            if k < w {
                if live > self.soft_cap && matches!(o, Op::Create | Op::BulkCreate) && self.rng.pm(800) {
                    return if self.rng.pm(600) { Op::Destroy } else { Op::Rem };
                }
                return o;
            }
            k -= w;
        }
        Op::Create
    }
    fn live_handle(&mut self, w: &World, r: usize) -> Option<(u32, Href)> {
        let m = &w.models[r];
        if m.live.is_empty() {
            return None;
        }
        let n = m.live.len() as u64;
        let i = match self.rng.below(6) {
            0 => 0,
            1 => n - 1,
            2 => {
                // a power of two away from the last one
                let k = self.rng.below(64 - n.leading_zeros() as u64);
                if n > 65_536 && self.rng.pm(500) {
                    n - 1 - 65_536
                } else {
                    (n - 1).saturating_sub(1 << k)
                }
            }
            _ => self.rng.below(n),
        };
        let raw = m.live[i as usize];
        let by = m.ents[&raw].by;
        Some((raw, Href::By(by.0, by.1)))
    }
    fn handle(&mut self, w: &World, r: usize) -> (Option<u32>, Href) {
        let stale = self.p.stale_pm;
        if self.rng.pm(stale) {
            match self.rng.below(6) {
                0..=2 => {
                    let d = &w.models[r].dead;
                    if !d.is_empty() {
                        let far = if self.rng.pm(500) { 3 } else { 400 };
                        let back = self.rng.below((d.len() as u64).min(far));
                        let (raw, by) = d[d.len() - 1 - back as usize];
                        return (Some(raw), Href::By(by.0, by.1));
                    }
                }
                3 => {
                    // a handle of another registry
                    let q = self.rng.below(w.models.len() as u64) as usize;
                    if q != r {
                        if let Some((raw, h)) = self.live_handle(w, q) {
                            return (Some(raw), h);
                        }
                    }
                }
                4 => {
                    // a never issued value close to issued ones
                    if let Some((raw, _)) = self.live_handle(w, r) {
                        let x = match self.rng.below(5) {
                            0 => raw ^ 1,
                            1 => raw.wrapping_add(1),
                            2 => raw ^ 0x80,
                            3 => raw.wrapping_add(256 * (1 + self.rng.below(3) as u32)),
                            _ => raw ^ (1 << self.rng.below(32)),
                        };
                        return (Some(x), Href::Raw(x));
                    }
                }
                _ => {
                    let x = *self.rng.pick(&[u32::MAX, 0xFFFF_FF00, 0xFFFF_FE00, 0, 255, 0x8000_0000, 0x0100_0000, 0xFFFF_FEFF]);
                    return (Some(x), Href::Raw(x));
                }
            }
        }
        match self.live_handle(w, r) {
            Some((a, h)) => (Some(a), h),
            None => (None, Href::Raw(self.rng.below(4) as u32 * 256)),
        }
    }
    fn group(&mut self) -> u16 {
        if self.groups.is_empty() {
            return 0;
        }
        *self.rng.pick(&self.groups.clone())
    }
    fn any_group(&mut self) -> u16 {
        let inv = self.p.invalid_pm;
        if self.rng.pm(inv) {
            return *self.rng.pick(&self.invalid.clone());
        }
        if self.rng.pm(40) {
            return self.rng.below(GROUPS.len() as u64) as u16;
        }
        self.group()
    }
    fn sub_group(&mut self, mask: u32) -> u16 {
        let c: Vec<u16> = self.groups.iter().copied().filter(|g| GROUPS[*g as usize].mask() & !mask == 0).collect();
        if c.is_empty() || self.rng.pm(250) {
            self.any_group()
        } else {
            *self.rng.pick(&c)
        }
    }
    fn exact_group(&mut self, mask: u32) -> Option<u16> {
        let c: Vec<u16> = (0..GROUPS.len() as u16).filter(|g| GROUPS[*g as usize].mask() == mask && GROUPS[*g as usize].valid()).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&c))
        }
    }
    fn comp(&mut self) -> u16 {
        if self.rng.pm(15) {
            // any type, unless it is a big one
            let t = self.rng.below(NT as u64) as u16;
            if HEAVY >> t & 1 == 0 {
                return t;
            }
        }
        *self.rng.pick(&self.comps.clone()) as u16
    }
    fn bulk_n(&mut self) -> u32 {
        let cap = if self.heavy { 40 } else { 400 };
        let n = match self.rng.below(12) {
            0..=4 => self.rng.range(1, 6) as u32,
            5 | 6 => self.rng.range(126, 130) as u32,
            7 => self.rng.range(254, 259) as u32,
            8 => self.rng.range(7, 60) as u32,
            9 if self.big => self.rng.range(511, 514) as u32,
            10 if self.big && self.p.mass => self.rng.range(3000, 4200) as u32,
            10 if self.big => self.rng.range(1000, 1100) as u32,
            _ => self.rng.range(2, 20) as u32,
        };
        if self.big && !self.heavy {
            n
        } else {
            n.min(cap)
        }
    }
    pub fn next(&mut self, w: &World) -> Option<Ev> {
        if let Some(s) = self.pending.pop() {
            return Some(Ev::Step(s));
        }
        if self.left == 0 {
            return None;
        }
        let nr = w.models.len();
        if self.twins && self.made.is_empty() && nr > 1 {
            // similar populations to begin with
            for _ in 0..self.rng.range(1, 2) {
                let g = self.group();
                for r in 0..nr {
                    let id = self.id();
                    let mut s = Step::new(id, r as u8, Op::BulkCreate);
                    s.g = g;
                    s.n = self.rng.range(3, 8) as u32;
                    self.made.push(Made { id, reg: r as u8, n: s.n, g });
                    self.pending.push(s);
                }
            }
            return self.next(w);
        }
        if self.readers && self.made.is_empty() {
            // a few small populations to begin with
            for r in 0..nr {
                for _ in 0..self.rng.range(3, 6) {
                    let id = self.id();
                    let mut s = Step::new(id, r as u8, Op::BulkCreate);
                    s.g = self.group();
                    s.n = self.rng.range(1, 3) as u32;
                    self.made.push(Made { id, reg: r as u8, n: s.n, g: s.g });
                    self.pending.push(s);
                }
            }
            for x in self.p.w.iter_mut() {
                x.1 = match x.0 {
                    Op::Iter => 60,
                    Op::GetG | Op::Get | Op::HasG | Op::Ents => 8,
                    Op::Create | Op::Destroy | Op::Add | Op::Rem => 2,
                    _ => 0,
                }
            }
            let k = self.rng.below(3) as usize;
            self.p.cls = [[1, 0, 4], [4, 1, 1], [1, 1, 1]][k];
            self.left = self.left.max(40);
            return self.next(w);
        }
        if self.conc && w.any_inflight() && self.rng.pm(if self.dense { 950 } else if self.readers { 250 } else { 600 }) {
            if !self.dense {
                self.left -= 1;
            }
            let c: Vec<u8> = (0..NCLIENTS as u8).filter(|c| w.inflight(*c as usize)).collect();
            return Some(Ev::Resume(*self.rng.pick(&c)));
        }
        self.left -= 1;
        let mut r = self.rng.below(nr as u64) as usize;
        let twin = self.twin.take();
        let mut like = 0;
        if let Some((_, q, _, mask)) = twin {
            if r == q as usize {
                r = (r + 1) % nr;
            }
            like = mask;
        }
        let live = w.models[r].live.len();
        let mut op = self.pick_op(live);
        if let Some(t) = twin {
            op = t.0
        }
        let mut client = 0u8;
        if self.conc {
            let free: Vec<u8> = (0..NCLIENTS as u8).filter(|c| !w.inflight(*c as usize)).collect();
            if free.is_empty() || w.writing(r) {
                let c: Vec<u8> = (0..NCLIENTS as u8).filter(|c| w.inflight(*c as usize)).collect();
                return Some(Ev::Resume(*self.rng.pick(&c)));
            }
            client = *self.rng.pick(&free);
            if w.busy(r) {
                // only readers may join
                op = *self.rng.pick(&[Op::Iter, Op::Iter, Op::Ents, Op::GetG, Op::Get, Op::HasG]);
            }
            if w.any_inflight() && matches!(op, Op::SwapRegs) {
                op = Op::Iter;
            }
        }
        let nw = w_of(&self.p, Op::Iter) + w_of(&self.p, Op::GetG);
        if nw > 0 && !self.conc && live <= self.soft_cap && self.rng.pm(25) {
            return Some(self.near(r));
        }
        if self.huge_left > 0 && self.rng.pm(200) {
            self.huge_left -= 1;
            return Some(self.huge(r));
        }
        let id = self.id();
        let mut s = Step::new(id, r as u8, op);
        s.client = client;
        match op {
            Op::Create => {
                let inv = self.p.invalid_pm / 3;
                s.g = if self.rng.pm(inv) { *self.rng.pick(&self.invalid.clone()) } else { self.group() };
                self.made.push(Made { id, reg: r as u8, n: 1, g: s.g });
            }
            Op::Destroy | Op::Has | Op::Get | Op::Set | Op::Add | Op::Rem | Op::Remove | Op::HasG | Op::GetG | Op::SetG => {
                let (mut raw, mut h) = self.handle(w, r);
                if like != 0 {
                    if let Some(x) = w.models[r].live.iter().find(|x| w.models[r].ents[x].mask == like) {
                        let by = w.models[r].ents[x].by;
                        (raw, h) = (Some(*x), Href::By(by.0, by.1));
                    }
                }
                s.h = h;
                let mask = raw.and_then(|x| w.models[r].ents.get(&x)).map(|e| e.mask).unwrap_or(0);
                let inn: Vec<u8> = types_of(mask).collect();
                let out: Vec<u8> = self.comps.iter().copied().filter(|t| mask >> t & 1 == 0).collect();
                s.g = match op {
                    Op::Add if !out.is_empty() && self.rng.pm(850) => *self.rng.pick(&out) as u16,
                    Op::Rem | Op::Get | Op::Set | Op::Has if !inn.is_empty() && self.rng.pm(800) => *self.rng.pick(&inn) as u16,
                    Op::Add | Op::Rem | Op::Get | Op::Set | Op::Has => self.comp(),
                    Op::Remove => match self.exact_group(mask) {
                        Some(g) if self.rng.pm(650) => g,
                        _ => self.sub_group(mask),
                    },
                    Op::Destroy => 0,
                    _ => self.sub_group(mask),
                };
            }
            Op::Ents => {
                let ab = self.p.abandon_pm;
                if self.rng.pm(ab) {
                    s.a = 1 + self.rng.below(4) as u32;
                }
                if self.rng.pm(500) {
                    s.n = self.rng.next() as u32 >> 8;
                }
            }
            Op::Iter => self.iter_step(w, r, &mut s),
            Op::BulkCreate => {
                s.g = self.group();
                s.n = self.bulk_n();
                if live > 3000 {
                    s.n = 1;
                }
                self.made.push(Made { id, reg: r as u8, n: s.n, g: s.g });
            }
            Op::Churn => {
                s.g = self.group();
                s.n = *self.rng.pick(&[5u32, 5, 40, 130, 256, 257, 258, 300, 520, 600]);
                if self.heavy {
                    s.n = s.n.min(30);
                }
            }
            Op::BulkDestroy | Op::BulkAdd | Op::BulkRem | Op::BulkRemove | Op::Spread => {
                let c: Vec<Made> = self.made.iter().filter(|m| m.reg == r as u8).cloned().collect();
                let bulk: Vec<Made> = c.iter().filter(|m| m.n > 1).cloned().collect();
                let m = if !bulk.is_empty() && self.rng.pm(800) {
                    self.rng.pick(&bulk).clone()
                } else if !c.is_empty() {
                    self.rng.pick(&c).clone()
                } else {
                    return self.next(w);
                };
                s.h = Href::By(m.id, if self.rng.pm(500) { 0 } else { self.rng.below(m.n as u64) as u32 });
                s.n = if self.rng.pm(500) { m.n } else { self.rng.range(1, m.n as u64) as u32 };
                s.a = match self.rng.below(4) {
                    0 => m.n.max(2) - 1, // backwards
                    1 => 1 + self.rng.below(7) as u32,
                    _ => 1,
                };
                s.g = match op {
                    Op::BulkRemove => m.g,
                    _ => self.comp(),
                };
                if op == Op::Spread {
                    s.b = self.palette & !HEAVY;
                    s.a = self.rng.next() as u32;
                    let many = self.p.many_pm;
                    if s.b.count_ones() >= 7 && self.rng.pm(many * 10) {
                        // many different sets
                        let bid = self.id();
                        let mut c = Step::new(bid, r as u8, Op::BulkCreate);
                        c.g = s.g;
                        c.g = self.group();
                        c.n = 300 + self.rng.below(500) as u32;
                        let mut s2 = s;
                        s2.h = Href::By(bid, 0);
                        s2.n = c.n;
                        self.made.push(Made { id: bid, reg: r as u8, n: c.n, g: c.g });
                        self.pending.push(s2);
                        return Some(Ev::Step(c));
                    }
                }
            }
            Op::SwapRegs => s.a = self.rng.below(nr as u64) as u32,
            Op::Audit => s.n = self.rng.next() as u32,
            _ => {}
        }
        if self.twins && nr > 1 {
            match twin {
                Some((o, _, g, _)) if o == s.op && matches!(o, Op::Create | Op::Add | Op::Rem | Op::Remove | Op::Get | Op::Set | Op::GetG | Op::SetG) => s.g = g,
                Some(_) => {}
                None => {
                    let mask = w.resolve(s.h).and_then(|x| w.models[r].ents.get(&x)).map(|e| e.mask).unwrap_or(0);
                    if !matches!(s.op, Op::SwapRegs | Op::MoveReg | Op::DropReg | Op::BulkAdd | Op::BulkRem | Op::BulkRemove | Op::BulkDestroy | Op::Spread) {
                        self.twin = Some((s.op, r as u8, s.g, mask))
                    }
                }
            }
            if s.op == Op::Create {
                if let Some(m) = self.made.last_mut() {
                    m.g = s.g;
                }
            }
        }
        self.fault(w, r, &mut s);
        if self.conc && s.fault == Fault::None && matches!(op, Op::Create | Op::Destroy | Op::Remove | Op::Add | Op::Rem | Op::Ents | Op::Iter | Op::GetG | Op::SetG) && (self.twins || self.rng.pm(800)) {
            s.y = 1 + self.rng.below(6) as u32;
            s.ys = if self.readers {
                s.y = self.rng.below(2) as u32;
                let top = 1 << self.rng.range(3, 10);
                self.rng.below(top) as u32
            } else if self.dense {
                s.y = 20 + self.rng.below(200) as u32;
                self.rng.below(6) as u32
            } else if crate::acc::ON {
                // anywhere between the first and the last of some thousand memory accesses
                let top = 1 << self.rng.range(2, 12);
                self.rng.below(top) as u32
            } else if self.rng.pm(500) {
                0
            } else {
                self.rng.below(12) as u32
            };
        }
        Some(Ev::Step(s))
    }
    fn iter_step(&mut self, w: &World, r: usize, s: &mut Step) {
        let m = &w.models[r];
        let mask = if m.live.is_empty() { 0 } else { m.ents[&m.live[self.rng.below(m.live.len() as u64) as usize]].mask };
        let cls = self.p.cls;
        let tot = cls.iter().sum::<u32>().max(1);
        let k = self.rng.below(tot as u64) as u32;
        let mut kind = if k < cls[0] {
            0
        } else if k < cls[0] + cls[1] {
            FILT
        } else {
            EXACT
        };
        let mp = self.p.mut_pm;
        if self.rng.pm(mp) && !w.busy(r) {
            kind |= MUT
        }
        if self.rng.pm(550) {
            kind |= ENT
        }
        s.g = if kind & EXACT != 0 {
            match self.exact_group(mask) {
                Some(g) if self.rng.pm(800) => g,
                _ => self.any_group(),
            }
        } else {
            self.sub_group(mask)
        };
        let fk = if kind & FILT != 0 { *self.rng.pick(&[0u8, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 8, 9, 10]) } else { 0 };
        s.b = match fk {
            2 | 3 => self.comp() as u32,
            4 | 5 => self.group() as u32,
            _ => self.rng.below(1 << 20) as u32,
        };
        let (wp, np, ab) = (self.p.write_pm, self.p.nest_pm, self.p.abandon_pm);
        let wm = if kind & MUT != 0 && self.rng.pm(wp) { 1 + self.rng.below(2) as u32 } else { 0 };
        let nest = kind & MUT == 0 && self.rng.pm(np);
        s.n = kind as u32 | (fk as u32) << 8 | wm << 16 | (nest as u32) << 18;
        if self.rng.pm(500) {
            // consumed by other methods than next
            s.n |= (self.rng.next() as u32) << 19;
        }
        if self.rng.pm(ab) && kind & EXACT == 0 {
            s.a = 1 + self.rng.below(3) as u32;
        }
    }
    /// A set one type larger (or smaller) than a group, and that group's accesses to it.
    fn near(&mut self, r: usize) -> Ev {
        let min = *self.rng.pick(&[2usize, 4, 7]);
        let c: Vec<u16> = (0..GROUPS.len() as u16)
            .filter(|g| GROUPS[*g as usize].valid() && GROUPS[*g as usize].types.len() >= min && GROUPS[*g as usize].mask() & HEAVY == 0)
            .collect();
        let g = *self.rng.pick(&c);
        let mask = GROUPS[g as usize].mask();
        let id = self.id();
        let mut s0 = Step::new(id, r as u8, Op::BulkCreate);
        s0.g = g;
        s0.n = self.rng.range(1, 4) as u32;
        self.made.push(Made { id, reg: r as u8, n: s0.n, g });
        let up = mask.count_ones() < 14 && self.rng.pm(800);
        let of: Vec<u16> = (0..NT as u16).filter(|t| HEAVY >> t & 1 == 0 && (mask >> t & 1 == 0) == up).collect();
        let t = *self.rng.pick(&of);
        let mut v = vec![];
        let i1 = self.id();
        let mut s1 = Step::new(i1, r as u8, if up { Op::BulkAdd } else { Op::BulkRem });
        s1.g = t;
        s1.h = Href::By(id, 0);
        s1.n = s0.n;
        s1.a = 1;
        v.push(s1);
        let now = if up { mask | 1 << t } else { mask & !(1 << t) };
        for _ in 0..self.rng.range(1, 4) {
            let i2 = self.id();
            let mut s = Step::new(i2, r as u8, Op::Iter);
            s.g = if up { g } else { self.sub_group(now) };
            let wm = 1 + self.rng.below(2) as u32;
            s.n = *self.rng.pick(&[MUT as u32 | wm << 16, (MUT | ENT) as u32 | wm << 16, 0, ENT as u32, (FILT | MUT) as u32 | wm << 16, (FILT | MUT | ENT) as u32 | wm << 16, FILT as u32, (FILT | ENT) as u32]);
            if self.rng.pm(400) {
                s.op = *self.rng.pick(&[Op::GetG, Op::SetG, Op::HasG]);
                s.n = 0;
                s.h = Href::By(id, 0);
            }
            v.push(s);
        }
        if self.rng.pm(300) {
            let i3 = self.id();
            let mut s = Step::new(i3, r as u8, Op::Audit);
            s.n = self.rng.next() as u32;
            v.push(s);
        }
        while let Some(s) = v.pop() {
            self.pending.push(s);
        }
        Ev::Step(s0)
    }
    fn huge(&mut self, r: usize) -> Ev {
        let id = self.id();
        let mut c = Step::new(id, r as u8, Op::BulkCreate);
        // a small group, so that rows beyond 65536 are cheap
        let small: Vec<u16> = (0..GROUPS.len() as u16)
            .filter(|g| GROUPS[*g as usize].valid() && GROUPS[*g as usize].types.iter().map(|t| INFO[*t as usize].size).sum::<usize>() <= 40)
            .collect();
        c.g = *self.rng.pick(&small);
        c.n = 65_530 + self.rng.below(700) as u32;
        if self.p.mass {
            self.left = self.left.min(10);
            if self.rng.pm(120) {
                c.n = 300_000;
                self.left = self.left.min(4);
            }
        }
        self.made.push(Made { id, reg: r as u8, n: c.n, g: c.g });
        for _ in 0..2 {
            let op = *self.rng.pick(&[Op::BulkDestroy, Op::BulkAdd, Op::BulkRem, Op::BulkRemove]);
            let i2 = self.id();
            let mut s = Step::new(i2, r as u8, op);
            s.h = Href::By(id, 65_500 + self.rng.below(40) as u32);
            s.n = 60;
            s.a = *self.rng.pick(&[1u32, 7, 1091]);
            s.g = match op {
                Op::BulkRemove => c.g,
                Op::BulkRem => *self.rng.pick(GROUPS[c.g as usize].types) as u16,
                _ => *self.rng.pick(&[0u16, 1, 2, 8, 29]),
            };
            self.pending.push(s);
        }
        for j in [1u32, 0] {
            // a row that is moved from exactly 65536 rows away
            if c.n > 65_536 + j {
                let i2 = self.id();
                let mut s = Step::new(i2, r as u8, *self.rng.pick(&[Op::Destroy, Op::Remove, Op::Add, Op::Rem]));
                s.h = Href::By(id, c.n - 1 - j - 65_536);
                s.g = match s.op {
                    Op::Rem => *self.rng.pick(GROUPS[c.g as usize].types) as u16,
                    Op::Remove => c.g,
                    Op::Add => *self.rng.pick(&[0u16, 1, 2, 8, 29]),
                    _ => 0,
                };
                self.pending.push(s);
            }
        }
        let i3 = self.id();
        let mut s = Step::new(i3, r as u8, Op::Iter);
        s.g = c.g;
        s.n = *self.rng.pick(&[2u32, 0, 3 | 1 << 16, 10, 6]);
        self.pending.insert(0, s);
        Ev::Step(c)
    }
    /// Rows more than 2 GiB and 4 GiB away from the start of their column, moved, changed, read and destroyed.
    pub fn far(&mut self) -> Vec<Ev> {
        let of: Vec<u16> = (0..GROUPS.len() as u16).filter(|g| GROUPS[*g as usize].valid() && GROUPS[*g as usize].mask() >> 20 & 1 == 1 && GROUPS[*g as usize].mask() >> 21 & 1 == 0).collect();
        let mut c = Step::new(self.id(), 0, Op::BulkCreate);
        c.g = *self.rng.pick(&of);
        // more would double the storage
        c.n = 131_070;
        let edges = [130_150u32, 65_075];
        let mut v = vec![c];
        for k in 0..18u32 {
            let op = if k < 2 { Op::Add } else { *self.rng.pick(&[Op::Destroy, Op::Remove, Op::Add, Op::Rem, Op::GetG, Op::SetG]) };
            let mut s = Step::new(self.id(), 0, op);
            let row = match k % 4 {
                0 => self.rng.below(300) as u32,
                1 => edges[0] + self.rng.below(900) as u32,
                2 => edges[0] - 3 + self.rng.below(6) as u32,
                _ => edges[1] - 3 + self.rng.below(6) as u32,
            };
            s.h = Href::By(c.id, row);
            s.g = match op {
                Op::Rem => *self.rng.pick(GROUPS[c.g as usize].types) as u16,
                Op::Add => *self.rng.pick(&[0u16, 2, 5, 8]),
                _ => c.g,
            };
            v.push(s);
            // what became of the value, and of the one that may have taken its place
            for h in [s.h, Href::By(c.id, c.n - 1 - k)] {
                let mut q = Step::new(self.id(), 0, Op::Get);
                q.h = h;
                q.g = 20;
                v.push(q);
            }
        }
        let mut d = Step::new(self.id(), 0, *self.rng.pick(&[Op::BulkDestroy, Op::BulkRemove, Op::BulkAdd]));
        d.h = Href::By(c.id, 65_000);
        d.n = 150;
        d.a = *self.rng.pick(&[1u32, 441]);
        d.g = if d.op == Op::BulkAdd { 0 } else { c.g };
        v.push(d);
        let mut s = Step::new(self.id(), 0, Op::Iter);
        s.g = c.g;
        s.n = *self.rng.pick(&[2u32, 3]);
        v.push(s);
        v.into_iter().map(Ev::Step).collect()
    }
    fn fault(&mut self, w: &World, r: usize, s: &mut Step) {
        if !self.faults {
            return;
        }
        let (ap, dp, cp) = (self.p.alloc_pm, self.p.drop_pm, self.p.cb_pm);
        match s.op {
            Op::Create | Op::Add | Op::Rem | Op::BulkCreate | Op::BulkAdd | Op::BulkRem | Op::Spread | Op::Churn => {
                // most likely where the operation has to allocate
                let m = &w.models[r];
                let new_mask = match s.op {
                    Op::Create | Op::BulkCreate | Op::Churn => GROUPS[s.g as usize].mask(),
                    _ => {
                        let e = w.resolve(s.h).and_then(|x| m.ents.get(&x)).map(|e| e.mask).unwrap_or(0);
                        e ^ 1 << (s.g as u32 % 32)
                    }
                };
                let cnt = m.counts.get(&new_mask).copied();
                let grows = cnt.is_none() || cnt.is_some_and(|c| c >= 127 && (c & (c - 1) == 0 || s.n > 1));
                let p = if grows { ap * 6 } else { ap };
                if self.rng.pm(p.min(900)) {
                    let at = match self.rng.below(4) {
                        0 => 1,
                        1 => self.rng.range(1, 4),
                        _ => self.rng.range(1, 3 + 2 * new_mask.count_ones() as u64),
                    } as u32;
                    s.fault = Fault::Alloc(at, *self.rng.pick(&[1u32, 1, 1, 3, 1000]));
                    if !matches!(s.op, Op::BulkCreate | Op::BulkAdd | Op::BulkRem | Op::Spread | Op::Churn) {
                        // the same request again, with memory available
                        let mut again = *s;
                        again.id = self.id();
                        again.fault = Fault::None;
                        if s.op == Op::Create {
                            self.made.push(Made { id: again.id, reg: r as u8, n: 1, g: again.g });
                        }
                        if self.rng.pm(850) {
                            self.pending.push(again);
                        }
                    }
                }
            }
            Op::Destroy | Op::BulkDestroy | Op::DropReg => {
                let p = if s.op == Op::Destroy { dp * 3 } else { dp * 6 };
                if self.rng.pm(p.min(700)) {
                    s.fault = Fault::Drop(1 + self.rng.below(match s.op { Op::Destroy => 4, Op::BulkDestroy => 3 * s.n.max(1) as u64, _ => 40 }) as u32);
                }
            }
            Op::Iter | Op::Ents => {
                if self.rng.pm((cp * 3).min(800)) {
                    s.fault = Fault::Cb(1 + self.rng.below(6) as u32);
                }
            }
            _ => {}
        }
    }
}
