//! Runs that fill a registry to the entity limit. The model is a closed form (entity i of the fill
//! has the group and values derived from i) plus a map for the entities changed at the limit.
use crate::bad;
use crate::comps::*;
use crate::ctx::*;
use crate::groups::*;
use crate::heap::{heap, HeapCfg};
use crate::run::*;
use crate::step::*;
use crate::world::*;
use shard_ecs::Registry;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const LIMIT: usize = 16_777_215;

#[derive(Clone)]
struct Ov {
    mask: u32,
    vals: Vec<u64>,
}
struct Lim {
    reg: *mut Registry,
    gs: Vec<usize>,
    salt: u64,
    /// handle of the i-th entity of the fill; 0 when it was never made
    raw: Vec<u32>,
    dead: Vec<u64>,
    /// entities whose set or values differ from the closed form, by handle
    over: Map<u32, Ov>,
    /// handles of live entities made after the fill
    extra: Vec<u32>,
    /// recently dead handles
    gone: Vec<u32>,
    live: usize,
    stats: Stats,
    log: Vec<String>,
    rng: Rng,
    oom: (u32, u32),
    situations: std::collections::BTreeSet<u64>,
}
fn group_of(types: &[u8]) -> usize {
    GROUPS.iter().position(|g| g.types == types).unwrap()
}
impl Lim {
    fn tok(&self, i: usize, k: usize) -> u64 {
        mix(mix(self.salt, i as u64), k as u64) | 1
    }
    fn dead_at(&self, i: usize) -> bool {
        self.dead[i / 64] >> (i % 64) & 1 == 1
    }
    fn kill_at(&mut self, i: usize) {
        self.dead[i / 64] |= 1 << (i % 64)
    }
    fn call<T>(&mut self, what: &str, f: impl FnOnce(&mut Registry) -> T) -> Option<T> {
        self.stats.steps += 1;
        if self.stats.steps % 256 == 0 {
            progress(self.stats.steps, "struct", 0);
        }
        let r = unsafe { &mut *self.reg };
        let mut c = OpCtx { owner: 1, ..Default::default() };
        c.alloc_fail_at = self.oom.0;
        c.alloc_fail_len = self.oom.1;
        let x = with_ctx(&mut c, || catch_unwind(AssertUnwindSafe(|| f(r))));
        self.oom = (0, 0);
        if c.alloc_fired > 0 {
            self.stats.alloc_fired += 1;
        }
        match x {
            Ok(v) => Some(v),
            Err(_) if c.alloc_fired > 0 => None,
            Err(_) => {
                bad!("limit", "{what} panicked with {} entities alive: {}", self.live, last_panic());
                None
            }
        }
    }
    fn create(&mut self, g: usize, toks: &[u64]) -> Option<Result<u32, Toks>> {
        self.call("creating an entity", |r| (GROUPS[g].create)(r, toks).map(|e| e.raw()))
    }
    fn fill(&mut self, n: usize) -> bool {
        let k = self.gs.len();
        // the allocation free part of the loop runs without a context for speed
        let mut c = OpCtx { owner: 1, ..Default::default() };
        let r = unsafe { &mut *self.reg };
        let gs = self.gs.clone();
        let mut toks = [0u64; 14];
        let mut fail: Option<String> = None;
        let start = self.raw.len();
        let res = with_ctx(&mut c, || {
            catch_unwind(AssertUnwindSafe(|| {
                for i in start..n {
                    let g = &GROUPS[gs[i % k]];
                    for (j, t) in g.types.iter().enumerate() {
                        toks[j] = canon(*t, self.tok(i, j));
                    }
                    if i % 65536 == 0 {
                        progress(i as u64, "struct", 0);
                    }
                    match (g.create)(r, &toks[..g.types.len()]) {
                        Ok(e) => self.raw.push(e.raw()),
                        Err(_) => {
                            fail = Some(format!("creation was refused with {i} entities alive"));
                            return;
                        }
                    }
                }
            }))
        });
        self.stats.steps += (self.raw.len() - start) as u64;
        self.live += self.raw.len() - start;
        let words = self.raw.len().div_ceil(64);
        self.dead.resize(words, 0);
        if res.is_err() {
            bad!("limit", "creation panicked with {} entities alive: {}", self.live, last_panic());
            return false;
        }
        if let Some(f) = fail {
            bad!("limit", "{f}");
            return false;
        }
        self.log.push(format!("fill to {n} over {k} sets"));
        true
    }
    fn expect_full(&mut self) {
        for g in [self.gs[0], self.gs[self.gs.len() - 1], group_of(&[10]), group_of(&[2, 0])] {
            let toks: Vec<u64> = GROUPS[g].types.iter().enumerate().map(|(k, t)| canon(*t, self.tok(1 << 40, k + self.stats.steps as usize))).collect();
            match self.create(g, &toks) {
                Some(Ok(_)) => {
                    bad!("limit", "an entity was created although {} are alive", self.live);
                    return;
                }
                Some(Err(t)) => {
                    self.stats.refused += 1;
                    for (i, x) in t.iter().enumerate() {
                        if *x != Some(toks[i]) {
                            bad!("limit", "a creation refused at the entity limit did not give back the value passed");
                        }
                    }
                }
                None => return,
            }
        }
        if !ledger().is_empty() && ledger().len() != self.tracked() {
            bad!("limit", "values were lost or duplicated by a creation refused at the entity limit");
        }
    }
    fn tracked(&self) -> usize {
        // only entities made after the fill have tracked values
        self.over.values().map(|o| crate::model::types_of(o.mask).filter(|t| INFO[*t as usize].tracked).count()).sum()
    }
    /// Expected set and values of the entity with this handle; `i` is its place in the fill.
    fn expect(&self, raw: u32, i: usize) -> (u32, Vec<u64>) {
        if let Some(o) = self.over.get(&raw) {
            return (o.mask, o.vals.clone());
        }
        let g = &GROUPS[self.gs[i % self.gs.len()]];
        let mask = g.mask();
        let v = crate::model::types_of(mask)
            .map(|t| {
                let j = g.types.iter().position(|x| *x == t).unwrap();
                canon(t, self.tok(i, j))
            })
            .collect();
        (mask, v)
    }
    fn check_entity(&mut self, raw: u32, i: usize) {
        self.stats.entity_checks += 1;
        let (mask, vals) = self.expect(raw, i);
        let r = unsafe { &*self.reg };
        let e = ent(raw);
        for (k, t) in crate::model::types_of(mask).enumerate() {
            match (COMPS[t as usize].get)(r, e) {
                None => {
                    bad!("limit", "entity {raw:#x} lost its {} with {} entities alive", INFO[t as usize].name, self.live);
                    return;
                }
                Some(p) => {
                    let x = peek(t, p);
                    if x != Some(vals[k]) {
                        bad!("limit", "entity {raw:#x} shows a wrong {} with {} entities alive", INFO[t as usize].name, self.live);
                        return;
                    }
                }
            }
        }
        if (COMPS[3].has)(r, e) != (mask >> 3 & 1 == 1) {
            bad!("limit", "entity {raw:#x} has a type it should not have");
        }
    }
    /// All live entities by lookup, and the enumeration.
    fn check_all(&mut self, step: usize) {
        let n = self.raw.len();
        let mut i = 0;
        while i < n {
            if i % 65536 < step {
                progress(self.stats.steps + i as u64, "query", 0);
            }
            if !self.dead_at(i) {
                self.check_entity(self.raw[i], i);
                if viol().len() > 3 {
                    return;
                }
            }
            i += step;
        }
        for raw in self.extra.clone() {
            self.check_entity(raw, 0);
        }
        for raw in self.gone.clone() {
            if (COMPS[0].has)(unsafe { &*self.reg }, ent(raw)) || (GROUPS[self.gs[0]].has)(unsafe { &*self.reg }, ent(raw)) {
                bad!("limit", "the dead handle {raw:#x} answers with {} entities alive", self.live);
            }
        }
        progress(self.stats.steps, "enum", 0);
        let mut seen = vec![0u64; (1 << 24) / 64];
        let mut cnt = 0usize;
        let mut dup = false;
        let r = unsafe { &*self.reg };
        let res = catch_unwind(AssertUnwindSafe(|| {
            for e in reg(|| r.iter_entities()) {
                let s = (e.raw() >> 8) as usize;
                if seen[s / 64] >> (s % 64) & 1 == 1 {
                    dup = true;
                    break;
                }
                seen[s / 64] |= 1 << (s % 64);
                cnt += 1;
            }
        }));
        if res.is_err() {
            bad!("limit", "the enumeration panicked with {} entities alive: {}", self.live, last_panic());
        } else if dup {
            bad!("limit", "the enumeration yielded a slot twice with {} entities alive", self.live);
        } else if cnt != self.live {
            bad!("limit", "the enumeration yielded {cnt} entities, {} are alive", self.live);
        } else {
            for i in 0..n {
                if !self.dead_at(i) {
                    let s = (self.raw[i] >> 8) as usize;
                    if seen[s / 64] >> (s % 64) & 1 == 0 {
                        bad!("limit", "the enumeration misses entity {:#x} with {} entities alive", self.raw[i], self.live);
                        return;
                    }
                }
            }
        }
    }
    /// Iterates all sets through the first type of each group; counts rows and checks handles.
    fn check_iter(&mut self) {
        let g = GROUPS[self.gs[0]].types[0];
        let gi = group_of(&[g]);
        let mut want = 0usize;
        for i in 0..self.raw.len() {
            if !self.dead_at(i) {
                let m = match self.over.get(&self.raw[i]) {
                    Some(o) => o.mask,
                    None => GROUPS[self.gs[i % self.gs.len()]].mask(),
                };
                want += (m >> g & 1) as usize;
            }
        }
        for raw in &self.extra {
            want += (self.over[raw].mask >> g & 1) as usize;
        }
        let mut got = 0usize;
        let all: Filter<'static> = &|_| true;
        let p = self.reg;
        let live = self.live;
        let res = catch_unwind(AssertUnwindSafe(|| unsafe {
            (GROUPS[gi].iter)(p, ENT, 0, all, &mut |b: Batch| {
                let n = b.ents.unwrap().1;
                got += n;
                if b.lens[0] != n {
                    bad!("limit", "a batch has {n} handles and {} values with {live} entities alive", b.lens[0]);
                    return false;
                }
                progress(got as u64, "match", 0);
                true
            })
        }));
        if res.is_err() {
            bad!("limit", "an iteration panicked with {live} entities alive: {}", last_panic());
        } else if got != want {
            bad!("limit", "an iteration yielded {got} entities, {want} match, with {live} alive");
        }
    }
    fn some_live(&mut self) -> Option<(u32, Option<usize>)> {
        if !self.extra.is_empty() && self.rng.pm(300) {
            let k = self.rng.below(self.extra.len() as u64) as usize;
            return Some((self.extra[k], None));
        }
        for _ in 0..200 {
            let n = self.raw.len() as u64;
            let i = match self.rng.below(4) {
                0 => n - 1 - self.rng.below(300.min(n)),
                1 => self.rng.below(300.min(n)),
                _ => self.rng.below(n),
            } as usize;
            if !self.dead_at(i) {
                return Some((self.raw[i], Some(i)));
            }
        }
        None
    }
    fn gone_with(&mut self, raw: u32, i: Option<usize>) {
        match i {
            Some(i) => self.kill_at(i),
            None => self.extra.retain(|x| *x != raw),
        }
        self.over.remove(&raw);
        self.gone.push(raw);
        if self.gone.len() > 300 {
            self.gone.remove(0);
        }
        self.live -= 1;
    }
    /// Random operations around the limit, each checked against the model.
    fn churn(&mut self, n: usize) {
        let pal = [0u8, 1, 2, 7, 8, 10, 12];
        for q in 0..n {
            if !viol().is_empty() {
                self.log.push(format!("stopped at limit operation {q}"));
                return;
            }
            let k = self.rng.below(10);
            match k {
                0..=2 => {
                    let g = *self.rng.pick(&[self.gs[0], self.gs[self.gs.len() - 1], group_of(&[2, 0]), group_of(&[10]), group_of(&[7])]);
                    let toks: Vec<u64> = GROUPS[g].types.iter().map(|t| canon(*t, self.rng.next() | 1)).collect();
                    if self.rng.pm(100) {
                        self.oom = (1 + self.rng.below(3) as u32, 1);
                    }
                    let armed = self.oom.0 != 0;
                    let f0 = self.stats.alloc_fired;
                    match self.create(g, &toks) {
                        None => {}
                        Some(Ok(raw)) => {
                            if self.live >= LIMIT {
                                bad!("limit", "an entity was created although {} are alive", self.live);
                            }
                            if self.gone.contains(&raw) {
                                bad!("limit", "a creation at the limit returned the handle {raw:#x} of an entity destroyed shortly before");
                            }
                            let m = GROUPS[g].mask();
                            let v = crate::model::types_of(m).map(|t| toks[GROUPS[g].types.iter().position(|x| *x == t).unwrap()]).collect();
                            self.over.insert(raw, Ov { mask: m, vals: v });
                            self.extra.push(raw);
                            self.live += 1;
                        }
                        Some(Err(t)) => {
                            self.stats.refused += 1;
                            let fired = armed && self.stats.alloc_fired > f0;
                            if self.live < LIMIT && !fired {
                                bad!("limit", "a creation was refused although only {} entities are alive", self.live);
                            }
                            for (i, x) in t.iter().enumerate() {
                                if *x != Some(toks[i]) {
                                    bad!("limit", "a refused creation did not give back the value passed");
                                }
                            }
                        }
                    }
                    self.situations.insert(mix(1, (self.live >= LIMIT) as u64));
                }
                3..=5 => {
                    let (raw, i) = match self.some_live() {
                        Some(x) => x,
                        None => continue,
                    };
                    let (mask, vals) = self.expect(raw, i.unwrap_or(0));
                    let _ = (mask, vals);
                    if self.call("destroying an entity", |r| reg(|| r.destroy_entity(ent(raw)))) == Some(false) {
                        bad!("limit", "destroying a live entity was refused with {} alive", self.live);
                    }
                    self.gone_with(raw, i);
                    if let Some(true) = self.call("destroying a dead entity", |r| reg(|| r.destroy_entity(ent(raw)))) {
                        bad!("limit", "a dead handle was destroyed again with {} alive", self.live);
                    }
                }
                _ => {
                    let (raw, i) = match self.some_live() {
                        Some(x) => x,
                        None => continue,
                    };
                    let (mask, vals) = self.expect(raw, i.unwrap_or(0));
                    let t = *self.rng.pick(&pal);
                    let tok = canon(t, self.rng.next() | 1);
                    let has = mask >> t & 1 == 1;
                    let rank = (mask & ((1u32 << t) - 1)).count_ones() as usize;
                    if has {
                        let got = self.call("removing a component", |r| (COMPS[t as usize].rem)(r, ent(raw)));
                        match got {
                            None => {}
                            Some(None) if mask.count_ones() == 1 => self.stats.refused += 1,
                            Some(None) => bad!("limit", "removing a component was refused with {} entities alive", self.live),
                            Some(Some(x)) => {
                                if mask.count_ones() == 1 {
                                    bad!("limit", "the last component was removed with {} entities alive", self.live)
                                }
                                if x != Some(vals[rank]) {
                                    bad!("limit", "removing a component gave back a wrong value with {} entities alive", self.live)
                                }
                                let mut v = vals.clone();
                                v.remove(rank);
                                self.over.insert(raw, Ov { mask: mask & !(1 << t), vals: v });
                            }
                        }
                    } else {
                        let got = self.call("adding a component", |r| (COMPS[t as usize].add)(r, ent(raw), tok));
                        match got {
                            None => {}
                            Some(Ok(())) => {
                                let mut v = vals.clone();
                                v.insert(rank, tok);
                                self.over.insert(raw, Ov { mask: mask | 1 << t, vals: v });
                            }
                            Some(Err(_)) => bad!("limit", "adding a component was refused with {} entities alive", self.live),
                        }
                    }
                    self.situations.insert(mix(mix(2, has as u64), mask as u64 & 0xffff));
                    self.check_entity(raw, i.unwrap_or(0));
                }
            }
        }
        self.log.push(format!("{n} random operations at {} alive", self.live));
    }
    fn destroy_range(&mut self, idx: impl Iterator<Item = usize>) {
        let mut c = OpCtx { owner: 1, ..Default::default() };
        let r = unsafe { &mut *self.reg };
        let mut k = 0usize;
        let res = with_ctx(&mut c, || {
            catch_unwind(AssertUnwindSafe(|| {
                for i in idx {
                    if self.dead_at(i) {
                        continue;
                    }
                    let raw = self.raw[i];
                    k += 1;
                    if k % 65536 == 0 {
                        progress(k as u64, "struct", 0);
                    }
                    if !reg(|| r.destroy_entity(ent(raw))) {
                        bad!("limit", "destroying a live entity was refused");
                        return;
                    }
                    self.kill_at(i);
                    self.over.remove(&raw);
                    self.live -= 1;
                }
            }))
        });
        self.stats.steps += k as u64;
        if res.is_err() {
            bad!("limit", "destroying panicked: {}", last_panic());
        }
        self.log.push(format!("destroyed {k}"));
    }
    /// Adds or removes a component on every entity of the fill, so that all of them share a new set.
    fn convert_all(&mut self, t: u8) {
        let mut c = OpCtx { owner: 1, ..Default::default() };
        let n = self.raw.len();
        let before = self.gs.clone();
        let add = before.iter().all(|g| GROUPS[*g].mask() >> t & 1 == 0);
        let mut fail = None;
        let res = with_ctx(&mut c, || {
            catch_unwind(AssertUnwindSafe(|| {
                for i in 0..n {
                    if self.dead_at(i) || self.over.contains_key(&self.raw[i]) {
                        continue;
                    }
                    if i % 65536 == 0 {
                        progress(i as u64, "struct", 0);
                    }
                    let r = unsafe { &mut *self.reg };
                    let e = ent(self.raw[i]);
                    let ok = if add {
                        (COMPS[t as usize].add)(r, e, canon(t, self.tok(i, 90))).is_ok()
                    } else {
                        let j = GROUPS[before[0]].types.iter().position(|x| *x == t).unwrap();
                        (COMPS[t as usize].rem)(r, e) == Some(Some(canon(t, self.tok(i, j))))
                    };
                    if !ok {
                        fail = Some(i);
                        return;
                    }
                }
            }))
        });
        self.stats.steps += n as u64;
        if res.is_err() {
            bad!("limit", "changing the set of an entity panicked with {} alive: {}", self.live, last_panic());
        } else if let Some(i) = fail {
            bad!("limit", "changing the set of entity number {i} was refused or gave a wrong value with {} alive", self.live);
        }
        // spot checks of the result
        let r = unsafe { &*self.reg };
        for q in 0..2000u64 {
            let i = (mix(self.salt, q) % n as u64) as usize;
            let raw = self.raw[i];
            if self.dead_at(i) || self.over.contains_key(&raw) {
                continue;
            }
            let has = (COMPS[t as usize].has)(r, ent(raw));
            if has != add {
                bad!("limit", "an entity does not have the set it was given with {} alive", self.live);
                return;
            }
            let g = &GROUPS[before[i % before.len()]];
            for (j, ty) in g.types.iter().enumerate() {
                if *ty == t {
                    continue;
                }
                if (COMPS[*ty as usize].get)(r, ent(raw)).and_then(|p| peek(*ty, p)) != Some(canon(*ty, self.tok(i, j))) {
                    bad!("limit", "an entity lost a value while its set changed with {} alive", self.live);
                    return;
                }
            }
            if add && (COMPS[t as usize].get)(r, ent(raw)).and_then(|p| peek(t, p)) != Some(canon(t, self.tok(i, 90))) {
                bad!("limit", "an entity does not show the component it was given with {} alive", self.live);
                return;
            }
        }
        self.log.push(format!("{} {} on all {n}", if add { "added" } else { "removed" }, INFO[t as usize].name));
    }
}

pub const VARIANTS: u64 = 6;
pub fn run(t: &Trace) -> Res {
    let _g = set_mode(OFF);
    let mut rng = Rng::new(mix(t.seed, 0x11));
    let variant = t.seed % VARIANTS;
    heap().reset(HeapCfg { seed: t.seed, fill: 4, reuse_pm: *rng.pick(&[0, 500]), inplace_pm: *rng.pick(&[0, 0, 600]), slack_pm: 300, tight: true });
    ledger().clear();
    viol().clear();
    let mut c = OpCtx { owner: 1, ..Default::default() };
    let r = with_ctx(&mut c, || reg(Registry::default));
    let small = [group_of(&[1]), group_of(&[3, 1]), group_of(&[8]), group_of(&[12]), group_of(&[7])];
    let gs: Vec<usize> = match variant {
        0 => vec![small[rng.below(4) as usize]],
        1 => vec![small[0], small[2], small[3]],
        2 => vec![small[4]],
        3 => vec![small[rng.below(4) as usize]],
        4 => vec![group_of(&[3, 1])],
        _ => vec![small[0], small[2]],
    };
    // tracked values would need a ledger entry each
    let gs: Vec<usize> = gs.into_iter().map(|g| if g == small[4] { group_of(&[11]) } else { g }).collect();
    let mut l = Lim {
        reg: Box::into_raw(Box::new(r)),
        gs,
        salt: mix(t.seed, 5),
        raw: Vec::with_capacity(LIMIT + 4),
        dead: vec![],
        over: Default::default(),
        extra: vec![],
        gone: vec![],
        live: 0,
        stats: Stats::default(),
        log: vec![],
        rng,
        oom: (0, 0),
        situations: Default::default(),
    };
    let ok = |_: &Lim| viol().is_empty();
    macro_rules! go {
        ($e:expr) => {
            if ok(&l) {
                $e;
            }
        };
    }
    go!(l.fill(LIMIT - 3));
    go!(l.check_all(97));
    go!(l.fill(LIMIT));
    go!(l.expect_full());
    go!(l.churn(1500));
    match variant {
        0 | 2 => {
            go!(l.check_all(3));
            go!(l.check_iter());
        }
        1 => {
            // every destroyed entity makes room for exactly one new one
            go!(l.destroy_range((0..LIMIT).step_by(1009)));
            go!(l.churn(3000));
            go!(l.check_all(7));
            go!(l.check_iter());
        }
        3 => {
            go!(l.destroy_range((0..LIMIT).rev()));
            go!({
                for raw in l.extra.clone() {
                    l.call("destroying an entity", |r| reg(|| r.destroy_entity(ent(raw))));
                    l.gone_with(raw, None);
                }
                l.raw.clear();
                l.dead.clear();
                l.salt = mix(l.salt, 9);
            });
            go!(if l.live != 0 { bad!("limit", "{} entities left after all were destroyed", l.live) });
            go!(l.fill(LIMIT));
            go!(l.expect_full());
            go!(l.churn(800));
            go!(l.check_all(11));
        }
        4 => {
            go!(l.convert_all(if t.seed / VARIANTS % 2 == 0 { 1 } else { 3 }));
        }
        _ => {
            // all rows in one set, reached by adding a component
            go!(l.convert_all(12));
        }
    }
    if ok(&l) {
        progress(l.stats.steps, "drop", 0);
        let b = unsafe { Box::from_raw(l.reg) };
        let mut c = OpCtx { owner: 1, ..Default::default() };
        if with_ctx(&mut c, || {
            catch_unwind(AssertUnwindSafe(|| {
                let v = *b;
                reg(move || drop(v))
            }))
        })
        .is_err()
        {
            bad!("limit", "dropping the full registry panicked: {}", last_panic());
        }
        if heap().outstanding(1) != 0 {
            bad!("limit", "{} bytes are still allocated after the full registry was dropped", heap().outstanding(1));
        }
        if !ledger().is_empty() {
            bad!("limit", "{} values were never released", ledger().len());
        }
    }
    let found = viol().drain(..).map(|v| Found { kind: v.kind, op: "struct".into(), tags: 0, detail: format!("{} [{}]", v.detail, l.log.join("; ")) }).collect();
    l.stats.live_max = LIMIT as u64;
    Res { found, trace: t.clone(), digest: vec![], resolved: vec![], stats: l.stats, situations: l.situations, marks: vec![], nontrivial: true }
}
