//! The parts the registry is made of, used by themselves as their public interfaces allow: archetype
//! storage (C24), the registry of archetypes (C25) and the registry of entities (C26).
use crate::bad;
use crate::comps::*;
use crate::ctx::*;
use crate::groups::*;
use crate::heap::{heap, HeapCfg};
use crate::model::*;
use crate::run::*;
use crate::step::*;
use crate::world::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::{Archetype, ArchetypeIndex, Entity, EntityRegistry, IndexInArchetype};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

const NA: usize = 4;
struct Row {
    h: u32,
    /// by rank of the type
    vals: Vec<u64>,
}
#[derive(Default)]
struct Rows {
    mask: u32,
    rows: Vec<Row>,
}
struct Parts {
    arcs: Vec<Option<(Box<Archetype>, Rows)>>,
    sets: Option<Box<ArchetypeRegistry>>,
    /// by index
    index: Vec<(u16, Rows)>,
    ents: Option<Box<EntityRegistry>>,
    model: Model,
    made: Map<(u32, u32), u32>,
    stats: Stats,
    digest: Vec<(u32, u8, u64)>,
    situations: std::collections::BTreeSet<u64>,
    /// whether the last call ran out of memory
    oom: bool,
    hash: u64,
}
fn toks_of(id: u32, j: u32, types: &[u8]) -> Vec<u64> {
    types.iter().map(|t| canon(*t, mix(mix(id as u64 + 1, j as u64 + 77), *t as u64) | 1)).collect()
}
/// Values by rank within the mask, from values in the order of `types`.
fn ranked(mask: u32, types: &[u8], toks: &[u64]) -> Vec<u64> {
    types_of(mask).map(|t| toks[types.iter().position(|x| *x == t).unwrap()]).collect()
}
fn rank(mask: u32, ty: u8) -> usize {
    (mask & ((1u32 << ty) - 1)).count_ones() as usize
}
fn tracked(mask: u32, vals: &[u64]) -> Vec<(u8, u64)> {
    types_of(mask).enumerate().filter(|(_, t)| INFO[*t as usize].tracked).map(|(i, t)| (t, vals[i])).collect()
}
fn handle(id: u32, j: u32) -> u32 {
    (mix(id as u64, j as u64 + 5) as u32) | 1
}
/// A group naming exactly the types of `mask`.
fn exact_group(mask: u32, salt: u64) -> Option<usize> {
    let n = GROUPS.iter().filter(|g| g.valid() && g.mask() == mask).count();
    if n == 0 {
        return None;
    }
    GROUPS.iter().enumerate().filter(|(_, g)| g.valid() && g.mask() == mask).nth(salt as usize % n).map(|x| x.0)
}
impl Parts {
    /// Makes a call; `want` are the tracked values whose destructors it has to run.
    fn call<T>(&mut self, s: &Step, want: Vec<(u8, u64)>, on_oom: Vec<(u8, u64)>, f: impl FnOnce(&mut Parts) -> T) -> Option<T> {
        self.stats.subops += 1;
        let mut c = OpCtx { owner: 1, ..Default::default() };
        if let Fault::Alloc(a, l) = s.fault {
            c.alloc_fail_at = a;
            c.alloc_fail_len = l;
            self.stats.alloc_armed += 1;
        }
        let me = self as *mut Parts;
        let r = with_ctx(&mut c, || catch_unwind(AssertUnwindSafe(|| f(unsafe { &mut *me }))));
        let fired = c.alloc_fired > 0;
        self.stats.alloc_fired += fired as u64;
        self.oom = fired && r.is_err();
        if r.is_err() && !fired {
            bad!("panic", "{} panicked: {}", op_text(s), last_panic());
            return None;
        }
        let mut want = if r.is_err() { on_oom } else { want };
        let mut got = c.drops;
        want.sort_unstable();
        got.sort_unstable();
        if want != got {
            let extra = got.iter().find(|x| !want.contains(x));
            let missing = want.iter().find(|x| !got.contains(x));
            match (extra, missing) {
                (Some((t, v)), _) => bad!("drops", "{} destroyed {}({v:#x})", op_text(s), INFO[*t as usize].name),
                (_, Some((t, v))) => bad!("drops", "{} did not destroy {}({v:#x})", op_text(s), INFO[*t as usize].name),
                _ => bad!("drops", "{} ran {} destructors, not {}", op_text(s), got.len(), want.len()),
            }
        }
        self.hash = mix(self.hash, fired as u64 + 2 * r.is_err() as u64);
        r.ok()
    }
    fn part(&self, s: &Step, msg: String) {
        bad!("part", "{}: {msg}", op_text(s));
    }

    // ------------------------------------------------------------------ archetype storage
    fn arc(&mut self, k: usize) -> Option<(&mut Archetype, &mut Rows)> {
        self.arcs[k % NA].as_mut().map(|(a, m)| (&mut **a, m))
    }
    fn ptr(&mut self, k: usize) -> Option<*mut Archetype> {
        self.arcs[k % NA].as_mut().map(|x| &mut *x.0 as *mut Archetype)
    }
    fn release(&mut self, s: &Step, k: usize) {
        if let Some((a, m)) = self.arcs[k % NA].take() {
            let want: Vec<_> = m.rows.iter().flat_map(|r| tracked(m.mask, &r.vals)).collect();
            let p = Box::into_raw(a);
            let v = unsafe { p.read() };
            self.call(s, want.clone(), want, |_| reg(move || drop(v)));
            heap().unhome(p as usize);
            self.stats.regdrops += 1;
        }
    }
    fn astep(&mut self, s: &Step) {
        let k = s.reg as usize % NA;
        if s.op == Op::AFar {
            return self.far(s);
        }
        if s.op == Op::ANew {
            self.release(s, k);
            let g = s.g as usize % GROUPS.len();
            let d = (PARTS[g].desc)();
            if !GROUPS[g].valid() {
                // documented to panic
                let mut c = OpCtx { owner: 1, ..Default::default() };
                if with_ctx(&mut c, || catch_unwind(AssertUnwindSafe(|| reg(|| Archetype::with_capacity(&d, 4))))).is_ok() {
                    self.part(s, format!("an archetype was made for {}", names(GROUPS[g].types)));
                }
                return;
            }
            let cap = s.n;
            if let Some(a) = self.call(s, vec![], vec![], |_| reg(|| if cap == 128 { Archetype::new(&d) } else { Archetype::with_capacity(&d, cap) })) {
                // how many an archetype is made for by default, and how many more than asked for, is its own business
                let held = a.capacity();
                if cap != 128 && if cap == 0 || cap > 16_777_215 { held != 0 } else { held < cap } {
                    self.part(s, format!("the capacity is {held}, {cap} were asked for"));
                }
                let p = heap().home(std::mem::size_of::<Archetype>(), 64) as *mut Archetype;
                unsafe { p.write(a) };
                self.arcs[k] = Some((unsafe { Box::from_raw(p) }, Rows { mask: GROUPS[g].mask(), rows: vec![] }));
            }
            return;
        }
        let (mask, n) = match self.arc(k) {
            Some((_, m)) => (m.mask, m.rows.len()),
            None => return,
        };
        let p = self.ptr(k).unwrap();
        let i = if n == 0 { 0 } else { s.a as usize % n };
        // first and last rows more often
        let i = if n > 0 && s.b & 7 == 0 { n - 1 } else if n > 0 && s.b & 7 == 1 { 0 } else { i };
        let i = if n > 65_600 && s.b & 7 > 3 { n - 1 - s.a as usize % (n - 65_536) } else { i };
        let g = exact_group(mask, s.b as u64 >> 3);
        let types: &[u8] = g.map_or(&[], |g| GROUPS[g].types);
        unsafe {
            match s.op {
                Op::APush if g.is_some() => {
                    for j in 0..s.n.max(1) {
                        let toks = toks_of(s.id, j, types);
                        let vals = ranked(mask, types, &toks);
                        let t = tracked(mask, &vals);
                        let h = handle(s.id, j);
                        match self.call(s, vec![], t, |_| (PARTS[g.unwrap()].push)(&mut *p, ent(h), &toks)) {
                            Some(at) => {
                                let rows = &mut self.arc(k).unwrap().1.rows;
                                let want = rows.len();
                                rows.push(Row { h, vals });
                                if at as usize != want {
                                    return self.part(s, format!("the row went to position {at}, not {want}"));
                                }
                            }
                            None => return,
                        }
                    }
                }
                Op::AMake if g.is_some() => {
                    // a row made without values first, then written at once or type by type
                    let toks = toks_of(s.id, 0, types);
                    let vals = ranked(mask, types, &toks);
                    let h = handle(s.id, 0);
                    let at = match self.call(s, vec![], vec![], |_| reg(|| (*p).push_uninitialized_entity())) {
                        Some(at) => at,
                        None => return,
                    };
                    if at as usize != n {
                        self.part(s, format!("the row went to position {at}, not {n}"));
                        return;
                    }
                    self.call(s, vec![], vec![], |_| {
                        if s.b & 1024 == 0 {
                            (PARTS[g.unwrap()].write)(&mut *p, at, ent(h), &toks)
                        } else {
                            for (t, v) in types.iter().zip(&toks) {
                                (COMPS[*t as usize].a_write)(&mut *p, at, *v);
                            }
                            reg(|| (*p).entities_mut())[at as usize] = ent(h);
                        }
                    });
                    self.arc(k).unwrap().1.rows.push(Row { h, vals });
                }
                Op::AWrite if g.is_some() && n > 0 => {
                    let toks = toks_of(s.id, 0, types);
                    let vals = ranked(mask, types, &toks);
                    // sometimes the handle the row has already
                    let h = if s.b & 0x600 == 0 { self.arc(k).unwrap().1.rows[i].h } else { handle(s.id, 0) };
                    let old = tracked(mask, &self.arc(k).unwrap().1.rows[i].vals);
                    self.call(s, old, vec![], |_| {
                        reg(|| (*p).drop_entity(i as u32));
                        (PARTS[g.unwrap()].write)(&mut *p, i as u32, ent(h), &toks)
                    });
                    self.arc(k).unwrap().1.rows[i] = Row { h, vals };
                }
                Op::ASwap if n > 1 => {
                    let j = (i + 1 + s.n as usize % (n - 1)) % n;
                    self.call(s, vec![], vec![], |_| reg(|| (*p).swap_entities(i as u32, j as u32)));
                    self.arc(k).unwrap().1.rows.swap(i, j);
                }
                Op::ALast if n > 0 => {
                    let r = self.call(s, vec![], vec![], |_| reg(|| (*p).swap_to_last_unchecked(i as u32)));
                    self.arc(k).unwrap().1.rows.swap(i, n - 1);
                    if r.is_some_and(|r| r != (i != n - 1)) {
                        self.part(s, format!("row {i} of {n}: claims a swap: {}", r.unwrap()));
                    }
                }
                Op::ATake if g.is_some() && n > 0 => {
                    let r = self.call(s, vec![], vec![], |_| (PARTS[g.unwrap()].take)(&mut *p, i as u32));
                    let old = self.arc(k).unwrap().1.rows.swap_remove(i);
                    if let Some((t, sw)) = r {
                        self.took(s, mask, types, &t, &old.vals);
                        if sw != (i != n - 1) {
                            self.part(s, format!("row {i} of {n}: claims a swap: {sw}"));
                        }
                    }
                }
                Op::ADrop if n > 0 => {
                    let old = tracked(mask, &self.arc(k).unwrap().1.rows[i].vals);
                    let r = self.call(s, old, vec![], |_| reg(|| (*p).swap_drop_unchecked(i as u32)));
                    self.arc(k).unwrap().1.rows.swap_remove(i);
                    if r.is_some_and(|r| r != (i != n - 1)) {
                        self.part(s, format!("row {i} of {n}: claims a swap: {}", r.unwrap()));
                    }
                }
                Op::AReplace if g.is_some() && n > 0 => {
                    let toks = toks_of(s.id, 0, types);
                    let vals = ranked(mask, types, &toks);
                    let h = handle(s.id, 0);
                    let r = self.call(s, vec![], vec![], |_| {
                        let t = (PARTS[g.unwrap()].read)(&*p, i as u32);
                        (PARTS[g.unwrap()].write)(&mut *p, i as u32, ent(h), &toks);
                        t
                    });
                    let old = std::mem::replace(&mut self.arc(k).unwrap().1.rows[i], Row { h, vals });
                    if let Some(t) = r {
                        self.took(s, mask, types, &t, &old.vals);
                    }
                }
                Op::AOne if n > 0 => {
                    let ty = types_of(mask).nth(s.n as usize % mask.count_ones() as usize).unwrap();
                    let tok = toks_of(s.id, 1, &[ty])[0];
                    let r = self.call(s, vec![], vec![], |_| {
                        let t = (COMPS[ty as usize].a_read)(&mut *p, i as u32);
                        (COMPS[ty as usize].a_write)(&mut *p, i as u32, tok);
                        t
                    });
                    let old = std::mem::replace(&mut self.arc(k).unwrap().1.rows[i].vals[rank(mask, ty)], tok);
                    if r.is_some_and(|r| r != Some(old)) {
                        self.part(s, format!("reading {} of row {i} gave another value", INFO[ty as usize].name));
                    }
                }
                Op::ASet if n > 0 => {
                    // through one of the mutable views
                    let ty = types_of(mask).nth(s.n as usize % mask.count_ones() as usize).unwrap();
                    let tok = toks_of(s.id, 1, &[ty])[0];
                    let sub = group_within(mask, s.n as u64 >> 8);
                    let r = self.call(s, vec![], vec![], |_| match (s.n >> 4) & 3 {
                        1 if sub.is_some() => {
                            let gi = sub.unwrap();
                            let x = (PARTS[gi].mrefs)(&mut *p, i as u32);
                            let j = GROUPS[gi].types.iter().position(|t| *t == ty);
                            j.map(|j| x[j])
                        }
                        2 if sub.is_some() => {
                            let gi = sub.unwrap();
                            let b = (PARTS[gi].cols)(&mut *p, if s.b & 64 == 0 { 1 } else { 3 });
                            let j = GROUPS[gi].types.iter().position(|t| *t == ty);
                            j.map(|j| if i < b.lens[j] { b.cols[j].add(i * INFO[ty as usize].size) } else { std::ptr::null_mut() })
                        }
                        3 if g.is_some() => {
                            let b = (PARTS[g.unwrap()].cols)(&mut *p, 9);
                            let j = types.iter().position(|t| *t == ty).unwrap();
                            Some(if i < b.lens[j] { b.cols[j].add(i * INFO[ty as usize].size) } else { std::ptr::null_mut() })
                        }
                        _ => Some((COMPS[ty as usize].a_get_mut)(&mut *p, i as u32)),
                    });
                    if let Some(Some(q)) = r {
                        let old = self.arc(k).unwrap().1.rows[i].vals[rank(mask, ty)];
                        match peek(ty, q) {
                            Some(t) if t == old => {
                                overwrite(ty, q, old, tok);
                                self.arc(k).unwrap().1.rows[i].vals[rank(mask, ty)] = tok;
                            }
                            x => self.part(s, format!("the mutable view of {} in row {i} shows {x:x?}, not {old:#x}", INFO[ty as usize].name)),
                        }
                    }
                }
                Op::AMove if n > 0 => self.amove(s, k, i),
                Op::AClear => {
                    let m = self.arc(k).unwrap().1;
                    let want: Vec<_> = m.rows.iter().flat_map(|r| tracked(mask, &r.vals)).collect();
                    self.call(s, want, vec![], |_| {
                        reg(|| (*p).drop_entities());
                        while (*p).len() > 0 {
                            reg(|| (*p).decrement_len_unchecked());
                        }
                    });
                    self.arc(k).unwrap().1.rows.clear();
                }
                Op::AGone => return self.release(s, k),
                _ => return,
            }
        }
        self.sit(s, mask, n);
        self.acheck(s, k);
    }
    /// Rows more than 2 GiB and 4 GiB away from the start of their column. Most rows are never
    /// written (the types have no destructors, and nothing reads those rows).
    fn far(&mut self, s: &Step) {
        const W: u8 = 21;
        let mut rng = Rng::new(mix(s.a as u64, s.b as u64));
        let of: Vec<usize> = (0..GROUPS.len()).filter(|g| GROUPS[*g].valid() && GROUPS[*g].mask() >> W & 1 == 1 && GROUPS[*g].types.iter().all(|t| !INFO[*t as usize].tracked)).collect();
        let g = of[s.g as usize % of.len()];
        let (types, d) = (GROUPS[g].types, (PARTS[g].desc)());
        let mut n = (1 << 20) + 40u32;
        let two = self.call(s, vec![], vec![], |_| reg(|| (Archetype::with_capacity(&d, n + 30), Archetype::with_capacity(&d, 2))));
        let (mut a, mut other) = match two {
            Some(x) => x,
            None => return,
        };
        let made = self.call(s, vec![], vec![], |_| unsafe { reg(|| (0..n).all(|i| a.push_uninitialized_entity() == i)) });
        if made != Some(true) {
            self.part(s, "rows made without values are not numbered one after another".into());
            std::mem::forget((a, other));
            return;
        }
        self.call(s, vec![], vec![], |_| unsafe { reg(|| other.push_uninitialized_entity()) });
        let mut m: BTreeMap<u32, (u32, Vec<u64>)> = BTreeMap::new();
        let mut bad = None;
        for j in 0..70u32 {
            let edge = |rng: &mut Rng| -> u32 {
                let mid = 1 << *rng.pick(&[19u32, 20, 20, 20, 16]);
                match rng.below(6) {
                    0 => rng.below(4) as u32,
                    1 => n - 1 - rng.below(3) as u32,
                    2 | 3 => mid - 2 + rng.below(5) as u32,
                    4 => *rng.pick(&m.keys().copied().chain([7]).collect::<Vec<_>>()),
                    _ => rng.below(n as u64) as u32,
                }
            };
            let (r, q) = (edge(&mut rng), edge(&mut rng));
            let (h, toks) = (handle(s.id, j), toks_of(s.id, j, types));
            let what = rng.below(if j < 12 { 2 } else { 11 });
            let ap = &mut a as *mut Archetype;
            let op = &mut other as *mut Archetype;
            let last = n - 1;
            let ok = self.call(s, vec![], vec![], |_| unsafe {
                match what {
                    0 | 1 => {
                        (PARTS[g].write)(&mut *ap, r, ent(h), &toks);
                        m.insert(r, (h, toks.clone()));
                    }
                    2 | 3 if r != q => {
                        reg(|| (*ap).swap_entities(r, q));
                        let (x, y) = (m.remove(&r), m.remove(&q));
                        x.map(|x| m.insert(q, x));
                        y.map(|y| m.insert(r, y));
                    }
                    4 => {
                        reg(|| (*ap).swap_to_last_unchecked(r));
                        let (x, y) = (m.remove(&r), m.remove(&last));
                        x.map(|x| m.insert(last, x));
                        y.map(|y| m.insert(r, y));
                    }
                    5 if m.contains_key(&r) => {
                        let (t, _) = (PARTS[g].take)(&mut *ap, r);
                        if (0..types.len()).any(|i| t[i] != Some(m[&r].1[i])) {
                            return false;
                        }
                        m.remove(&r);
                        m.remove(&last).map(|y| m.insert(r, y));
                        n -= 1;
                    }
                    6 => {
                        reg(|| (*ap).swap_drop_unchecked(r));
                        m.remove(&r);
                        if r != last {
                            m.remove(&last).map(|y| m.insert(r, y));
                        }
                        n -= 1;
                    }
                    7 if m.contains_key(&r) => {
                        // there and back to another place
                        reg(|| Archetype::copy_common_components_between_archetypes_unchecked(&*ap, r, &mut *op, 0));
                        reg(|| Archetype::copy_common_components_between_archetypes_unchecked(&*op, 0, &mut *ap, q));
                        reg(|| (*ap).entities_mut())[q as usize] = ent(h);
                        let v = m[&r].1.clone();
                        m.insert(q, (h, v));
                        if q == r {
                            m.get_mut(&r).unwrap().0 = h;
                        }
                    }
                    8 if m.contains_key(&r) => {
                        let at = types.iter().position(|t| *t == W).unwrap();
                        if (COMPS[W as usize].a_read)(&mut *ap, r) != Some(m[&r].1[at]) {
                            return false;
                        }
                        (COMPS[W as usize].a_write)(&mut *ap, r, toks[at]);
                        m.get_mut(&r).unwrap().1[at] = toks[at];
                    }
                    9 if n < (1 << 20) + 60 => {
                        if (PARTS[g].push)(&mut *ap, ent(h), &toks) != n {
                            return false;
                        }
                        m.insert(n, (h, toks.clone()));
                        n += 1;
                    }
                    10 if m.contains_key(&r) => {
                        let t = (PARTS[g].read)(&*ap, r);
                        if (0..types.len()).any(|i| t[i] != Some(m[&r].1[i])) {
                            return false;
                        }
                    }
                    _ => {}
                }
                true
            });
            if ok.is_none() {
                std::mem::forget((a, other));
                return;
            }
            // every written row, through one of the views
            for (row, (h, toks)) in &m {
                let how = mix(s.a as u64, (j as u64) << 32 | *row as u64) % 4;
                let right = self.call(s, vec![], vec![], |_| unsafe {
                    let p: Vec<*mut u8> = match how {
                        0 => (PARTS[g].refs)(&*ap, *row)[..types.len()].to_vec(),
                        1 => (PARTS[g].mrefs)(&mut *ap, *row)[..types.len()].to_vec(),
                        2 => types.iter().map(|t| (COMPS[*t as usize].a_get)(&*ap, *row) as *mut u8).collect(),
                        _ => {
                            let b = (PARTS[g].cols)(&mut *ap, [0u8, 1, 2, 3, 8, 9][rng.below(6) as usize]);
                            if b.lens[..types.len()].iter().any(|l| *l != n as usize) {
                                return false;
                            }
                            (0..types.len()).map(|i| b.cols[i].add(*row as usize * INFO[types[i] as usize].size)).collect()
                        }
                    };
                    reg(|| (*ap).entities())[*row as usize].raw() == *h && (0..types.len()).all(|i| peek(types[i], p[i]) == Some(toks[i]))
                });
                if right != Some(true) {
                    bad.get_or_insert(*row);
                }
            }
            if ok == Some(false) {
                bad.get_or_insert(r);
            }
            if let Some(row) = bad {
                self.part(s, format!("row {row} of {n} does not hold what was written there (after {j} operations, the last of kind {what})"));
                break;
            }
            if a.len() != n {
                self.part(s, format!("the length is {}, {n} rows are there", a.len()));
                break;
            }
        }
        self.sit(s, GROUPS[g].mask(), n as usize);
        self.call(s, vec![], vec![], |_| unsafe {
            reg(|| {
                while a.len() > 0 {
                    a.decrement_len_unchecked()
                }
                other.decrement_len_unchecked();
                drop((a, other))
            })
        });
    }
    fn sit(&mut self, s: &Step, mask: u32, n: usize) {
        let f = matches!(s.fault, Fault::Alloc(..)) as u64 + self.oom as u64;
        let b = 64 - (n as u64).leading_zeros() as u64;
        self.situations.insert(mix(mix(s.op as u64, mask.count_ones() as u64), f * 64 + b));
        self.stats.live_max = self.stats.live_max.max(n as u64);
    }
    fn took(&mut self, s: &Step, mask: u32, types: &[u8], got: &Toks, want: &[u64]) {
        for (j, t) in types.iter().enumerate() {
            let w = want[rank(mask, *t)];
            if got[j] != Some(w) {
                self.part(s, format!("gave {:x?} for {}, which had {w:#x}", got[j], INFO[*t as usize].name));
            }
        }
        self.hash = mix(self.hash, got.len() as u64);
    }
    /// Moves a row to another archetype the way entities change their set.
    fn amove(&mut self, s: &Step, k: usize, i: usize) {
        let d = (k + 1 + s.n as usize % (NA - 1)) % NA;
        let (mask, n) = (self.arc(k).unwrap().1.mask, self.arc(k).unwrap().1.rows.len());
        let (dmask, dn) = match self.arc(d) {
            Some((_, m)) => (m.mask, m.rows.len()),
            None => return,
        };
        let (p, q) = (self.ptr(k).unwrap(), self.ptr(d).unwrap());
        let at = unsafe {
            match self.call(s, vec![], vec![], |_| reg(|| (*q).push_uninitialized_entity())) {
                Some(at) => at,
                None => return self.acheck(s, d),
            }
        };
        if at as usize != dn {
            return self.part(s, format!("the row went to position {at}, not {dn}"));
        }
        let h = handle(s.id, 0);
        let last = s.b & 512 == 0;
        let row = |me: &mut Parts| me.arc(k).unwrap().1.rows.swap_remove(i);
        let r = self.call(s, vec![], vec![], |_| unsafe {
            let from = if last {
                reg(|| (*p).swap_to_last_unchecked(i as u32));
                n - 1
            } else {
                i
            } as u32;
            let mut left = vec![];
            for t in types_of(mask & !dmask) {
                left.push((t, (COMPS[t as usize].a_read)(&mut *p, from)));
            }
            reg(|| Archetype::copy_common_components_between_archetypes_unchecked(&*p, from, &mut *q, at));
            for t in types_of(dmask & !mask) {
                (COMPS[t as usize].a_write)(&mut *q, at, toks_of(s.id, 2, &[t])[0]);
            }
            reg(|| (*q).entities_mut())[at as usize] = ent(h);
            if !last {
                // fill the hole the row left
                if i != n - 1 {
                    reg(|| (*p).swap_entities(i as u32, n as u32 - 1));
                }
            }
            reg(|| (*p).decrement_len_unchecked());
            left
        });
        let old = row(self);
        for (t, x) in r.unwrap_or_default() {
            if x != Some(old.vals[rank(mask, t)]) {
                self.part(s, format!("reading {} of row {i} gave another value", INFO[t as usize].name));
            }
        }
        let vals = types_of(dmask).map(|t| if mask >> t & 1 == 1 { old.vals[rank(mask, t)] } else { toks_of(s.id, 2, &[t])[0] }).collect();
        self.arc(d).unwrap().1.rows.push(Row { h, vals });
        self.acheck(s, d);
    }
    /// Compares an archetype with its rows through all views.
    fn acheck(&mut self, s: &Step, k: usize) {
        let p = match self.ptr(k) {
            Some(p) => p,
            None => return,
        };
        let m = unsafe { &*(self.arc(k).unwrap().1 as *const Rows) };
        let msg = self.compare(p, m, mix(s.id as u64, k as u64));
        if let Some(x) = msg {
            self.part(s, format!("archetype {k} {}: {x}", mnames(m.mask)));
        }
    }
    fn compare(&mut self, p: *mut Archetype, m: &Rows, salt: u64) -> Option<String> {
        let mask = m.mask;
        let n = m.rows.len();
        self.stats.entity_checks += n as u64;
        let mut res = None;
        let mut c = OpCtx { owner: 1, ..Default::default() };
        let out = with_ctx(&mut c, || {
            catch_unwind(AssertUnwindSafe(|| unsafe {
                let a = &mut *p;
                if a.len() as usize != n {
                    return Some(format!("has {} rows, not {n}", a.len()));
                }
                if a.capacity() < a.len() || a.is_full() != (a.len() == a.capacity()) {
                    return Some(format!("{n} rows, capacity {}, full: {}", a.capacity(), a.is_full()));
                }
                if desc_mask(a.descriptor()) != Some(mask) {
                    return Some("its description names other types".into());
                }
                let es = reg(|| a.entities());
                let ep = es.as_ptr();
                if std::hint::black_box(ep as usize) == 0 || ep as usize % 4 != 0 {
                    return Some("the slice of handles lies at no valid address".into());
                }
                if es.len() != n || (0..n).any(|i| es[i].raw() != m.rows[i].h) {
                    return Some("shows other handles".into());
                }
                let (mp, ml) = reg(|| {
                    let m = a.entities_mut();
                    (m.as_ptr(), m.len())
                });
                if ml != n || (n > 0 && mp != ep) {
                    return Some(format!("gives {ml} handles of {n} rows to write to"));
                }
                let pick: Vec<usize> = if n <= 24 { (0..n).collect() } else { (0..24).map(|j| if j < 3 { n - 1 - j } else { mix(salt, j as u64) as usize % n }).collect() };
                for i in pick {
                    for (r, t) in types_of(mask).enumerate() {
                        let q = (COMPS[t as usize].a_get)(a, i as u32);
                        if peek(t, q) != Some(m.rows[i].vals[r]) {
                            return Some(format!("{} of row {i} is not {:#x}", INFO[t as usize].name, m.rows[i].vals[r]));
                        }
                    }
                    if let Some(g) = group_within(mask, mix(salt, i as u64 + 60)) {
                        let x = if salt & 1 == 0 { (PARTS[g].refs)(a, i as u32) } else { (PARTS[g].mrefs)(a, i as u32) };
                        for (j, t) in GROUPS[g].types.iter().enumerate() {
                            if peek(*t, x[j]) != Some(m.rows[i].vals[rank(mask, *t)]) {
                                return Some(format!("row {i} read as {} shows a wrong {}", names(GROUPS[g].types), INFO[*t as usize].name));
                            }
                        }
                    }
                }
                let mut views = vec![];
                if let Some(g) = exact_group(mask, salt >> 3) {
                    views.push((g, 8 + (salt & 1) as u8));
                }
                if let Some(g) = group_within(mask, salt >> 9) {
                    views.push((g, (salt >> 1 & 3) as u8));
                }
                for (g, kind) in views {
                    let b = (PARTS[g].cols)(a, kind);
                    if let Some((q, l)) = b.ents {
                        if q != ep || l != n {
                            return Some("shows other handles beside the values".into());
                        }
                    }
                    for (j, t) in GROUPS[g].types.iter().enumerate() {
                        let q = b.cols[j];
                        if b.lens[j] != n {
                            return Some(format!("{} values of {} in {n} rows", b.lens[j], INFO[*t as usize].name));
                        }
                        if std::hint::black_box(q as usize) == 0 || q as usize % INFO[*t as usize].align != 0 {
                            return Some(format!("the slice of {} lies at no valid address", INFO[*t as usize].name));
                        }
                        let step = if n <= 200 { 1 } else { 7 };
                        for i in (0..n).step_by(step) {
                            if peek(*t, q.add(i * INFO[*t as usize].size)) != Some(m.rows[i].vals[rank(mask, *t)]) {
                                return Some(format!("the slice of {} among {} is wrong in row {i}", INFO[*t as usize].name, names(GROUPS[g].types)));
                            }
                        }
                    }
                }
                None
            }))
        });
        match out {
            Ok(x) => res = x,
            Err(_) => bad!("panic", "reading an archetype panicked: {}", last_panic()),
        }
        if !c.drops.is_empty() {
            res = Some("reading destroyed values".into());
        }
        res
    }

    // ------------------------------------------------------------------ registry of archetypes
    fn at(&mut self, mask: u32) -> Option<usize> {
        self.index.iter().position(|x| x.1.mask == mask)
    }
    fn rp(&mut self) -> *mut ArchetypeRegistry {
        &mut **self.sets.as_mut().unwrap()
    }
    /// Takes note of the archetype the registry named for `mask`.
    fn noted(&mut self, s: &Step, mask: u32, i: u16, found: Option<u32>) {
        self.hash = mix(self.hash, i as u64);
        if found != Some(mask) {
            return self.part(s, format!("for {} gave the archetype of {}", mnames(mask), found.map_or("no set of types".into(), mnames)));
        }
        match self.at(mask) {
            Some(k) => {
                let have = self.index[k].0;
                if have != i {
                    self.part(s, format!("{} has index {have}, now index {i}", mnames(mask)));
                }
            }
            None => {
                if let Some(o) = self.index.iter().find(|x| x.0 == i) {
                    self.part(s, format!("index {i} for {} belongs to {}", mnames(mask), mnames(o.1.mask)));
                } else if i as usize > self.index.len() {
                    self.part(s, format!("index {i} with {} sets", self.index.len()));
                }
                self.index.push((i, Rows { mask, rows: vec![] }));
            }
        }
    }
    fn sstep(&mut self, s: &Step) {
        let rp = self.rp();
        let g = s.g as usize % GROUPS.len();
        let mut mask = 0;
        match s.op {
            Op::SFind => {
                let valid = s.y != 0 || GROUPS[g].valid();
                mask = if s.y != 0 { s.y } else { GROUPS[g].mask() };
                let d = if s.y != 0 { described(s.y, s.b) } else { (PARTS[g].desc)() };
                let known = valid.then(|| self.at(mask)).flatten().map(|k| self.index[k].0);
                let x = self.call(s, vec![], vec![], |_| unsafe {
                    let a = reg(|| (*rp).find_archetype(&d)).map(|a| a as *const Archetype as usize);
                    let b = reg(|| (*rp).find_archetype_mut(&d)).map(|a| a as *const Archetype as usize);
                    let c = known.map(|i| &(&*rp)[i] as *const Archetype as usize);
                    (a, b, c)
                });
                if let Some((a, b, c)) = x {
                    if a != c || b != c {
                        self.part(s, format!("looking up {}: {}, {}; expected {}", if s.y != 0 { mnames(mask) } else { names(GROUPS[g].types) }, lit(a, c), lit(b, c), if c.is_some() { "its archetype" } else { "none" }));
                    }
                }
            }
            Op::SMake => {
                let valid = s.y != 0 || GROUPS[g].valid();
                mask = if s.y != 0 { s.y } else { GROUPS[g].mask() };
                let d = if s.y != 0 { described(s.y, s.b) } else { (PARTS[g].desc)() };
                let x = self.call(s, vec![], vec![], |_| unsafe { reg(|| (*rp).find_or_create_archetype(&d)).map(|(i, a)| (i, desc_mask(a.descriptor()), a as *const Archetype as usize)) });
                match x {
                    Some(Some((i, found, p))) => {
                        if !valid {
                            self.part(s, format!("an archetype was made for {}", names(GROUPS[g].types)));
                        } else {
                            self.noted(s, mask, i, found);
                            if unsafe { &(&*rp)[i] as *const Archetype as usize } != p {
                                self.part(s, format!("index {i} names another archetype than the one given"));
                            }
                        }
                    }
                    Some(None) if valid => self.part(s, format!("refused for {}", mnames(mask))),
                    _ => {}
                }
            }
            Op::SAdd | Op::SRem => {
                let t = (s.n % NT as u32) as usize;
                // sometimes an index that names no archetype
                let out = s.b & 31 == 0 || self.index.is_empty();
                let k = if out { 0 } else { s.a as usize % self.index.len() };
                let src = if out { (self.index.len() as u64 + [0, 0, 1, 7, 60_000][s.a as usize % 5]).min(65_535) as u16 } else { self.index[k].0 };
                let from = if out { 0 } else { self.index[k].1.mask };
                let d = (COMPS[t].desc)();
                let add = s.op == Op::SAdd;
                mask = if add { from | 1 << t } else { from & !(1 << t) };
                let can = !out && mask != from && mask != 0 && mask.count_ones() <= 14;
                let x = self.call(s, vec![], vec![], |_| unsafe {
                    reg(|| if add { (*rp).find_or_create_archetype_adding_component(src, &d) } else { (*rp).find_or_create_archetype_removing_component(src, &d) })
                        .map(|(a, i, b)| (desc_mask(a.descriptor()), i, desc_mask(b.descriptor()), a as *const Archetype as usize, b as *const Archetype as usize))
                });
                match x {
                    Some(Some((a, i, b, pa, pb))) => {
                        if !can {
                            self.part(s, format!("{} {}: accepted", if out { "no archetype".into() } else { mnames(from) }, INFO[t].name));
                        } else {
                            if a != Some(from) {
                                self.part(s, format!("gave another source than {}", mnames(from)));
                            }
                            self.noted(s, mask, i, b);
                            unsafe {
                                if &(&*rp)[i] as *const Archetype as usize != pb || &(&*rp)[src] as *const Archetype as usize != pa {
                                    self.part(s, "gave archetypes other than those its indices name".into());
                                }
                            }
                        }
                    }
                    Some(None) => {
                        self.stats.refused += 1;
                        if can {
                            self.part(s, format!("{} {}: refused", mnames(from), INFO[t].name));
                        }
                    }
                    None => {}
                }
            }
            Op::SPush => {
                if self.index.is_empty() {
                    return;
                }
                let k = s.a as usize % self.index.len();
                mask = self.index[k].1.mask;
                let (i, n) = (self.index[k].0, self.index[k].1.rows.len());
                if let Some(g) = exact_group(mask, s.b as u64) {
                    let types = GROUPS[g].types;
                    for j in 0..s.n % 5 + 1 {
                        let toks = toks_of(s.id, j, types);
                        let vals = ranked(mask, types, &toks);
                        let h = handle(s.id, j);
                        let t = tracked(mask, &vals);
                        if self.call(s, vec![], t, |_| unsafe { (PARTS[g].push)(&mut (&mut *rp)[i], ent(h), &toks) }).is_none() {
                            break;
                        }
                        self.index[k].1.rows.push(Row { h, vals });
                    }
                }
                let _ = n;
            }
            Op::SPop => {
                if self.index.is_empty() {
                    return;
                }
                let k = s.a as usize % self.index.len();
                let n = self.index[k].1.rows.len();
                if n > 0 {
                    let i = self.index[k].0;
                    let r = s.n as usize % n;
                    let old = self.index[k].1.rows.swap_remove(r);
                    let want = tracked(self.index[k].1.mask, &old.vals);
                    self.call(s, want, vec![], |_| unsafe { reg(|| (*rp).get_unchecked_mut(i).swap_drop_unchecked(r as u32)) });
                }
            }
            Op::SIter => self.siter(s, g),
            _ => return,
        }
        let n = self.index.len();
        self.stats.sets_max = self.stats.sets_max.max(n as u64);
        self.sit(s, mask, n);
        self.scheck(s);
    }
    fn siter(&mut self, s: &Step, g: usize) {
        if !GROUPS[g].valid() {
            return;
        }
        self.stats.iterations += 1;
        let rp = self.rp();
        let gm = GROUPS[g].mask();
        let kind = (s.n & 7) as u8;
        let types = GROUPS[g].types;
        let (fk, fa) = (s.a % 4, s.b);
        let pass = |m: u32| match fk {
            0 => true,
            1 => m.count_ones() % 2 == fa % 2,
            2 => m & (fa | 1 << (fa % 32)) != 0,
            _ => fa & 1 == 0,
        };
        let seen = std::cell::RefCell::new(None);
        let filter = |d: &shard_ecs::archetype_descriptor::ArchetypeDescriptor| {
            off(|| match desc_mask(d) {
                Some(m) => pass(m),
                None => {
                    *seen.borrow_mut() = Some("the filter was given a description of no set");
                    false
                }
            })
        };
        let fr: &dyn Fn(&shard_ecs::archetype_descriptor::ArchetypeDescriptor) -> bool = &filter;
        let fr: Filter<'static> = unsafe { std::mem::transmute(fr) };
        let mut got: Vec<Batch> = vec![];
        let end = self.call(s, vec![], vec![], |_| unsafe {
            (PARTS[g].iter)(rp, kind, fr, &mut |b| {
                got.push(b);
                got.len() < 100_000
            })
        });
        if end.is_some_and(|e| e != IterEnd::Done) {
            return self.part(s, "the iteration did not end".into());
        }
        if end.is_none() {
            return;
        }
        if let Some(x) = seen.into_inner() {
            return self.part(s, x.into());
        }
        // what each archetype itself shows; all of those with rows, each once
        let mut left: Vec<usize> = (0..self.index.len())
            .filter(|k| {
                let m = self.index[*k].1.mask;
                m & gm == gm && (kind & FILT == 0 || pass(m)) && !self.index[*k].1.rows.is_empty()
            })
            .collect();
        for b in got.iter().filter(|b| b.lens[0] > 0) {
            let hit = left.iter().position(|k| {
                let i = self.index[*k].0;
                let own = unsafe { (PARTS[g].cols)(&mut (&mut *rp)[i], 2) };
                own.lens[..types.len()] == b.lens[..types.len()]
                    && (0..types.len()).all(|j| INFO[types[j] as usize].size == 0 || own.cols[j] == b.cols[j])
                    && (kind & ENT == 0 || own.ents == b.ents)
                    // sets without memory of their own are told apart by their handles only
            });
            match hit {
                Some(x) => {
                    left.remove(x);
                }
                None => return self.part(s, format!("iteration {kind} over {} showed {} rows which are no archetype's, or one's again, or one's that does not match", names(types), b.lens[0])),
            }
        }
        self.stats.rows += got.iter().map(|b| b.lens[0] as u64).sum::<u64>();
        if let Some(k) = left.first() {
            let m = self.index[*k].1.mask;
            self.part(s, format!("iteration {kind} over {} left out {}", names(types), mnames(m)));
        }
    }
    fn scheck(&mut self, s: &Step) {
        let rp = self.rp();
        let n = self.index.len();
        let all = n <= 12 || s.id % 16 == 0;
        let mut msg = None;
        let mut c = OpCtx { owner: 1, ..Default::default() };
        let r = with_ctx(&mut c, || {
            catch_unwind(AssertUnwindSafe(|| unsafe {
                for j in 0..if all { n } else { 8 } {
                    let k = if all { j } else { mix(s.id as u64, j as u64) as usize % n };
                    let (i, m) = (self.index[k].0, &self.index[k].1);
                    let a = reg(|| &(&*rp)[i]);
                    let b = reg(|| (*rp).get_unchecked(i)) as *const Archetype;
                    let c = reg(|| (*rp).get_unchecked_mut(i)) as *const Archetype;
                    let d = reg(|| &mut (&mut *rp)[i]) as *const Archetype;
                    if a as *const Archetype != b || b != c || c != d {
                        msg = Some(format!("index {i} names different archetypes"));
                    }
                    if desc_mask((*b).descriptor()) != Some(m.mask) {
                        msg = Some(format!("index {i} no longer names the archetype of {}", mnames(m.mask)));
                    } else if (*b).len() as usize != m.rows.len() {
                        msg = Some(format!("the archetype of {} has {} rows, not {}", mnames(m.mask), (*b).len(), m.rows.len()));
                    }
                    if msg.is_some() {
                        return;
                    }
                }
            }))
        });
        if r.is_err() {
            bad!("panic", "looking at the archetypes panicked: {}", last_panic());
        }
        if let Some(x) = msg {
            self.part(s, x);
        }
    }

    // ------------------------------------------------------------------ registry of entities
    fn eref(&self, s: &Step) -> Option<u32> {
        match s.h {
            Href::By(i, k) => self.made.get(&(i, k)).copied(),
            Href::Raw(r) => Some(r),
            Href::None => None,
        }
    }
    fn place(s: &Step, j: u32) -> (u32, u16) {
        let x = mix(s.id as u64 * 1000 + s.a as u64, j as u64);
        let i = match x % 8 {
            0 => 16_777_214,
            1 => 0,
            2 => 255 << (x >> 8 & 8),
            _ => (x >> 20) as u32 % 16_777_215,
        };
        let a = match x >> 4 & 7 {
            0 => 65_534,
            1 => 0,
            2 => 255,
            3 => 256,
            _ => ((x >> 44) % 65_535) as u16,
        };
        (i, a)
    }
    fn estep(&mut self, s: &Step) {
        let rp: *mut EntityRegistry = &mut **self.ents.as_mut().unwrap();
        match s.op {
            Op::ECreate => {
                for j in 0..s.n.max(1) {
                    let (i, a) = Self::place(s, j);
                    let x = self.call(s, vec![], vec![], |_| unsafe {
                        let can = reg(|| (*rp).can_register_new_entity());
                        (can, reg(|| (*rp).create_entity(IndexInArchetype::new(i).unwrap(), ArchetypeIndex::new(a).unwrap())).map(|e| e.raw()))
                    });
                    match x {
                        Some((can, Some(raw))) => {
                            self.hash = mix(self.hash, raw as u64);
                            if let Some((_, d)) = self.model.create(raw, 1, vec![(i as u64) << 16 | a as u64], (s.id, j)) {
                                self.part(s, d);
                            }
                            self.made.insert((s.id, j), raw);
                            if !can {
                                self.part(s, "an entity was registered although it said none could be".into());
                            }
                            if raw == Entity::INVALID.raw() || !ent(raw).is_valid() {
                                self.part(s, "gave the invalid handle".into());
                            }
                        }
                        Some((_, None)) => return self.part(s, format!("refused with {} entities", self.model.live.len())),
                        None => break,
                    }
                    if !viol().is_empty() {
                        return;
                    }
                }
            }
            Op::EDestroy if s.n > 1 => {
                // many, in some order
                let mut v = self.model.live.clone();
                v.sort_unstable();
                match s.a % 3 {
                    0 => v.reverse(),
                    1 => (1..v.len()).rev().for_each(|i| v.swap(i, mix(s.id as u64, i as u64) as usize % (i + 1))),
                    _ => {}
                }
                for raw in v.into_iter().take(s.n as usize) {
                    self.edestroy(s, raw);
                }
            }
            Op::EDestroy => {
                if let Some(raw) = self.eref(s) {
                    self.edestroy(s, raw);
                }
            }
            Op::EPoint => {
                if let Some(raw) = self.eref(s) {
                    let (i, a) = Self::place(s, 0);
                    let which = s.b % 3;
                    let live = self.model.ents.contains_key(&raw);
                    let x = self.call(s, vec![], vec![], |_| unsafe {
                        reg(|| {
                            let e = (*rp).entity_entry_mut(ent(raw));
                            e.map(|e| {
                                if which != 1 {
                                    e.set_index_in_archetype(IndexInArchetype::new(i).unwrap());
                                }
                                if which != 0 {
                                    e.set_archetype_index(ArchetypeIndex::new(a).unwrap().value());
                                }
                            })
                            .is_some()
                        })
                    });
                    if x.is_some_and(|x| x != live) {
                        self.part(s, format!("handle {raw:#x}, which is {}: entry given: {}", if live { "live" } else { "dead" }, x.unwrap()));
                    } else if live {
                        let v = &mut self.model.ents.get_mut(&raw).unwrap().vals[0];
                        if which != 1 {
                            *v = *v & 0xFFFF | (i as u64) << 16;
                        }
                        if which != 0 {
                            *v = *v & !0xFFFF | a as u64;
                        }
                    }
                }
            }
            Op::EProbe => {
                if let Some(raw) = self.eref(s) {
                    self.eprobe(s, raw);
                }
            }
            Op::EList => self.elist(s),
            _ => return,
        }
        let n = self.model.live.len();
        self.sit(s, 1, n);
        for j in 0..n.min(6) {
            let raw = self.model.live[mix(s.id as u64, j as u64) as usize % n];
            self.eprobe(s, raw);
        }
        let d = self.model.dead.len();
        for j in 0..d.min(3) {
            let raw = self.model.dead[d - 1 - mix(s.id as u64, j as u64 + 50) as usize % d.min(20 * (j + 1))].0;
            self.eprobe(s, raw);
        }
        if n <= 40 || s.id % 12 == 0 {
            self.elist(s);
        }
    }
    fn edestroy(&mut self, s: &Step, raw: u32) {
        let rp: *mut EntityRegistry = &mut **self.ents.as_mut().unwrap();
        let live = self.model.ents.contains_key(&raw);
        self.stats.stale += !live as u64;
        if let Some(x) = self.call(s, vec![], vec![], |_| unsafe { reg(|| (*rp).destroy_entity(ent(raw))) }) {
            if x != live {
                self.part(s, format!("destroying {raw:#x}, which is {}: {x}", if live { "live" } else { "dead" }));
            }
            if live {
                self.model.kill(raw);
            }
        }
    }
    fn eprobe(&mut self, s: &Step, raw: u32) {
        let rp: *mut EntityRegistry = &mut **self.ents.as_mut().unwrap();
        self.stats.entity_checks += 1;
        let want = self.model.ents.get(&raw).map(|e| ((raw & 255) as u8, (e.vals[0] >> 16) as u32, e.vals[0] as u16, true));
        let st = Step { fault: Fault::None, ..*s };
        let x = self.call(&st, vec![], vec![], |_| unsafe {
            let f = |e: &shard_ecs::EntityEntry| (e.version(), e.index_in_archetype().value(), e.archetype_index(), e.is_valid());
            (reg(|| (*rp).entity_entry(ent(raw)).map(f)), reg(|| (*rp).entity_entry_mut(ent(raw)).map(|e| f(e))))
        });
        if let Some((a, b)) = x {
            if a != want || b != want {
                self.part(s, format!("handle {raw:#x} (slot {}, version {}): the entry reads {a:?} and {b:?}, not {want:?}", raw >> 8, raw & 255));
            }
        }
    }
    fn elist(&mut self, s: &Step) {
        let rp: *mut EntityRegistry = &mut **self.ents.as_mut().unwrap();
        self.stats.iterations += 1;
        let st = Step { fault: Fault::None, ..*s };
        let cap = self.model.live.len() + 10;
        let v: Option<Vec<u32>> = self.call(&st, vec![], vec![], |_| unsafe {
            let mut it = reg(|| (*rp).iter());
            let mut v = vec![];
            while let Some(e) = reg(|| it.next()) {
                v.push(e.raw());
                if v.len() > cap {
                    break;
                }
            }
            v
        });
        if let Some(mut v) = v {
            self.stats.rows += v.len() as u64;
            v.sort_unstable();
            let mut w = self.model.live.clone();
            w.sort_unstable();
            if v != w {
                let x = v.iter().find(|x| !self.model.ents.contains_key(x));
                self.part(s, format!("listed {} entities, {} are registered{}", v.len(), w.len(), x.map_or("".into(), |x| format!("; {x:#x} is none of them"))));
            }
        }
    }
    fn end(&mut self) {
        let s = Step::new(u32::MAX, 0, Op::AGone);
        for k in 0..NA {
            if viol().is_empty() {
                self.release(&s, k);
            }
        }
        if !viol().is_empty() {
            // nothing more to learn; what is left is abandoned
            std::mem::forget(std::mem::take(&mut self.arcs));
            std::mem::forget(self.sets.take());
            std::mem::forget(self.ents.take());
            return;
        }
        if let Some(b) = self.sets.take() {
            let want: Vec<_> = self.index.iter().flat_map(|(_, m)| m.rows.iter().flat_map(|r| tracked(m.mask, &r.vals)).collect::<Vec<_>>()).collect();
            let p = Box::into_raw(b);
            let v = unsafe { p.read() };
            self.call(&s, want, vec![], |_| reg(move || drop(v)));
            heap().unhome(p as usize);
        }
        if let Some(b) = self.ents.take() {
            let p = Box::into_raw(b);
            let v = unsafe { p.read() };
            self.call(&s, vec![], vec![], |_| reg(move || drop(v)));
            heap().unhome(p as usize);
        }
        let left = heap().outstanding(1);
        if left != 0 {
            bad!("leak_mem", "{left} bytes in {} blocks are still allocated at the end", heap().outstanding_blocks(1));
        }
        if !ledger().is_empty() {
            bad!("leak", "{} values were never destroyed or given back", ledger().len());
        }
        if heap().outstanding(255) != 0 && viol().is_empty() {
            bad!("leak", "values leaked: {} bytes owned by component values are still allocated", heap().outstanding(255));
        }
        heap().forget_owner(1);
        heap().audit();
        heap().audit_dead();
    }
}
/// The description of a set of types, made from one of a single type by adding the others in an order of their own.
fn described(mask: u32, salt: u32) -> ArchetypeDescriptor {
    let mut ts: Vec<u8> = types_of(mask).collect();
    ts.sort_by_key(|t| mix(salt as u64, *t as u64));
    let single = |t: u8| GROUPS.iter().position(|g| g.types == [t]);
    let k = ts.iter().position(|t| single(*t).is_some());
    let first = k.map_or(0, |k| ts.remove(k));
    let d = ts.iter().fold((PARTS[single(first).unwrap()].desc)(), |d, t| d.add_component(&(COMPS[*t as usize].desc)()).unwrap_or(d));
    if k.is_none() {
        return d.remove_component((COMPS[first as usize].desc)().component_type_id()).unwrap_or(d);
    }
    d
}
fn lit(x: Option<usize>, want: Option<usize>) -> &'static str {
    match (x, want) {
        (None, _) => "none",
        (x, w) if x == w => "its archetype",
        _ => "another archetype",
    }
}
fn op_text(s: &Step) -> String {
    if s.id == u32::MAX {
        return "the end".into();
    }
    format!("[{}]", ev_text(&Ev::Step(*s)))
}
fn boxed<T>(v: T) -> Box<T> {
    let p = heap().home(std::mem::size_of::<T>(), 64) as *mut T;
    unsafe {
        p.write(v);
        Box::from_raw(p)
    }
}

/// A set of `n` of all types.
fn subset(rng: &mut Rng, n: u64) -> u32 {
    let mut m = 0u32;
    while (m.count_ones() as u64) < n {
        m |= 1 << rng.below(NT as u64);
    }
    m
}
/// One in how many runs on archetypes has very long columns.
const FAR: u64 = 100;
/// The events of the run of a seed.
pub fn generate(rng: &mut Rng, prop: &str) -> Vec<Ev> {
    let steps = *rng.pick(&[6u64, 20, 40, 80, 120]);
    let steps = rng.range(steps / 2, steps);
    let faults = rng.pm(400);
    let mut evs = vec![];
    // a small choice of types, so that sets meet again
    let coll = rng.pm(250);
    let pal: u32 = if coll {
        [1 << 22 | 1 << 23 | 1 << 24 | 1 << 25 | 1 << 29 | 1 << 30, 1 << 26 | 1 << 27 | 1 << 28 | 1 << 29, 1 << 29 | 1 << 30 | 1 << 31][rng.below(3) as usize]
    } else {
        match rng.below(4) {
            0 => u32::MAX,
            1 => 0xFF,
            2 => 0x0007_F40F,
            _ => rng.next() as u32 & 0x3F_FFFF | 7,
        }
    };
    let within: Vec<u16> = (0..GROUPS.len() as u16).filter(|g| GROUPS[*g as usize].mask() & !pal == 0).collect();
    let valid: Vec<u16> = within.iter().copied().filter(|g| GROUPS[*g as usize].valid()).collect();
    let light: Vec<u16> = valid.iter().copied().filter(|g| GROUPS[*g as usize].types.iter().all(|t| INFO[*t as usize].size < 5000)).collect();
    let light = if light.is_empty() { vec![0] } else { light };
    let tiny: Vec<u16> = light.iter().copied().filter(|g| GROUPS[*g as usize].types.iter().map(|t| INFO[*t as usize].size).sum::<usize>() <= 64).collect();
    let tiny = if tiny.is_empty() { vec![0] } else { tiny };
    let tys: Vec<u32> = (0..NT as u32).filter(|t| pal >> t & 1 == 1).collect();
    let grow = rng.pm(60);
    if prop == "C24" && rng.below(FAR) == 0 {
        let mut s = Step::new(1, 0, Op::AFar);
        (s.a, s.b, s.g) = (rng.next() as u32, rng.next() as u32, rng.below(8) as u16);
        return vec![Ev::Step(s)];
    }
    let huge = prop == "C24" && rng.below(3000) == 0;
    // many sets of one size
    let many = if prop == "C25" && rng.pm(12) { rng.range(2, 4) } else { 0 };
    let mut made: Vec<(u32, u32)> = vec![];
    for id in 1..=steps as u32 {
        use Op::*;
        let mut s = Step::new(id, 0, AGone);
        s.a = rng.next() as u32;
        s.b = rng.next() as u32;
        s.n = rng.next() as u32 >> 1;
        match prop {
            "C24" => {
                s.reg = rng.below(if steps < 20 { 2 } else { NA as u64 }) as u8;
                s.op = *rng.pick(&[APush, APush, APush, APush, APush, APush, AMake, AMake, AWrite, ASwap, ASwap, ALast, ATake, ATake, ADrop, ADrop, ADrop, AMove, AMove, AMove, AReplace, AOne, ASet, ASet, ASet, ANew, AClear, AGone]);
                if id <= s.reg as u32 + 1 || id <= 3 || s.op == ANew {
                    if id <= 3 {
                        s.reg = id as u8 - 1;
                    }
                    s.op = ANew;
                    // related sets in the archetypes, mostly
                    s.g = if rng.pm(30) { rng.below(GROUPS.len() as u64) as u16 } else { { let l = if rng.pm(900) { &light } else { &valid }; *rng.pick(l) } };
                    let light = GROUPS[s.g as usize].types.iter().all(|t| INFO[*t as usize].size < 5000);
                    s.n = *rng.pick(if light { &[0, 1, 1, 2, 3, 5, 8, 16, 128, 128, 131] } else { &[0, 1, 2, 3] });
                    if rng.pm(15) {
                        s.n = *rng.pick(&[16_777_216, u32::MAX, 1 << 31]);
                    }
                }
                if s.op == APush {
                    s.n = if huge && id < 12 { rng.range(20_000, 70_000) as u32 } else if grow && rng.pm(200) { rng.range(60, 300) as u32 } else { rng.range(1, 6) as u32 };
                }
            }
            "C25" => {
                s.op = *rng.pick(&[SFind, SFind, SMake, SMake, SMake, SAdd, SAdd, SAdd, SAdd, SRem, SRem, SIter, SIter, SPush, SPush, SPush, SPop]);
                if id == 1 {
                    s.op = SMake;
                }
                s.g = if s.op == SIter { *rng.pick(&valid) } else { *rng.pick(&within) };
                if s.op == SIter && rng.pm(300) {
                    s.g = rng.below(GROUPS.len() as u64) as u16;
                }
                if many > 0 && matches!(s.op, SFind | SMake) {
                    s.y = subset(rng, many);
                }
                if matches!(s.op, SAdd | SRem) {
                    s.n = *rng.pick(&tys);
                    if rng.pm(80) {
                        s.n = rng.below(NT as u64) as u32;
                    }
                }
            }
            _ => {
                s.op = *rng.pick(&[ECreate, ECreate, ECreate, EDestroy, EDestroy, EDestroy, EPoint, EPoint, EProbe, EList]);
                if id == 1 || made.is_empty() {
                    s.op = ECreate;
                }
                s.n = 1;
                if s.op == ECreate && rng.pm(150) {
                    s.n = if rng.pm(40) { rng.range(300, 3000) } else { rng.range(2, 20) } as u32;
                }
                if s.op == EDestroy && rng.pm(120) {
                    s.n = rng.range(2, 30) as u32;
                }
                if s.op == ECreate {
                    for j in 0..s.n.min(6) {
                        made.push((id, j));
                    }
                } else {
                    // recent, old, any; sometimes a made-up one
                    let k = made.len() as u64;
                    let m = if rng.pm(500) { made[(k - 1 - rng.below(k.min(4))) as usize] } else { made[rng.below(k) as usize] };
                    s.h = Href::By(m.0, m.1);
                    if rng.pm(80) {
                        s.h = Href::Raw(*rng.pick(&[0, 1, 255, 0xFFFF_FFFF, 0xFFFF_FF00, 0x0000_0300, 0x0001_0000, s.a, s.a % 4096]));
                    }
                }
            }
        }
        if faults && rng.pm(200) {
            s.fault = Fault::Alloc(rng.range(1, if s.op == ANew { 8 } else { 5 }) as u32, *rng.pick(&[1, 1, 1000]));
        }
        evs.push(Ev::Step(s));
    }
    if many > 0 {
        let mut head = vec![];
        for k in 0..rng.range(60, 400) as u32 {
            let mut s = Step::new(1_000_000 + k, 0, if rng.pm(850) { Op::SMake } else { Op::SFind });
            s.b = rng.next() as u32;
            s.y = subset(rng, many);
            head.push(Ev::Step(s));
        }
        head.append(&mut evs);
        evs = head;
    }
    if prop == "C26" && rng.pm(120) {
        // one slot used so often that its version comes round
        let id = steps as u32 + 1;
        for k in 0..rng.range(200, 600) as u32 {
            let mut c = Step::new(id + 2 * k, 0, Op::ECreate);
            c.n = 1;
            evs.push(Ev::Step(c));
            let mut d = Step::new(id + 2 * k + 1, 0, Op::EDestroy);
            d.h = Href::By(id + 2 * k, 0);
            d.n = 1;
            evs.push(Ev::Step(d));
            if rng.pm(20) {
                let mut q = *rng.pick(&[Op::EProbe, Op::EDestroy, Op::EPoint]);
                if k < 3 {
                    q = Op::EList;
                }
                let mut p = Step::new(id + 5000 + k, 0, q);
                p.n = 1;
                p.h = Href::By(id + 2 * rng.below(k as u64 + 1) as u32, 0);
                evs.push(Ev::Step(p));
            }
        }
    }
    evs
}
pub fn run(t: &Trace) -> Res {
    let _g = set_mode(OFF);
    if t.mode == "limit26" {
        return limit26(t);
    }
    heap().reset(t.heap);
    ledger().clear();
    viol().clear();
    let mut c = OpCtx { owner: 1, ..Default::default() };
    let (sets, ents) = with_ctx(&mut c, || (reg(ArchetypeRegistry::default), reg(EntityRegistry::default)));
    let mut p = Parts {
        arcs: (0..NA).map(|_| None).collect(),
        sets: Some(boxed(sets)),
        index: vec![],
        ents: Some(boxed(ents)),
        model: Model::default(),
        made: Default::default(),
        stats: Stats::default(),
        digest: vec![],
        situations: Default::default(),
        oom: false,
        hash: 0,
    };
    for (n, e) in t.evs.iter().enumerate() {
        if let Ev::Step(s) = e {
            progress(n as u64, "struct", 0);
            p.stats.steps += 1;
            p.hash = 1;
            match s.op as u8 {
                x if x < Op::ANew as u8 => {}
                x if x < Op::SFind as u8 => p.astep(s),
                x if x < Op::ECreate as u8 => p.sstep(s),
                _ => p.estep(s),
            }
            p.digest.push((s.id, 0, p.hash));
            if !viol().is_empty() {
                break;
            }
            if n % 16 == 0 {
                heap().audit();
            }
        }
    }
    progress(t.evs.len() as u64, "drop", 0);
    p.end();
    let found = viol().drain(..).map(|v| Found { kind: v.kind, op: "struct".into(), tags: 0, detail: v.detail }).collect();
    let nt = p.stats.steps > 5;
    Res { found, trace: t.clone(), digest: std::mem::take(&mut p.digest), resolved: vec![], stats: p.stats.clone(), situations: std::mem::take(&mut p.situations), marks: vec![], nontrivial: nt }
}
/// The registry of entities filled to its limit.
fn limit26(t: &Trace) -> Res {
    heap().reset(HeapCfg { seed: t.seed, fill: 4, reuse_pm: 0, inplace_pm: 300, slack_pm: 300, tight: true });
    ledger().clear();
    viol().clear();
    let mut rng = Rng::new(mix(t.seed, 0x26));
    let mut c = OpCtx { owner: 1, ..Default::default() };
    let mut stats = Stats::default();
    const MAX: usize = 16_777_215;
    let place = |i: usize, salt: u64| {
        let x = mix(i as u64, salt);
        ((x >> 8) as u32 % 16_777_215, (x >> 40) as u16 % 65_535)
    };
    let salt = t.seed;
    let r = with_ctx(&mut c, || {
        catch_unwind(AssertUnwindSafe(|| {
            let mut reg_ = reg(EntityRegistry::default);
            let r = &mut reg_;
            let make = |r: &mut EntityRegistry, i: usize, salt: u64| {
                let (a, b) = place(i, salt);
                reg(|| r.create_entity(IndexInArchetype::new(a).unwrap(), ArchetypeIndex::new(b).unwrap())).map(|e| e.raw())
            };
            let mut raws: Vec<u32> = Vec::with_capacity(MAX);
            for i in 0..MAX {
                if i % 65536 == 0 {
                    progress(i as u64, "struct", 0);
                }
                match make(r, i, salt) {
                    Some(x) => raws.push(x),
                    None => {
                        bad!("part", "a registration was refused with {i} entities");
                        return;
                    }
                }
            }
            stats.steps += MAX as u64;
            let full = |r: &mut EntityRegistry| {
                for k in 0..3 {
                    if reg(|| r.can_register_new_entity()) || make(r, k, 1).is_some() {
                        bad!("part", "an entity was registered, or said to be possible, beyond the limit");
                    }
                }
            };
            full(r);
            // destroy some and register as many again, several times
            for round in 0..3u64 {
                let k = 1 + rng.below(2000) as usize;
                let mut set = std::collections::BTreeSet::new();
                while set.len() < k {
                    set.insert(match rng.below(10) {
                        0 => MAX - 1 - rng.below(50) as usize,
                        1 => rng.below(50) as usize,
                        _ => rng.below(MAX as u64) as usize,
                    });
                }
                for i in &set {
                    let raw = raws[*i];
                    if !reg(|| r.destroy_entity(ent(raw))) || reg(|| r.destroy_entity(ent(raw))) || reg(|| r.entity_entry(ent(raw)).is_some()) {
                        bad!("part", "destroying {raw:#x} at the limit went wrong");
                        return;
                    }
                }
                let n = reg(|| r.iter().count());
                if n != MAX - k {
                    bad!("part", "{n} entities listed, {} are registered", MAX - k);
                }
                for i in &set {
                    match make(r, *i, salt + round + 1) {
                        Some(x) => raws[*i] = x,
                        None => {
                            bad!("part", "a registration was refused below the limit");
                            return;
                        }
                    }
                    let (a, b) = place(*i, salt + round + 1);
                    let e = reg(|| r.entity_entry(ent(raws[*i])).map(|e| (e.index_in_archetype().value(), e.archetype_index())));
                    if e != Some((a, b)) {
                        bad!("part", "the entry of {:#x} reads {e:?}, not ({a}, {b})", raws[*i]);
                        return;
                    }
                    // its place in the fill no longer follows from its number
                    reg(|| {
                        let e = r.entity_entry_mut(ent(raws[*i])).unwrap();
                        let (a, b) = place(*i, salt);
                        e.set_index_in_archetype(IndexInArchetype::new(a).unwrap());
                        e.set_archetype_index(b);
                    });
                }
                full(r);
            }
            let mut seen = vec![0u64; MAX.div_ceil(64)];
            for (i, raw) in raws.iter().enumerate() {
                if i % 65536 == 0 {
                    progress(i as u64, "query", 0);
                }
                let (a, b) = place(i, salt);
                let e = reg(|| r.entity_entry(ent(*raw)).map(|e| (e.index_in_archetype().value(), e.archetype_index())));
                if e != Some((a, b)) {
                    bad!("part", "the entry of {raw:#x} reads {e:?}, not ({a}, {b})");
                    return;
                }
                let k = (*raw >> 8) as usize;
                if k >= MAX || seen[k / 64] >> (k % 64) & 1 == 1 {
                    bad!("part", "two live handles share slot {k}");
                    return;
                }
                seen[k / 64] |= 1 << (k % 64);
            }
            let mut n = 0;
            for e in reg(|| r.iter()) {
                let k = (e.raw() >> 8) as usize;
                n += 1;
                if k >= MAX || n > MAX {
                    bad!("part", "listed {:#x}, which is no registered entity", e.raw());
                    return;
                }
            }
            if n != MAX {
                bad!("part", "{n} entities listed, {MAX} are registered");
            }
            drop(raws);
            reg(move || drop(reg_));
        }))
    });
    if r.is_err() {
        bad!("panic", "work at the limit panicked: {}", last_panic());
    }
    if viol().is_empty() && heap().outstanding(1) != 0 {
        bad!("leak_mem", "{} bytes are still allocated at the end", heap().outstanding(1));
    }
    stats.live_max = MAX as u64;
    let found = viol().drain(..).map(|v| Found { kind: v.kind, op: "struct".into(), tags: 0, detail: v.detail }).collect();
    Res { found, trace: t.clone(), digest: vec![], resolved: vec![], stats, situations: Default::default(), marks: vec![], nontrivial: true }
}
