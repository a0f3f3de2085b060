//! Type-erased access to every operation of the registry that takes a component group.
use crate::comps::*;
use crate::ctx::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::{Archetype, ComponentGroup, Entity, Registry};
use std::cell::Cell;

pub type Ptrs = [*mut u8; 14];
/// One yielded batch: optional entity slice and, per type in the order asked for, a column.
pub struct Batch {
    pub ents: Option<(*const Entity, usize)>,
    pub cols: Ptrs,
    pub lens: [usize; 14],
    pub n: usize,
}
pub type Toks = Vec<Option<u64>>;

pub trait Grp: ComponentGroup {
    const TYPES: &'static [u8];
    fn make(t: &[u64]) -> Self;
    fn unmake(self) -> Toks;
    fn refs(t: Self::RefTuple<'_>) -> Ptrs;
    fn mrefs(t: Self::MutRefTuple<'_>) -> Ptrs;
    fn cols(t: Self::SliceRefTuple<'_>) -> Batch;
    fn mcols(t: Self::SliceMutRefTuple<'_>) -> Batch;
}
const NP: Ptrs = [std::ptr::null_mut(); 14];

impl<T: Val> Grp for T {
    const TYPES: &'static [u8] = &[T::TY];
    fn make(t: &[u64]) -> Self {
        <T as Val>::make(t[0])
    }
    fn unmake(self) -> Toks {
        vec![Val::unmake(self)]
    }
    fn refs(t: &T) -> Ptrs {
        let mut p = NP;
        p[0] = t as *const T as *mut u8;
        p
    }
    fn mrefs(t: &mut T) -> Ptrs {
        let mut p = NP;
        p[0] = t as *mut T as *mut u8;
        p
    }
    fn cols(t: &[T]) -> Batch {
        let mut b = Batch { ents: None, cols: NP, lens: [0; 14], n: 1 };
        b.cols[0] = t.as_ptr() as *mut u8;
        b.lens[0] = t.len();
        b
    }
    fn mcols(t: &mut [T]) -> Batch {
        let mut b = Batch { ents: None, cols: NP, lens: [0; 14], n: 1 };
        b.cols[0] = t.as_mut_ptr() as *mut u8;
        b.lens[0] = t.len();
        b
    }
}
macro_rules! tup {
    ($n:literal $($t:ident $i:tt),*) => {
        impl<$($t: Val),*> Grp for ($($t),*) {
            const TYPES: &'static [u8] = &[$($t::TY),*];
            fn make(t: &[u64]) -> Self { ($(<$t as Val>::make(t[$i])),*) }
            fn unmake(self) -> Toks { vec![$(Val::unmake(self.$i)),*] }
            fn refs(t: Self::RefTuple<'_>) -> Ptrs { let mut p = NP; $(p[$i] = t.$i as *const $t as *mut u8;)* p }
            fn mrefs(t: Self::MutRefTuple<'_>) -> Ptrs { let mut p = NP; $(p[$i] = t.$i as *mut $t as *mut u8;)* p }
            fn cols(t: Self::SliceRefTuple<'_>) -> Batch {
                let mut b = Batch { ents: None, cols: NP, lens: [0; 14], n: $n };
                $(b.cols[$i] = t.$i.as_ptr() as *mut u8; b.lens[$i] = t.$i.len();)*
                b
            }
            fn mcols(t: Self::SliceMutRefTuple<'_>) -> Batch {
                let mut b = Batch { ents: None, cols: NP, lens: [0; 14], n: $n };
                $(b.cols[$i] = t.$i.as_mut_ptr() as *mut u8; b.lens[$i] = t.$i.len();)*
                b
            }
        }
    };
}
tup!(2 T0 0, T1 1);
tup!(3 T0 0, T1 1, T2 2);
tup!(4 T0 0, T1 1, T2 2, T3 3);
tup!(5 T0 0, T1 1, T2 2, T3 3, T4 4);
tup!(6 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5);
tup!(7 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6);
tup!(8 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7);
tup!(9 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8);
tup!(10 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9);
tup!(11 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10);
tup!(12 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11);
tup!(13 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12);
tup!(14 T0 0, T1 1, T2 2, T3 3, T4 4, T5 5, T6 6, T7 7, T8 8, T9 9, T10 10, T11 11, T12 12, T13 13);

pub const MUT: u8 = 1;
pub const ENT: u8 = 2;
pub const FILT: u8 = 4;
pub const EXACT: u8 = 8;

pub type Filter<'a> = &'a dyn Fn(&ArchetypeDescriptor) -> bool;

pub struct GroupVt {
    pub types: &'static [u8],
    pub create: fn(&mut Registry, &[u64]) -> Result<Entity, Toks>,
    pub remove: fn(&mut Registry, Entity) -> Option<Toks>,
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<Ptrs>,
    pub get_mut: fn(&mut Registry, Entity) -> Option<Ptrs>,
    /// kind bits MUT|ENT|FILT|EXACT; the registry pointer must be unique when MUT is set.
    pub iter: unsafe fn(*mut Registry, u8, Cons, Filter<'static>, &mut dyn FnMut(Batch) -> bool) -> IterEnd,
    pub contains: fn(&ArchetypeDescriptor) -> bool,
    pub excludes: fn(&ArchetypeDescriptor) -> bool,
}
impl GroupVt {
    pub fn mask(&self) -> u32 {
        self.types.iter().fold(0, |m, t| m | 1 << t)
    }
    pub fn valid(&self) -> bool {
        self.mask().count_ones() as usize == self.types.len()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IterEnd {
    /// Ended by itself and stayed ended.
    Done,
    Stopped,
    /// Yielded again after having ended.
    NotFused,
    /// Its methods do not agree with each other.
    Odd(&'static str),
}
/// How a client consumes an iterator: 0 `next`, 1 `next` with `size_hint` before each, 2 `try_for_each`,
/// 3 `nth(0)`; 4 to 7: also `nth`, `count`, `last` and `fold` of further iterators over the same.
/// The other bits choose the distances given to `nth`.
pub type Cons = u64;
type Id = (usize, usize, usize, usize);
fn id_of(b: &Batch) -> Id {
    (b.cols[0] as usize, b.lens[0], b.ents.map_or(0, |x| x.0 as usize), b.ents.map_or(0, |x| x.1))
}
/// An iterator of the registry, with the methods it was given or inherits.
pub trait It {
    fn next(&mut self) -> Option<Batch>;
    fn nth(&mut self, k: usize) -> Option<Batch>;
    fn hint(&self) -> (usize, Option<usize>);
    fn each(&mut self, f: &mut dyn FnMut(Batch) -> bool) -> bool;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Batch>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(Batch));
}
pub struct Shim<I: Iterator>(pub I, pub fn(I::Item) -> Batch);
impl<I: Iterator> It for Shim<I> {
    fn next(&mut self) -> Option<Batch> {
        reg(|| self.0.next()).map(self.1)
    }
    fn nth(&mut self, k: usize) -> Option<Batch> {
        reg(|| self.0.nth(k)).map(self.1)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        reg(|| self.0.size_hint())
    }
    fn each(&mut self, f: &mut dyn FnMut(Batch) -> bool) -> bool {
        let m = self.1;
        reg(|| {
            self.0.try_for_each(|x| {
                off(|| match f(m(x)) {
                    true => std::ops::ControlFlow::Continue(()),
                    false => std::ops::ControlFlow::Break(()),
                })
            })
        })
        .is_continue()
    }
    fn count(self: Box<Self>) -> usize {
        reg(move || self.0.count())
    }
    fn last(self: Box<Self>) -> Option<Batch> {
        let m = self.1;
        reg(move || self.0.last()).map(m)
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(Batch)) {
        let m = self.1;
        reg(move || self.0.fold((), |_, x| off(|| f(m(x)))))
    }
}
pub fn shim<'a, I: Iterator + 'a>(i: I, m: fn(I::Item) -> Batch) -> Box<dyn It + 'a> {
    off(|| Box::new(Shim::<I>(i, m)))
}
/// Consumes an iterator by `next` alone.
fn plain(it: &mut dyn Iterator<Item = Batch>, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    loop {
        match reg(|| it.next()) {
            Some(b) => {
                if !sink(b) {
                    return IterEnd::Stopped;
                }
            }
            None => break,
        }
    }
    for _ in 0..2 {
        if reg(|| it.next()).is_some() {
            return IterEnd::NotFused;
        }
    }
    IterEnd::Done
}
thread_local! {
    /// Iterators made on this thread.
    pub static MADE: Cell<u64> = const { Cell::new(0) };
}
pub fn drive(mk: &dyn Fn() -> Box<dyn It>, c: Cons, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    let mk: &dyn Fn() -> Box<dyn It> = &|| {
        MADE.with(|m| m.set(m.get() + 1));
        mk()
    };
    if c & 7 >= 4 {
        if let Some(x) = adaptors(mk, c) {
            return IterEnd::Odd(x);
        }
    }
    let c = c & 7;
    let mut it = reg(mk);
    let mut hints: Vec<(usize, Option<usize>)> = vec![];
    match c {
        2 => {
            if !it.each(sink) {
                return IterEnd::Stopped;
            }
        }
        _ => loop {
            if c == 1 {
                hints.push(it.hint());
            }
            match if c == 3 { it.nth(0) } else { it.next() } {
                Some(b) => {
                    if !sink(b) {
                        return IterEnd::Stopped;
                    }
                }
                None => break,
            }
        },
    }
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = hints.len() - 1 - k;
        if left < *lo || hi.is_some_and(|h| left > h) {
            return IterEnd::Odd("announced by size_hint a number of batches other than it yielded");
        }
    }
    for _ in 0..2 {
        if it.next().is_some() {
            return IterEnd::NotFused;
        }
    }
    IterEnd::Done
}
/// Compares what `nth`, `count`, `last` and `fold` say with what `next` yields.
fn adaptors(mk: &dyn Fn() -> Box<dyn It>, c: u64) -> Option<&'static str> {
    let mut ids: Vec<Id> = vec![];
    let mut it = reg(mk);
    while let Some(b) = it.next() {
        ids.push(id_of(&b));
        if ids.len() > 200_000 {
            return None;
        }
    }
    let n = ids.len();
    let mut it = reg(mk);
    let mut at = 0;
    for k in 0.. {
        let skip = match mix(c, k) % 8 {
            0..=2 => 0,
            3 | 4 => 1,
            5 => 2,
            6 => mix(c, k + 999) as usize % (n + 2),
            _ => mix(c, k + 999) as usize % 5,
        };
        let got = it.nth(skip).map(|b| id_of(&b));
        if got != ids.get(at + skip).copied() {
            return Some("gave by nth another batch than by next");
        }
        at += skip + 1;
        if got.is_none() {
            break;
        }
    }
    if reg(mk).count() != n {
        return Some("counts a number of batches other than it yields");
    }
    if reg(mk).last().map(|b| id_of(&b)) != ids.last().copied() {
        return Some("gave another last batch than it yields last");
    }
    let mut k = 0;
    let mut same = true;
    reg(mk).fold(&mut |b| {
        k += 1;
        same &= ids.get(k - 1) == Some(&id_of(&b));
    });
    if !same || k != n {
        return Some("folded other batches than it yields");
    }
    None
}
fn e(b: Batch, s: &[Entity]) -> Batch {
    Batch { ents: Some((s.as_ptr(), s.len())), ..b }
}
/// All ways to consume an iterator; only for some groups, for the sake of the build time.
unsafe fn iter_full<G: Grp>(rp: *mut Registry, kind: u8, c: Cons, f: Filter<'static>, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    let r: &'static Registry = &*rp;
    match kind {
        0 => drive(&|| shim(r.iter_components_matching::<G>(), |t| G::cols(t)), c, sink),
        1 => drive(&|| shim((*rp).iter_components_matching_mut::<G>(), |t| G::mcols(t)), c, sink),
        2 => drive(&|| shim(r.iter_entity_components_matching::<G>(), |(s, t)| e(G::cols(t), s)), c, sink),
        3 => drive(&|| shim((*rp).iter_entity_components_matching_mut::<G>(), |(s, t)| e(G::mcols(t), s)), c, sink),
        4 => drive(&|| shim(r.iter_filtered_components_matching::<G, _>(f), |t| G::cols(t)), c, sink),
        5 => drive(&|| shim((*rp).iter_filtered_components_matching_mut::<G, _>(f), |t| G::mcols(t)), c, sink),
        6 => drive(&|| shim(r.iter_filtered_entity_components_matching::<G, _>(f), |(s, t)| e(G::cols(t), s)), c, sink),
        7 => drive(&|| shim((*rp).iter_filtered_entity_components_matching_mut::<G, _>(f), |(s, t)| e(G::mcols(t), s)), c, sink),
        _ => exact::<G>(rp, kind, sink),
    }
}
unsafe fn iter<G: Grp>(rp: *mut Registry, kind: u8, _: Cons, f: Filter<'static>, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    let r = &*rp;
    match kind {
        0 => plain(&mut reg(|| r.iter_components_matching::<G>()).map(G::cols), sink),
        1 => plain(&mut reg(|| (*rp).iter_components_matching_mut::<G>()).map(G::mcols), sink),
        2 => plain(&mut reg(|| r.iter_entity_components_matching::<G>()).map(|(s, t)| e(G::cols(t), s)), sink),
        3 => plain(&mut reg(|| (*rp).iter_entity_components_matching_mut::<G>()).map(|(s, t)| e(G::mcols(t), s)), sink),
        4 => plain(&mut reg(|| r.iter_filtered_components_matching::<G, _>(f)).map(G::cols), sink),
        5 => plain(&mut reg(|| (*rp).iter_filtered_components_matching_mut::<G, _>(f)).map(G::mcols), sink),
        6 => plain(&mut reg(|| r.iter_filtered_entity_components_matching::<G, _>(f)).map(|(s, t)| e(G::cols(t), s)), sink),
        7 => plain(&mut reg(|| (*rp).iter_filtered_entity_components_matching_mut::<G, _>(f)).map(|(s, t)| e(G::mcols(t), s)), sink),
        _ => exact::<G>(rp, kind, sink),
    }
}
unsafe fn exact<G: Grp>(rp: *mut Registry, kind: u8, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    let r = &*rp;
    match kind {
        8 => one(G::cols(reg(|| r.iter_components_exact::<G>())), sink),
        9 => one(G::mcols(reg(|| (*rp).iter_components_exact_mut::<G>())), sink),
        10 => {
            let (s, t) = reg(|| r.iter_entity_components_exact::<G>());
            one(e(G::cols(t), s), sink)
        }
        _ => {
            let (s, t) = reg(|| (*rp).iter_entity_components_exact_mut::<G>());
            one(e(G::mcols(t), s), sink)
        }
    }
}
fn one(b: Batch, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    sink(b);
    IterEnd::Done
}
const fn vt<G: Grp>() -> GroupVt {
    let full = G::TYPES.len() == 1 && G::TYPES[0] < 14 || G::TYPES.len() == 2 && G::TYPES[0] < 2;
    GroupVt {
        types: G::TYPES,
        create: |r, t| {
            let v = G::make(t);
            reg(|| r.create_entity::<G>(v)).map_err(|g| g.unmake())
        },
        remove: |r, e| reg(|| r.remove_entity::<G>(e)).map(|g| g.unmake()),
        has: |r, e| reg(|| r.has_components::<G>(e)),
        get: |r, e| reg(|| r.get_components::<G>(e)).map(G::refs),
        get_mut: |r, e| reg(|| r.get_components_mut::<G>(e)).map(G::mrefs),
        iter: if full { iter_full::<G> } else { iter::<G> },
        contains: |d| d.contains_subset(G::DESCRIPTOR.archetype()),
        excludes: |d| d.excludes_subset(G::DESCRIPTOR.archetype()),
    }
}
/// Access to the archetype storage and to the registry of archetypes on their own.
pub struct PartVt {
    pub desc: fn() -> ArchetypeDescriptor,
    pub push: unsafe fn(&mut Archetype, Entity, &[u64]) -> u32,
    pub write: unsafe fn(&mut Archetype, u32, Entity, &[u64]),
    pub take: unsafe fn(&mut Archetype, u32) -> (Toks, bool),
    /// moves a row out, leaving its place empty
    pub read: unsafe fn(&Archetype, u32) -> Toks,
    pub refs: unsafe fn(&Archetype, u32) -> Ptrs,
    pub mrefs: unsafe fn(&mut Archetype, u32) -> Ptrs,
    /// kind bits MUT|ENT|EXACT
    pub cols: unsafe fn(&mut Archetype, u8) -> Batch,
    pub iter: unsafe fn(*mut ArchetypeRegistry, u8, Filter<'static>, &mut dyn FnMut(Batch) -> bool) -> IterEnd,
}
unsafe fn part_cols<G: Grp>(a: &mut Archetype, kind: u8) -> Batch {
    match kind {
        0 => G::cols(reg(|| a.get_fuzzy_slices_unchecked::<G>())),
        1 => G::mcols(reg(|| a.get_fuzzy_slices_unchecked_mut::<G>())),
        2 => {
            let (s, t) = reg(|| a.get_entity_fuzzy_slices_unchecked::<G>());
            e(G::cols(t), s)
        }
        3 => {
            let (s, t) = reg(|| a.get_entity_fuzzy_slices_unchecked_mut::<G>());
            e(G::mcols(t), s)
        }
        8 => G::cols(reg(|| a.get_slices_unchecked_exact::<G>())),
        _ => G::mcols(reg(|| a.get_slices_unchecked_exact_mut::<G>())),
    }
}
unsafe fn part_iter<G: Grp>(rp: *mut ArchetypeRegistry, kind: u8, f: Filter<'static>, sink: &mut dyn FnMut(Batch) -> bool) -> IterEnd {
    let r = &*rp;
    match kind {
        0 => plain(&mut reg(|| r.iter_components_matching::<G>()).map(G::cols), sink),
        1 => plain(&mut reg(|| (*rp).iter_components_matching_mut::<G>()).map(G::mcols), sink),
        2 => plain(&mut reg(|| r.iter_entity_components_matching::<G>()).map(|(s, t)| e(G::cols(t), s)), sink),
        3 => plain(&mut reg(|| (*rp).iter_entity_components_matching_mut::<G>()).map(|(s, t)| e(G::mcols(t), s)), sink),
        4 => plain(&mut reg(|| r.iter_filtered_components_matching::<G, _>(f)).map(G::cols), sink),
        5 => plain(&mut reg(|| (*rp).iter_filtered_components_matching_mut::<G, _>(f)).map(G::mcols), sink),
        6 => plain(&mut reg(|| r.iter_filtered_entity_components_matching::<G, _>(f)).map(|(s, t)| e(G::cols(t), s)), sink),
        _ => plain(&mut reg(|| (*rp).iter_filtered_entity_components_matching_mut::<G, _>(f)).map(|(s, t)| e(G::mcols(t), s)), sink),
    }
}
const fn part<G: Grp>() -> PartVt {
    PartVt {
        desc: || G::DESCRIPTOR.archetype().clone(),
        push: |a, h, t| {
            let v = G::make(t);
            reg(|| unsafe { a.push_entity_unchecked::<G>(h, v) })
        },
        write: |a, i, h, t| {
            let v = G::make(t);
            reg(|| unsafe { a.write_entity_unchecked::<G>(i, h, v) })
        },
        take: |a, i| {
            let (g, s) = reg(|| unsafe { a.swap_remove_unchecked::<G>(i) });
            (g.unmake(), s)
        },
        read: |a, i| reg(|| unsafe { a.read_components_exact_unchecked::<G>(i) }).unmake(),
        refs: |a, i| G::refs(reg(|| unsafe { a.get_fuzzy_components_unchecked::<G>(i) })),
        mrefs: |a, i| G::mrefs(reg(|| unsafe { a.get_fuzzy_components_unchecked_mut::<G>(i) })),
        cols: part_cols::<G>,
        iter: part_iter::<G>,
    }
}
macro_rules! groups {
    ($($t:ty;)*) => {
        pub static GROUPS: &[GroupVt] = &[$(vt::<$t>()),*];
        pub static PARTS: &[PartVt] = &[$(part::<$t>()),*];
    };
}
include!("group_list.rs");
