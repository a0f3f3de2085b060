//! Component types of the simulated clients. Every value carries a token plus a pattern derived from
//! token and type, so any read tells whether the bytes are a live value of that type and which one.
use crate::bad;
use crate::ctx::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::{Archetype, Component, ComponentDescriptor, ComponentTypeId, Entity, Registry};
use std::mem::MaybeUninit;

pub struct Info {
    pub name: &'static str,
    pub n: usize,
    pub size: usize,
    pub align: usize,
    pub tracked: bool,
    pub boxed: bool,
    pub id: u16,
}
pub fn tmask(n: usize) -> u64 {
    if n >= 8 {
        u64::MAX
    } else {
        (1u64 << (8 * n)) - 1
    }
}
pub fn canon(ty: u8, tok: u64) -> u64 {
    tok & tmask(INFO[ty as usize].n)
}
#[inline]
fn pat(ty: u8, tok: u64, k: usize) -> u64 {
    (tok ^ (ty as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add((k as u64 + 1).wrapping_mul(0xD1B54A32D192ED03)) ^ (tok << 17)
}
unsafe fn enc(ty: u8, p: *mut u8, n: usize, tok: u64) {
    let t = tok.to_le_bytes();
    std::ptr::copy_nonoverlapping(t.as_ptr(), p, n.min(8));
    let mut i = 8;
    while i < n {
        let w = pat(ty, tok, i).to_le_bytes();
        let k = (n - i).min(8);
        std::ptr::copy_nonoverlapping(w.as_ptr(), p.add(i), k);
        i += k;
    }
}
unsafe fn dec(ty: u8, p: *const u8, n: usize, from: usize) -> Option<u64> {
    let mut t = [0u8; 8];
    std::ptr::copy_nonoverlapping(p, t.as_mut_ptr(), n.min(8));
    let tok = u64::from_le_bytes(t);
    let mut i = from;
    while i < n {
        let w = pat(ty, tok, i).to_le_bytes();
        let k = (n - i).min(8);
        if std::slice::from_raw_parts(p.add(i), k) != &w[..k] {
            return None;
        }
        i += k;
    }
    Some(tok)
}
const INNER: usize = 24;
fn inner_layout() -> std::alloc::Layout {
    std::alloc::Layout::from_size_align(INNER, 8).unwrap()
}
/// Writes a fresh value carrying `tok` (already canonical) to `p`.
pub unsafe fn init(ty: u8, p: *mut u8, tok: u64) {
    let inf = &INFO[ty as usize];
    enc(ty, p, inf.n, tok);
    if inf.boxed {
        let _g = set_mode(CLI);
        let b = std::alloc::alloc(inner_layout());
        enc(ty ^ 0x40, b, INNER, tok);
        std::ptr::copy_nonoverlapping(&(b as usize) as *const usize as *const u8, p.add(8), 8);
    }
    if inf.tracked {
        let _g = set_mode(OFF);
        ledger_add(ty, tok);
    }
}
unsafe fn inner_ptr(p: *const u8) -> usize {
    let mut b = [0u8; 8];
    std::ptr::copy_nonoverlapping(p.add(8), b.as_mut_ptr(), 8);
    usize::from_ne_bytes(b)
}
/// Token of the value at `p`, or None when the bytes are not a live value of type `ty`.
pub unsafe fn read(ty: u8, p: *const u8) -> Option<u64> {
    let inf = &INFO[ty as usize];
    let t = dec(ty, p, inf.n, if inf.boxed { 16 } else { 8 })?;
    if inf.boxed {
        let q = inner_ptr(p);
        if !crate::heap::heap().covers(q, INNER) {
            return None;
        }
        if dec(ty ^ 0x40, q as *const u8, INNER, 8) != Some(t) {
            return None;
        }
    }
    Some(t)
}
/// Replaces the live value at `p` in place, as client code writing through a mutable reference.
pub unsafe fn overwrite(ty: u8, p: *mut u8, old: u64, new: u64) {
    let inf = &INFO[ty as usize];
    if inf.tracked {
        ledger_sub(ty, old);
    }
    if inf.boxed {
        let _g = set_mode(CLI);
        std::alloc::dealloc(inner_ptr(p) as *mut u8, inner_layout());
    }
    init(ty, p, new);
}
unsafe fn drop_at(ty: u8, p: *mut u8) {
    let inf = &INFO[ty as usize];
    let tok = read(ty, p);
    let dead = inf.n > 0 && std::slice::from_raw_parts(p, inf.n).iter().all(|b| *b == 0xEE);
    if tok.is_some() {
        if inf.boxed {
            let _g = set_mode(CLI);
            std::alloc::dealloc(inner_ptr(p) as *mut u8, inner_layout());
        }
        std::ptr::write_bytes(p, 0xEE, inf.n);
    }
    on_drop(ty, tok, dead);
}

pub trait Val: Component {
    const TY: u8;
    fn make(tok: u64) -> Self {
        let mut m = MaybeUninit::<Self>::uninit();
        unsafe {
            init(Self::TY, m.as_mut_ptr() as *mut u8, canon(Self::TY, tok));
            m.assume_init()
        }
    }
    /// Reads a value that came back from the registry and disposes of it.
    fn unmake(self) -> Option<u64> {
        let _g = set_mode(OFF);
        let t = unsafe { read(Self::TY, &self as *const Self as *const u8) };
        if t.is_none() {
            std::mem::forget(self);
        } else {
            drop(self);
        }
        t
    }
}

pub struct CompVt {
    pub has: fn(&Registry, Entity) -> bool,
    pub get: fn(&Registry, Entity) -> Option<*const u8>,
    pub get_mut: fn(&mut Registry, Entity) -> Option<*mut u8>,
    pub add: fn(&mut Registry, Entity, u64) -> Result<(), Option<u64>>,
    pub rem: fn(&mut Registry, Entity) -> Option<Option<u64>>,
    pub desc_has: fn(&ArchetypeDescriptor) -> bool,
    pub desc: fn() -> ComponentDescriptor,
    pub a_get: unsafe fn(&Archetype, u32) -> *const u8,
    pub a_get_mut: unsafe fn(&mut Archetype, u32) -> *mut u8,
    /// moves a value out, leaving its place empty
    pub a_read: unsafe fn(&mut Archetype, u32) -> Option<u64>,
    pub a_write: unsafe fn(&mut Archetype, u32, u64),
}
const fn comp_vt<T: Val>() -> CompVt {
    CompVt {
        has: |r, e| reg(|| r.has_component::<T>(e)),
        get: |r, e| reg(|| r.get_component::<T>(e)).map(|p| p as *const T as *const u8),
        get_mut: |r, e| reg(|| r.get_component_mut::<T>(e)).map(|p| p as *mut T as *mut u8),
        add: |r, e, t| {
            let v = T::make(t);
            match reg(|| r.add_component::<T>(e, v)) {
                Ok(()) => Ok(()),
                Err(v) => Err(v.unmake()),
            }
        },
        rem: |r, e| reg(|| r.remove_component::<T>(e)).ok().map(|v| v.unmake()),
        desc_has: |d| d.has_component::<T>(),
        desc: || T::DESCRIPTOR,
        a_get: |a, i| reg(|| unsafe { a.get_component_unchecked::<T>(i) }) as *const T as *const u8,
        a_get_mut: |a, i| reg(|| unsafe { a.get_component_unchecked_mut::<T>(i) }) as *mut T as *mut u8,
        a_read: |a, i| reg(|| unsafe { a.read_component_unchecked::<T>(i) }).unmake(),
        a_write: |a, i, t| {
            let v = T::make(t);
            reg(|| unsafe { a.write_single_component_unchecked::<T>(i, v) })
        },
    }
}

macro_rules! dropimpl {
    (plain $name:ident $i:literal) => {};
    (tracked $name:ident $i:literal) => {
        impl Drop for $name {
            fn drop(&mut self) {
                unsafe { drop_at($i, self as *mut $name as *mut u8) }
            }
        }
    };
    (boxed $name:ident $i:literal) => {
        dropimpl!(tracked $name $i);
    };
}
macro_rules! idimpl {
    (-) => {};
    ($id:literal) => {
        const ID: ComponentTypeId = ComponentTypeId::from_u16($id);
    };
}
macro_rules! comps {
    ($($i:literal $name:ident $n:literal $al:literal $kind:ident $id:tt;)*) => {
        $(
            #[repr(C, align($al))]
            pub struct $name(#[allow(dead_code)] [u8; $n]);
            impl Component for $name {
                const NAME: &'static str = concat!("sim.", stringify!($name));
                idimpl!($id);
            }
            impl Val for $name { const TY: u8 = $i; }
            dropimpl!($kind $name $i);
        )*
        pub static INFO: &[Info] = &[$(Info {
            name: stringify!($name), n: $n, size: std::mem::size_of::<$name>(), align: $al,
            tracked: matches!(stringify!($kind).as_bytes()[0], b't' | b'b'),
            boxed: matches!(stringify!($kind).as_bytes()[0], b'b'),
            id: <$name as Component>::ID.into_u16(),
        }),*];
        pub static COMPS: &[CompVt] = &[$(comp_vt::<$name>()),*];
    };
}
comps! {
    0 A 8 8 plain 500;
    1 B 1 1 plain 3;
    2 C 16 8 tracked 0x0100;
    3 D 3 1 plain 0x00FF;
    4 E 32 8 boxed 0x8000;
    5 F 16 16 tracked 0xFFFE;
    6 G 64 64 tracked 7;
    7 H 0 1 tracked 0x1234;
    8 I 2 2 plain -;
    9 J 300 4 tracked 40000;
    10 K 24 8 tracked 258;
    11 L 0 32 plain 20000;
    12 M 4 4 plain 33000;
    13 N 4104 8 tracked 0;
    14 O 10 2 plain 600;
    15 P 10 1 tracked 601;
    16 Q 8 2 plain 0x0201;
    17 R 40 8 tracked 0x0103;
    18 S 12 4 plain 60000;
    19 T 96 32 tracked 0x7FFF;
    20 U 33000 8 tracked 0x4000;
    21 W 4096 4096 plain 0x4001;
    22 Ca 8 8 plain 10581;
    23 Cb 16 8 tracked 25766;
    24 Cc 24 8 tracked 14441;
    25 Cd 9 1 plain 27918;
    26 Ta 16 4 tracked 2175;
    27 Tb 8 4 plain 9682;
    28 Tc 20 4 tracked 29003;
    29 Va 12 4 tracked 50000;
    30 Vb 12 4 plain 50001;
    31 Vc 14 2 tracked 50002;
}
pub const NT: usize = 32;

pub fn ty_of_id(id: u16) -> Option<u8> {
    INFO.iter().position(|i| i.id == id).map(|x| x as u8)
}
/// Component set named by a description, checking that the description is truthful about each type.
pub fn desc_mask(d: &ArchetypeDescriptor) -> Option<u32> {
    let mut m = 0u32;
    let cs = d.components();
    if cs.len() != d.len() as usize {
        return None;
    }
    for c in cs {
        let t = ty_of_id(c.component_type_id().into_u16())?;
        let inf = &INFO[t as usize];
        if m >> t & 1 == 1 || c.size() as usize != inf.size || c.align() as usize != inf.align {
            return None;
        }
        m |= 1 << t;
    }
    for t in 0..NT {
        if (COMPS[t].desc_has)(d) != (m >> t & 1 == 1) {
            return None;
        }
    }
    Some(m)
}
/// Reads a value behind a pointer the registry handed out, refusing to touch memory it does not own.
pub fn peek(ty: u8, p: *const u8) -> Option<u64> {
    let inf = &INFO[ty as usize];
    if p as usize % inf.align != 0 || p.is_null() {
        bad!("mem", "a reference to a value of type {} is null or misaligned", inf.name);
        return None;
    }
    if inf.size > 0 && !crate::heap::heap().covers(p as usize, inf.size) {
        bad!("mem", "a reference to a value of type {} points outside the blocks the registry owns", inf.name);
        return None;
    }
    unsafe { read(ty, p) }
}
