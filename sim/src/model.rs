//! The reference model: one map from handle to component set and values per registry.
use crate::comps::*;
use crate::ctx::*;

pub struct Ent {
    pub mask: u32,
    /// tokens by rank of the type within the mask
    pub vals: Vec<u64>,
    pub pos: u32,
    /// (creating step, number within that step)
    pub by: (u32, u32),
}
impl Ent {
    pub fn rank(&self, ty: u8) -> usize {
        (self.mask & ((1u32 << ty) - 1)).count_ones() as usize
    }
    pub fn val(&self, ty: u8) -> u64 {
        self.vals[self.rank(ty)]
    }
}
/// Which costs of operations are judged: 1 demands on the allocator, 2 accesses to memory.
pub static mut COST: u8 = 0;
pub fn cost() -> u8 {
    unsafe { COST }
}
#[derive(Default)]
pub struct Model {
    pub ents: Map<u32, Ent>,
    pub live: Vec<u32>,
    issued: Map<u32, u32>,
    slot_issues: Map<u32, u32>,
    pub peak: usize,
    pub max_slot: u32,
    /// live entities per component set (sets stay listed once they have existed)
    pub counts: Map<u32, u32>,
    /// the most there were of each set (only while costs are judged)
    pub peaks: Map<u32, u32>,
    /// handles that were live once, most recent last (bounded)
    pub dead: Vec<(u32, (u32, u32))>,
    pub tracked: i64,
}
pub fn types_of(mask: u32) -> impl Iterator<Item = u8> {
    (0..32u8).filter(move |t| mask >> t & 1 == 1)
}
pub fn tracked_in(mask: u32) -> i64 {
    types_of(mask).filter(|t| INFO[*t as usize].tracked).count() as i64
}
impl Model {
    /// Registers a new entity; returns complaints about the handle.
    pub fn create(&mut self, raw: u32, mask: u32, vals: Vec<u64>, by: (u32, u32)) -> Option<(&'static str, String)> {
        let mut bad = None;
        if self.ents.contains_key(&raw) {
            return Some(("dup_handle", format!("creation returned handle {raw:#x}, which a live entity already has")));
        }
        let slot = raw >> 8;
        let n = self.slot_issues.entry(slot).or_insert(0);
        *n += 1;
        let n = *n;
        if let Some(k) = self.issued.insert(raw, n) {
            if n - k < 256 {
                bad = Some(("dup_handle", format!("handle {raw:#x} was issued again after {} reuses of its slot", n - k)));
            }
        }
        self.live.push(raw);
        self.ents.insert(raw, Ent { mask, vals, pos: self.live.len() as u32 - 1, by });
        self.peak = self.peak.max(self.live.len());
        self.max_slot = self.max_slot.max(slot);
        if slot as usize >= self.peak && bad.is_none() {
            bad = Some(("slots", format!("creation used slot {slot} although at most {} entities were ever alive at once", self.peak)));
        }
        self.count(mask);
        self.tracked += tracked_in(mask);
        bad
    }
    fn count(&mut self, mask: u32) {
        let n = self.counts.entry(mask).or_insert(0);
        *n += 1;
        if cost() != 0 {
            let p = self.peaks.entry(mask).or_insert(0);
            *p = (*p).max(*n);
        }
    }
    pub fn kill(&mut self, raw: u32) -> Ent {
        let e = self.ents.remove(&raw).unwrap();
        self.live.swap_remove(e.pos as usize);
        if let Some(m) = self.live.get(e.pos as usize) {
            self.ents.get_mut(m).unwrap().pos = e.pos;
        }
        *self.counts.get_mut(&e.mask).unwrap() -= 1;
        self.tracked -= tracked_in(e.mask);
        if self.dead.len() >= 400 {
            let k = self.dead.len() / 2;
            self.dead.drain(..k);
        }
        self.dead.push((raw, e.by));
        e
    }
    pub fn add(&mut self, raw: u32, ty: u8, tok: u64) {
        let e = self.ents.get_mut(&raw).unwrap();
        *self.counts.get_mut(&e.mask).unwrap() -= 1;
        let r = e.rank(ty);
        e.vals.insert(r, tok);
        e.mask |= 1 << ty;
        let m = e.mask;
        self.count(m);
        self.tracked += INFO[ty as usize].tracked as i64;
    }
    pub fn rem(&mut self, raw: u32, ty: u8) -> u64 {
        let e = self.ents.get_mut(&raw).unwrap();
        *self.counts.get_mut(&e.mask).unwrap() -= 1;
        let r = e.rank(ty);
        let v = e.vals.remove(r);
        e.mask &= !(1 << ty);
        let m = e.mask;
        self.count(m);
        self.tracked -= INFO[ty as usize].tracked as i64;
        v
    }
    pub fn set(&mut self, raw: u32, ty: u8, tok: u64) {
        let e = self.ents.get_mut(&raw).unwrap();
        let r = e.rank(ty);
        e.vals[r] = tok;
    }
    /// Kind of a wrong value: "misdirected" when it is another entity's value.
    pub fn whose(&self, raw: u32, ty: u8, tok: u64) -> &'static str {
        if INFO[ty as usize].n >= 8 && self.ents.iter().any(|(r, e)| *r != raw && e.mask >> ty & 1 == 1 && e.val(ty) == tok) {
            "misdirected"
        } else {
            "value"
        }
    }
}
