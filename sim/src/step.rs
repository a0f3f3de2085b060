//! Events of a run and their text form (the replay file).
use crate::heap::HeapCfg;

macro_rules! ops {
    ($($n:ident),*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(u8)]
        pub enum Op { $($n),* }
        pub const OPS: &[(Op, &str)] = &[$((Op::$n, stringify!($n))),*];
    };
}
ops!(
    Create, Destroy, Remove, Add, Rem, Has, HasG, Get, GetG, Set, SetG, Ents, Iter,
    BulkCreate, BulkDestroy, BulkAdd, BulkRem, BulkRemove, Spread, Churn, Walk, DropReg, MoveReg, SwapRegs, Audit, Mark,
    // on the crate's parts by themselves (parts.rs)
    ANew, APush, AMake, AWrite, ASwap, ALast, ATake, ADrop, AMove, AReplace, AOne, ASet, AClear, AGone, AFar,
    SFind, SMake, SAdd, SRem, SIter, SPush, SPop,
    ECreate, EDestroy, EPoint, EProbe, EList
);
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Href {
    None,
    By(u32, u32),
    Raw(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// fail `len` allocator calls starting with the at-th of this step
    Alloc(u32, u32),
    /// the at-th destructor run by this step panics
    Drop(u32),
    /// the at-th callback (filter call or loop body) of this step panics
    Cb(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Step {
    pub id: u32,
    pub client: u8,
    pub reg: u8,
    pub op: Op,
    /// group, or component type for single-component operations
    pub g: u16,
    pub h: Href,
    pub n: u32,
    pub a: u32,
    pub b: u32,
    /// number of yields and number of yield points to pass first
    pub y: u32,
    pub ys: u32,
    pub fault: Fault,
}
impl Step {
    pub fn new(id: u32, reg: u8, op: Op) -> Step {
        Step { id, client: 0, reg, op, g: 0, h: Href::None, n: 0, a: 0, b: 0, y: 0, ys: 0, fault: Fault::None }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Step(Step),
    Resume(u8),
}
#[derive(Clone, Debug)]
pub struct Trace {
    pub seed: u64,
    pub prop: String,
    pub mode: String,
    pub heap: HeapCfg,
    pub nregs: u8,
    pub audit: u32,
    pub evs: Vec<Ev>,
}
pub fn ev_text(e: &Ev) -> String {
    match e {
        Ev::Resume(c) => format!("resume c={c}"),
        Ev::Step(s) => {
            let h = match s.h {
                Href::None => "-".into(),
                Href::By(i, k) => format!("{i}.{k}"),
                Href::Raw(r) => format!("{r:#x}"),
            };
            let f = match s.fault {
                Fault::None => "-".into(),
                Fault::Alloc(a, l) => format!("alloc:{a}:{l}"),
                Fault::Drop(a) => format!("drop:{a}"),
                Fault::Cb(a) => format!("cb:{a}"),
            };
            format!("step id={} c={} r={} op={:?} g={} h={} n={} a={} b={} y={} ys={} fault={}", s.id, s.client, s.reg, s.op, s.g, h, s.n, s.a, s.b, s.y, s.ys, f)
        }
    }
}
pub fn head_text(t: &Trace) -> String {
    let h = &t.heap;
    format!(
        "run seed={} prop={} mode={} hseed={} fill={} reuse={} inplace={} slack={} tight={} nregs={} audit={}",
        t.seed, t.prop, t.mode, h.seed, h.fill, h.reuse_pm, h.inplace_pm, h.slack_pm, h.tight as u8, t.nregs, t.audit
    )
}
pub fn parse(s: &str) -> Option<Trace> {
    let mut t: Option<Trace> = None;
    for l in s.lines() {
        let mut it = l.split_whitespace();
        let w = match it.next() {
            Some(w) => w,
            None => continue,
        };
        let kv: std::collections::BTreeMap<&str, &str> = it.filter_map(|x| x.split_once('=')).collect();
        let num = |k: &str| -> u64 { kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(0) };
        match w {
            "run" => {
                t = Some(Trace {
                    seed: num("seed"),
                    prop: kv.get("prop")?.to_string(),
                    mode: kv.get("mode")?.to_string(),
                    heap: HeapCfg { seed: num("hseed"), fill: num("fill") as u8, reuse_pm: num("reuse") as u16, inplace_pm: num("inplace") as u16, slack_pm: num("slack") as u16, tight: num("tight") == 1 },
                    nregs: num("nregs") as u8,
                    audit: num("audit") as u32,
                    evs: vec![],
                })
            }
            "resume" => t.as_mut()?.evs.push(Ev::Resume(num("c") as u8)),
            "step" => {
                let op = OPS.iter().find(|(_, n)| Some(n) == kv.get("op").as_deref())?.0;
                let h = match *kv.get("h")? {
                    "-" => Href::None,
                    x if x.starts_with("0x") => Href::Raw(u32::from_str_radix(&x[2..], 16).ok()?),
                    x => {
                        let (a, b) = x.split_once('.')?;
                        Href::By(a.parse().ok()?, b.parse().ok()?)
                    }
                };
                let f: Vec<&str> = kv.get("fault")?.split(':').collect();
                let fault = match f[0] {
                    "alloc" => Fault::Alloc(f[1].parse().ok()?, f[2].parse().ok()?),
                    "drop" => Fault::Drop(f[1].parse().ok()?),
                    "cb" => Fault::Cb(f[1].parse().ok()?),
                    _ => Fault::None,
                };
                t.as_mut()?.evs.push(Ev::Step(Step {
                    id: num("id") as u32, client: num("c") as u8, reg: num("r") as u8, op, g: num("g") as u16, h,
                    n: num("n") as u32, a: num("a") as u32, b: num("b") as u32, y: num("y") as u32, ys: num("ys") as u32, fault,
                }))
            }
            _ => {}
        }
    }
    t
}
