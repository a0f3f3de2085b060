//! What each property's runs look like and which observations decide it.
use crate::gen::Prof;
use crate::step::Op;
use crate::world::*;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C25", "C26", "C27", "C28",
];

/// Kinds that say the registry's state (not one query answer) is wrong.
fn state(kind: &str) -> bool {
    matches!(
        kind,
        "stale" | "dup_handle" | "slots" | "live_fail" | "value" | "misdirected" | "garbage" | "compset" | "groupquery" | "match" | "filter" | "exact" | "enum"
            | "accepted" | "refused" | "ret" | "ret_refused" | "drops" | "double_drop" | "drop_garbage" | "leak" | "leak_mem" | "mem" | "panic" | "stale_panic"
            | "req_panic" | "mutiter" | "overlap" | "crash" | "hang"
    )
}
/// Whether an observation shows that the property is broken.
/// `op` is the class of the operation in progress, `tags` what had happened before.
pub fn accept(prop: &str, kind: &str, op: &str, tags: u8) -> bool {
    let fatal = matches!(kind, "panic" | "crash" | "hang");
    match prop {
        "C01" => matches!(kind, "stale" | "dup_handle" | "live_fail" | "misdirected" | "stale_panic"),
        "C02" => matches!(kind, "value" | "misdirected" | "garbage" | "compset" | "live_fail" | "groupquery") || (fatal && matches!(op, "query" | "query_mut")),
        "C03" => matches!(kind, "drops" | "double_drop" | "drop_garbage" | "leak" | "ret" | "ret_refused") || (fatal && op == "drop"),
        "C04" => kind == "match" || (fatal && op == "match"),
        "C05" => kind == "filter" || (fatal && op == "filter"),
        "C06" => kind == "exact" || (fatal && op == "exact"),
        "C07" => {
            matches!(kind, "accepted" | "ret_refused" | "stale" | "invalidq" | "groupquery" | "stale_panic" | "req_panic" | "reordered")
                || (tags & T_REJ != 0 && state(kind))
                || (kind == "panic" && matches!(op, "query" | "query_mut"))
        }
        "C08" => tags & T_OOM != 0 && state(kind),
        "C09" => tags & T_DROP != 0 && state(kind),
        "C10" => matches!(kind, "mem" | "leak_mem" | "garbage" | "drop_garbage" | "crash"),
        "C11" | "C12" => kind == "limit" || state(kind),
        "C13" => matches!(kind, "exact" | "match" | "filter" | "compset" | "refused" | "value" | "misdirected" | "garbage" | "live_fail" | "crash" | "panic" | "ret"),
        // a client that waits for one which is suspended for good is no violation: nobody is suspended for good
        "C14" => matches!(kind, "nonint" | "reader" | "sendsync") || (tags & T_CONC != 0 && state(kind) && kind != "hang"),
        "C15" => tags & T_ABANDON != 0 && state(kind),
        "C16" => matches!(kind, "overlap" | "mutiter"),
        "C17" => kind == "determinism",
        "C18" => matches!(kind, "refused" | "slots" | "growth" | "leak_mem"),
        "C19" => kind == "enum" || (fatal && op == "enum"),
        "C20" => matches!(kind, "refused" | "accepted" | "ret" | "stale_panic" | "req_panic") || (fatal && op == "struct"),
        "C24" => kind == "part" || state(kind),
        "C25" => kind == "part" || fatal,
        "C27" => kind == "demand",
        "C28" => kind == "work",
        "C26" => kind == "part" || fatal || matches!(kind, "mem" | "leak_mem"),
        _ => false,
    }
}
/// Tag whose faults must be what causes the violation (checked by re-running without them).
pub fn gate(prop: &str) -> u8 {
    match prop {
        "C08" => T_OOM,
        "C09" => T_DROP,
        "C14" => T_CONC,
        "C15" => T_ABANDON,
        _ => 0,
    }
}
/// Foreign violations after which the run can go on.
pub fn tolerable(kind: &str) -> bool {
    matches!(
        kind,
        "match" | "filter" | "exact" | "enum" | "groupquery" | "invalidq" | "compset" | "reader" | "mem" | "leak_mem" | "leak" | "slots" | "mutiter" | "ret_refused" | "ret" | "reordered" | "demand" | "work"
    )
}

pub fn profile(prop: &str) -> Prof {
    use Op::*;
    let b = Prof::base();
    match prop {
        "C01" => Prof { stale_pm: 300, abandon_pm: 50, ..b }.set(&[(Churn, 4), (Destroy, 18), (Remove, 10), (Rem, 16)]),
        "C02" => Prof { stale_pm: 40, invalid_pm: 30, ..b }.set(&[(Set, 8), (SetG, 10), (Add, 24), (Rem, 20), (Spread, 2)]),
        "C03" => Prof { stale_pm: 150, wide_pm: 250, fault_runs_pm: 300, ..b }.set(&[(DropReg, 5), (Add, 20), (Rem, 16), (Remove, 12)]),
        "C04" => Prof { cls: [1, 0, 0], many_pm: 40, wide_pm: 200, ..b }.set(&[(Iter, 26), (Spread, 3)]),
        "C05" => Prof { cls: [0, 1, 0], many_pm: 40, wide_pm: 200, nest_pm: 250, ..b }.set(&[(Iter, 26), (Spread, 3)]),
        "C06" => Prof { cls: [0, 0, 1], wide_pm: 200, ..b }.set(&[(Iter, 26), (Spread, 3), (Add, 24), (Rem, 16)]),
        "C07" => Prof { stale_pm: 350, invalid_pm: 300, cb_pm: 0, fault_runs_pm: 60, wide_pm: 250, ..b }.set(&[(HasG, 7), (GetG, 7), (SetG, 6), (Remove, 14)]),
        "C08" => Prof { alloc_pm: 150, drop_pm: 0, cb_pm: 0, fault_runs_pm: 1000, ..b },
        "C09" => Prof { alloc_pm: 0, drop_pm: 220, cb_pm: 0, fault_runs_pm: 1000, ..b }.set(&[(DropReg, 4), (Destroy, 24)]),
        "C10" => Prof { alloc_pm: 40, ..b },
        "C12" => Prof { alloc_pm: 0, huge_pm: 0, big_pm: 0, many_pm: 0, max_regs: 1, ..b }.set(&[(DropReg, 0), (SwapRegs, 0), (BulkCreate, 0), (Churn, 0)]),
        "C13" => Prof { coll_pm: 500, wide_pm: 250, cls: [1, 1, 3], ..b }.set(&[(Iter, 16), (Spread, 4)]),
        "C14" => Prof { conc_pm: 700, max_regs: 3, nest_pm: 400, mut_pm: 200, steps: (20, 90), fault_runs_pm: 100, ..b }.set(&[(Iter, 22), (Ents, 5)]),
        "C15" => Prof { abandon_pm: 450, cb_pm: 250, alloc_pm: 0, drop_pm: 0, fault_runs_pm: 600, ..b }.set(&[(Iter, 24), (Ents, 5)]),
        "C16" => Prof { mut_pm: 1000, write_pm: 1000, cls: [3, 3, 2], many_pm: 40, wide_pm: 200, ..b }.set(&[(Iter, 26), (Spread, 3)]),
        "C17" => Prof { huge_pm: 1, max_regs: 3, big_pm: 40, ..b }.set(&[(Ents, 4), (Iter, 12), (MoveReg, 3)]),
        "C18" => Prof { alloc_pm: 0, drop_pm: 0, cb_pm: 0, max_regs: 1, ..b }.set(&[(Churn, 6), (Destroy, 16), (Rem, 16), (DropReg, 0), (SwapRegs, 0)]),
        "C27" => Prof { mass: true, alloc_pm: 10, huge_pm: 12, big_pm: 300, many_pm: 60, nest_pm: 0, steps: (10, 60), ..b }.set(&[(BulkCreate, 8), (Iter, 14), (SetG, 5), (Ents, 4)]),
        "C28" => Prof { mass: true, alloc_pm: 0, drop_pm: 0, cb_pm: 0, huge_pm: 8, big_pm: 700, many_pm: 60, nest_pm: 0, max_regs: 1, steps: (20, 80), ..b }.set(&[(BulkCreate, 14), (BulkDestroy, 4), (Ents, 6), (Iter, 10), (DropReg, 0)]),
        "C19" => Prof { big_pm: 100, ..b }.set(&[(Ents, 20), (Churn, 3), (BulkDestroy, 6), (Destroy, 18)]),
        "C20" => Prof { wide_pm: 350, stale_pm: 120, invalid_pm: 120, ..b }.set(&[(Add, 26), (Rem, 20), (Remove, 14)]),
        _ => b,
    }
}
