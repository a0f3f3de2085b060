#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
W = "seeded runs of the real crate under a simulated allocator and scheduler, judged after every step against a reference model; "
tech = {
 "C01": (T+"seeded histories with dead, foreign and never issued handles, allocation failures and destructor panics, judged against a reference model", W+"handles are probed through every operation; slot versions are driven past their wrap at 256. Assurance is that of the search: no violation in the runs listed in the evidence."),
 "C02": (T+"seeded histories with storage growth, moves and faults; every value of every live entity compared with the model through all access paths", W+"component types of 32 shapes (0 to 33,000 bytes, alignments up to 4,096). Up to about 131,000 entities in a run (16.7 million in C11), columns up to 4.3 GB."),
 "C03": (T+"ledger of all component values in existence under destructor panics, allocation failures and rejected operations", W+"every construction and destruction of a tracked value is counted, double and garbage drops are recognised by value and by poisoned memory."),
 "C04": (T+"seeded histories and iterations interleaved, compared with the model's matching entities", W+"all four matching iterators, group orders permuted, rows compared with the model one by one."),
 "C05": (T+"seeded filters (constant, set based, inconsistent, re-entrant, panicking) over all four filtered iterators, compared with the model", W+"the descriptor handed to the filter is itself compared with the component sets that exist."),
 "C06": (T+"seeded histories reaching one component set by different routes, exact iteration compared with the model", W+"all four exact iterations with permuted group orders."),
 "C07": (T+"seeded rejected requests, registry compared before and after; returned arguments compared by value", W+"the registry's whole observable state is compared with the model after each rejection."),
 "C08": (T+"for generated histories, allocator failure injected at each reachable allocation of chosen operations, state compared with the model", W+"a failure is injected at the k-th allocator call of an operation, k enumerated over the calls the operation makes, once or persistently; assumes an allocation error hook that unwinds (the default aborts)."),
 "C09": (T+"destructor panics injected at the k-th destructor of destroy and registry drop", W+"k enumerated over the destructors of the operation; values behind the panic may leak (Rust's own rule), must not be dropped twice."),
 "C10": (T+"simulated heap with guard zones, poisoning, placement and reuse faults; every block's layout checked", W+"reads of freed or uninitialised memory are found through poison patterns in values, writes outside blocks through guard bytes; in a part of the runs, in a build with a hook before every load and store, every single access is checked against the blocks that exist."),
 "C11": (T+"registries filled to 16,777,215 entities, with faults and churn at the limit", W+"six seeded scenarios per build in the quick tier: one set, many sets, mixed; values spot-checked and summed over all rows."),
 "C12": (T+"registries driven to 65,534 component sets, with faults and churn at the limit", W+"walks over add and remove create the sets; exact and matching iteration compared at the limit."),
 "C13": (T+"seeded histories over component types whose sets collide in the 32-bit id or hash to the reserved id, compared with the model", W+"the palette contains colliding pairs found by search over type ids, besides random ones."),
 "C14": (T+"seeded preemptive interleaving of client threads on several registries and of concurrent readers, each compared with its model and with the run in isolation", W+"threads are switched inside allocator calls, destructors, filters and loop bodies, one runs at a time; in a part of the runs, in a build with a hook before every load and store, also between any two accesses to memory. Reordering by the hardware is not simulated."),
 "C15": (T+"iterations abandoned or unwound by injected panics at seeded positions, state compared with the model", W+"panics are injected in the k-th filter call or loop body."),
 "C16": (T+"mutable iterations with all batches held and written through at seeded positions, compared with the model and checked for overlap by address", W+"all mutable iterators, single and grouped access."),
 "C17": (T+"each seeded history re-executed under other memory placement, contents and registries, in other processes and builds; all results compared", W+"results include handles, orders and values."),
 "C18": (T+"seeded cycles of work repeated, memory and slots compared between identical cycles", W+"cycles are repeated 4 to 280 times, some with over 65,000 entities; memory is counted exactly by the simulated heap."),
 "C19": (T+"seeded histories, entity enumeration compared with the model's live handles after every kind of step", W+"through EntityRegistry::iter and the registry's own enumeration by matching iteration."),
 "C20": (T+"seeded structural requests judged allowed or refused by the model, under faults, with sets of 1 to 14 types", W+"every request's acceptance, refusal and returned values are compared with the model."),
 "C24": (T+"archetypes created, filled, permuted, converted into each other and released through the public storage interface under allocation failures, compared with a sequence of rows after every call", "seeded histories on up to four archetypes at a time, of 1 to 14 types, in the simulated heap; all views of the archetypes touched are compared with the model. Preconditions documented for the unsafe methods are kept."),
 "C25": (T+"the archetype registry driven directly: lookups, creations, derivations and iterations under allocation failures, compared with a map from sets to indices", "seeded histories over palettes of types, some with colliding set ids; descriptions in all type orders, source indices inside and outside the registry."),
 "C26": (T+"the entity registry driven directly under allocation failures, compared with a map from live handles to locations; some runs at its limit of 16,777,215", "seeded histories with probes through dead and made-up handles, version wrap, extreme locations."),
 "C27": (T+"seeded histories with populations up to tens of thousands under a simulated allocator that counts requests and bytes per operation and per registry", W+"the bounds are about three times what the tree needs, so that other growth policies pass and linear growth or per-call buffers do not."),
 "C28": (T+"seeded histories with large populations in a build with a hook before every load and store; the accesses of each operation are counted and bounded", W+"the count of accesses of one operation stands for its work; the bounds are about seven times what the tree needs. Operations during which storage grows are judged by the total of a bulk creation."),
}
checks = []
for p in sorted(tech):
    t, n = tech[p]
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": t,
        "level": "fault_enumeration" if p in ("C08", "C09") else "exploration",
        "level_note": n,
    })
na = [
 ("C21", "Packing and unpacking handles and slot entries are pure functions of two integers: no schedule, fault or history takes part, so simulation could only sample them. Their effects on histories are covered by C01, C11 and C19."),
 ("C22", "The set algebra of descriptors is pure, const computation on values without state, time, I/O or concurrency; its effects on histories are covered by C05, C13 and C20."),
 ("C23", "The derive macro acts at compile time; there is no execution to simulate."),
]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": checks,
 "not_applicable": [{"property": p, "reason": r} for p, r in na],
 "notes": "No hooks in /repo: the crate's only sources of nondeterminism are the global allocator and its clients, which are the simulator's own seams. Replay a violation with ./check.sh replay FILE. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
