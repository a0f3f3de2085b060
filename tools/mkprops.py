#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
R="src/registry/registry.rs"; AR="src/archetype_registry/mod.rs"; DA="src/archetype/data_access.rs"; AM="src/archetype/mod.rs"
ER="src/entity_registry/mod.rs"; EE="src/entity_registry/entry.rs"; EN="src/entity_registry/entity.rs"; EI="src/entity_registry/iterator.rs"
IT="src/archetype_registry/iterators/"; AD="src/descriptors/archetype_descriptor.rs"; CG="src/descriptors/component_group.rs"
CGD="src/descriptors/component_group_descriptor.rs"; CD="src/descriptors/component_descriptor.rs"; IX="src/entity_registry/index_in_archetype.rs"
IF=[IT+f for f in ("archetype_iter.rs","archetype_iter_mut.rs","matching_iter.rs","matching_iter_mut.rs")]
FF=[IT+f for f in ("filter_archetype_iter.rs","filter_archetype_iter_mut.rs","filter_matching_iter.rs","filter_matching_iter_mut.rs")]
OBS=["Registry public API"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=OBS,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Stale handles stay dead; live handles stay unique",
  "A handle returned by entity creation keeps naming that one entity until the entity is destroyed or removed by anybody, however much the entity is moved in the meantime. From then on every operation through that handle, or through any handle that was never issued, reports failure and changes nothing, until the handle's slot has been reused 256 times. No two live entities ever have equal handles.",
  ["histories","schedules"],"all interleaved histories of several clients creating, destroying, removing, migrating and keeping copies of handles, including long reuse of single slots",
  "Tests reuse a slot once or destroy 1024 handles in one fixed order; they never reach version wrap-around, random free-list orders or handles shared between clients.",
  [ER,EE,EN,R],[("version bump and free list on destroy","EntityRegistry::destroy_entity"),("version check on lookup","EntityRegistry::entity_entry")],
  [("entities","slot table: version, row, component-set index","EntityRegistry"),("next_free_slot","head of the free list threaded through dead slots","EntityRegistry")])
p("C02","Every live entity keeps exactly its own component values",
  "At every moment a live entity has exactly the component types its history gave it, and every access path (single, grouped in any type order, shared or mutable) yields the value last written to that entity. No operation on another entity, no growth, compaction or reordering of storage, and no sequence of component additions and removals alters a value it was not addressed to.",
  ["histories","schedules","configurations"],"all histories of interleaved create/destroy/remove/add/remove-component/write by several clients, over component types of every size, alignment and type order, and all memory placements the allocator may choose",
  "Tests use three usize components, mostly with identical default values, one type order and few rows; swapped rows, mixed sizes and growth with distinguishable values are not observed.",
  [R,DA,AM,CG,CGD],[("swap-with-last and index fix-up","Registry::destroy_entity / remove_entity / add_component / remove_component"),("column copy between component sets","Archetype::copy_common_components_between_archetypes_unchecked"),("growth","Archetype::resize_capacity"),("type-order mapping","ComponentGroupDescriptor::compute_sort_mappings")],
  [("pointers","one column per component type","Archetype"),("entity_associations","row to handle","Archetype")])
p("C03","Each component value is released exactly once",
  "Every component value handed to the registry is at all times in exactly one place: owned by the registry, given back to the caller, or dropped. Destroying an entity drops exactly its components, removing one gives them back undropped, moving an entity between component sets drops nothing, a rejected operation gives its arguments back undropped, and dropping the registry drops exactly the values still inside, once each.",
  ["histories","schedules"],"all histories and all points at which the registry itself is dropped, over component types with and without destructors, including zero-sized ones",
  "No test observes destructor calls (the drop-logging test types are never used), so leaks and double drops are invisible to them.",
  [R,DA,AM,CD],[("row drop","Archetype::drop_entity"),("bulk drop","Archetype::drop_entities, Drop for Archetype"),("forget after move-in","Archetype::write_entity_unchecked")])
p("C04","Matching iteration visits every matching entity once",
  "Iterating over a component group, shared or mutable, with or without entity handles, yields every live entity that has all components of the group exactly once and no other, whatever route gave it those components. Within each yielded batch the handle and the components at one position belong to the same entity, in the type order asked for, with their current values, and iteration ends and stays ended.",
  ["histories","inputs","configurations"],"all reachable registry states and all component groups from 1 to 14 types in any type order",
  "Tests iterate over one or two component sets in creation order with no destroyed entities; they count batches rather than checking content after churn.",
  [AR]+IF+[DA],[("level scan over component-set index","ArchetypeIter / ArchetypeIterMut"),("subset test and column lookup","contains_subset, get_fuzzy_pointers_unchecked")],
  [("sorted_mappings","per-length sorted index of component sets","ArchetypeRegistry")])
p("C05","Filtered iteration equals matching iteration restricted by filter",
  "Filtered iteration, in all four variants, yields exactly the entities of the corresponding unfiltered iteration whose component set the filter accepts, each once, aligned and with current values. The description the filter sees always truthfully names the component set concerned, and whatever the filter answers, including answers that change from call to call or filters that themselves read the registry, only that component set's inclusion is affected.",
  ["histories","inputs","schedules"],"all reachable states, all groups, pure, stateful and re-entrant filters",
  "No test calls any filtered iterator.",
  [AR]+FF+[AD],[("filter call","FilterArchetypeIter::next / FilterArchetypeIterMut::next"),("predicates","ArchetypeDescriptor::has_component / contains_subset / excludes_subset")])
p("C06","Exact iteration returns exactly the entities with that set",
  "Exact iteration over a component group, shared or mutable, with or without handles, yields exactly the live entities whose component set equals the group, once each, aligned and with current values. It makes no difference in which type order the group is written or by what route (creation, adding, removing components, in any order) an entity came to have that set.",
  ["histories","inputs"],"all histories of creation and component additions/removals that lead to a set, all type orders, sets of 1 to 14 types",
  "No test calls exact iteration on a registry, and none checks that a set reached by adding components is the same set as one created directly.",
  [R,AR,AD,CGD],[("set identity","ArchetypeDescriptor::compute_archetype_id, ComponentGroupDescriptor::new"),("lookup","ArchetypeRegistry::find_archetype / find_archetype_mut")])
p("C07","A rejected operation changes nothing",
  "An operation that reports failure (a dead or foreign handle, a component already present or absent, the last or a fifteenth component, a group that repeats a type, a removal whose group is not exactly the entity's set) leaves every entity, component and handle and the order in which they are iterated as they were, and gives back the very values passed to it. Queries for a group that is invalid or not fully present answer no/none, and asking never panics.",
  ["histories","inputs"],"all reachable states and all invalid or inapplicable requests against them",
  "Tests try the null handle and one missing component on a one-entity registry; rejected removals and invalid groups on populated registries are never followed by a comparison of the whole state.",
  [R,ER,AD,CGD],[("validity checks","Registry::*"),("group validation","ComponentGroupDescriptor::validate_component_descriptors")])
p("C08","A failed memory allocation leaves the registry as it was",
  "If memory runs out during an operation, the operation ends in a panic or reported failure, and if the caller survives that, the registry is still fully usable and every entity, component value and handle is exactly as before the operation. Values passed to the failed operation are dropped or returned once, nothing is dropped twice, and the same operation succeeds once memory is available again.",
  ["fault_sequences","histories"],"every allocation request of every operation failing, singly or for a while, in all reachable states",
  "No test makes an allocation fail.",
  [AM,DA,R,AR,ER],[("allocation and growth","Archetype::with_capacity, Archetype::resize_capacity"),("ordering of growth and bookkeeping","Registry::create_entity / add_component / remove_component")])
p("C09","A panicking component destructor corrupts nothing",
  "If a component's destructor panics while the registry destroys an entity or is itself dropped, no component value is ever dropped twice or used after being dropped. When the caller survives a panic during entity destruction, the destroyed entity is gone, its handle is dead, and all other entities keep their values and remain usable.",
  ["fault_sequences","histories"],"a panic in any destructor call at any position of the row or column being dropped, in all reachable states",
  "No test has a component whose destructor panics.",
  [R,DA,AM,CD],[("row drop ordering","Registry::destroy_entity, Archetype::swap_drop_unchecked"),("bulk drop","Archetype::drop_entities, Drop for Archetype")])
p("C10","Storage touches only its own memory and returns all of it",
  "The registry only reads and writes inside memory blocks it has obtained and not yet returned, suitably aligned for each component type, and never interprets memory it has not initialised. Every block goes back to the allocator exactly once with the size and alignment it was requested with, no zero-sized block is requested, and after the registry is dropped none is outstanding.",
  ["histories","configurations","fault_sequences"],"all histories over component types of size 0 to tens of kilobytes and alignment 1 to 4096, under every placement, reuse, in-place or moving reallocation and prior memory content an allocator may legally choose",
  "Tests run on one benign allocator with 8-byte components; they cannot see overruns into slack, use of stale memory, wrong layouts or leaks.",
  [DA,AM],[("column layouts","Archetype::with_capacity / resize_capacity / dealloc"),("row addressing","offset by size*index in Archetype accessors")],obs=["global allocator interface","Registry public API"])
p("C11","The entity limit is reachable, exact and recoverable",
  "A registry accepts entities until 16,777,215 are alive, whether they share one component set or are spread over many, and keeps all their values correct. Creation beyond that is refused with the values given back and nothing changed, and every destroyed entity makes room for exactly one new one.",
  ["histories","fault_sequences"],"all distributions of entities over component sets up to the limit, all destroy/refill patterns at the limit",
  "Tests stop at about two thousand entities.",
  [ER,IX,DA,R,"src/constants.rs"],[("slot limit","EntityRegistry::create_entity"),("row limit and growth clamp","Archetype::resize_if_necessary / resize_capacity, IndexInArchetype::new")])
p("C12","The component-set limit is reachable, exact and harmless",
  "A registry supports 65,534 different component sets; operations that would need one more are refused, giving their values back and changing nothing. Sets that already exist keep working fully at the limit, and all sets remain distinct however many there are.",
  ["histories","fault_sequences"],"all orders of introducing component sets by creation, addition and removal, all operations at the limit",
  "Tests create at most a handful of component sets.",
  [AR,"src/constants.rs","src/entity_registry/archetype_index.rs"],[("limit check and index insertion","ArchetypeRegistry::find_or_create_archetype")])
p("C13","Different component sets are never confused",
  "Two entities share storage, and are seen together by exact and filtered iteration, only if their component sets are equal as sets of types; whatever identifiers the types have, no two different sets of uniquely identified types are ever treated as one, and no such set is refused. This holds for sets of 1 to 14 types built in any order.",
  ["inputs","histories"],"all assignments of distinct type identifiers, all sets of up to 14 of them, all construction routes",
  "Tests use identifiers 1 to 6 and sets of up to three types, for which the internal 32-bit set identifier never collides.",
  [AR,AD,CGD,"src/fnv1a.rs"],[("set identifier","ArchetypeDescriptor::compute_archetype_id"),("index lookup","ArchetypeRegistry::find_or_create_archetype")])
p("C14","Registries and concurrent readers do not influence each other",
  "Operations on one registry never change what another registry in the same process contains or reports, even when operations on both are in progress at the same time on different threads. Any number of readers may interleave their lookups and iterations on one registry, on any threads and from inside each other's filters, and each observes exactly what it would observe alone; a registry may move between threads between operations.",
  ["schedules","histories"],"all interleavings of several clients' operations on several registries and of several readers' steps on one registry",
  "All tests are single-threaded with one registry at a time and never hold two iterators.",
  [R,AM,AR],[("no shared mutable state; Send and Sync","unsafe impl Send/Sync for Archetype")])
p("C15","An abandoned or unwound iteration leaves no trace",
  "Giving up any iteration after any number of batches, or having the caller's filter or loop body panic in the middle of it, leaves the registry fully usable with every entity, value and handle as it was, apart from writes the caller itself made through the batches it received. A later iteration again sees everything.",
  ["fault_sequences","histories"],"cancellation or panic at every step of every kind of iteration in all reachable states",
  "Tests always run iterations to completion and never panic inside one.",
  IF+FF+[R],[("iterators hold no registry state","ArchetypeIter*, FilterArchetypeIter*")])
p("C16","Mutable iteration hands out disjoint, effective access",
  "All batches of one mutable iteration may be held and written at the same time: they never overlap, and after the iteration every entity that was visited shows exactly what was written at its position, through every other access path, while all other entities and components are unchanged.",
  ["histories","inputs"],"all reachable states, all groups and filters, writes to any subset of positions in any order while all batches are held",
  "Tests only read through mutable iterators, one batch at a time.",
  [IT+"archetype_iter_mut.rs",IT+"filter_archetype_iter_mut.rs",IT+"matching_iter_mut.rs",IT+"filter_matching_iter_mut.rs",R,DA],[("aliasing argument in the mutable iterators","ArchetypeIterMut::next, FilterArchetypeIterMut::next")])
p("C17","Behaviour depends on the operation history only",
  "The same sequence of operations gives the same results, the same handles and the same iteration order every time, in every process, regardless of where the allocator places memory, whether reallocation moves it, what it contained before, and what other registries are doing.",
  ["histories","configurations","schedules"],"all histories, each under many memory placements and with or without unrelated activity interleaved",
  "Each test runs a history once; none compares two executions.",
  [R,AR,ER,DA],[("index order and free list depend on history only","sorted_mappings, next_free_slot")])
p("C18","Churn never exhausts the registry",
  "However long a program creates and destroys entities and adds and removes components, as long as its peak numbers of live entities and component sets stay below the limits, operations keep succeeding. The registry never consumes more entity slots than the peak number of simultaneously live entities, and repeating the same cycle of work does not grow its memory.",
  ["histories"],"all cyclic workloads, over arbitrarily many cycles",
  "Tests run each workload once.",
  [ER,DA,AR,R],[("free list","EntityRegistry::create_entity / destroy_entity"),("row reuse","Archetype::swap_drop_unchecked, decrement_len_unchecked")])
p("C19","Entity enumeration lists exactly the live entities",
  "Enumerating the registry's entities yields the handle of every live entity exactly once and nothing else, after any history, including when every slot has been used and freed; each yielded handle is usable and equal to the one creation returned.",
  ["histories","schedules"],"all histories, including destruction in arbitrary order and failing operations",
  "The only test assertion about it checks that yielded handles are known ones, on a registry with no destroyed entities.",
  [EI,ER,EE],[("slot scan","EntityIter::next"),("dead-slot marking","EntityEntry::invalidate")])
p("C20","Structural changes succeed exactly when they are allowed",
  "Creating an entity from any 1 to 14 distinct types, destroying a live entity, removing it as exactly its set, adding a component it lacks when it has fewer than 14, and removing a component it has when it has more than one, always succeed within the documented limits; removal returns the entity's current values. All other requests of these kinds are refused and never panic.",
  ["histories","inputs"],"all reachable states and all requests, including entities with 13 and 14 components and every type order",
  "Tests add one component to a two-component entity and remove one from a three-component entity; sets of 4 to 14 types are never exercised.",
  [R,AR,AD,CGD],[("descriptor edit","ArchetypeDescriptor::add_component / remove_component"),("destination lookup","find_or_create_archetype_adding_component / _removing_component")])
p("C21","Entity handles pack and unpack index and version losslessly",
  "For every index below 2^24 and every version, building a handle and reading its parts gives them back, and setting one part leaves the other unchanged; the same holds for the packed slot entries.",
  ["inputs"],"all 2^32 handles","The tests use a few sample values.",[EN,EE,IX],[("bit packing","Entity, EntityEntry, IndexInArchetype")])
p("C22","Component-set descriptions implement set algebra",
  "Descriptions of component sets answer membership, subset and exclusion questions, and produce enlarged or reduced descriptions, exactly as the finite sets of types they stand for.",
  ["inputs"],"all pairs of descriptions of up to 14 types","The tests use sets of up to three types.",[AD,CGD],[("linear and binary searches over sorted type ids","ArchetypeDescriptor")])
p("C23","Derived components equal hand-written ones",
  "Deriving the component trait for a type gives it the same name and identity as the documented hand-written implementation, for types with any generics and bounds.",
  ["programs"],"all type definitions","There are no tests of the derive macro.",["shard_ecs_derive/src/lib.rs"],[("macro expansion","derive_component")])
p("C24","Archetype storage used by itself is a faithful sequence of rows",
  "An archetype created and used directly through its public methods, within their documented preconditions, always holds exactly the rows (entity handle and one value per component type) that the calls so far left in it, in the positions they are documented to be in: pushing appends, swapping exchanges two whole rows, moving to last, swap-removing and swap-dropping affect the named row and the last one only, copying common components changes the destination row only. Lengths, capacity, handles, single values, rows and slices, exact or of any subset of the types in any order, mutable or not, all show the same rows, for every initial capacity including none. Values are destroyed or given back exactly once, memory is used within its bounds and returned, and running out of memory panics and leaves the rows as they were.",
  ["inputs","histories","fault_sequences"],"all component sets and initial capacities, all sequences of the public operations within their contracts, allocation failure at every point",
  "Tests use two or three types without destructors and a few operations, never archetypes of several sets together, zero-sized or over-aligned types, or failing allocations.",
  [AM,DA],[("row operations","Archetype::push_entity_unchecked, swap_remove_unchecked, swap_drop_unchecked, swap_to_last_unchecked, swap_entities"),("views","get_fuzzy_pointers_unchecked, get_slices_unchecked_exact"),("transfer between archetypes","copy_common_components_between_archetypes_unchecked")])
p("C25","The archetype registry gives each component set one lasting archetype",
  "Used directly, the archetype registry finds an archetype for a description exactly when one for that set of types was made before, whatever the order of types in the description; making one gives an existing set its existing index and every new set an index of its own, which names the archetype of that set from then on. Deriving a set by adding or removing a component gives the archetype of exactly the derived set together with the source, or nothing, without effect, when the source index names no archetype, the type is already or not present, or the result would have no or more than 14 types. Its iterators visit every archetype with rows that contains the group's types and passes the filter once, and no other. Refused and failed requests change nothing.",
  ["inputs","histories","fault_sequences"],"all sequences of lookups, creations, derivations and iterations, all descriptions including ones of equal set identifiers, all source indices, allocation failure at every point",
  "Tests create three archetypes and look them up.",
  [AR,AD]+IF+FF,[("index lookup and insertion","ArchetypeRegistry::find_or_create_archetype, compare_key"),("derivation","find_or_create_archetype_adding_component / _removing_component, disjoint_mut")])
p("C26","The entity registry used by itself maps live handles to their locations",
  "Used directly, the entity registry gives each registered entity a handle no other live entity has and reports, for exactly the live handles, the location (archetype index and index in the archetype) last stored for it, whichever of all representable locations that is; entries of other handles are never given out and destroying them has no effect. Listing yields the live handles once each. Registration succeeds, and is said to be possible, exactly while fewer than 16,777,215 entities are registered; slots are reused before new ones are taken, and running out of memory changes nothing.",
  ["inputs","histories","fault_sequences"],"all sequences of registration, relocation and destruction, all locations, all handles, up to the limit, allocation failure at every point",
  "Tests use two locations and at most 1,024 entities destroyed in one order.",
  [ER,EE,EI,IX],[("slot reuse and free list","EntityRegistry::create_entity / destroy_entity"),("entry layout","EntityEntry"),("enumeration","EntityIter::next")])
p("C27","Demand for memory stays within bounds set by the contents",
  "Queries about an entity and access to its components, mutable or not, never ask the allocator for memory; enumeration and iteration make no more than a number of requests logarithmic in the slots and sets they pass. A structural operation on one entity makes a number of requests bounded by the number of its component types, whatever the registry holds, and creating n entities makes a number of requests that grows only with the logarithm of n. A registry never holds more memory than a fixed multiple of what the most entities there ever were at once of each component set, and the component sets themselves, need; failed, rejected and abandoned operations do not raise that.",
  ["inputs","histories"],"all histories, populations from one entity to tens of thousands per set and thousands of sets; the multiples are those of DESIGN.md",
  "Tests never count requests or bytes, and create more than a few hundred entities only once.",
  [AM,AR,ER,DA],[("growth of the columns","Archetype::grow, push_entity"),("growth of the entity table and the free list","EntityRegistry::create_entity"),("growth of the set table","ArchetypeRegistry::find_or_create_archetype")])
p("C28","Operations take work in proportion to what they concern, not to the population",
  "Querying, reading, writing, adding, removing, creating or destroying one entity, when no storage has to grow, takes a bounded amount of work in terms of the bytes of its rows (or the logarithm of the number of component sets), no matter how many entities and sets there are or were and how they were freed. Enumerating entities takes work proportional to the slots ever used and starting and finishing an iteration takes work proportional to the number of component sets, whatever the number of entities in them. Creating n entities takes work proportional to n.",
  ["inputs","histories"],"all histories, populations from one entity to tens of thousands; work is counted in accesses to memory",
  "Tests do not count work; with their few entities every complexity looks the same.",
  [AM,AR,ER,DA],[("location of an entity's row","EntityRegistry::get_entity_entry, Archetype::swap_remove"),("free list","EntityRegistry::create_entity / destroy_entity"),("lookup of a set","ArchetypeRegistry::find_archetype")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
