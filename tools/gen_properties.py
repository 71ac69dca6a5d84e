import json
W="arche_tape/src/world.rs"; EN="arche_tape/src/entities.rs"; EB="arche_tape/src/entity_builder.rs"; BI="arche_tape/src/bitset_iterator.rs"
SQ="arche_tape/src/static_query.rs"; DQ="arche_tape/src/dyn_query.rs"; AV="arche_tape/src/array_vec.rs"; UV="untyped_vec/src/lib.rs"; LIB="arche_tape/src/lib.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Entity handles are unique, and alive exactly from spawn to despawn",
 "A newly spawned entity's handle differs from every handle the same world ever issued before (up to the 32-bit generation of one slot wrapping around), including the handles of component entities created behind the scenes. A handle reports alive exactly between its creation and its despawn, despawn returns true exactly once per handle, and every lookup through a stale handle finds nothing and changes nothing. Two handles compare equal, hash equally and have the same 64-bit value exactly when they are the same handle, and handles are totally ordered.",
 ["histories"],"every finite history of spawns, component registrations and despawns, with any interleaving of slot reuse, on any number of slots and up to 2^32 reuses of one slot",
 "The tests reuse one or two slots once or twice; they never hold hundreds of stale handles over many reuses, never mix component entities and entities in reused slots, and set the generation counter by hand to see it wrap.",
 [EN,W],[("generation bumped when a freed slot is handed out again; alive flag and generation compared on every lookup",EN+" Entities::spawn/is_alive"),("World checks liveness before every structural operation",W)],
 [("generations","per slot (alive, generation)",EN),("despawned","free list of slots",EN),("ecs_id_meta","per slot location and component description",W)],
 ["World::spawn/despawn/is_alive/get_entity_meta","Entities::spawn/despawn/is_alive","EcsId eq/hash/ord/as_u64"])

p("C02","A structural change affects exactly the entity and component it names",
 "After any history of spawns, component additions, component removals and despawns, every live entity has exactly the components its own history gave it, each with the last value written to it. Adding or removing a component, or despawning, never loses, duplicates, swaps or alters any other component value of that entity or of any other entity.",
 ["histories"],"every history of structural operations over any mix of component types (any size, alignment, zero sized or not, with or without destructor, typed or runtime-described), any number of entities and archetypes",
 "The tests move at most ten entities between three archetypes and look at archetype sizes more than at values; the move paths depend on row position, the sort position of the component, cached archetype transitions and slot reuse, which no test varies together.",
 [W,UV,AV,BI],[("rows move between parallel columns with swap-remove and the swapped entity's index is patched",W+" add_component_dynamic_with_data/remove_component_dynamic/Archetype::despawn"),("columns kept sorted by component id so that two archetypes' columns zip",W),("add/remove transition cache",W+" AddRemoveCache, "+AV)],
 [("archetypes","columns of components plus entity list, parallel",W),("instance_meta","entity -> (archetype, row)",W)],
 ["StaticQuery::get","World::has_component","World::get_component_mut_dynamic","World::get_entity_meta"])

p("C03","A query yields exactly the matching entities, each once, with its own row",
 "Iterating a query, typed or dynamic, row-wise or by column, yields each live entity that has all the requested components exactly once and no other entity, and every item's handle and component references all belong to that one entity. This holds whatever the number and order of requested components and the number of distinct component combinations in the world; a component nothing uses yields an empty iteration, an exhausted iterator stays exhausted, and driving an iterator by any standard method gives the items that stepping through it gives. A typed lookup of one entity agrees with the iteration.",
 ["histories","inputs"],"every world reachable by structural operations (including hundreds of component combinations, emptied combinations and reused ids) and every query of 1 to 10 requested items, shared or mutable, with or without entity ids, iterated fully, partially, repeatedly and through any iterator method",
 "The query tests use at most two component combinations and six entities, and the bitset iterator is tested on hand-made words; nothing checks queries after combinations emptied, past the 64- and 128-combination word boundaries, or on ids with reused slots.",
 [SQ,DQ,BI,W],[("per-component bitset over archetypes, intersected word by word",BI),("column base pointers advanced in lock step",SQ+", "+DQ)],
 [("archetype_bitset","component -> set of archetypes",W),("entities_bitvec","all archetypes",W)],
 ["World::query().iter()/get()","World::query_dynamic().iter()/column_iter()"])

p("C04","A write through any access path is what every access path reads next",
 "A component value written through a mutable typed query item, a mutable typed lookup, a dynamic query's pointer (by row or by column) or a direct dynamic pointer is the value every one of those paths reads afterwards, until it is overwritten or removed. It stays so across any later structural changes to this or other entities, and no write through one entity's reference changes another component or entity.",
 ["histories"],"every interleaving of writes over the five mutable paths with structural changes and reads over all paths, for every component size and alignment",
 "Tests read through queries but no test writes through a query and reads the value back by another path or after the entity moved.",
 [SQ,DQ,W,UV],[("all paths resolve (archetype, column, row) to the same storage",SQ+" create_ptr/offset_ptr, "+DQ+" make_create_ptr_fn, "+W+" get_component_mut_dynamic")],
 [("component_storages","one untyped column per component",W)],
 ["StaticQuery::iter/get","DynQuery::iter/column_iter","World::get_component_mut_dynamic"])

p("C05","Every component value given to a world is dropped exactly once",
 "A component value moved into a world is dropped exactly once: when it is removed, when its entity is despawned, or when the world is dropped, and never before, including zero-sized values. A value given to an entity builder that is never built is dropped with the builder, a value given to a call of the safe interface that is refused is dropped, and building again does not duplicate values. Moving an entity between component combinations, growing storage and iterating drop nothing.",
 ["histories"],"every history over component types with destructors (heap-owning, plain, large, over-aligned, zero sized, runtime-described with a drop function), ending with the world dropped at any point",
 "Drop is only tested on a single element of one 16-byte type in UntypedVec; no test counts destructor runs through a World, a builder, a move between archetypes, or for zero-sized types.",
 [W,EB,UV],[("component description carries the destructor; columns call it on pop, swap_remove and drop",UV),("values are forgotten by the caller and bytes moved through the builder's buffer",EB)],
 [("type_info.drop_fn","destructor of a column",UV),("entity_builder_reuse","raw builder buffer kept by the world",W)],
 ["destructor ledger in the component types","World drop","EntityBuilder drop"])

p("C06","No safe use, or contract-abiding unsafe use, causes undefined behaviour",
 "No sequence of calls to the safe API, nor of unsafe calls that keep their documented contracts, makes the library read or write memory outside live allocations, read uninitialised or freed memory, create misaligned or wrongly aliased references, or free memory with a layout other than the one it was allocated with, also when the allocator refuses a request. Safe code reaches a component only on threads its type allows. References and pointers handed out for a component are aligned for it, even when it is zero sized or its storage is empty.",
 ["histories","inputs"],"every history over all component sizes and alignments, storage growth, builder buffer growth and reuse, query iteration and entity moves",
 "A passing test says nothing about undefined behaviour; the tests are not run under a sanitizer or interpreter, use no over-aligned or zero-sized types beyond one, and never grow storage past five elements.",
 [UV,EB,W,SQ,DQ,AV,LIB],[("manual allocation with the element's alignment, byte-wise moves",UV),("byte buffer of pending components",EB),("raw column pointers",SQ+", "+DQ),("uninitialised array",AV)],
 [("data/cap/len","manual vector",UV),("data/cap/len","builder buffer",EB)],
 ["Miri","AddressSanitizer","allocator monitor (layout, canary, poison)","alignment of every reference and pointer"])

p("C07","Mutable query access to a component excludes every other query on it",
 "While a query with mutable access to a component is alive, no other query, typed or dynamic, that accesses that component can be obtained: the attempt waits until the first query is dropped. Queries that only share read access to components, or that have no component in common, never wait for each other (as long as no mutable query waits for one of those components), and dropping a query, even by a panic that is then caught, always releases what it held. This concerns components that some entity has or has had.",
 ["schedules","configurations"],"every pair of typed and dynamic queries over any overlap of components and access modes, held and requested in any order by any number of threads sharing a world read-only",
 "No test ever holds two queries at once, in one thread or several, so no test observes any locking.",
 [SQ,DQ,W,LIB],[("one reader-writer lock per component, guards kept in the query",SQ+" new, "+DQ+" new"),("lock looked up by component id",W+" lock_lookup/locks")],
 [("locks","one RwLock per component",W),("_guards","guards held by a live query",SQ+", "+DQ)],
 ["World::query","World::query_dynamic","query drop","ThreadSanitizer on component data"])

p("C08","A rejected call or panicking destructor leaves the world intact and usable",
 "When a call is rejected with a panic (adding a component twice, removing an absent one, using a dead or data-expecting entity as a plain component, acting on a dead entity, asking for an impossible capacity) and the panic is caught, no live entity's components, values or handle have changed and the world keeps working. When a component's destructor panics during a removal or despawn, or while an unbuilt builder or the world is dropped, the operation nevertheless takes effect in full: every other value is intact or dropped exactly once, nothing already dropped is reachable, and no memory or entity is left behind.",
 ["fault_sequences","histories"],"every history in which any call may be a rejected misuse and any one destructor run by a removal, a despawn or the drop of a builder or world may panic, followed by further operations",
 "No test continues to use a world after a caught panic, and no test has a destructor that panics.",
 [W,EB],[("checks before the first mutation",W+" add_component_dynamic_with_data/remove_component_dynamic, "+EB+" with_dynamic*"),("bookkeeping before destructors run",W+" Archetype::despawn/remove_component_dynamic")],
 [("entities, columns and locations","must stay parallel",W)],
 ["catch_unwind around every call, then full comparison with the model"])

p("C09","Runtime-described components behave like typed ones of that layout",
 "A component described at run time by size (a multiple of its alignment, as for every Rust type), alignment and destructor stores each value's bytes unchanged, at an address aligned as declared, and its destructor runs exactly once on that address with those bytes. Any live entity can serve as a dataless component, a typed component is accessible by its entity id exactly as by its type, and using an entity as a component, or giving components to a component entity, changes neither what the entity holds nor what it describes.",
 ["inputs","histories"],"every size that is a multiple of its alignment (including zero), alignments up to a page, with and without destructor, in any mixture with typed components and with component entities that have components themselves",
 "The dynamic tests store u32, u64 and u128 in a handful of entities built once; none adds or removes a dynamic component later, uses large or over-aligned layouts, or a destructor.",
 [W,EB,DQ,UV],[("component description stored with the component's entity and copied into columns",W+" ComponentMeta, "+EB+" create_archetype"),("entity moves keep the description",W)],
 [("component_meta","layout and destructor of an entity used as component",W)],
 ["World::spawn_with_component_meta/add_component_dynamic(_with_data)/remove_component_dynamic/get_component_mut_dynamic/query_dynamic","EntityBuilder::with_dynamic(_with_data)"])

p("C10","Despawning a component's entity leaves no trace of the component",
 "Despawning an entity that is used as a component removes that component from every entity that has it and changes nothing else. Afterwards the dead handle names no component in any query or lookup, a type whose component entity was despawned can be used again from scratch, and an entity or component that reuses the slot inherits nothing, neither layout, destructor, data nor matches.",
 ["histories"],"every history that despawns component entities (typed, runtime-described or plain), whether never used, formerly used or in use, and then reuses their slots for entities and components of other layouts",
 "The only test of it returns before its first statement; no test despawns a component entity or reuses its slot.",
 [W,EN,BI,EB],[("generation in the component id distinguishes a reused slot",EN),("per-slot component bitsets",BI+" Bitsetsss"),("type -> component entity map",W+" type_id_to_ecs_id")],
 [("archetype_bitset","indexed by slot, without generation",BI),("lock_lookup, type_id_to_ecs_id, comp_lookup","indexed by full id",W)],
 ["World::despawn","World::query/query_dynamic","World::has_component","World::get_or_create_type_id_ecsid"])

p("C11","The untyped vector behaves like a typed vector",
 "For any element layout and any sequence of pushes, pops, swap-removes, moves of an element to another vector, growths and reads, an untyped vector has the same length, elements and order as a typed vector given the same operations, out-of-range reads and pops on an empty vector report absence, and removing or moving an out-of-range element is refused. Writes through its mutable views are what later reads see.",
 ["inputs","histories"],"every operation sequence on any number of vectors of the same element type, for sized, over-aligned, odd-sized, large and zero-sized element types",
 "The tests push at most five u32 values and move one of at most two elements; none mixes operations or checks what order swap-removal leaves.",
 [UV],[("byte length and capacity, swap with the last element",UV)],
 [("len/cap","in bytes, or element count for zero-sized types",UV)],
 ["UntypedVec::len/raw_len/is_empty/get_raw/get_mut_raw/as_slice/as_slice_mut/as_immut_ptr/as_mut_ptr/pop"])

p("C12","The untyped vector owns each element once and its memory exactly",
 "Every element pushed into an untyped vector is dropped exactly once, by pop, swap-remove or the vector's drop, even when another one's destructor panics, and an element moved to another vector is dropped only by its new owner; a missing destructor drops nothing. All memory a vector allocates is aligned for its element, resized and released with the layout it was allocated with, never accessed out of bounds, and returned when the vector is dropped; where memory is refused, it stops instead of using it.",
 ["histories","inputs"],"every operation sequence over element types with and without destructors, including zero-sized and over-aligned ones, with vectors dropped at any point",
 "Each destructor test uses one vector with one element of one type; none covers zero-sized types, growth, moves followed by drops of both vectors, or memory accounting.",
 [UV],[("drop_fn called on pop; Drop pops everything then deallocates with the stored capacity and alignment",UV)],
 [("type_info","layout and destructor",UV)],
 ["destructor ledger","allocator monitor","Miri","AddressSanitizer"])

p("C13","A built entity depends only on which components the builder was given",
 "Building an entity from a set of components gives one new entity with exactly those components and values, and lands it with all other entities of the same component set, regardless of the order they are given in, the capacity hint, how many there are, whether the combination exists already, and what earlier builders (built, abandoned or rejected) in the same world did. Calling build again returns the same entity and changes nothing, and an abandoned builder leaves no entity behind.",
 ["inputs","histories"],"every set, order and number of typed, runtime-described and dataless components, every capacity hint, every sequence of preceding builders",
 "Tests build with one to three small components in one order; none permutes, exceeds the builder's initial capacities, abandons a builder, or varies the capacity hint beyond not panicking.",
 [EB,W,LIB],[("component bytes appended to a buffer reused across builders",EB),("archetype found by set, or created with columns sorted by id",EB+" build/create_archetype, "+W+" find_archetype_dynamic")],
 [("entity_builder_reuse","buffer and id list of the last builder",W)],
 ["World::spawn/spawn_with_capacity, spawn!","World::get_entity_meta","queries"])

p("C14","Entities share an archetype exactly when their component sets are equal",
 "At any time two live entities are recorded in the same archetype exactly when they have the same set of components, no matter by which sequence of builds, additions and removals they got there, and an archetype once used for a component set is used for that set for the life of the world. Within one archetype the live entities' recorded rows are exactly 0 to n-1, each used once, and column iteration yields one column group per combination with as many rows as it has entities.",
 ["histories"],"every history of structural operations, in particular different routes to the same component set, cyclic add/remove routes, more transitions from one combination than the transition cache holds, and ids with reused slots",
 "One test checks that spawning after an add reuses an archetype; no test takes two routes to one set, cycles through sets, or checks rows of many entities after removals.",
 [W,EB,BI,AV],[("search for an existing archetype by bitset intersection and set size",W+" find_archetype_dynamic(_plus_id/_minus_id)"),("transition cache per archetype",W+" AddRemoveCache"),("row patched on swap-remove",W)],
 [("instance_meta","(archetype, row)",W)],
 ["World::get_entity_meta","DynQuery::column_iter"])

p("C15","Churn is bounded: slots and memory are reused and all memory is returned",
 "Entity slots are reused, so no handle's index ever reaches the largest number of entities, component entities and open builders that existed at one time. Repeating a cycle of operations that returns a world to the same population does not increase its memory use after the first few cycles, and dropping a world returns all memory it allocated.",
 ["histories"],"every history for the index bound and for memory being returned; every repeated population-preserving cycle of spawns, despawns, additions, removals, queries and abandoned builders for the growth bound",
 "No test measures memory, repeats a cycle, or looks at indices after more than one reuse.",
 [EN,W,EB,UV,AV],[("free list of slots",EN),("rows and capacity kept by archetypes, builder buffer kept by the world",W+", "+EB),("bounded transition cache",AV)],
 [("despawned","free list",EN),("entity_builder_reuse","kept buffer, freed by World's Drop",W)],
 ["EcsId::uindex","allocator monitor: live bytes and blocks owned by the library"])

p("C16","Worlds are deterministic and independent of one another",
 "Two fresh worlds given the same sequence of operations produce the same handles, the same results and the same iteration order in every query, in any process. What happens in one world never affects another, even when they are used alternately, share component types and exchange handles in queries and lookups that the receiving world can answer.",
 ["histories","programs"],"every history run in two worlds, alone, interleaved with unrelated worlds, and in separate processes",
 "No test compares two runs or uses two worlds at once, except one query with another world's handle.",
 [W,EN,SQ,DQ],[("no global state; maps are only used for lookup, never iterated",W),("archetype order and row order fix iteration order",BI)],
 [("archetypes","creation order",W)],
 ["recorded event log (handles, locations, query items) of each world"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
