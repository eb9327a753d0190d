#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

B="static-alloc/src/bump.rs"; UB="static-alloc/src/unsync/bump.rs"; CH="static-alloc/src/unsync/chain.rs"
LK="static-alloc/src/leaked.rs"; FV="without-alloc/src/fixed_vec.rs"; RC="without-alloc/src/rc.rs"
BX="without-alloc/src/boxed.rs"; UN="without-alloc/src/uninit.rs"; WA="without-alloc/src/alloc.rs"
ES="exit-stack/src/lib.rs"; FL="fill/src/fill.rs"; US="unsize/src/lib.rs"

prop("C01","Bump memory is disjoint, aligned, in bounds and never disturbed",
 """For every history of allocation calls (raw layouts, typed slots, leaked values, boxes, level-checked variants) on a thread-safe
 bump allocator, each non-empty allocation handed out lies entirely inside the allocator's own storage, is aligned as requested and
 overlaps no other allocation handed out since the last reset and not given back through an allocator interface. Everything written to an allocation stays exactly as written until its
 owner changes it, no matter which further calls succeed or fail. Zero-sized typed values always succeed with a well-aligned pointer
 and consume no space.""",
 ["histories","inputs"],"all histories of allocation calls with arbitrary sizes/alignments/types on allocators of any storage type, size and base-address alignment, incl. histories that run the storage full",
 "Tests allocate one or two fixed types in fixed order from one storage; the arithmetic (base misalignment, padding at the end, exact fill, oversize requests) depends on the layout sequence and base address.",
 [B],[("try_alloc_at offset arithmetic",B),("compare_exchange on the consumed counter",B)],["returned pointers","content of every live allocation"],
 [("consumed","number of storage bytes handed out","Bump in "+B)])

prop("C02","Bump uses its storage exactly and the level protocol is exact",
 """An allocation on the thread-safe bump allocator succeeds exactly when its size fits at the first suitably aligned address past
 everything handed out so far, is then placed there, and a failed call changes nothing that can be observed. Levels describe
 consumption: the reported level never decreases, changes exactly on successful non-empty allocations, a level-checked call with the
 current level behaves like the unchecked one and returns the new level, and one with a stale level never allocates and, unless it
 reports exhaustion, reports the level that was actually observed. Deallocating and reallocating through either allocator interface
 never lowers the level. Resetting makes the whole storage available again without touching the bytes stored in it, and memory handed
 out holds the bytes the allocator was created with (given or zeroed) wherever nothing has been written since.""",
 ["histories","inputs"],"all call histories including stale levels, failed calls, retries, resets and exact-fill requests",
 "Tests use single allocations at one level; off-by-one at the exact end, padding accounting and stale-level handling depend on the preceding history.",
 [B],[("expected/observed level comparison",B),("reset",B)],["Allocation.level","level()","success or failure kind of every call"])

prop("C03","Bump is linearizable under every thread interleaving",
 """When several threads allocate from one shared bump allocator concurrently, the combined result equals that of some sequential order
 of the same calls: successful non-empty allocations are pairwise disjoint, aligned and in bounds, each returns a distinct level, and
 every thread sees levels that never decrease. A call fails as exhausted only if its request does not fit at some moment during the
 call; a level-checked call succeeds only if the allocator still was exactly at that level, and otherwise reports a level the allocator
 really had. No allocation is lost: the final level is the highest level handed out.""",
 ["schedules","histories"],"all interleavings of the atomic steps of concurrent allocation calls by several threads, with arbitrary per-thread call sequences",
 "tests/threaded.rs runs one racy program with real threads and whatever schedule the OS picks; contended compare-exchange failures at particular points are practically never hit.",
 [B],[("single compare_exchange publishes a new level; retry with observed level",B)],["pointers and levels returned to each thread","level()"],
 [("consumed","shared atomic counter","Bump in "+B)])

prop("C04","Bump satisfies the global allocator contract",
 """Used through the standard global-allocator interface or the local-allocator trait, the bump allocator honours that contract for every
 request sequence, from one thread or several at once under every interleaving: returned blocks have the requested size and alignment and are disjoint from all blocks still in use; zeroed
 allocations read as zero; reallocation, whether growing, shrinking or changing alignment, returns a block of the new layout whose common prefix keeps its content, and a
 failed reallocation leaves the old block intact; deallocation never makes memory in use available again. Ordinary collections backed by
 it behave as with the system allocator.""",
 ["histories","inputs","schedules"],"all sequences of alloc/alloc_zeroed/realloc/dealloc with arbitrary layouts, incl. exhaustion; all interleavings of such sequences on several threads; all operation sequences on std collections",
 "tests/vec.rs pushes a few elements on a single static allocator; shrinking, over-aligned growth, reallocation at exhaustion and dirty memory after reset are not reached.",
 [B,"alloc-traits/src/local.rs"],[("GlobalAlloc/LocalAlloc impls, realloc copy",B)],["returned pointers","block contents"])

prop("C05","Allocator-trait defaults and layout conversions are faithful",
 """For every allocator that implements only allocation and deallocation of the local-allocator trait, the provided zeroed allocation yields a block of
 the requested layout that is entirely zero, and the provided reallocation yields a block of the requested layout holding the common
 prefix of the old one, releases the old block exactly once with its own layout only after success, and on failure leaves the old block
 untouched and unreleased. Conversions between the standard layout type and the trait's layout types preserve size and alignment exactly
 and reject exactly the zero-sized layouts.""",
 ["inputs","histories","fault_sequences"],"all layouts, all sequences of trait calls, all positions at which the underlying allocation fails",
 "The alloc-traits crate has no tests at all; the default methods are overridden by the bundled allocator.",
 ["alloc-traits/src/local.rs","alloc-traits/src/layout.rs","alloc-traits/src/util.rs"],[("default methods of LocalAlloc","alloc-traits/src/local.rs"),("Layout/NonZeroLayout conversions","alloc-traits/src/layout.rs")],["calls arriving at the implementor","returned allocation"])

prop("C06","The single-threaded bump allocators are sound for any backing memory",
 """The single-threaded bump allocators, whether stored inline, carved out of any caller-provided byte buffer at any address, or allocated
 on the heap with a requested capacity, hand out only disjoint, aligned allocations inside their own data area, succeed exactly when
 the request fits at the first aligned address past everything handed out, and start empty with the full reported capacity usable, at least as large as requested.
 Turning a buffer into an allocator and back preserves consumption and the buffer's bytes and never touches memory outside the buffer; level-checked calls fail
 without effect unless the level is current. Looking up the slot handed out at a recorded level yields that very slot.""",
 ["histories","inputs","configurations"],"all buffer lengths and address misalignments, inline storage types of any size/alignment, all call histories and buffer round-trips",
 "tests/unsync.rs checks a handful of fixed types in aligned inline storage; misaligned or too-small buffers, round-trips and heap construction are not varied (the heap test fails).",
 [UB],[("try_alloc and capacity arithmetic",UB),("from_mem/into_mem header placement",UB)],["returned pointers","level()","capacity()","buffer bytes"],
 [("index","bytes of the data area consumed","MemBump in "+UB)])

prop("C07","Chained bump allocators keep every allocation and free each block once",
 """Adding further blocks to a chained allocator never moves, invalidates or alters allocations made earlier; all allocations from
 all blocks are disjoint, aligned and inside their block, come from the newest block, and a block can be used up to its full capacity with the
 remaining capacity reported accordingly. Every block is released exactly once: when the chain holding it is dropped, or for all but the newest block of a
 chain merged into another as soon as they are merged, whatever the order of creating, merging and dropping. A block that
 can not be obtained is reported as an error, without any leak.""",
 ["histories","fault_sequences"],"all sequences of chain creations of any size, merges, allocations and drops, with any failing heap request",
 "tests/chain.rs performs one fixed sequence with two blocks and does not observe deallocation.",
 [CH,UB],[("linked list of boxed blocks with Cell links",CH)],["pointers","contents","heap allocations and frees"])

prop("C08","Leaked boxes own their value exactly once",
 """A value placed in a bump allocator as an owning box is dropped exactly once, when the box is dropped (or never if leaked, or when
 the extracted value is dropped), under every sequence of conversions between boxes, raw pointers, pinned forms, slices, unsized forms
 and plain references, and even if its drop panics. The box always dereferences to the value that was put in, and an allocation that
 fails for lack of space hands the value back or drops it once, never twice and never silently forgets it.""",
 ["histories","inputs","fault_sequences"],"all sequences of box creation, conversion, mutation, extraction and drop over all value kinds (drop-tracking, zero-sized, large, unsized), incl. exhausted allocators",
 "tests/leak_box.rs covers a few conversions once each and never with failing allocation or panicking drops.",
 [LK,B,UB],[("LeakBox Drop/into_raw/take/replace paths",LK)],["drop counters","dereferenced value"])

prop("C09","Stack allocation yields a zero-cost slice of exactly the requested length",
 """Running a closure with a dynamically sized stack buffer passes it, for every element type and every length up to the documented stack
 budget, exactly one uninitialised slice of exactly the requested length, aligned for the element type and fully writable without disturbing any
 other live data, and returns the closure's result. A length beyond the budget is refused, by a panic or already when it is requested, before the
 closure runs, so that it never sees a shorter slice. Nested and repeated use is independent, also when a closure panics.""",
 ["inputs","histories"],"all element sizes/alignments, all lengths from zero through the budget and beyond, nested runs, panicking closures",
 "tests/alloca.rs uses two fixed lengths.",
 [LK],[("size-class dispatch to fixed stack arrays",LK)],["slice pointer and length","canaries on the surrounding stack"])

prop("C10","Exit stack pins values stably and drops each exactly once in LIFO order",
 """Values pushed on an exit stack keep their address and content and stay exclusively usable until their scope's stack is dropped or its contents are popped;
 then every value still registered is dropped exactly once, in reverse order of registration, and a drop that panics does not keep the
 remaining values from being dropped. Setting the stack to a single value of its storage type always succeeds, whatever its size and alignment, after dropping everything registered before,
 and a pushed value that no longer fits is refused without effect. No value is ever dropped early or twice.""",
 ["histories","fault_sequences","inputs"],"all sequences of push/set/pop on nested stacks with value types of any size/alignment and a panicking drop (a second panic while unwinding aborts by design)",
 "tests/stackful.rs registers at most a couple of values of one type; no panicking drop, no mixed alignments, no slot reuse chains.",
 [ES],[("intrusive drop chain",ES),("pop-all on drop",ES)],["addresses","drop log"])

prop("C11","The fixed-capacity vector behaves like a bounded standard vector",
 """Under every sequence of operations the fixed-capacity vector agrees with an ordinary vector holding the same elements, except that
 additions beyond its fixed capacity are refused and hand the rejected element back unchanged. Capacity never
 changes and is exactly what the backing memory allows (unbounded for zero-sized elements), operations that the standard vector would refuse are refused without altering
 content, and every element is dropped exactly once.""",
 ["histories","inputs"],"all operation sequences (push/pop/truncate/clear/drain/extend/fill/split/shrink/iterate/compare/slice mutation), element types of any size incl. zero-sized and drop-tracking, capacities and buffer misalignments",
 "tests/fixed_vec.rs checks single operations on tiny vectors; interactions (partially consumed drains, boundary indices, misaligned buffers) are not covered.",
 [FV],[("element shifting via ptr::copy, length bookkeeping, Drain tail handling",FV)],["contents","return values","drop counters"],
 [("length","number of initialised elements","FixedVec in "+FV)])

prop("C12","Fixed-capacity vector stays consistent when user code panics",
 """If an element's drop or clone, a comparison, a predicate or a source iterator panics inside an operation on the fixed-capacity vector, no
 element is dropped twice and no dropped or moved-out element remains reachable in the vector; apart from a drain whose own element
 panics while being dropped, none is leaked either. The vector can still be inspected, used and dropped afterwards.""",
 ["fault_sequences","histories"],"all operation sequences with a panic injected at any call into user code",
 "The suite never panics inside element code.",
 [FV],[("length is lowered before dropping",FV),("Drain restores the tail in drop",FV)],["drop counters","vector contents after the panic"])

prop("C13","Reference-counted pointers keep values alive exactly as long as needed",
 """Under every sequence of cloning, dropping, upgrading, downgrading, unwrapping and converting of strong and weak handles, a shared value
 stays unchanged and accessible while any strong handle exists, is dropped exactly once when the last strong handle goes away
 (even if its drop panics or itself manipulates weak handles), and the reported strong and weak counts match the live handles. Unwrapping
 succeeds exactly for the sole strong owner, upgrading exactly while a strong handle exists, exclusive access exactly for a sole handle, and the
 backing memory is handed back exactly once, only after the value is gone and no other handle refers to it.""",
 ["histories","inputs","fault_sequences"],"all handle histories over several allocations, value types of varied size/alignment, backing memory of varied size, re-entrant and panicking drops",
 "tests/rc.rs exercises short fixed scenarios; ordering between weak and strong release and re-entrancy are not covered.",
 [RC],[("strong/weak counters in a shared header",RC),("Drop impls of Rc and Weak",RC)],["strong_count/weak_count","drop counters","memory returned by unwrap operations"])

prop("C14","Boxes in caller-provided memory own their value and return the memory",
 """A box built in caller-provided memory that is suitably aligned and large enough stores the value there, dereferences to it until it is dropped or extracted, and
 drops it exactly once; conversions to raw or leaked forms and back, and unsizing, keep the same value at the same address. Memory too small or
 misaligned for the value is refused before a value is placed, and extracting the value
 returns it unchanged together with the memory it occupied.""",
 ["histories","inputs"],"all value types (size, alignment, drop tracking, zero-sized, unsized) × memory lengths/misalignments × operation sequences",
 "tests/box.rs checks two scenarios with fitting memory.",
 [BX],[("Box over an uninit region",BX)],["drop counters","addresses","contents"])

prop("C15","Splitting and casting uninitialised memory partitions it exactly",
 """Every operation that splits, shrinks, casts or re-slices a region of uninitialised memory yields regions that lie inside the original, are
 pairwise disjoint, carry the exact requested type, length and alignment, and together with the reported remainder account for every byte
 of the original in order. Requests that do not fit or are misaligned are refused and give the original back
 unchanged, and accessors always expose exactly the region's own extent.""",
 ["inputs","histories"],"all region lengths and base misalignments, element types, split points (incl. boundary and out of range) and sequences of nested splits/casts",
 "The doc examples split once at comfortable offsets in aligned memory; nested splits of typed, slice and opaque regions at odd offsets are untested.",
 [UN],[("pointer/length bookkeeping of views",UN)],["addresses and lengths of all parts","bytes written through each part"])

prop("C16","Allocation helpers copy faithfully and build usable containers",
 """Every helper that copies a slice, string or other dynamically sized value into an allocator returns an exact, independently
 owned copy placed in fresh, aligned memory of that allocator; every helper that creates boxes, reference counts, vectors or raw
 typed memory returns a container backed by fresh memory with at least the requested capacity holding exactly the given value. If memory is
 exhausted they report failure without disturbing the input or existing data.""",
 ["inputs","histories"],"all contents, lengths and element types (incl. zero-sized and over-aligned), all helper sequences up to exhaustion of any local allocator",
 "The suite copies single fixed inputs; zero-length, zero-sized, over-aligned and exhaustion cases are missing.",
 [WA],[("copy_slice/copy_str/copy_dst and box/rc/vec constructors",WA)],["contents and addresses of the results"])

prop("C17","Filling a container consumes exactly what it stores",
 """Filling any supported container from any iterator stores a prefix of the items in order up to the container's remaining space, preserves what it already held, and takes no
 more items from the iterator than it stores or is documented to inspect, so what is left in the iterator is precisely the rest. Filling an optional or fallible
 slot follows the same rule: an occupied option or an existing error takes nothing, an error ends filling and is recorded, and
 no item is ever silently lost.""",
 ["inputs","histories"],"all containers, capacities, pre-fill states and item sequences incl. longer-than-capacity, infinite and erroneous iterators and iterators with misleading size hints",
 "fill/tests use one short iterator per container and do not look at what remains in the iterator.",
 [FL,FV],[("Fill impls",FL)],["container contents","number of next() calls"])

prop("C18","Fill bookkeeping helpers report exactly what happened",
 """The counted, checked and tail-keeping variants of filling agree with plain filling of the same container by the same iterator: the count is the
 number of items taken from the iterator, the rest of the iterator is returned as a tail unless the container has seen the iterator's end (filled to the brim it
 returns a tail even if that is empty), and the tail yields precisely the items that were not taken, in order and each exactly once.""",
 ["inputs"],"all containers × item sequences × capacities",
 "fill/tests check single cases of each variant.",
 [FL,"fill/src/lib.rs"],[("provided methods of Fill",FL)],["returned counts and tails"])

prop("C19","Unsizing preserves identity, behaviour and ownership for every pointer kind",
 """Converting any supported pointer kind to its unsized form (slices, trait objects, closures, user-defined traits) yields a pointer of the same kind to the same
 address whose length, size, alignment and dynamic behaviour are those of the original value, and ownership moves along: reference counts are unchanged and the value is dropped
 exactly once through the unsized pointer. Coercions compare and hash as the functions they apply, and copies of one act alike. Applied to a container holding a value, mutation through either view is the same memory.""",
 ["inputs","histories","programs"],"all pointer kinds × source types (arrays of any length, closures of every arity, trait implementors with varied size/alignment/drop) × conversion sequences",
 "unsize/tests coerce one value per pointer kind and mostly only check that it compiles.",
 [US,"unsize/src/coercion_impls.rs","unsize/src/alloc_impls.rs"],[("metadata captured from the compiler's coercion and re-attached to the raw pointer",US)],["address/metadata of the result","calls through the trait object","drop counters"])

prop("C20","Smart pointers and containers are transparent for standard traits",
 """Equality, ordering, hashing, formatting, borrowing, iteration and dereferencing of every owning pointer and container agree with those of the content they
 hold, for equal and unequal contents alike, including partially ordered values; two handles with equal content are interchangeable as map keys and collection
 elements wherever the plain values are.""",
 ["inputs"],"all contents incl. unordered values such as NaN, for every pointer/container type offering the trait",
 "Doc examples compare single equal values; disagreement for unequal or incomparable contents is not observable from them.",
 [LK,BX,RC,FV],[("forwarding impls",BX)],["trait results vs. the plain value"])

prop("C21","Allocations cannot outlive or be aliased past their allocator in safe code",
 """No program in safe Rust that the compiler accepts can use memory, a box, a slot or a stack entry after the allocator, buffer, stack
 frame or scope it came from was dropped, moved, reset or mutably borrowed, obtain two overlapping mutable views, or send non-thread-safe
 content across threads. Conversely, the corresponding programs that respect those scopes are accepted.""",
 ["programs"],"all safe client programs built from the public constructors and accessors combined with every way of ending the owner's scope",
 "Only a few compile_fail doc examples exist; each checks one entry point.",
 [B,LK,UB,CH,ES,UN,BX,RC,FV],[("lifetime parameters, PhantomData markers, auto-trait bounds",B)],["acceptance or rejection by the compiler"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
