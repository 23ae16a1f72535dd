#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is reviewable; run by hand)."""
import json, os
A = "include/ktl/allocators/"
C = "include/ktl/containers/"
U = "include/ktl/utility/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("A01", "Blocks from region allocators are in-bounds and never overlap",
 "For any history of allocate and deallocate calls on a linear_allocator or a stack_allocator, every non-null block of n bytes lies entirely inside that allocator's Size-byte buffer and shares no byte with any other block that is still live. This holds for every requested size, including sizes near the top of size_t and buffer sizes that are not a multiple of the alignment.",
 ["inputs", "histories"], "all request sizes (64-bit) and all interleavings of allocations with deallocations of any live block",
 "Tests allocate six fixed sizes in one shuffled order and compare only adjacent pointers for inequality, never extents; sizes near SIZE_MAX and other free orders are not reached.",
 [A+"linear_allocator.h", A+"stack_allocator.h", U+"alignment.h"],
 [("bump pointer bounds test and rounding", A+"linear_allocator.h: allocate/deallocate"), ("same for the external block", A+"stack_allocator.h: allocate/deallocate"), ("align_to_architecture", U+"alignment.h")],
 ["pointers returned by allocate()"],
 [("m_Free / Free", "next free byte", A+"linear_allocator.h"), ("m_ObjectCount / ObjectCount", "bytes not yet handed back", A+"linear_allocator.h")])

prop("A02", "Every block is aligned for max_align_t",
 "Every non-null pointer returned by allocate of any allocator in the library, alone or composed, for any size and after any history, is a multiple of alignof(std::max_align_t).",
 ["inputs", "histories", "configurations"], "all request sizes and histories; every allocator and representative compositions",
 "No test looks at the alignment of a returned pointer; only a handful of sizes are requested.",
 [U+"alignment.h", U+"aligned_malloc.h", A+"linear_allocator.h", A+"stack_allocator.h", A+"overflow.h", A+"freelist.h", A+"cascading.h", A+"shared.h"],
 [("align_to_architecture rounding", U+"alignment.h"), ("alignas on the internal buffers", A+"linear_allocator.h, "+A+"stack_allocator.h"), ("64-byte guard keeps alignment", A+"overflow.h")],
 ["pointers returned by allocate()"])

prop("A03", "Requests that cannot be served return null and change nothing",
 "A request no allocator in the composition can serve - larger than what is left, larger than max_size(), outside the accepted size range, or so large that internal size arithmetic would wrap - returns nullptr, never a block smaller than the request. After such a failed request the allocator serves the same later requests and accepts the same deallocations as if the failed request had never been made.",
 ["inputs", "histories"], "all 64-bit sizes at any point of any bounded history, for every allocator",
 "Tests never make a request that fails except through fallback/cascading with small sizes; sizes that wrap are never tried.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"overflow.h", A+"freelist.h", A+"cascading.h", A+"segragator.h", A+"fallback.h", A+"null_allocator.h", A+"type_allocator.h"],
 [("bounds tests before the bump", A+"linear_allocator.h: allocate"), ("guard size added to the request", A+"overflow.h: allocate"), ("range test", A+"freelist.h: allocate"), ("max_size test before growing", A+"cascading.h: allocate"), ("count to bytes", A+"type_allocator.h: allocate")],
 ["result of allocate()", "results of later allocate() calls"])

prop("A04", "Region allocators give space back (LIFO, and in full once empty)",
 "In a linear_allocator or stack_allocator, deallocating the block that was handed out last makes exactly its space available again, so an immediate request of the same or smaller size succeeds, and so on block by block as long as blocks are freed in reverse order of allocation (a block freed out of that order may hold up the reuse of older ones). When every block has been deallocated, in any order, the whole buffer is available again: a request for the largest multiple of the alignment that fits succeeds at the start of the buffer.",
 ["inputs", "histories"], "all bounded allocation/deallocation orders and sizes",
 "The tests use buffers far larger than what they request, so lost space is never noticed.",
 [A+"linear_allocator.h", A+"stack_allocator.h"],
 [("LIFO test and byte counter reset", A+"linear_allocator.h: deallocate"), ("same", A+"stack_allocator.h: deallocate")],
 ["result of allocate() after deallocations"])

prop("A05", "owns() tells exactly whose memory an address is",
 "For every allocator that has owns(), owns(p) is true for every address inside a block the allocator (or one of the allocators it is composed of) has handed out and that is still live, and false for every address outside all memory it manages. null_allocator owns nothing but the null pointer.",
 ["inputs", "histories"], "all 64-bit addresses, after any bounded history",
 "Tests call owns() on the first element of a container only.",
 [A+"linear_allocator.h", A+"stack_allocator.h", A+"cascading.h", A+"fallback.h", A+"segragator.h", A+"freelist.h", A+"overflow.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h", A+"null_allocator.h"],
 [("integer range test", A+"linear_allocator.h: owns"), ("node walk", A+"cascading.h: owns"), ("either side", A+"fallback.h, "+A+"segragator.h: owns")],
 ["owns()"])

prop("B01", "freelist recycles only its own size class and returns all memory",
 "freelist<Min, Max, Alloc> serves exactly the sizes n with Min < n <= Max: each non-null result is a block of at least Max usable bytes not shared with any live block, freed blocks are reused before new memory is requested, and every other size yields nullptr without touching the underlying allocator. On destruction or move-assignment every free block goes back to the underlying allocator exactly once, with the size it was requested with.",
 ["inputs", "histories"], "all sizes, all bounded allocate/deallocate orders, all underlying success/failure outcomes",
 "Tests run one fixed pattern with in-range sizes and never observe the underlying allocator.",
 [A+"freelist.h"],
 [("intrusive free list", A+"freelist.h: allocate/deallocate"), ("release on destruction", A+"freelist.h: release")],
 ["results of allocate()", "calls received by the underlying allocator"],
 [("m_Free", "head of the list of free blocks", A+"freelist.h")])

prop("B02", "fallback tries the primary first and frees where it allocated",
 "fallback<P, F>::allocate returns the primary's block whenever the primary can serve the request, otherwise whatever the fallback returns, and asks each at most once with the unchanged size. deallocate hands each block back, once and with the size it was allocated with, to the very allocator that produced it; the same holds for every tree built with fallback_builder_min / fallback_builder_max.",
 ["inputs", "histories", "fault_sequences"], "all sizes, all success/failure outcomes of the members, all deallocation orders",
 "Tests exercise one or two allocations on each side and cannot see which member received a deallocation.",
 [A+"fallback.h", A+"fallback_fwd.h", U+"builder.h"],
 [("null test then fallback", A+"fallback.h: allocate"), ("owns test", A+"fallback.h: deallocate"), ("builder", A+"fallback_fwd.h")],
 ["calls received by the member allocators"])

prop("B03", "segragator routes by size, identically for allocate and deallocate",
 "segragator<Threshold, P, F> sends requests of n <= Threshold bytes to P only and larger ones to F only, with the unchanged size, and a block is deallocated by the same member that allocated it. A tree built with segragator_builder_min / segragator_builder_max serves a request from the first listed allocator whose threshold is not below the size, for every size.",
 ["inputs", "histories"], "all 64-bit sizes, arbitrary member behaviour, builder trees of several arities",
 "Tests try a few sizes per tree; boundaries between thresholds are not systematically covered and member calls are not observed.",
 [A+"segragator.h", A+"segragator_fwd.h", U+"builder.h"],
 [("threshold comparison", A+"segragator.h: allocate/deallocate"), ("tree construction", A+"segragator_fwd.h: segragator_builder"), ("pow2 / tuple_split_indices / size_invert", U+"builder.h")],
 ["calls received by the member allocators"])

prop("B04", "cascading grows on demand, frees in the right instance, leaks nothing",
 "cascading<Alloc> serves any request a fresh instance of Alloc could serve, however full the existing instances are, and never hands out overlapping live blocks. Each deallocation reaches, exactly once and with the original size, the instance that produced the block, at any depth; an instance is destroyed only when no live block remains in it (or the cascading itself is destroyed or assigned to), instances that hold no block do not pile up (at most one is kept), and every instance is destroyed and its memory released exactly once.",
 ["inputs", "histories"], "all bounded histories over several instances, all sizes, any free order",
 "Tests build at most a few instances and free in two fixed orders; releases are never counted.",
 [A+"cascading.h"],
 [("node list", A+"cascading.h: allocate/deallocate"), ("release", A+"cascading.h: release")],
 ["blocks returned", "construction/destruction of Alloc instances", "system heap"],
 [("m_Node", "head of the instance list", A+"cascading.h"), ("node::Allocations", "live blocks per instance", A+"cascading.h")])

prop("B05", "overflow reports corruption exactly when guard bytes were changed",
 "When a block obtained from overflow<Alloc, Stream> is deallocated, a corruption message is written to the stream if and only if at least one of the 64 bytes before or the 64 bytes after the n user bytes no longer holds the value it had after allocate, and the message names the affected side(s) and the distance of the farthest changed byte. Writes confined to the n user bytes never cause a message.",
 ["inputs", "histories"], "every position and value of changed guard bytes, every small n, several live blocks",
 "Tests corrupt one byte range before one block; all other positions, sides and values are not tried.",
 [A+"overflow.h"],
 [("guard fill", A+"overflow.h: allocate"), ("guard scan", A+"overflow.h: deallocate")],
 ["text written to Stream"])

prop("B06", "overflow reports leaks and construct/destroy imbalance exactly",
 "When an overflow allocator is destroyed it reports leaked memory if and only if the bytes successfully allocated differ from the bytes deallocated, stating the exact difference, and a construction imbalance if and only if the number of construct calls differs from the number of destroy calls, stating the exact difference. A balanced history writes nothing.",
 ["inputs", "histories", "fault_sequences"], "all bounded histories of allocate/deallocate/construct/destroy, including failing allocations",
 "Tests only check that balanced, never-failing histories write nothing.",
 [A+"overflow.h"],
 [("byte and construction counters", A+"overflow.h: allocate/deallocate/construct/destroy/~overflow")],
 ["text written to Stream on destruction"],
 [("m_Allocs", "outstanding bytes", A+"overflow.h"), ("m_Constructs", "outstanding constructions", A+"overflow.h")])

prop("B07", "shared keeps its allocator alive exactly as long as it is referenced",
 "For any sequence of constructing, copying, moving, assigning (including self-assignment and assignment between handles of the same allocator) and destroying shared handles, the wrapped allocator is the same object for all copies, stays usable while any handle to it exists, and is destroyed and its memory released exactly once, when the last handle goes away.",
 ["histories"], "all bounded sequences of handle operations on several handles",
 "Tests copy a handle once or twice inside containers; release is never observed and self-assignment never done.",
 [A+"shared.h"],
 [("UseCount increment/decrement", A+"shared.h"), ("notomic", A+"shared.h")],
 ["destruction of the wrapped allocator", "system heap"],
 [("m_Block->UseCount", "number of handles", A+"shared.h")])

prop("B08", "Forwarding wrappers are transparent and equality is meaningful",
 "reference, global, shared, threaded, type_allocator (and freelist/overflow for equality) pass each allocate, deallocate, owns and max_size call unchanged, once, to the allocator they wrap, and all copies, rebinds and references of one allocator act on the same state. For every allocator a == b and a != b are always opposite, equality holds between an allocator and its state-sharing copies (including across rebound value types), and allocators that cannot take back each other's memory never compare equal.",
 ["inputs", "histories"], "all sizes and addresses, arbitrary behaviour of the wrapped allocator, all copy/assign chains up to the bound",
 "Only one equality test exists, for global, and it never uses !=; forwarding is not observed.",
 [A+"reference.h", A+"global.h", A+"shared.h", A+"threaded.h", A+"type_allocator.h", A+"mallocator.h", A+"null_allocator.h", A+"stack_allocator.h", A+"linear_allocator.h", A+"fallback.h", A+"segragator.h", A+"freelist.h", A+"overflow.h", A+"cascading.h"],
 [("operator== / operator!=", "every allocator header"), ("forwarding methods", A+"reference.h, "+A+"global.h, "+A+"shared.h, "+A+"threaded.h, "+A+"type_allocator.h")],
 ["==, !=", "calls received by the wrapped allocator"])

prop("B09", "Typed allocation is counted in objects, without overflow",
 "type_allocator<T, Alloc>::allocate(n) returns either nullptr or memory for at least n objects of T, for every n including counts whose byte size does not fit size_t; deallocate(p, n) gives back exactly the bytes that allocate(n) took. max_size() objects never need more bytes than the wrapped allocator's max_size().",
 ["inputs"], "all 64-bit counts, several element sizes",
 "Tests allocate at most a few thousand objects.",
 [A+"type_allocator.h"],
 [("sizeof(T) * n", A+"type_allocator.h: allocate/deallocate/max_size")],
 ["calls received by the wrapped allocator", "result of allocate()"])

prop("B10", "Composed allocators give every underlying block back exactly once",
 "In any composition of the library's allocators, each block an underlying allocator handed out is given back to that same allocator exactly once with the size it was requested with - when the user deallocates it or, for recycling allocators, at the latest when the composition is destroyed - provided the user deallocated all blocks. Live user blocks never overlap, whichever members they come from.",
 ["inputs", "histories", "configurations"], "bounded histories over nested compositions (README examples and further nestings), arbitrary sizes, arbitrary success/failure of the underlying allocators",
 "Tests run one short history per composition and cannot see the underlying calls.",
 [A+"cascading.h", A+"fallback.h", A+"freelist.h", A+"overflow.h", A+"segragator.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h"],
 [("size and pointer pass-through of every composite", "allocate/deallocate in each header"), ("release/destructors", A+"freelist.h, "+A+"cascading.h, "+A+"shared.h")],
 ["calls received by the underlying allocators", "system heap"])

prop("B11", "Allocator operations never touch the contents of live blocks",
 "Bytes written by the user into a live block read back unchanged until the block is deallocated, whatever allocations, deallocations, failed requests and queries are performed in between on the same allocator, for every allocator and composition.",
 ["inputs", "histories", "configurations"], "arbitrary contents, bounded histories, every allocator and representative compositions",
 "The tests store one value per block and read some of them back in one order.",
 [A+"freelist.h", A+"overflow.h", A+"linear_allocator.h", A+"stack_allocator.h", A+"cascading.h"],
 [("free-list links live only in free blocks", A+"freelist.h"), ("guards outside the user range", A+"overflow.h"), ("disjoint blocks", "all")],
 ["contents of user blocks"])

prop("B12", "construct and destroy act once on the right object via the owning member",
 "construct(p, args...) through any composite creates exactly one object at p from exactly those arguments, using the construct of the member that owns p when that member has one and plain placement construction otherwise; destroy(p) likewise ends exactly one object's lifetime through the owning member. Neither touches any other member or object.",
 ["inputs", "histories", "configurations"], "arbitrary values, blocks from either member, members with and without construct/destroy",
 "Tests construct one double through one segragator and one through reference.",
 [A+"fallback.h", A+"segragator.h", A+"cascading.h", A+"freelist.h", A+"overflow.h", A+"shared.h", A+"reference.h", A+"global.h", A+"threaded.h", A+"type_allocator.h", U+"meta.h"],
 [("owns-based dispatch", A+"fallback.h, "+A+"segragator.h, "+A+"cascading.h: construct/destroy"), ("detection idiom", U+"meta.h")],
 ["constructed value", "calls received by members"])

prop("T01", "threaded serialises allocation under every schedule",
 "When several threads call allocate, deallocate, owns and max_size on, or compare, one threaded<Alloc> (directly, through reference, atomic_shared or global), no two of their allocate, deallocate and owns calls into the wrapped allocator overlap in time and there is no data race, deadlock or lost update: every block handed out stays disjoint from all live blocks, and after all threads return their blocks the wrapped allocator is as if the calls had been made one after another.",
 ["schedules"], "all interleavings of the threads' synchronisation operations within the bound",
 "The stress test samples a few schedules and would rarely notice a missing lock.",
 [A+"threaded.h", A+"shared.h"],
 [("lock_guard around allocate/deallocate", A+"threaded.h")],
 ["blocks returned to each thread", "data-race freedom of the wrapped allocator"],
 [("m_Lock", "mutex", A+"threaded.h")])

prop("T02", "atomic_shared releases its allocator exactly once under every schedule",
 "When handles to one atomic_shared allocator are copied, assigned and destroyed concurrently from several threads, the wrapped allocator is destroyed exactly once, after every use made through any handle, with no data race, double release or leak.",
 ["schedules"], "all interleavings (and acquire/release visibility) of handle operations of 2-3 threads within the bound",
 "The stress test keeps one handle alive throughout, so the last release never races.",
 [A+"shared.h"],
 [("atomic UseCount with acquire/release ordering", A+"shared.h: increment/decrement")],
 ["destruction of the wrapped allocator"])

prop("C01", "trivial_vector behaves as a sequence",
 "After any sequence of operations (construction in all forms, push_back of values and ranges, emplace_back, emplace, erase of one element and of ranges, pop_back, resize, reserve, clear, element access and iteration), a trivial_vector holds exactly the elements, in the order, that the same operations give on an abstract sequence; size(), empty(), indexing, data() and forward and reverse iteration agree with it, and the returned iterators designate the documented element. Only the elements that resize adds have unspecified values.",
 ["inputs", "histories"], "all bounded operation sequences with arbitrary element values and positions",
 "Tests push a handful of values, erase two and compare; emplace and pop_back are never called.",
 [C+"trivial_vector.h"],
 [("begin/end/endmax bookkeeping", C+"trivial_vector.h"), ("memcpy/memmove of elements", C+"trivial_vector.h: erase/emplace/push_back/set_size")],
 ["elements, size, iterators"],
 [("m_Begin, m_End, m_EndMax", "storage", C+"trivial_vector.h")])

prop("C02", "trivial_array behaves as a fixed-length sequence",
 "After any sequence of constructions, assign, resize, copy, move and element writes, a trivial_array holds exactly the elements of the abstract array: resize keeps the common prefix, assign replaces size and contents, and size(), empty(), data(), indexing and both iteration directions agree.",
 ["inputs", "histories"], "all bounded operation sequences with arbitrary values and sizes",
 "Tests resize and assign with two fixed sizes.",
 [C+"trivial_array.h"],
 [("begin/end bookkeeping", C+"trivial_array.h: resize/assign/constructors")],
 ["elements, size, iterators"])

prop("C03", "trivial_buffer stores Size elements and indexes modulo Size",
 "trivial_buffer<T, Size> keeps Size correctly aligned elements of T in place: a value written at index i is read at every index congruent to i modulo Size, for every 64-bit index and through const and non-const access, and writing one element changes no other. data(), begin()/end(), reverse iteration, size(), fill, list, range, assign, copy and move all agree with that array.",
 ["inputs", "histories"], "all 64-bit indices and arbitrary values, several T and Size",
 "Tests use indices 0..3 of one type and never iterate, read through a const object or wrap.",
 [C+"trivial_buffer.h"],
 [("index % Size", C+"trivial_buffer.h: operator[]/at"), ("raw storage", C+"trivial_buffer.h: m_Data")],
 ["elements"])

prop("C04", "binary_heap is a priority queue",
 "For any sequence of insert, pop, clear, reserve, copy and move on a binary_heap with a strict weak order, peek() and pop() yield an element that no remaining element precedes under Comp, pop() removes exactly that one element, and the heap always contains exactly the multiset of inserted and not yet removed values. insert returns an iterator to the inserted value and find locates a value if and only if it is present.",
 ["inputs", "histories"], "all bounded operation sequences with arbitrary values including duplicates, min, max and custom orders",
 "Tests insert a fixed handful of distinct values and pop them all once.",
 [C+"binary_heap.h"],
 [("percolateUp / percolateDown", C+"binary_heap.h")],
 ["peek, pop, find, size, contents"])

prop("C05", "binary_heap manages element lifetimes exactly",
 "For element types with non-trivial constructors and destructors, a binary_heap never uses, assigns to or destroys an element that is not alive, never constructs over a live one, and by the time it is destroyed has destroyed every element it created exactly once - through every operation including growth, pop of the last element, clear, copy, move, assignment and construction with another allocator.",
 ["inputs", "histories"], "all bounded operation sequences, arbitrary values and orders",
 "Tests use one owning type whose misuse happens to be harmless; no test counts constructions or destructions.",
 [C+"binary_heap.h"],
 [("construct/destroy calls", C+"binary_heap.h: set_size/pop/clear/assignment/constructors")],
 ["element constructor/destructor/assignment calls"])

prop("C06", "Containers return all storage, to the right allocator, with the right count",
 "trivial_vector, trivial_array and binary_heap give every block they obtain back exactly once, with the element count it was allocated with, to an allocator equal to the one it came from, across growth, assignment, copy, move (with the same or a different allocator) and destruction; they never access memory outside the elements they allocated. Nothing remains allocated once all containers are destroyed.",
 ["inputs", "histories"], "all bounded operation sequences with several containers and several allocators",
 "Tests use allocators that ignore or tolerate wrong sizes and never check what is handed back.",
 [C+"trivial_vector.h", C+"trivial_array.h", C+"binary_heap.h"],
 [("Traits::allocate/deallocate pairs", "every container header")],
 ["calls received by the allocator"])

prop("C07", "Copies are equal and independent, moves transfer, self-assignment is harmless",
 "Copy construction and copy assignment (with or without a given allocator) make a container equal to the source and independent of it: later changes to either do not show in the other, and the source is unchanged. Move construction and move assignment transfer the contents and leave the source empty and reusable; assigning a container to itself leaves its contents intact (copy) or valid (move).",
 ["inputs", "histories"], "arbitrary contents and sizes including empty, every copy/move form, shared and separate allocators",
 "Tests compare the copies right after copying four values; independence, empty sources and self-assignment are not covered.",
 [C+"trivial_vector.h", C+"trivial_array.h", C+"trivial_buffer.h", C+"binary_heap.h"],
 [("special member functions", "every container header")],
 ["contents of source and target"])

prop("C08", "Arguments may refer to the container's own elements",
 "Inserting a single value through a reference to an element of the same container (push_back, emplace_back and emplace of trivial_vector, insert of binary_heap) adds the value the element had before the call, also when the call has to grow the storage.",
 ["inputs", "histories"], "every element position, every fill level including exactly full, arbitrary values",
 "No test passes a reference into the container itself.",
 [C+"trivial_vector.h", C+"binary_heap.h"],
 [("growth before the copy", C+"trivial_vector.h: push_back/emplace_back/emplace, "+C+"binary_heap.h: insert")],
 ["contents after the call"])

prop("C09", "Capacity is honoured and references stay valid while it lasts",
 "capacity() is never below size() and never shrinks except by assignment or move; after reserve(n) capacity() is at least n and the contents are unchanged, and as long as the size stays within capacity() no operation that adds elements moves the storage or calls the allocator. Growth is geometric: filling a trivial_vector or binary_heap one element at a time takes a number of reallocations at most logarithmic in the final size.",
 ["inputs", "histories"], "all bounded sequences of reserve, resize, insertion, removal and clear, arbitrary reserve sizes within the bound",
 "Tests check capacity for one reserve call; reallocation is never observed.",
 [C+"trivial_vector.h", C+"binary_heap.h"],
 [("expand / set_size / reserve", C+"trivial_vector.h, "+C+"binary_heap.h")],
 ["capacity(), data(), allocator calls"])

prop("D01", "packed_ptr stores pointer and integer independently",
 "For every pointer aligned as declared and every unsigned integer, a packed_ptr returns exactly that pointer and the integer's low Bits bits; set_ptr never changes the stored integer, set_int never changes the stored pointer, and conversion to bool is false exactly for a null pointer with a zero integer. This holds for every permitted combination of Bits and Alignment.",
 ["inputs", "histories"], "all 64-bit aligned pointers and integers of all unsigned widths, several Bits/Alignment combinations",
 "Tests use two pointers and the value 2.",
 [C+"packed_ptr.h", U+"bits.h"],
 [("masks", C+"packed_ptr.h"), ("log2 of the alignment", U+"bits.h")],
 ["get_ptr, get_int, operator bool"])

prop("D02", "Aligned system allocation is correct on every supported platform path",
 "On each platform path the library can be built for (malloc already aligned, posix_memalign, and the portable over-allocating fallback), aligned allocation returns nullptr or a block of at least the requested size aligned as requested, for every size and every power-of-two alignment of at least a pointer (up to alignof(max_align_t) where malloc is already aligned, the only alignment requested there), and freeing it releases exactly the underlying system block once; a size too large to allocate yields nullptr.",
 ["inputs", "configurations", "fault_sequences"], "all sizes and alignments, all placements and failures of the system allocator, each compile-time path",
 "Only one path is compiled on the test platform and only with small sizes.",
 [U+"aligned_malloc.h", A+"mallocator.h"],
 [("path selection and pointer rounding", U+"aligned_malloc.h")],
 ["result of aligned_malloc / mallocator::allocate", "system heap calls"])

prop("D03", "Size and bit helpers are exact for every input",
 "Padding a size to the architecture alignment yields the least multiple of the alignment not below it for every representable size, and the integer base-2 logarithm is the index of the highest set bit for every non-zero 64-bit value.",
 ["inputs"], "all 64-bit values",
 "They are only used with a few constants in the tests.",
 [U+"alignment.h", U+"bits.h"],
 [("align_to_architecture", U+"alignment.h"), ("log2", U+"bits.h")],
 ["return values"])

prop("F01", "System memory exhaustion surfaces as null, never as a crash",
 "When the system allocator refuses memory at any point of any history, allocators report it by returning nullptr: none dereferences or constructs at a null pointer, previously obtained blocks stay valid and deallocatable, later requests succeed again once memory is available (a shared handle whose construction was itself refused keeps serving null), and nothing is leaked.",
 ["fault_sequences", "histories"], "every pattern of system allocation failures over bounded histories of the allocators that take system memory",
 "Tests never make the system allocator fail.",
 [A+"cascading.h", A+"mallocator.h", A+"freelist.h", A+"overflow.h", A+"fallback.h", A+"segragator.h", U+"aligned_malloc.h"],
 [("null checks", A+"overflow.h, "+A+"freelist.h, "+A+"cascading.h: allocate"), ("aligned_new", U+"aligned_malloc.h")],
 ["result of allocate()", "system heap"])

prop("S01", "STL containers work on the library's shared-state allocators",
 "A standard container (vector, list, map) using a typed allocator with shared state behaves as it does with std::allocator for any sequence of operations, including copying, moving, swapping and splicing containers whose allocators compare equal, and returns all its memory to the allocator.",
 ["inputs", "histories"], "bounded operation sequences with arbitrary values over shared, reference, global, stack-based and mallocator-based typed allocators",
 "Tests push a few values into a vector or map per allocator.",
 [A+"type_allocator.h", A+"shared.h", A+"reference.h", A+"global.h", A+"stack_allocator.h", A+"mallocator.h"],
 [("rebind, converting copies, equality", A+"type_allocator.h"), ("shared state", A+"shared.h, "+A+"reference.h, "+A+"global.h")],
 ["container contents", "allocator state"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
