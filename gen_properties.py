#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Trusted access reads and writes exactly the positions it denotes",
  "After any sequence of safe operations, indexing a container with a trusted index or range (v[i], v[r], v[i..], v[..i], v[..], shared or mutable) yields exactly the elements stored at the positions the index or range reports, at the addresses of those elements. It never reads or writes memory outside the container's elements and never disturbs any other element. This holds for every kind of array a container can be made of (slices, vectors, nested shared and mutable references to them) and every element size, alignment and drop behaviour, including zero-sized elements.",
  ["histories", "inputs", "configurations"],
  "every sequence of safe index-API operations, every container kind and length, every element type",
  "The tests index a handful of hand-written i32 arrays; an unchecked access that is off by one or off by a stride only shows for some lengths, element sizes, container kinds or after some histories, and usually without a visible failure unless memory is monitored.",
  ["src/container.rs", "src/container_traits.rs", "src/indexing.rs"],
  [("unchecked indexing operators", "src/container.rs: impls of ops::Index/IndexMut for Container"),
   ("unchecked element and slice access of arrays", "src/container_traits.rs: GetUnchecked, GetUncheckedMut, Contiguous, ContiguousMut impls")],
  [("array", "the wrapped slice or vector", "src/container.rs: Container.arr")],
  ["values, addresses and lengths of references returned by the indexing operators", "the backing buffer and guard elements around it after the scope"])

p("C02", "Every obtainable index and range is in bounds and tells the truth",
  "Every index or range that safe code can obtain by any sequence of operations on a container of length n denotes positions within 0..=n, with start <= end for ranges. One marked NonEmpty is dereferenceable: a NonEmpty index is < n and a NonEmpty range contains at least one element; operations that cannot guarantee this do not produce the NonEmpty marker. This also holds for containers with enormous lengths (up to isize::MAX zero-sized elements) and for arbitrary integer arguments.",
  ["histories", "inputs"],
  "every sequence of deriving operations (vet, split, join, step, scan, subdivide, iterate, push ...), every integer argument, every container length up to isize::MAX",
  "The existing tests derive a few ranges from 3..8-element arrays in fixed ways; wrong bounds or a wrong marker only appear for particular compositions (joins of non-adjacent ranges, empty ranges at the edges, huge offsets).",
  ["src/lib.rs", "src/indexing.rs", "src/container.rs", "src/proof.rs"],
  [("NonEmpty/Unknown proof parameter", "src/proof.rs: ProofAdd, Provable; src/indexing.rs: Range methods"),
   ("unchecked constructors of trusted particles", "src/lib.rs: Index::new, Range::from, from_ne, from_any, assume_*")],
  [("start, end", "absolute positions of a range", "src/lib.rs: Range"), ("index", "absolute position", "src/lib.rs: Index")],
  ["Index::integer, Range::start/end/len and the type-level marker of every returned particle"])

p("C03", "Vetting accepts exactly the in-bounds integers and ranges",
  "For every container of length n (up to isize::MAX) and all integers, vetting an index succeeds exactly when it is < n, vetting a range a..b succeeds exactly when a <= b <= n, and asking a range whether it contains an absolute position succeeds exactly when start <= position < end. Success returns precisely the requested position or range, and failure returns an error (or None) without panicking, also for reversed ranges and values up to usize::MAX. A range yields a nonempty proof (nonempty(), IntoCheckedRange) exactly when its length is at least one, and then denotes the same positions.",
  ["inputs"],
  "every container length, every usize argument and pair of arguments",
  "One test vets 0..6 on a six-element array; the boundary and extreme arguments where unchecked trust would be granted wrongly are not sampled.",
  ["src/container.rs", "src/indexing.rs"],
  [("vet / vet_range", "src/container.rs"), ("contains / nonempty / IntoCheckedRange", "src/indexing.rs")],
  (), ["results of vet, vet_range, contains, nonempty, is_empty, len, empty_range, range"])

p("C04", "Splitting a range or container partitions it exactly",
  "Every split (in half, at an offset, at/after/around an index or range, before/after an index, one-sided ranges, tail/init, frontiers, first/middle/last/past-the-end) returns exactly the documented positions: the pieces are adjacent, in order, disjoint, and together cover exactly the split range, with nothing dropped or duplicated. Halves differ by at most one element with the extra element in the upper half, the split point clamps to the end for offsets past the end and reports whether it was clamped, and the nonempty proof of the input carries over to the piece documented to keep it.",
  ["inputs"],
  "every container length, every subrange, every split offset up to usize::MAX and every index",
  "The tests check halves of prefixes 0..i of one 5-element array; odd/even lengths with nonzero starts, offsets at and beyond the end, and huge positions are not covered.",
  ["src/indexing.rs", "src/container.rs"],
  [("split_in_half, split_at, frontiers, tail, init, first, middle, last", "src/indexing.rs: Range"), ("split_at, split_after, split_around, before, after, range_of", "src/container.rs: Container")],
  (), ["start/end of the returned pieces and the clamped flag"])

p("C05", "Joining ranges gives exactly the documented cover",
  "join succeeds exactly when the first range ends where the second starts and then denotes start-of-first..end-of-second, otherwise it is an error. join_cover denotes start-of-self..max(end of self, end of other), and join_cover_both denotes the smallest range that covers both. The results carry a nonempty proof when the inputs guarantee it (for join and join_cover_both: either input is NonEmpty; for join_cover: self is NonEmpty) and are otherwise not marked nonempty.",
  ["inputs"],
  "every pair of ranges of the same container (overlapping, nested, adjacent, disjoint, empty, in either order) and every combination of proof markers",
  "Two tests join ranges derived from one split of one small array; out of order, nested and empty-at-the-edge combinations are unsampled, and this operation had a soundness bug before (issue #12).",
  ["src/indexing.rs", "src/proof.rs"],
  [("join, join_cover, join_cover_both", "src/indexing.rs"), ("ProofAdd", "src/proof.rs")],
  (), ["start/end, Result and marker of the joined range"])

p("C06", "Stepping moves by exactly the offset or not at all",
  "Stepping an index forwards or backwards (by one or by an offset, within a container or up to a range's end) moves it by exactly that amount and reports true if the target is in bounds, and otherwise reports false and leaves it unchanged; the same holds for shrinking a nonempty range from the front or back, which succeeds exactly if the range stays nonempty. Shifting a range forward moves both its ends by the offset and clamps each to the end of the container or enclosing range. No offset, up to usize::MAX, ever wraps around, moves a position backwards, or panics.",
  ["inputs", "histories"],
  "every container length, index, range and every offset in 0..=usize::MAX",
  "Only advance() by one on a 6-element range is tested; overflow behaviour of offsets differs between debug and release builds and is never exercised.",
  ["src/indexing.rs", "src/container.rs"],
  [("forward, forward_by, backward, forward_range_by", "src/container.rs"), ("forward_by, forward_range_by, advance, advance_, advance_by, advance_back", "src/indexing.rs")],
  (), ["returned flag, index/range before and after"])

p("C07", "Subdividing yields even, nonempty, adjacent chunks covering the range",
  "Subdividing a range of length len into n parts (n >= 1) yields exactly n nonempty ranges, in order, each starting where the previous one ends, the first at the range's start and the last at its end, with lengths that differ by at most one (each floor(len/n) or ceil(len/n)); chunk k ends at start + floor((k+1)*len/n). If n exceeds the length it yields nothing. Once exhausted it stays exhausted.",
  ["inputs"],
  "every range position and length up to isize::MAX and every n >= 1 up to usize::MAX",
  "Four (length, n) pairs are tested; rounding and accumulation errors show only for particular ratios, and missing or overlapping chunks break coverage or hand out out-of-bounds ranges.",
  ["src/indexing.rs"],
  [("FracStep / Frac accumulation", "src/indexing.rs: FracStep::new, next, Frac::next_interval"), ("Subdivide iterator", "src/indexing.rs: Subdivide::next")],
  [("numerator/denominator accumulator", "fractional part carried between chunks", "src/indexing.rs: Frac")],
  ["sequence of yielded ranges"])

p("C08", "Iterating a range yields each of its indices exactly once, in order",
  "Iterating a range, taking indices from the front and the back in any interleaving, yields every index of the range exactly once: front calls ascend from the start, back calls descend from the end, and both stop when they meet, after which the iterator stays exhausted. At every moment the remaining range it reports is exactly the indices not yet yielded, also for copies of the iterator and for adapters such as rev, zip and enumerate.",
  ["histories", "inputs"],
  "every range and every interleaving of front and back steps, copies and adapter use",
  "Tests only iterate forwards (or fully reversed in heapify) over whole ranges; mixed-direction interleavings and remaining-range queries mid-way are never made.",
  ["src/indexing.rs"],
  [("RangeIter next / next_back / into_range", "src/indexing.rs")],
  [("start, end", "remaining interval", "src/indexing.rs: RangeIter")],
  ["yielded indices and into_range()"])

p("C09", "Scans stop at the first rejected element and return the exact extent",
  "Scanning from an index (upwards or downwards) or over a range calls the predicate on consecutive elements in the documented order, starting with the neighbour (or the range's first element), passes a reference to the actual element in the container, and stops right after the first element for which it returns false or at the boundary. The returned range is exactly the accepted run, including the starting index for index scans; a range scan returns the accepted prefix and the remaining suffix which together are the scanned range. The predicate is never called again after it returned false and a panicking predicate leaves the container intact.",
  ["inputs", "histories"],
  "every container content, start index or range, and every predicate (including stateful and panicking ones)",
  "One test performs two forward scans on a five-element array; call order, call counts, scans at the edges and reverse scans are not observed.",
  ["src/container.rs"],
  [("scan_from, scan_from_rev, scan_range", "src/container.rs")],
  (), ["call log of the predicate (addresses, order, count) and the returned ranges"])

p("C10", "Rearranging operations apply exactly the documented permutation",
  "swap exchanges exactly the two elements (nothing happens if they are the same), rotate up/down moves exactly the elements of the given range by one position with the end element wrapping around and does nothing for empty and single-element ranges, index_twice yields exactly the two requested subslices and only if the first range ends at or before the start of the second, and the mutable raw zip visits exactly the first min(len) pairs in order. All other elements stay untouched and no element is ever duplicated, lost or dropped, for any element type, size or alignment.",
  ["inputs", "histories"],
  "every container content, pair of indices or ranges, and element type (owned, large, over-aligned, zero-sized)",
  "No test calls rotate, index_twice or zip_mut_raw directly; the sorts exercise them on i32 only, where duplicated or leaked ownership is invisible.",
  ["src/container.rs"],
  [("swap, rotate1_up, rotate1_down", "src/container.rs: raw pointer moves"), ("index_twice, zip_mut_raw", "src/container.rs")],
  (), ["contents of the whole backing array, addresses of returned slices, drop counts"])

p("C11", "Growing a container keeps every outstanding index and range valid",
  "In index-only mode on a vector, push appends the element and returns its index, and insert places the element at the given index (including the one-past-the-end index) shifting later elements up by one, exactly as the vector operations do. All indices and ranges obtained earlier stay in bounds, keep their positions, and keep granting access to what is now stored there, across any number of reallocations. The length grows by exactly one per operation, and elements are neither lost nor duplicated.",
  ["histories"],
  "every interleaving of push, insert, index/range derivation and element access, on owned vectors and mutable references to vectors, with every initial length and capacity",
  "One test pushes twice onto a two-element vector; insert is never called and no index is used across a reallocation with monitored memory.",
  ["src/container.rs", "src/container_traits.rs"],
  [("push, insert", "src/container.rs: Container<OnlyIndex>"), ("Pushable for Vec", "src/container_traits.rs")],
  [("vector length", "bound that trusted indices rely on", "src/container_traits.rs: Trustworthy::base_len")],
  ["returned index, container contents and length, accesses through old indices"])

p("C12", "Twins are admitted only at equal length and share indices exactly",
  "Making a twin succeeds exactly when the other array has the same length as the container and otherwise is an error that leaves both untouched. Every index and range of one container is valid in all of its twins and clones and denotes the same positions there, so operations applied in lock step through shared indices affect corresponding elements, and accesses to one never affect the other's storage unless they share it. A clone of a container of a shared slice views the very same elements.",
  ["inputs", "histories"],
  "every pair of lengths (including empty), element type combinations, chains of twins of twins and clones, and every index transferred between them",
  "One test twins two five-element arrays; unequal lengths are never tried, and that check is the sole guard against out-of-bounds access through the twin.",
  ["src/container.rs", "src/container_traits.rs"],
  [("make_twin length check", "src/container.rs"), ("Clone for Container", "src/container.rs"), ("FixedLength", "src/container_traits.rs")],
  (), ["Result of make_twin; values and addresses accessed through shared indices"])

p("C13", "Comparing and hashing indices and ranges is consistent and positional",
  "Indices compare, order and hash exactly as the integers they denote and ranges exactly as the pair (start, end), lexicographically; the proof marker never matters, also when comparing values with different markers. Equality, total order, partial order, each comparison operator and min/max/sort agree with each other, and equal values have equal hashes, so they work as keys in ordered and hashed collections.",
  ["inputs"],
  "every pair and triple of indices and ranges of a container, every comparison operator, both proof markers on either side",
  "A single test compares four ranges of one array; the overridden lt versus derived operators and the mixed-marker and hash agreement are not sampled.",
  ["src/indexing.rs"],
  [("PartialEq/Eq/PartialOrd/Ord/Hash impls", "src/indexing.rs"), ("order_key", "src/indexing.rs")],
  (), ["results of all comparison operators, cmp, hashes, BTreeSet/HashSet behaviour"])

p("C14", "Every sort sorts: ordered output, same elements, stable where documented",
  "For every slice and every strict weak order, each sorting function (the quicksorts over ranges, pointer ranges and bounds-checked indexing; the insertion sorts over indexes, ranges, pointers, lower bound and the plain raw-pointer one) terminates and leaves the slice ordered and containing exactly the original elements. The insertion sorts by scanning and the plain raw-pointer one keep equal elements in their original order. The two-slice sort applies to the second slice exactly the permutation that stably sorts the first, and panics without reordering anything if the lengths differ.",
  ["inputs"],
  "every slice content, length, element type, duplicate structure and comparison function",
  "Quickcheck samples about 100 short random i32 vectors per run; adversarial patterns around and above the insertion-sort threshold, duplicates, stability and owned element types are not covered.",
  ["src/algorithms.rs"],
  [("quicksort_range, quicksort_bounds, quicksort_prange", "src/algorithms.rs"), ("insertion_sort_indexes, insertion_sort2_indexes, insertion_sort_ranges, insertion_sort_prange_lower, insertion_sort_pointerindex, insertion_sort_rust", "src/algorithms.rs")],
  (), ["slice before and after, comparator call log and budget"])

p("C15", "Hostile callbacks never duplicate, lose or corrupt elements",
  "Whatever the caller-supplied comparison, ordering, predicate or visitor does (panic at any call, answer inconsistently or randomly), every algorithm and container operation leaves each original element present exactly once in the data (for the merges: in data and buffer together) and drops nothing. After unwinding, the slices remain fully usable, each element is dropped exactly once by its owner, and memory outside the slices is never touched. Elements owned by a container are likewise dropped exactly once when the scope ends or unwinds.",
  ["fault_sequences", "inputs"],
  "every algorithm taking a callback or Ord implementation, a panic injected at every single callback invocation, and arbitrary inconsistent answers",
  "No test uses a panicking or inconsistent comparison or an element type with ownership; the merges document panic safety, but nothing exercises it.",
  ["src/algorithms.rs", "src/container.rs", "src/pointer.rs"],
  [("swap-only element movement", "src/algorithms.rs"), ("bitwise moves without callbacks in between", "src/container.rs: rotate1_up, rotate1_down, swap; src/pointer.rs: rotate1_prange")],
  (), ["registry of live element identities, contents after unwinding, ASan/Miri reports"])

p("C16", "Every search returns the right position with logarithmically many probes",
  "On a sorted slice each binary search returns Ok(i) with an equal element at i exactly if one exists, and otherwise Err(i) with the only insertion point that keeps the order; each lower bound returns the number of elements for which the less-than test holds. Index, pointer-range, pointer-slice and raw-pointer variants agree, for every length, element type and duplicate structure. Probes are only made on elements of the slice, at most logarithmically many, and for arbitrary (unsorted, inconsistent) inputs the result is still an in-bounds position, with Ok only where the comparison answered Equal.",
  ["inputs"],
  "every sorted slice, every sought value, every comparator, including inconsistent ones",
  "Unit tests and quickcheck cover one 7..12-element array and short random byte vectors; the raw-pointer lower bound on zero-sized elements, floating point, needles outside the range and probe counts are unobserved.",
  ["src/algorithms.rs", "src/pointer.rs"],
  [("binary_search, binary_search_by, lower_bound", "src/algorithms.rs"), ("*_prange, *_pslice, *_prange_, *_pslice_, lower_bound_raw_ptr", "src/algorithms.rs")],
  (), ["result, probe log (addresses, count)"])

p("C17", "Merging is a stable in-place merge that gives the buffer back",
  "Given data made of two sorted parts divided at left_end and a buffer of at least left_end elements, both merge variants leave data equal to the stable merge of the two parts and the buffer holding exactly its original elements (elements at and beyond left_end untouched in place). If left_end exceeds the data or buffer length they return an error and change nothing. Both variants behave identically for every length split, including empty left or right parts.",
  ["inputs"],
  "every nonempty data, division point, buffer length and content, duplicate structure",
  "One test merges a single 15+12 element input with an all-zero buffer; stability, short buffers, empty parts and buffer contents cannot be seen with equal-valued buffers.",
  ["src/algorithms.rs"],
  [("merge_internal_indices, merge_internal_ranges, block_swap2", "src/algorithms.rs")],
  (), ["data and buffer with unique identities before and after"])

p("C18", "Heapify builds a min-heap from exactly the given elements",
  "For every slice and every total order, heapify terminates and leaves a permutation of the original elements in which no element is greater than its children at positions 2k+1 and 2k+2. Already valid heaps are left unchanged.",
  ["inputs"],
  "every slice length, content, duplicate structure and element type",
  "A single fixed array and short random i32 vectors are tested, and the quickcheck test only looks at the heap shape, not at whether elements were lost or duplicated.",
  ["src/algorithms.rs"],
  [("sift-down loop over trusted indices", "src/algorithms.rs: heapify")],
  (), ["slice before and after, with unique identities"])

p("C19", "Pointer indices, ranges and slices behave like index ranges",
  "With the pointer-range feature, every pointer index, pointer range and pointer slice obtained from a container by any sequence of operations denotes positions within the container, and every operation on them (nonempty, split in half, first, middle, last, past-the-end, tail, init, advance from either end, after, iteration from both ends, conversion between the two range kinds, equality, length) gives the same positions and answers as the corresponding operation on index ranges. NonEmpty markers are only given to nonempty ranges and dereferenceable pointers. This holds for every element size and alignment; ranges over zero-sized elements are excluded.",
  ["histories", "inputs"],
  "every sequence of pointer-particle operations, every container length and (non zero-sized) element type",
  "The pointer types are only tested through a few algorithms on small integers; their own operations have no tests and are documented as needing revision.",
  ["src/pointer.rs", "src/pointer_ext.rs", "src/proof.rs"],
  [("PIndex, PRange, PSlice, PRangeIter", "src/pointer.rs"), ("inc/dec helpers", "src/pointer_ext.rs"), ("no_proof transmutes", "src/proof.rs")],
  [("start, end pointers", "bounds of a PRange", "src/pointer.rs"), ("start, len", "bounds of a PSlice", "src/pointer.rs")],
  ["positions computed from PIndex::ptr, lengths, markers"])

p("C20", "Container operations through pointers touch exactly what they denote",
  "Accessing, slicing, splitting, scanning, rotating, swapping and zipping through pointer indices and ranges reads and changes exactly the elements at the denoted positions, calls callbacks on the right elements in the right order, and equals the corresponding operation done with plain slices. Splitting a container at a pointer hands out two containers covering exactly the elements before and from the pointer on, only for containers that are mutable; zipping visits exactly the first min(len) corresponding pairs and the pairwise copy and dot product built on it equal their plain slice versions. No operation touches memory outside the container or duplicates or loses elements.",
  ["histories", "inputs"],
  "every container content, (non zero-sized) element type, pointer particle and callback",
  "Only the sorts and searches exercise part of these operations on small integers; zip, split_container_at_pointer, scans and one-sided pointer ranges have no test at all.",
  ["src/pointer.rs", "src/algorithms.rs"],
  [("pointer indexing operators, scans, rotate1_prange, swap_ptr", "src/pointer.rs"), ("split_at_pointer, split_container_at_pointer, pointer_range_of, nonempty_range, distance_to, zip", "src/pointer.rs"), ("copy, copy_prange, zip_dot_i32, zip_dot_i32_prange", "src/algorithms.rs")],
  (), ["addresses and values of yielded references, contents after the operation, call logs"])

p("C21", "Indices and ranges only work on the container they were branded for",
  "No safe program that compiles can use an index, range, iterator or pointer particle from one scope with a container of another scope, in any operation that accepts one, nor combine or compare particles of different scopes. No particle or container can be returned from, stored outside of, or smuggled through the closure of its scope, nor can brands be shortened, lengthened, unified or fabricated. Programs that use the same operations with matching brands are accepted.",
  ["programs"],
  "every safe program, sampled as all combinations of kind of particle, operation and way of mixing or leaking brands",
  "The compile-fail tests contain three brand-mixing programs, all of which already fail on the current compiler because of changed error wording, so a loss of branding would go unnoticed.",
  ["src/lib.rs", "src/container.rs", "src/indexing.rs", "src/pointer.rs"],
  [("invariant lifetime brand", "src/lib.rs: Id<'id>"), ("rank-2 closure", "src/container.rs: scope"), ("private constructors", "src/lib.rs: Index, Range")],
  (), ["acceptance or rejection by the compiler of witness programs linked against the library; for accepted ones, their execution under Miri"])

p("C22", "Only proven-nonempty particles can be dereferenced",
  "No safe program that compiles can dereference an element through an index or pointer that lacks the nonempty proof, or use an operation that requires a nonempty range (last, tail, init, lower middle, advance) on a range that lacks it. The proof can only be obtained by checks or operations that guarantee it and is never gained by dropping, joining, splitting or converting particles that do not guarantee it. Where the documentation says the proof is kept (upper half, joins, scans, split after, subdivide, iteration) programs relying on it compile.",
  ["programs"],
  "every safe program, sampled as all operations producing a particle without proof combined with all operations that need one, and the documented proof-keeping ones as positive programs",
  "Three compile-fail programs exist, two of them unreliable on the current compiler; most producing operations are not covered, and a single wrong return type makes an out-of-bounds access expressible in safe code.",
  ["src/proof.rs", "src/indexing.rs", "src/container.rs", "src/pointer.rs"],
  [("proof type parameter in signatures", "src/indexing.rs, src/container.rs, src/pointer.rs"), ("ProofAdd", "src/proof.rs")],
  (), ["acceptance or rejection of witness programs; for accepted ones, their execution under Miri"])

p("C23", "Borrowing, mutability, length and mode restrictions cannot be bypassed",
  "No safe program that compiles can hold a mutable element or slice reference together with any other reference into the same container, mutate a container made from a shared array, change the length of or replace the array inside a container outside of push and insert in index-only mode, clone or twin a container whose length can change, or use pointer particles on an index-only or twin container. Containers and particles cross threads only when their contents may (indices and ranges always; pointer particles never). Programs within these rules are accepted.",
  ["programs"],
  "every safe program, sampled as a matrix of forbidden combinations of borrow, mutability, growth, mode and thread use with an accepted counterpart for each",
  "Two compile-fail tests and one doc test cover three of these combinations; missing bounds or a wrong receiver mutability on any other operation compile and pass all tests.",
  ["src/container.rs", "src/container_traits.rs", "src/pointer.rs", "src/lib.rs"],
  [("&/&mut receivers and lifetimes of indexing and scans", "src/container.rs"), ("FixedLength, Pushable, ContiguousMut, GetUncheckedMut bounds", "src/container_traits.rs, src/container.rs, src/pointer.rs"), ("Send/Sync impls of the brand", "src/lib.rs")],
  (), ["acceptance or rejection of witness programs; for accepted ones, their execution under Miri"])

p("C24", "Containers and indices are race-free when shared across threads",
  "Indices and ranges can be sent to and used from other threads and give the same elements there; clones, twins and shared references of one container can be read concurrently with consistent results. The two slices of index_twice and the slices of disjoint ranges can be mutated concurrently by different threads without data races, and every write lands in exactly its element. A container can be shared with or moved to another thread exactly when its array may be (never with elements that are not thread safe), and at most one thread at a time can mutate through it. No interleaving yields a data race, a torn value or an access outside a thread's own range.",
  ["schedules", "inputs"],
  "every interleaving of threads that read shared containers or mutate the disjoint halves obtained from one, for any lengths and split points",
  "No test uses threads beyond a compile-time check that Index and Range are Send and Sync.",
  ["src/lib.rs", "src/container.rs"],
  [("unsafe impl Send/Sync for the brand", "src/lib.rs: Id"), ("index_twice disjointness", "src/container.rs")],
  (), ["ThreadSanitizer and Miri race reports over many seeds, contents after joining the threads"])

p("C25", "All build configurations behave identically",
  "The no_std build, the default build and the build with pointer ranges, each with and without debug assertions and optimisation, produce the same observable results (values, positions, errors, final contents) for the same sequence of valid operations and the same algorithm inputs (containers of up to isize::MAX elements, arithmetic of callers that does not overflow), and never panic where another configuration succeeds.",
  ["configurations", "histories", "inputs"],
  "every feature set and build profile crossed with every history of valid index-API operations and algorithm calls",
  "The three configurations run the same handful of tests, in debug builds only; nothing compares their results, and release behaviour (no overflow checks, no debug assertions) is never run.",
  ["Cargo.toml", "src/lib.rs", "src/container.rs", "src/indexing.rs", "src/algorithms.rs"],
  [("cfg(feature) gates, debug_assert", "src/lib.rs, src/algorithms.rs, src/container_traits.rs, src/pointer.rs")],
  (), ["event logs of the same seeded history recorded in each configuration"])

p("C26", "Safe operations keep to Rust's memory model",
  "No safe use of the library causes undefined behaviour under an undefined-behaviour interpreter with the Tree Borrows aliasing model: no out-of-bounds or misaligned access, no use of uninitialised or freed memory, no conflicting aliasing of references that were handed out, no writes through pointers derived from shared references, and no leaked or doubly freed elements. In particular mutable and shared accesses through different indices, ranges, slices and callbacks can be interleaved freely as far as the borrow checker allows it.",
  ["histories", "inputs"],
  "every safe program, sampled as each operation alone and random histories interleaving all of them, on several container kinds and element types",
  "The tests run natively, where such undefined behaviour is silent; only an interpreter that tracks provenance, initialisation and borrows makes it observable.",
  ["src/container.rs", "src/pointer.rs", "src/container_traits.rs", "src/algorithms.rs"],
  [("raw pointer code in container operations and sorts", "src/container.rs, src/algorithms.rs"), ("pointers taken from shared borrows", "src/pointer.rs")],
  (), ["Miri reports per operation"])

os.chdir(os.path.dirname(os.path.abspath(__file__)))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    if not x["anchors"]["state"]: del x["anchors"]["state"]
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
