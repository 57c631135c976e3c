"""What each check runs: legs = (build, instrumentation) x shards."""
NOALIAS = "-Zmiri-disable-stacked-borrows"
TREE = "-Zmiri-tree-borrows"
LEVEL_RULES = {}
COUNT = (" A case is one container, input or history with everything tried on it; it is non-trivial unless the monitor had nothing to "
         "judge in it; distinct by workload and parameters (counted within one leg, the others repeat it under other instrumentation).")
SCALE = (" Scale: the same operations on long containers (300 to 70001 elements, positions at and around powers of two) and, where stated by a giant event, "
         "on mapped memory of more than 2^33 elements.")


def dev(shards=2, **k): return dict(kind="dev", shards=shards, **k)
def rel(shards=2, **k): return dict(kind="release", shards=shards, **k)
def asan(shards=2, **k): return dict(kind="asan", shards=shards, **k)
def tsan(shards=2, **k): return dict(kind="tsan", shards=shards, **k)
def miri(shards=1, **k): return dict(kind="miri", shards=shards, miriflags=k.pop("flags", NOALIAS), **k)


def std(d=2, r=2, a=0, m=1, **k):
    return [dev(d, **k), rel(r, **k)] + ([asan(a, **k)] if a else []) + ([miri(m, **k)] if m else [])


def ptr(*a, **k): return std(*a, features="std,ptr", **k)


WITNESS = dict(runner="c21run", technique="attack programs that must obtain no execution (one that does is executed natively and under Miri); counterparts within the rules compiled, "
               "executed and interpreted under Miri",
               note="Holds for the generated matrix of programs. Trusts rustc's type checker and borrow checker to judge signatures; what is decided by execution is the counterparts and any attack accepted.")


PLAN = {
    "C01": dict(bin="c01", legs=std(2, 2, 2, 2, scale=2500),
                must_observe=["elements read", "elements written", "mutable accesses", "shared accesses", "virtual accesses", "histories", "long histories", "element sizes"],
                rule="Every obtainable index and range of small containers, 16 element types x 9 container kinds, guarded storage; "
                     "containers of huge reported lengths with an access log; random histories of accesses and writes." + SCALE + COUNT),
    "C02": dict(bin="c02", typed=True, legs=std(3, 3, scale=1500),
                must_observe=["particles checked", "NonEmpty particles checked", "history operations"],
                rule="All operations on all particles (and pairs) of small containers with all boundary integers; "
                     "zero-sized containers of huge lengths; random histories of operations over a pool of particles." + COUNT),
    "C03": dict(bin="c03", legs=std(scale=3000),
                must_observe=["vet accepted", "vet rejected", "vet_range accepted", "vet_range rejected", "contains decided", "nonempty proofs decided"],
                rule="All integers and pairs around the length for small containers of 6 kinds, boundary integers for huge zero-sized "
                     "containers, growing containers, random lengths and integers." + COUNT),
    "C04": dict(bin="c04", typed=True, legs=std(scale=3000),
                must_observe=["nonempty range splits", "range splits", "range splits at an offset", "split trees", "splits at an index"],
                rule="All ranges and split points of small containers, boundary ranges and offsets of huge ones, random trees of repeated splits." + COUNT),
    "C05": dict(bin="c05", typed=True, legs=std(scale=4000),
                must_observe=["joins admitted", "joins rejected", "ordered pairs", "overlapping pairs", "reversed pairs"],
                rule="All pairs of ranges (all markers) of small containers, boundary pairs of huge ones, random pairs." + COUNT),
    "C06": dict(bin="c06", legs=std(scale=3000),
                must_observe=["ranges shifted", "shrinks refused", "shrinks taken", "steps refused", "steps taken", "walk steps"],
                rule="All positions x offsets of small containers, boundary offsets (up to usize::MAX) on huge ones, random walks against integer arithmetic." + COUNT),
    "C07": dict(bin="c07", legs=std(scale=6000),
                must_observe=["adapter suites", "chunks checked", "subdivisions", "subdivisions refused"],
                rule="All (length, n) pairs up to a bound, boundary lengths and n on huge containers, random ones." + COUNT),
    "C08": dict(bin="c08", legs=std(scale=6000),
                must_observe=["adapter suites", "elements visited", "interleavings", "iterator steps", "remaining ranges compared"],
                rule="All front/back interleavings of ranges up to length 9, adapters on all ranges of small containers, boundary ranges of huge ones, random interleavings." + SCALE + COUNT),
    "C09": dict(bin="c09", typed=True, legs=std(2, 2, 2, scale=4000),
                must_observe=["predicate calls", "predicate panics", "runs found", "scans", "long scans", "far scans", "round-sized scans"],
                rule="Every start x direction x stop position (incl. panicking predicates) on small containers, random run structures on large ones; "
                     "predicate call sequence and addresses logged." + SCALE + COUNT),
    "C10": dict(bin="c10", legs=std(2, 2, 2, 3, scale=3000),
                must_observe=["index_twice admitted", "index_twice rejected", "operations", "virtual operations", "zip_mut_raw pairs", "long histories", "round-sized histories", "element sizes", "alignments"],
                rule="Every operation on every range/index pair of small guarded containers for 16 element types, random operation histories against a model." + SCALE + COUNT),
    "C11": dict(bin="c11", typed=True, legs=std(2, 2, 2, scale=600),
                must_observe=["accesses through older particles", "histories", "inserts", "inserts at older positions", "inserts at the end", "pushes", "long histories", "element sizes"],
                rule="Random push/insert histories against a Vec model with all earlier particles re-read after each step." + SCALE + COUNT),
    "C12": dict(bin="c12", typed=True, legs=std(2, 2, 2, scale=1000),
                must_observe=["clone accesses compared", "lock step operations", "twins admitted", "twins rejected", "long lock steps"],
                rule="All pairs of lengths and container kinds for make_twin, random lock-step histories over twins and clones." + SCALE + COUNT),
    "C13": dict(bin="c13", typed=True, legs=std(scale=3000),
                must_observe=["collections compared", "hashes compared", "partial comparisons", "total comparisons"],
                rule="All pairs (and marker combinations) of particles of small containers, boundary pairs, random collections." + COUNT),
    "C14": dict(bin="c14", legs=ptr(2, 3, 1, 1, scale=200),
                must_observe=["elements sorted", "insertion sorts", "long sorts", "quicksorts", "two-slice sorts", "two-slice sorts refused", "long insertions", "long quicksorts", "round-sized sorts", "alignments"],
                rule="All permutations and words over small alphabets up to a length, structured and random inputs around and above the insertion-sort "
                     "threshold, long and adversarial inputs, every sort x element types with tagged equal keys, guarded memory." + SCALE + COUNT),
    "C15": dict(bin="c15", level="fault_enumeration", legs=ptr(2, 2, 2, 2, scale=800),
                must_observe=["long inputs", "completed", "fault points", "honest runs after faults", "inconsistent orders", "library calls from within comparisons", "states replaced by comparisons", "owned scopes ended", "unwound"],
                rule="For each algorithm and container operation and input: one run per callback invocation with a panic injected exactly there, plus "
                     "inconsistent comparison answers; a ledger of element identities is compared after unwinding. " + COUNT),
    "C16": dict(bin="c16", legs=ptr(2, 3, 0, 1, scale=1500),
                must_observe=["arbitrary searches", "binary searches", "lower bounds", "lower bounds of incomparable elements", "partial searches", "positional searches", "probes", "alignments"],
                rule="All sorted words over small alphabets x all needles x all search variants, every position for every length, huge slices, incomparable "
                     "elements, arbitrary comparators; probes (address and number) are logged and judged." + SCALE + COUNT),
    "C17": dict(bin="c17", legs=ptr(2, 2, 2, 1, scale=800),
                must_observe=["merges", "merges refused", "empty left parts", "empty right parts", "elements merged", "long merges", "round-sized merges", "alignments"],
                rule="All lengths and division points, all sorted parts over small alphabets, all interleavings, random ones; unique identities in data and buffer." + SCALE + COUNT),
    "C18": dict(bin="c18", legs=ptr(2, 2, 1, 1, scale=2000),
                must_observe=["heaps built", "valid heaps", "parent-child pairs checked", "long heaps", "round-sized heaps", "alignments"],
                rule="All permutations, words and bit patterns up to a length, heaps with one displaced element, random inputs with tagged identities." + SCALE + COUNT),
    "C19": dict(bin="c19", typed=True, legs=ptr(3, 3, 0, 2, scale=8000), assumptions=["element types of nonzero size"],
                must_observe=["history operations", "nonempty_range decided", "particles enumerated", "particles judged", "pointer iterations", "long histories"],
                rule="Every pointer particle of small containers x every operation (and pair) x container kinds and element types, random histories over a pool of particles, "
                     "each result compared with the positions it must denote and with the index range operation." + SCALE + COUNT),
    "C20": dict(bin="c20", legs=ptr(2, 2, 2, 2, scale=3000), assumptions=["element types of nonzero size"],
                must_observe=["callback arguments judged", "containers split", "copies", "dot products", "histories", "mutations", "pairs visited", "pointer scans", "slices judged", "zips", "long histories", "round-sized operations", "element sizes", "alignments"],
                rule="Every pointer operation with every position of small containers x element types x container kinds, all pairs of ranges zipped in eight forms, "
                     "all length pairs copied, random histories against a model; guarded memory." + SCALE + COUNT),
    "C21": dict(WITNESS, rule="Every operation x kind of particle x way of mixing (argument position, comparison, unification, functions, clones, twins, halves of a split) and every way "
                "out of the scope (return, outer variables and cells, threads, panics, lifetimes in signatures), fabrication from private parts; distinct by program text."),
    "C22": dict(WITNESS, rule="Every operation producing a particle without proof x every operation that needs one; every proof-keeping one as a program that must be accepted; distinct by program text."),
    "C23": dict(WITNESS, rule="Every pair of conflicting borrows, every mutation of shared containers, every way to grow, clone or twin, every pointer operation without pointers, "
                "auto traits of every type; distinct by program text."),
    "C24": dict(bin="c24", runner="c24run", typed=True,
                legs=[dev(1, features="std,ptr", scale=1000), rel(2, features="std,ptr", scale=2000), tsan(3, features="std,ptr", scale=1000),
                      miri(8, features="std,ptr", schedule=0.05, name="miri schedules"),
                      miri(8, flags=TREE, schedule=0.2, shard_base=100, name="miri schedules, aliasing tracked")],
                technique="ThreadSanitizer (instrumented standard library) and Miri with seeded schedules over concurrent workloads, each checked against a sequential model; attack programs that share what is not thread safe must obtain no execution, their counterparts are executed and interpreted",
                note="No race, torn value or misplaced write in the interleavings executed (see the evidence file for how many distinct ones). Trusts "
                     "ThreadSanitizer, Miri and the sequential models.",
                must_observe=["algorithms run by threads", "clones and twins", "containers moved", "context switches between steps", "decisions by threads", "disjoint mutations",
                              "distinct interleavings", "locked containers", "particles received", "reads by threads", "shared containers", "writes by threads"],
                rule="Random concurrent programs of eight kinds (containers shared by reference, clones and twins, disjoint slices mutated recursively, containers moved "
                     "and grown, particles sent through channels, containers behind locks, the same integers vetted by all threads, algorithms side by side) with injected yields and sleeps; "
                     "programs sharing each container kind with elements that are not thread safe, or mutating from two threads, and their counterparts with atomics, locks or turns." + COUNT),
    "C25": dict(bin="c25", runner="c25run",
                technique="recorded event logs of identical seeded workloads compared between 17 build configurations (feature sets x optimisation x assertions)",
                note="The records of the executions made are identical in all configurations. Trusts the recorder and rustc."),
    "C26": dict(bin="c26", runner="c26run",
                legs=[miri(n, flags=TREE, bin=b, name=b + " interpreted") for b, n in
                      (("c01", 2), ("c09", 1), ("c10", 2), ("c11", 1), ("c12", 1), ("c14", 2), ("c15", 2), ("c17", 2), ("c18", 1))]
                + [miri(1, bin="c20", name="c20 interpreted, aliasing not tracked", features="std,ptr"), dev(1, features="std,ptr")],
                technique="Miri (Tree Borrows aliasing model, leak checker) over every operation alone and over the monitored workloads",
                note="No undefined behaviour in the executions interpreted. Trusts Miri and its Tree Borrows model; pointer-based mutation is "
                     "known to violate it (KNOWN_FINDINGS), each such operation listed by name.",
                must_observe=["operations run", "contents compared", "histories", "merges", "scans", "inserts"],
                rule="Each public operation and algorithm in an interpreter process of its own over several element types, container kinds and lengths; the workloads "
                     "of C01, C09-C12, C14, C15, C17, C18 (index API build) in the interpreter with aliasing tracked." + COUNT),
}

PENDING = {}
