"""Witness programs for C21-C24.

Every program is written once with marks made by mark(forbidden, control): the forbidden text breaks a rule, the control text is
its nearest counterpart within the rules. A program without markers is one that must be accepted.
`programs(pid)` -> list of (name, source).
"""
import itertools, re

PRE = """
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::cmp::Ordering;
use indexing::{scope, Container, Index, Range, NonEmpty, Unknown, IndexingError};
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::indexing::{IntoCheckedRange, RangeIter, Subdivide};
use indexing::proof::{Provable, ProofAdd};
use indexing::pointer::{PIndex, PRange, PSlice, PRangeIter, zip};
use indexing::algorithms::*;
fn touch<T>(_: T) {}
"""


def pick(src, forbidden):
    return re.sub("\x01([^\x01]*?)\x02([^\x01]*?)\x03", lambda m: m.group(1 if forbidden else 2), src)


def mark(f, c):
    assert "\x01" not in f + c
    return "\x01%s\x02%s\x03" % (f, c)


class Set:
    def __init__(self):
        self.out = []
        self.names = set()

    def add(self, name, src):
        assert name not in self.names, name
        self.names.add(name)
        self.out.append((name, src))


# ---------------------------------------------------------------- makers of particles; $C is the container
MAKE = {
    "index": ["$C.vet(1).unwrap()", "$C.range().contains(2).unwrap()", "$C.range().nonempty().unwrap().first()", "$C.range().nonempty().unwrap().last()",
              "$C.range().nonempty().unwrap().lower_middle()", "$C.range().nonempty().unwrap().upper_middle()", "$C.range().into_iter().next().unwrap()",
              "$C.range().into_iter().rev().next().unwrap()"],
    "edge": ["$C.range().past_the_end()", "$C.range().first()", "$C.vet(1).unwrap().after()", "$C.vet(1).unwrap().no_proof()", "$C.range().upper_middle()"],
    "range": ["$C.range()", "$C.vet_range(0..2).unwrap()", "$C.empty_range()", "$C.split_at($C.vet(1).unwrap()).0", "$C.split_after($C.vet(1).unwrap()).1",
              "$C.split_around($C.range()).0", "$C.before($C.vet(1).unwrap())", "$C.after($C.vet(1).unwrap())", "$C.range_of($C.vet(1).unwrap()..)",
              "$C.forward_range_by($C.range(), 1)", "$C.scan_range($C.range(), |_| true).0", "$C.range().split_in_half().0", "$C.range().split_at(1).1",
              "$C.range().frontiers().0", "$C.range().join_cover($C.range())", "$C.range().into_iter().into_range()", "$C.range().nonempty().unwrap().tail()",
              "$C.range().nonempty().unwrap().init()", "$C.range().nonempty().unwrap().no_proof()", "$C.range().forward_range_by($C.range(), 1)",
              "$C.clone_range()"],
    "nerange": ["$C.range().nonempty().unwrap()", "$C.split_at($C.vet(1).unwrap()).1", "$C.split_after($C.vet(1).unwrap()).0", "$C.scan_from($C.vet(1).unwrap(), |_| true)",
                "$C.scan_from_rev($C.vet(1).unwrap(), |_| true)", "$C.range().subdivide(2).next().unwrap()", "$C.range().nonempty().unwrap().advance_().unwrap()",
                "$C.range().nonempty().unwrap().split_in_half().1", "$C.range().frontiers().0.join($C.range().nonempty().unwrap()).unwrap()",
                "$C.range().join_cover_both($C.range().nonempty().unwrap())", "IntoCheckedRange::into($C.range()).unwrap()"],
    "pindex": ["$C.pointer_range().nonempty().unwrap().first()", "$C.pointer_range().nonempty().unwrap().last()", "$C.pointer_range().nonempty().unwrap().upper_middle()",
               "$C.pointer_range().into_iter().next().unwrap()", "$C.pointer_range().into_iter().rev().next().unwrap()", "$C.pointer_slice().nonempty().unwrap().first()",
               "$C.pointer_slice().nonempty().unwrap().last()", "binary_search_by_prange_($C.pointer_range(), &$C, |_| Ordering::Equal).unwrap()"],
    "pedge": ["$C.pointer_range().past_the_end()", "$C.pointer_range().first()", "$C.pointer_range().nonempty().unwrap().first().after()",
              "$C.pointer_slice().past_the_end()", "$C.pointer_range().nonempty().unwrap().first().no_proof()",
              "lower_bound_prange_($C.pointer_range(), &$C, |_| true)", "lower_bound_pslice_($C.pointer_slice(), &$C, |_| true)"],
    "prange": ["$C.pointer_range()", "$C.pointer_range_of($C.pointer_range().past_the_end()..)", "$C.pointer_range().split_in_half().0", "PRange::from($C.pointer_slice())",
               "$C.split_at_pointer($C.pointer_range().first()).0", "$C.scan_pointer_range($C.pointer_range(), |_| true).0",
               "$C.scan_pointer_range_rev($C.pointer_range(), |_| true).1", "$C.pointer_range().nonempty().unwrap().tail()", "$C.pointer_range().nonempty().unwrap().init()",
               "$C.pointer_range().into_iter().into_range()", "$C.pointer_range().no_proof()"],
    "neprange": ["$C.pointer_range().nonempty().unwrap()", "$C.nonempty_range($C.pointer_range().first(), $C.pointer_range().past_the_end()).unwrap()",
                 "$C.scan_tail_($C.pointer_range().nonempty().unwrap().last(), |_| true)", "$C.split_at_pointer($C.pointer_range().nonempty().unwrap().last()).1",
                 "$C.pointer_range().nonempty().unwrap().split_in_half().1"],
    "pslice": ["$C.pointer_slice()", "PSlice::from($C.pointer_range())", "$C.pointer_slice().split_in_half().0", "$C.pointer_slice().nonempty().unwrap().tail()", "$C.pointer_slice().no_proof()"],
    "nepslice": ["$C.pointer_slice().nonempty().unwrap()", "$C.pointer_slice().nonempty().unwrap().split_in_half().1"],
}
MAKE["range"].remove("$C.clone_range()")


def mk(kind, cont, n=0):
    return MAKE[kind][n].replace("$C", cont)


ANYINDEX = ("index", "edge")
ANYRANGE = ("range", "nerange")
ANYP = ("pindex", "pedge")
ANYPR = ("prange", "neprange")
ANYPS = ("pslice", "nepslice")

# operations of container x (mutable slice of u32); $1, $2: particles.  (name, kinds of $1, kinds of $2, code)
OPS = [
    ("read", ("index",), None, "touch(x[$1]);"),
    ("write", ("index",), None, "x[$1] = 9;"),
    ("borrow_mut", ("index",), None, "touch(&mut x[$1]);"),
    ("split_after", ("index",), None, "touch(x.split_after($1));"),
    ("after", ("index",), None, "touch(x.after($1));"),
    ("forward", ("index",), None, "let mut q = $1; touch(x.forward(&mut q));"),
    ("forward_by", ("index",), None, "let mut q = $1; touch(x.forward_by(&mut q, 1));"),
    ("backward", ("index",), None, "let mut q = $1; touch(x.backward(&mut q));"),
    ("scan_from", ("index",), None, "touch(x.scan_from($1, |_| true));"),
    ("scan_from_rev", ("index",), None, "touch(x.scan_from_rev($1, |_| true));"),
    ("from_slice", ANYINDEX, None, "touch(&x[$1..]);"),
    ("to_slice", ANYINDEX, None, "touch(&x[..$1]);"),
    ("from_slice_mut", ANYINDEX, None, "touch(&mut x[$1..]);"),
    ("to_slice_mut", ANYINDEX, None, "touch(&mut x[..$1]);"),
    ("split_at", ANYINDEX, None, "touch(x.split_at($1));"),
    ("before", ANYINDEX, None, "touch(x.before($1));"),
    ("range_of_from", ANYINDEX, None, "touch(x.range_of($1..));"),
    ("range_of_to", ANYINDEX, None, "touch(x.range_of(..$1));"),
    ("slice", ANYRANGE, None, "touch(&x[$1]);"),
    ("slice_mut", ANYRANGE, None, "touch(&mut x[$1]);"),
    ("split_around", ANYRANGE, None, "touch(x.split_around($1));"),
    ("forward_range_by", ANYRANGE, None, "touch(x.forward_range_by($1, 1));"),
    ("scan_range", ANYRANGE, None, "touch(x.scan_range($1, |_| true));"),
    ("rotate1_up", ANYRANGE, None, "x.rotate1_up($1);"),
    ("rotate1_down", ANYRANGE, None, "x.rotate1_down($1);"),
    ("swap", ("index",), ("index",), "x.swap($1, $2);"),
    ("index_twice", ANYRANGE, ANYRANGE, "touch(x.index_twice($1, $2));"),
    ("zip_mut_raw", ANYRANGE, ANYRANGE, "x.zip_mut_raw($1, $2, |_, _| ());"),
]
PTR_OPS = [
    ("pread", ("pindex",), None, "touch(x[$1]);"),
    ("pfrom_slice", ANYP, None, "touch(&x[$1..]);"),
    ("pto_slice", ANYP, None, "touch(&x[..$1]);"),
    ("pfrom_slice_mut", ANYP, None, "touch(&mut x[$1..]);"),
    ("pto_slice_mut", ANYP, None, "touch(&mut x[..$1]);"),
    ("pointer_range_of_from", ANYP, None, "touch(x.pointer_range_of($1..));"),
    ("pointer_range_of_to", ANYP, None, "touch(x.pointer_range_of(..$1));"),
    ("distance_to", ANYP, None, "touch(x.distance_to($1));"),
    ("scan_tail", ("pindex",), None, "touch(x.scan_tail_($1, |_| true));"),
    ("split_at_pointer", ANYP, None, "touch(x.split_at_pointer($1));"),
    ("split_container", ANYP, None, "x.split_container_at_pointer($1, |_, _, _, _| ());"),
    ("pslice_access", ANYPR, None, "touch(&x[$1]);"),
    ("pslice_access_mut", ANYPR, None, "touch(&mut x[$1]);"),
    ("scan_pointer_range", ANYPR, None, "touch(x.scan_pointer_range($1, |_| true));"),
    ("scan_pointer_range_rev", ANYPR, None, "touch(x.scan_pointer_range_rev($1, |_| true));"),
    ("rotate1_prange", ("neprange",), None, "x.rotate1_prange($1);"),
    ("search_prange", ANYPR, None, "touch(binary_search_by_prange_($1, &x, |_| Ordering::Equal));"),
    ("search_pslice", ANYPS, None, "touch(binary_search_by_pslice_($1, &x, |_| Ordering::Equal));"),
    ("lower_prange", ANYPR, None, "touch(lower_bound_prange_($1, &x, |_| true));"),
    ("lower_pslice", ANYPS, None, "touch(lower_bound_pslice_($1, &x, |_| true));"),
    ("zip", ANYPR + ANYPS, None, "zip($1, &x, $1, &x, |_, _| ());"),
    ("zip_mut", ANYPR + ANYPS, None, "let w = [1u32, 2]; scope(&w[..], |w| zip(w.pointer_range(), &w, $1, &mut x, |_, _| ()));"),
    ("zip_mut_first", ANYPR + ANYPS, None, "let w = [1u32, 2]; scope(&w[..], |w| zip($1, &mut x, w.pointer_range(), &w, |_, _| ()));"),
    ("swap_ptr", ("pindex",), ("pindex",), "x.swap_ptr($1, $2);"),
    ("nonempty_range", ANYP, ANYP, "touch(x.nonempty_range($1, $2));"),
    ("convert_slice", ANYPS, None, "touch(&x[PRange::from($1)]);"),
    ("iterate", ANYPR, None, "for i in $1 { touch(x[i]); }"),
]
# operations between particles
PAIR_OPS = [
    ("join", ANYRANGE, ANYRANGE, "touch($1.join($2));"),
    ("join_cover", ANYRANGE, ANYRANGE, "touch($1.join_cover($2));"),
    ("join_cover_both", ANYRANGE, ANYRANGE, "touch($1.join_cover_both($2));"),
    ("range_eq", ANYRANGE, ANYRANGE, "touch($1 == $2);"),
    ("range_lt", ANYRANGE, ANYRANGE, "touch($1 < $2);"),
    ("range_partial_cmp", ANYRANGE, ANYRANGE, "touch($1.partial_cmp(&$2));"),
    ("range_cmp", ("range",), ("range",), "touch($1.cmp(&$2));"),
    ("range_max", ("range",), ("range",), "touch($1.max($2));"),
    ("range_forward_by", ANYRANGE, ("index",), "let mut q = $2; touch($1.forward_by(&mut q, 1));"),
    ("range_forward_range_by", ANYRANGE, ANYRANGE, "touch($1.forward_range_by($2, 1));"),
    ("index_eq", ANYINDEX, ANYINDEX, "touch($1 == $2);"),
    ("index_ne", ANYINDEX, ANYINDEX, "touch($1 != $2);"),
    ("index_lt", ANYINDEX, ANYINDEX, "touch($1 < $2);"),
    ("index_ge", ANYINDEX, ANYINDEX, "touch($1 >= $2);"),
    ("index_partial_cmp", ANYINDEX, ANYINDEX, "touch($1.partial_cmp(&$2));"),
    ("index_cmp", ("index",), ("index",), "touch($1.cmp(&$2));"),
    ("index_min", ("index",), ("index",), "touch($1.min($2));"),
    ("pindex_eq", ("pindex",), ("pindex",), "touch($1 == $2);"),
    ("pedge_eq", ("pedge",), ("pedge",), "touch($1 != $2);"),
    ("prange_eq", ANYPR, ANYPR, "touch($1 == $2);"),
    ("pslice_eq", ANYPS, ANYPS, "touch($1 == $2);"),
]
SAME = tuple(MAKE)
UNIFY_OPS = [
    ("assign", "let mut q = $1; q = $2; touch(q);"),
    ("array", "touch([$1, $2]);"),
    ("branch", "let c = Cell::new(true); touch(if c.get() { $1 } else { $2 });"),
    ("mem_swap", "let (mut p, mut q) = ($1, $2); std::mem::swap(&mut p, &mut q);"),
]

CROSS = """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    let mut b = [7u32, 8, 9, 10];
    scope(&mut a[..], |mut x| {
        scope(&mut b[..], |mut y| {
            let p = $P;
            $BODY
        })
    })
}
"""


def cross(make, body):
    return CROSS.replace("$P", make).replace("$BODY", body)


def c21():
    s = Set()
    yx = mark("y", "x")
    # every operation with the particle of the other scope, in each position
    for name, k1, k2, code in OPS + PTR_OPS:
        for a in k1:
            if k2 is None:
                s.add("%s with %s of another scope" % (name, a), cross(mk(a, yx), code.replace("$1", "p")))
            else:
                for b in k2:
                    s.add("%s(%s of another scope, %s)" % (name, a, b), cross(mk(a, yx), "let q = %s; " % mk(b, "x") + code.replace("$1", "p").replace("$2", "q")))
                    s.add("%s(%s, %s of another scope)" % (name, a, b), cross(mk(a, "x"), "let q = %s; " % mk(b, yx) + code.replace("$1", "p").replace("$2", "q")))
    for name, k1, k2, code in PAIR_OPS:
        for a, b in itertools.product(k1, k2):
            s.add("%s(%s, %s of another scope)" % (name, a, b), cross(mk(a, "x"), "let r = %s; " % mk(b, yx) + code.replace("$1", "p").replace("$2", "r")))
    for kind in SAME:
        for name, code in UNIFY_OPS:
            s.add("%s of two %s of different scopes" % (name, kind), cross(mk(kind, "x"), "let r = %s; " % mk(kind, yx) + code.replace("$1", "p").replace("$2", "r")))
    # every maker, used to access the other container
    use = {"index": "touch(x[p]);", "edge": "touch(&x[p..]);", "range": "touch(&x[p]);", "nerange": "touch(x[p.first()]);", "pindex": "touch(x[p]);", "pedge": "touch(&x[..p]);",
           "prange": "touch(&x[p]);", "neprange": "touch(x[p.first()]);", "pslice": "touch(&x[PRange::from(p)]);", "nepslice": "touch(x[p.last()]);"}
    for kind, makers in MAKE.items():
        for m in makers:
            s.add("%s used on another container" % m, cross(m.replace("$C", yx), use[kind]))
    # derived from the other scope's particle after it was made
    for d in ("p.split_in_half().1", "p.tail()", "p.init()", "p.join(p.frontiers().1).unwrap()", "p.join_cover(p)", "p.subdivide(1).next().unwrap()", "p.advance_().unwrap()", "p.no_proof()", "Range::no_proof(&p)"):
        s.add("%s of another scope" % d, cross(mk("nerange", yx), "let q = %s; touch(&x[q]);" % d))
    for d in ("for i in p { touch(x[i]); }", "for i in p.into_iter().rev() { touch(x[i]); }", "for (i, j) in p.into_iter().zip(x.range()) { x.swap(i, j); }",
              "for q in p.subdivide(2) { touch(&mut x[q]); }", "let mut it = p.into_iter(); touch(&x[it.into_range()]);",
              "touch(p.into_iter().chain(x.range()).count());", "touch(p.into_iter().map(|i| x[i]).sum::<u32>());", "touch(p.into_iter().cmp(x.range()));",
              "let mut h = std::collections::HashSet::new(); h.insert(p); h.insert(x.range());", "let mut h = std::collections::BTreeMap::new(); h.insert(x.range().first(), 1); h.insert(p.first(), 2);",
              "let f = |i| touch(&x[i]); f(x.range()); f(p);", "let v: Vec<_> = p.into_iter().collect(); touch(x[v[0]]);", "let c = Cell::new(x.range()); c.set(p);",
              "let mut o = Some(x.range()); o.replace(p);"):
        s.add("%s with a range of another scope" % d, cross(mk("range", yx), d))
    # clones and twins share their own brand only
    for kind in ("index", "range"):
        s.add("%s of another scope used on a twin" % kind, cross(mk(kind, yx), "let w = [1u8; 6]; let t = x.make_twin(&w[..]).unwrap(); touch(&t[p]);"))
    TW = """
pub fn run() {
    let (a, b) = ([1u32, 2, 3], [4u32, 5, 6]);
    scope(&a[..], |x| scope(&b[..], |y| {
        $BODY
    }))
}
"""
    s.add("index of a twin of another container", TW.replace("$BODY", "let w = [7u8, 8, 9]; let t = %s.make_twin(&w[..]).unwrap(); touch(x[t.vet(1).unwrap()]);" % yx))
    s.add("index of a clone of another container", TW.replace("$BODY", "let t = %s.clone(); touch(x[t.vet(1).unwrap()]);" % yx))
    s.add("clone used with another scope's index", TW.replace("$BODY", "let t = x.clone(); touch(t[%s.vet(1).unwrap()]);" % yx))
    s.add("containers of two scopes in one array", TW.replace("$BODY", "touch([x.clone(), %s.clone()]);" % yx))
    s.add("containers of two scopes swapped", TW.replace("$BODY", "let (mut p, mut q) = (x.clone(), %s.clone()); std::mem::swap(&mut p, &mut q);" % yx))
    s.add("container replaced by that of another scope", TW.replace("$BODY", "let mut p = x.clone(); p = %s.clone(); touch(p);" % yx))
    s.add("container cloned from that of another scope", TW.replace("$BODY", "let mut p = x.clone(); p.clone_from(&%s); touch(p);" % yx))
    s.add("only_index keeps the brand", TW.replace("$BODY", "let p = %s.vet(1).unwrap(); let x = x.only_index(); touch(x[p]);" % mark("y", "x")))
    # the same array in two scopes
    s.add("same array in two scopes", """
pub fn run() {
    let a = [1u32, 2, 3];
    scope(&a[..], |x| scope(&a[..], |y| { let i = %s.vet(1).unwrap(); touch(x[i]); }))
}""" % yx)
    s.add("same vector by two references", """
pub fn run() {
    let a = vec![1u32, 2, 3];
    scope(&a, |x| scope(&a, |y| { let i = %s.vet(1).unwrap(); touch(x[i]); }))
}""" % yx)
    s.add("reborrowed container in an inner scope", """
pub fn run() {
    let mut a = [1u32, 2, 3];
    scope(&mut a[..], |mut x| { let i = x.vet(2).unwrap(); scope(&mut x[..], |mut y| { let j = y.vet(2).unwrap(); y[%s] = 5; }) })
}""" % mark("i", "j"))
    s.add("inner scope over a part, outer index", """
pub fn run() {
    let mut a = [1u32, 2, 3, 4];
    scope(&mut a[..], |mut x| {
        let (p, q) = x.range().split_in_half();
        let i = x.vet(3).unwrap();
        scope(&mut x[q], |y| { let j = y.vet(1).unwrap(); touch(y[%s]); })
    })
}""" % mark("i", "j"))
    for kind in ("index", "edge"):
        s.add("insert at %s of another scope" % kind, """
pub fn run() {
    scope(vec![1u32, 2, 3], |x| scope(vec![4u32, 5], |y| {
        let (mut x, y) = (x.only_index(), y.only_index());
        let i = %s;
        x.insert(i, 7);
    }))
}""" % mk(kind, yx))
    s.add("pushed index used on another container", """
pub fn run() {
    scope(vec![1u32, 2, 3], |x| scope(vec![4u32, 5], |y| {
        let (mut x, mut y) = (x.only_index(), y.only_index());
        let i = y.push(6);
        touch(%s[i]);
    }))
}""" % mark("x", "y"))
    # zip in all forms: range and container must match on either side
    for form, code in (("zip(p, &x, q, &y, |_, _| ())", None), ("zip(p, &mut x, q, &y, |_, _| ())", None), ("zip(p, &x, q, &mut y, |_, _| ())", None), ("zip(p, &mut x, q, &mut y, |_, _| ())", None)):
        for maker in ("pointer_range()", "pointer_slice()"):
            s.add("%s with both %s exchanged" % (form, maker), cross("x." + maker, "let q = y.%s; let (p, q) = %s; %s;" % (maker, mark("(q, p)", "(p, q)"), form)))
            s.add("%s with the first %s twice" % (form, maker), cross("x." + maker, "let q = %s.%s; %s;" % (mark("x", "y"), maker, form)))
    # halves of a container
    HALF = """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    scope(&mut a[..], |mut x| {
        let o = x.pointer_range().nonempty().unwrap().last();
        let oi = x.vet(5).unwrap();
        let p = x.pointer_range().nonempty().unwrap().upper_middle();
        x.split_container_at_pointer(p, |mut c1, r1, mut c2, r2| {
            $BODY
        })
    })
}
"""
    for name, body in (("range of the other half", "touch(&%s[r1]);" % mark("c2", "c1")), ("second range of the other half", "touch(&%s[r2]);" % mark("c1", "c2")),
                       ("first of the other half", "touch(%s[r2.first()]);" % mark("c1", "c2")), ("outer pointer in a half", "touch(c2[%s]);" % mark("o", "r2.last()")),
                       ("split pointer in a half", "touch(c2[%s]);" % mark("p", "r2.first()")), ("outer index in a half", "touch(c2[%s]);" % mark("oi", "c2.vet(1).unwrap()")),
                       ("mutating the other half", "c1.rotate1_prange(%s);" % mark("r2", "r1.nonempty().unwrap()")), ("comparing ranges of the halves", "touch(r1 == %s);" % mark("r2", "c1.pointer_range()")),
                       ("joining the halves", "touch(c1.nonempty_range(r1.first(), %s));" % mark("r2.past_the_end()", "r1.past_the_end()")),
                       ("zip with ranges exchanged", "zip(%s, &c1, %s, &mut c2, |_, _| ());" % (mark("r2", "r1"), mark("r1", "r2"))),
                       ("halves swapped", "let (mut p, mut q) = (c1, c2); %s" % mark("std::mem::swap(&mut p, &mut q);", "touch((p, q));"))):
        s.add("split container: " + name, HALF.replace("$BODY", body))
    for what in ("r1", "r2", "r2.first()", "c1", "c2", "c1.pointer_range()", "c2.range()"):
        s.add("split container: %s returned" % what, HALF.replace("$BODY", mark(what, "()")).replace("        })\n    })", "        });\n    })"))
    # leaving the scope
    LEAVE = [("index", None), ("edge", None), ("range", None), ("nerange", None), ("pindex", None), ("pedge", None), ("prange", None), ("neprange", None), ("pslice", None), ("nepslice", None)]
    things = [(k, mk(k, "x")) for k, _ in LEAVE] + [
        ("range iterator", "x.range().into_iter()"), ("subdivide", "x.range().subdivide(2)"), ("pointer iterator", "x.pointer_range().into_iter()"),
        ("mapped iterator", "x.range().into_iter().map(|i| i)"), ("container", "x"), ("index-only container", "x.only_index()"), ("clone", "x.clone()"),
        ("twin", "x.make_twin(&W[..]).unwrap()"), ("container reference", "&x"), ("element reference of the closure's container", "&x[..]"),
        ("closure over an index", "{ let i = x.vet(0).unwrap(); move || i.integer() }"), ("closure over the container", "move || x.len()"),
        ("boxed index", "Box::new(x.vet(0).unwrap())"), ("vector of indices", "x.range().into_iter().collect::<Vec<_>>()"), ("tuple", "(1, x.range())"),
        ("error or index", "x.vet(0)"), ("optional index", "x.range().contains(0)")]
    for name, e in things:
        if not name.startswith("element"):
            s.add("%s returned from the scope" % name, "static W: [u8; 3] = [1, 2, 3];\npub fn run() {\n    let a = vec![1u32, 2, 3];\n    let r = scope(&a[..], |x| { %s });\n    touch(r);\n}" % mark(e, "touch(%s); 1" % e))
        if name in ("container reference", "element reference of the closure's container"):
            continue
        s.add("%s stored in an outer variable" % name, "static W: [u8; 3] = [1, 2, 3];\npub fn run() {\n    let a = vec![1u32, 2, 3];\n    let mut out = None;\n    scope(&a[..], |x| { let t = %s; out = Some(%s); });\n    touch(out);\n}" % (e, mark("t", "{ touch(t); 1 }")))
    for name, decl, put in (("a vector", "let mut out = Vec::new();", "out.push($);"), ("a cell", "let out = Cell::new(None);", "out.set(Some($));"),
                            ("a RefCell", "let out = RefCell::new(Vec::new());", "out.borrow_mut().push($);"), ("a channel", "let (out, rx) = std::sync::mpsc::channel();", "out.send($).unwrap();"),
                            ("an Rc", "let out = Rc::new(Cell::new(None));", "let o = out.clone(); o.set(Some($));"), ("a mutex", "let out = std::sync::Mutex::new(None);", "*out.lock().unwrap() = Some($);"),
                            ("a hash map", "let mut out = std::collections::HashMap::new();", "out.insert(1, $);"), ("an outer closure", "let mut out = Vec::new(); let mut put = |e| out.push(e);", "put($);"),
                            ("a box of Any", "let mut out: Vec<Box<dyn std::any::Any>> = Vec::new();", "out.push(Box::new($));"), ("a box of Debug", "let mut out: Vec<Box<dyn std::fmt::Debug>> = Vec::new();", "out.push(Box::new($));")):
        for kind in ("index", "range", "pindex", "prange"):
            e = mk(kind, "x")
            s.add("%s smuggled out in %s" % (kind, name), "pub fn run() {\n    let a = vec![1u32, 2, 3];\n    %s\n    scope(&a[..], |x| { let t = %s; %s });\n}" % (decl, e, put.replace("$", mark("t", "{ touch(t); 1u32 }"))))
    for kind in ("index", "range"):
        e = mk(kind, "x")
        s.add("%s smuggled out in a panic" % kind, "pub fn run() {\n    let a = vec![1u32, 2, 3];\n    std::panic::set_hook(Box::new(|_| ()));\n    let r = std::panic::catch_unwind(|| scope(&a[..], |x| { let t = %s; std::panic::panic_any(%s); }));\n    touch(r);\n}" % (e, mark("t", "{ touch(t); 1u32 }")))
        s.add("%s smuggled out in a thread" % kind, "pub fn run() {\n    let a = vec![1u32, 2, 3];\n    scope(&a[..], |x| { let t = %s; %s std::thread::spawn(move || touch(t)).join().unwrap(); });\n}" % (e, mark("", "touch(t); let t = 1;")))
        s.add("%s smuggled out in a thread local" % kind, "thread_local!(static T: Cell<Option<%s>> = Cell::new(None));\npub fn run() {\n    let a = vec![1u32, 2, 3];\n    scope(&a[..], |x| { let t = %s; T.with(|c| c.set(Some(%s))); });\n}" % (
            mark("Index<'static>" if kind == "index" else "Range<'static>", "usize"), e, mark("t", "{ touch(t); 1 }")))
        s.add("%s of an earlier scope" % kind, "pub fn run() {\n    let a = vec![1u32, 2, 3];\n    let mut o = None;\n    for _ in 0..2 { scope(&a[..], |x| { let t = %s; if let Some(p) = o { %s } o = Some(%s); }) }\n}" % (
            e, mark("touch(&x[p]);", "let _: usize = p;"), mark("t", "{ touch(t); 1 }")))
    s.add("struct holding the particle", "struct H<'a> { i: Option<Index<'a>> }\npub fn run() {\n    let a = vec![1u32, 2, 3];\n    let mut h = H { i: None };\n    scope(&a[..], |x| { let t = x.vet(0).unwrap(); %s });\n    touch(h.i);\n}" % mark("h.i = Some(t);", "let h = H { i: Some(t) }; touch(x[h.i.unwrap()]);"))
    s.add("element reference returned from an owning scope", "pub fn run() {\n    let r = scope(vec![1u32, 2, 3], |x| { let i = x.vet(1).unwrap(); %sx[i] });\n    touch(r);\n}" % mark("&", ""))
    s.add("slice returned from an owning scope", "pub fn run() {\n    let r = scope(vec![1u32, 2, 3], |x| { %s });\n    touch(r);\n}" % mark("&x[..]", "x[..].to_vec()"))
    s.add("slice stored outside of an owning scope", "pub fn run() {\n    let mut r = None;\n    scope(vec![1u32, 2, 3], |x| { r = Some(%s); });\n    touch(r);\n}" % mark("&x[x.range()]", "x[x.range()].to_vec()"))
    # brands in signatures
    types = [("Index<$>", "index"), ("Index<$, Unknown>", "edge"), ("Range<$>", "range"), ("Range<$, NonEmpty>", "nerange"), ("PIndex<$, u32>", "pindex"), ("PIndex<$, u32, Unknown>", "pedge"),
             ("PRange<$, u32>", "prange"), ("PRange<$, u32, NonEmpty>", "neprange"), ("PSlice<$, u32>", "pslice"), ("PSlice<$, u32, NonEmpty>", "nepslice"),
             ("RangeIter<$>", None), ("Subdivide<$>", None), ("PRangeIter<$, u32>", None), ("Container<$, &'static [u32]>", None), ("Container<$, Vec<u32>, OnlyIndex>", None),
             ("Vec<Index<$>>", None), ("Option<Range<$>>", None), ("Cell<Index<$>>", None), ("fn() -> Index<$>", None), ("fn(Index<$>)", None)]
    for t, kind in types:
        A, B = t.replace("$", "'a"), t.replace("$", "'b")
        s.add("%s shortened" % t, "fn f<'a: 'b, 'b>(i: %s) -> %s { i }\npub fn run() {}" % (A, mark(B, A)))
        s.add("%s lengthened" % t, "fn f<'a: 'b, 'b>(i: %s) -> %s { i }\npub fn run() {}" % (B, mark(A, B)))
        s.add("%s made static" % t, "fn f<'a>(i: %s) -> %s { i }\npub fn run() {}" % (A, mark(t.replace("$", "'static"), A)))
        s.add("static %s shortened" % t, "fn f<'a>(i: %s) -> %s { i }\npub fn run() {}" % (mark(t.replace("$", "'static"), A), A))
        if kind:
            s.add("%s passed as static" % t, "fn f%s(i: %s) {}\npub fn run() { let a = [1u32, 2, 3]; scope(&a[..], |x| f(%s)); }" % (mark("", "<'id>"), mark(t.replace("$", "'static"), t.replace("$", "'id")), mk(kind, "x")))
            s.add("function over container and %s" % t, "fn f<'id>(c: &Container<'id, &[u32]>, i: %s) {}\npub fn run() { let (a, b) = ([1u32, 2, 3], [4u32, 5]); scope(&a[..], |x| scope(&b[..], |y| f(&x, %s))); }" % (t.replace("$", "'id"), mk(kind, yx)))
            s.add("function over two %s" % t, "fn f<'id>(i: %s, j: %s) {}\npub fn run() { let (a, b) = ([1u32, 2, 3], [4u32, 5]); scope(&a[..], |x| scope(&b[..], |y| f(%s, %s))); }" % (t.replace("$", "'id"), t.replace("$", "'id"), mk(kind, "x"), mk(kind, yx)))
            s.add("trait object over %s" % t, "trait Tr<'id> { fn go(&self, i: %s); }\nimpl<'id> Tr<'id> for Container<'id, &[u32]> { fn go(&self, i: %s) {} }\npub fn run() { let (a, b) = ([1u32, 2, 3], [4u32, 5]); scope(&a[..], |x| scope(&b[..], |y| { let d: &dyn Tr = &x; d.go(%s) })); }" % (t.replace("$", "'id"), t.replace("$", "'id"), mk(kind, yx)))
    s.add("function over two containers", "fn f<'id>(c: &Container<'id, &[u32]>, d: &Container<'id, &[u32]>) {}\npub fn run() { let (a, b) = ([1u32, 2, 3], [4u32, 5]); scope(&a[..], |x| scope(&b[..], |y| f(&x, &%s))); }" % yx)
    s.add("monomorphic scope function", "fn f%s(c: Container<%s, &[u32]>) -> usize { c.len() }\npub fn run() { let a = [1u32, 2, 3]; touch(scope(&a[..], f)); }" % (mark("", "<'id>"), mark("'static", "'id")))
    s.add("scope function with a named brand", "fn f<'id>(a: &[u32]) -> usize { scope(a, |c: Container<%s, &[u32]>| c.len()) }\npub fn run() { touch(f(&[1, 2])); }" % mark("'id", "'_"))
    s.add("scope closure of a boxed function with one brand", "fn f<'id>(g: Box<dyn %sFn(Container<%s, &'static [u32]>)>) { scope(&[1u32, 2][..], g) }\npub fn run() { f(Box::new(|c| touch(c.len()))); }" % (mark("", "for<'x> "), mark("'id", "'x")))
    s.add("generic closure with a fixed brand", "fn f<'id, F: %sFnOnce(Container<%s, Vec<u32>>) -> usize>(g: F) -> usize { scope(vec![1], g) }\npub fn run() { touch(f(|c| c.len())); }" % (mark("", "for<'x> "), mark("'id", "'x")))
    s.add("split container function with one brand", "fn f<'id>(c1: Container<'id, &mut [u32]>, r1: PRange<'id, u32>, c2: Container<%s, &mut [u32]>, r2: PRange<%s, u32>) {}\npub fn run() { let mut a = [1u32, 2, 3]; scope(&mut a[..], |mut x| { let p = x.pointer_range().first(); x.split_container_at_pointer(p, |a, b, c, d| f(a, b, c, d)) }); }".replace("f<'id>", "f<'id%s>" % mark("", ", 'id2")) % (mark("'id", "'id2"), mark("'id", "'id2")))
    # making brands from nothing
    FAB = "pub fn run() { let a = [1u32, 2, 3]; scope(&a[..], |x| { let i = x.vet(1).unwrap(); let r = x.range(); let p = x.pointer_range(); let q = p.nonempty().unwrap().first(); let s = x.pointer_slice(); $ }); }"
    for name, bad, good in (
            ("index by a private constructor", "touch(Index::new(7));", "touch(i);"), ("index by unsafe-less private constructor with proof", "touch(Index::<NonEmpty>::new(7));", "touch(i);"),
            ("index by a struct literal", "touch(Index { index: 7, ..i });", "touch(Index { ..i });" if False else "touch(i);"), ("index field written", "let mut j = i; j.index = 7; touch(x[j]);", "let mut j = i; j = i; touch(x[j]);"),
            ("index field read and replaced", "let mut j = i; j.index += 1;", "let mut j = i; touch(j);"), ("range by a private constructor", "touch(Range::<Unknown>::from_any(0, 9));", "touch(x.vet_range(0..2));"),
            ("nonempty range by a private constructor", "touch(Range::from_ne(0, 9));", "touch(r.nonempty());"), ("range of any proof by a private constructor", "touch(Range::<NonEmpty>::from_any(0, 9));", "touch(r.nonempty());"),
            ("range by a struct literal", "touch(Range { end: 9, ..r });", "touch(r);"), ("range end written", "let mut t = r; t.end = 9;", "let mut t = r; t = r;"), ("range start written", "let mut t = r; t.start = 9;", "let mut t = r; t = r;"),
            ("proof assumed for a range", "touch(Range::assume_nonempty_range(r));", "touch(r.nonempty());"), ("proof assumed for an index", "touch(Index::<NonEmpty>::assume_any_index(r.first()));", "touch(r.first());"),
            ("pointer by a private constructor", "touch(PIndex::<u32, NonEmpty>::new(q.ptr()));", "touch(q.ptr());"), ("inbounds pointer by a private constructor", "touch(PIndex::inbounds(q.ptr()));", "touch(q.ptr());"),
            ("pointer range by a private constructor", "touch(PRange::<u32>::new(q.ptr(), q.ptr()));", "touch(q.ptr());"), ("pointer slice by a private constructor", "touch(PSlice::<u32>::new(q.ptr(), 9));", "touch(s);"),
            ("pointer field written", "let mut t = q; t.idx = t.ptr();", "let mut t = q; touch(t.ptr());"), ("pointer range start written", "let mut t = p; t.start = q.ptr();", "let mut t = p; t = p;"),
            ("pointer slice length written", "let mut t = s; t.len = 9;", "let mut t = s; touch(t.len());"), ("raw pointer dereferenced", "touch(*q.ptr());", "touch(x[q]);"), ("raw mutable pointer written", "*q.ptr_mut() = 1;", "touch(q.ptr_mut());"),
            ("container by a struct literal", "touch(Container { arr: &a[..1], ..x });", "touch(x.clone());"), ("container's array taken", "touch(x.arr);", "touch(x.len());"),
            ("container's array borrowed", "touch(x.array());", "touch(&x[..]);"), ("container's array borrowed mutably", "let mut x = x; touch(x.array_mut());", "let mut x = x; touch(&x);"),
            ("container from an array", "touch(Container::from(&a[..]));", "touch(x.clone());"), ("container constructor", "touch(Container::new(&a[..]));", "touch(x.clone());"),
            ("brand type", "touch(indexing::Id::default());", "touch(i);"), ("brand field", "touch(i.id);", "touch(i);"),
            ("private container trait", "use indexing::ContainerPrivate; touch(x.array());", "touch(x.len());"),
            ("default index", "touch(Index::<NonEmpty>::default());", "touch(i);"), ("default range", "touch(Range::<Unknown>::default());", "touch(x.empty_range());"), ("default container", "touch(Container::<&[u32]>::default());", "touch(x.clone());"),
            ("index from an integer", "let j: Index = 7usize.into();", "let j = x.vet(1);"), ("index from an integer by From", "touch(Index::<NonEmpty>::from(7usize));", "touch(Index::<NonEmpty>::from(i));"),
            ("range from integers", "touch(Range::<Unknown>::from(0..9usize));", "touch(Range::<Unknown>::from);" if False else "touch(r.as_range());"),
            ("index plus one", "touch(i + 1);", "touch(i.integer() + 1);"), ("index incremented", "let mut j = i; j += 1;", "let mut j = i; touch(x.forward(&mut j));"), ("difference of indices", "touch(i - i);", "touch(i.integer() - i.integer());"),
            ("index negated", "touch(!i);", "touch(!i.integer());"), ("pointer plus one", "touch(q + 1);", "touch(q.after());"), ("range of integers", "touch(&x[0..9]);", "touch(&x[r]);"), ("plain integer index", "touch(x[1]);", "touch(x[i]);"),
            ("plain integer range from", "touch(&x[1..]);", "touch(&x[i..]);"), ("plain integer range to", "touch(&x[..2]);", "touch(&x[..i]);"),
            ("range end points exchanged", "touch(&x[i..i]);", "touch(&x[..i]);"), ("inclusive range of indices", "touch(&x[..=i]);", "touch(&x[..i]);"),
            ("two-point range to range_of", "touch(x.range_of(i..i));", "touch(x.range_of(i..));"), ("two-point range to pointer_range_of", "touch(x.pointer_range_of(q..q));", "touch(x.pointer_range_of(q..));"),
            ("step of an index range", "for j in i..i { touch(j); }", "for j in r { touch(j); }"), ("iterator by a struct literal", "touch(RangeIter { end: 9, ..r.into_iter() });", "touch(r.into_iter());"),
            ("iterator end written", "let mut t = r.into_iter(); t.end = 9;", "let mut t = r.into_iter(); touch(t.next());"), ("pointer iterator field", "touch(p.into_iter().0);", "touch(p.into_iter().into_range());"),
            ("subdivide field", "let mut t = r.subdivide(2); t.range = r;", "let mut t = r.subdivide(2); touch(t.next());"),
            ("transmute", "let j: Index = std::mem::transmute(i);", "let j: Index = i;"), ("error by a literal", "touch(IndexingError(()));", "touch(x.vet(9).unwrap_err());"),
            ("unchecked access", "touch(a[..].xget_unchecked(7));", "touch(a[..].base_len());"), ("unchecked mutable access", "let mut v = vec![1]; touch(v.xget_unchecked_mut(7));", "let mut v = vec![1]; touch(v.as_mut_slice());"),
            ("unchecked insertion", "let mut v = vec![1]; v.insert_unchecked(7, 1);", "let mut v = vec![1]; v.insert(0, 1);"),
            ("unchecked dereference", "use indexing::pointer::ContainerRef; touch(<&Container<&[u32]> as ContainerRef>::dereference(q.ptr()));", "touch(x[q]);"),
            ("container trait method on the container", "touch(x.xget_unchecked(7));", "touch(x.len());"), ("container forgets brand by deref", "touch((*x).len());", "touch(x.len());")):
        s.add("fabrication: " + name, FAB.replace("$", mark(bad, good)))
    TRAITS = {
        "Trustworthy": "%s Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } }",
        "Contiguous": "unsafe impl Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } } %s Contiguous for M { fn begin(&self) -> *const u8 { self.0.as_ptr() } fn end(&self) -> *const u8 { self.0.as_ptr() } fn as_slice(&self) -> &[u8] { &self.0 } }",
        "GetUnchecked": "unsafe impl Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } } %s GetUnchecked for M { unsafe fn xget_unchecked(&self, i: usize) -> &u8 { &self.0[i] } }",
        "GetUncheckedMut": "unsafe impl Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } } unsafe impl GetUnchecked for M { unsafe fn xget_unchecked(&self, i: usize) -> &u8 { &self.0[i] } } %s GetUncheckedMut for M { unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut u8 { &mut self.0[i] } }",
        "FixedLength": "unsafe impl Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } } %s FixedLength for M {}",
        "Pushable": "unsafe impl Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } } %s Pushable for M { fn push(&mut self, _: u8) -> usize { 9 } unsafe fn insert_unchecked(&mut self, _: usize, _: u8) {} }",
        "ContiguousMut": "unsafe impl Trustworthy for M { type Item = u8; fn base_len(&self) -> usize { 3 } } unsafe impl Contiguous for M { fn begin(&self) -> *const u8 { self.0.as_ptr() } fn end(&self) -> *const u8 { self.0.as_ptr() } fn as_slice(&self) -> &[u8] { &self.0 } } %s ContiguousMut for M { fn begin_mut(&mut self) -> *mut u8 { self.0.as_mut_ptr() } fn end_mut(&mut self) -> *mut u8 { self.0.as_mut_ptr() } fn as_mut_slice(&mut self) -> &mut [u8] { &mut self.0 } }",
        "OnePointRange": "impl<I: Copy> IndexRange<I> for N<I> { fn start(&self) -> Option<I> { Some(self.0) } } %s<I: Copy> OnePointRange<I> for N<I> {}",
        "PointerRange": "%s<'id> indexing::pointer::PointerRange<'id> for Q<'id> { type Item = u8; fn first(self) -> PIndex<'id, u8, Unknown> { self.0 } fn end(self) -> PIndex<'id, u8, Unknown> { self.0 } fn len(self) -> usize { 9 } }",
        "ContainerRef": "%s<'id> indexing::pointer::ContainerRef<'id> for M { type Item = u8; type Ref = u8; unsafe fn dereference(p: *const u8) -> u8 { 1 } }",
    }
    for t, code in TRAITS.items():
        s.add("trusted trait %s implemented in safe code" % t, "struct M([u8; 3]);\nstruct N<I>(I);\n#[derive(Copy, Clone)]\nstruct Q<'id>(PIndex<'id, u8, Unknown>);\n" + code % mark("impl", "unsafe impl") + "\npub fn run() {}")
    s.add("untrusted type in a scope", "struct M(Vec<u8>);\nimpl M { fn base_len(&self) -> usize { 3 } }\npub fn run() { let m = M(vec![]); touch(scope(%s, |x| x.len())); }" % mark("m", "m.0"))
    s.add("deque in a scope", "pub fn run() { let m: %s = Some(1).into_iter().collect(); touch(scope(m, |x| x.len())); }" % mark("std::collections::VecDeque<u8>", "Vec<u8>"))
    s.add("vector in a RefCell", "pub fn run() { let m = RefCell::new(vec![1]); touch(scope(%s, |x| x.len())); }" % mark("&m", "&*m.borrow()"))
    return s.out


# ---------------------------------------------------------------- C22
ONE = """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    scope(&mut a[..], |mut x| {
        let n = x.range().nonempty().unwrap();
        let i = x.vet(2).unwrap();
        let np = x.pointer_range().nonempty().unwrap();
        let ns = x.pointer_slice().nonempty().unwrap();
        let ip = np.upper_middle();
        $BODY
    })
}
"""

U_RANGE = ["x.range()", "x.empty_range()", "x.vet_range(1..3).unwrap()", "n.tail()", "n.init()", "n.split_in_half().0", "x.range().split_in_half().0", "x.range().split_in_half().1",
           "n.split_at(1).0", "n.split_at(1).1", "x.split_at(i).0", "x.split_at(i.after()).0", "x.split_at(i.after()).1", "x.split_at(i.no_proof()).1", "x.split_after(i).1", "x.split_around(n).0", "x.split_around(n).1",
           "x.before(i)", "x.after(i)", "x.range_of(i..)", "x.range_of(..i)", "x.range_of(i.after()..)", "n.frontiers().0", "n.frontiers().1", "x.forward_range_by(n, 9)", "n.forward_range_by(n, 9)",
           "x.scan_range(n, |_| true).0", "x.scan_range(n, |_| true).1", "x.range().join(n.frontiers().1).unwrap()", "n.frontiers().0.join(x.range()).unwrap()", "x.range().join_cover(x.range())",
           "n.frontiers().1.join_cover(n)", "x.empty_range().join_cover(n)", "n.tail().join_cover(n)", "x.range().join_cover_both(x.range())", "n.frontiers().0.join_cover_both(n.frontiers().0)",
           "n.into_iter().into_range()", "n.no_proof()", "Provable::no_proof(n)", "Range::no_proof(&n)", "(&x.empty_range()).no_proof()", "n.split_at(9).1", "x.clone_len()"]
U_RANGE.remove("x.clone_len()")
USE_RANGE = [("last", "touch(r.last());"), ("lower_middle", "touch(r.lower_middle());"), ("tail", "touch(r.tail());"), ("init", "touch(r.init());"), ("advance", "let mut r = r; touch(r.advance());"),
             ("advance_", "touch(r.advance_());"), ("advance_by", "let mut r = r; touch(r.advance_by(1));"), ("advance_back", "let mut r = r; touch(r.advance_back());"),
             ("x[first]", "touch(x[r.first()]);"), ("x[upper_middle]", "touch(x[r.upper_middle()]);"), ("x[first] written", "x[r.first()] = 1;"),
             ("as a NonEmpty range", "let t: Range<NonEmpty> = r; touch(t);"), ("split_after(first)", "touch(x.split_after(r.first()));"), ("first.after", "touch(r.first().after());"),
             ("scan_from(first)", "touch(x.scan_from(r.first(), |_| true));"), ("upper half's first", "touch(x[r.split_in_half().1.first()]);"), ("cover's first", "touch(x[r.join_cover(r).first()]);"),
             ("joined first", "touch(x[r.frontiers().0.join(r).unwrap().first()]);"), ("joined both first", "touch(x[r.join_cover_both(r).first()]);")]
U_INDEX = ["x.range().first()", "n.tail().first()", "x.range().upper_middle()", "n.past_the_end()", "x.range().past_the_end()", "i.after()", "i.no_proof()", "n.first().no_proof()",
           "x.empty_range().first()", "n.split_in_half().0.first()", "x.split_after(i).1.first()", "x.after(i).upper_middle()", "n.frontiers().1.first()"]
USE_INDEX = [("read", "touch(x[j]);"), ("write", "x[j] = 1;"), ("borrow", "touch(&mut x[j]);"), ("swap first", "x.swap(j, i);"), ("swap second", "x.swap(i, j);"), ("scan_from", "touch(x.scan_from(j, |_| true));"),
             ("scan_from_rev", "touch(x.scan_from_rev(j, |_| true));"), ("after", "touch(j.after());"), ("container after", "touch(x.after(j));"), ("split_after", "touch(x.split_after(j));"),
             ("forward", "let mut j = j; touch(x.forward(&mut j));"), ("forward_by", "let mut j = j; touch(x.forward_by(&mut j, 1));"), ("backward", "let mut j = j; touch(x.backward(&mut j));"),
             ("range forward_by", "let mut j = j; touch(n.forward_by(&mut j, 1));"), ("split_at keeps proof", "touch(x[x.split_at(j).1.first()]);"), ("as a NonEmpty index", "let t: Index<NonEmpty> = j; touch(t);"),
             ("assigned to a NonEmpty index", "let mut t = i; t = j; touch(t);")]
U_PRANGE = ["x.pointer_range()", "x.pointer_range_of(ip..)", "x.pointer_range_of(..ip)", "np.tail()", "np.init()", "np.split_in_half().0", "x.pointer_range().split_in_half().1", "x.split_at_pointer(ip).0",
            "x.split_at_pointer(ip.after()).1", "x.split_at_pointer(ip.no_proof()).1", "x.scan_pointer_range(np, |_| true).0", "x.scan_pointer_range(np, |_| true).1", "x.scan_pointer_range_rev(np, |_| true).0",
            "x.scan_pointer_range_rev(np, |_| true).1", "PRange::from(x.pointer_slice())", "PRange::from(ns.tail())", "np.into_iter().into_range()", "np.no_proof()"]
USE_PRANGE = [("last", "touch(r.last());"), ("tail", "touch(r.tail());"), ("init", "touch(r.init());"), ("advance", "let mut r = r; touch(r.advance());"), ("advance_back", "let mut r = r; touch(r.advance_back());"),
              ("x[first]", "touch(x[r.first()]);"), ("x[upper_middle]", "touch(x[r.upper_middle()]);"), ("rotate1_prange", "x.rotate1_prange(r);"), ("as a NonEmpty range", "let t: PRange<u32, NonEmpty> = r; touch(t);"),
              ("scan_tail_(first)", "touch(x.scan_tail_(r.first(), |_| true));"), ("first.after", "touch(r.first().after());"), ("upper half's last", "touch(r.split_in_half().1.last());"),
              ("swap_ptr", "x.swap_ptr(r.first(), ip);"), ("converted last", "touch(PSlice::from(r).last());"), ("split container's half", "x.split_container_at_pointer(r.first(), |_, _, c, t| touch(c[t.first()]));")]
U_PSLICE = ["x.pointer_slice()", "ns.tail()", "ns.init()", "ns.split_in_half().0", "x.pointer_slice().split_in_half().1", "PSlice::from(x.pointer_range())", "PSlice::from(np.init())", "ns.no_proof()"]
USE_PSLICE = [("last", "touch(r.last());"), ("tail", "touch(r.tail());"), ("init", "touch(r.init());"), ("advance", "let mut r = r; touch(r.advance());"), ("advance_back", "let mut r = r; touch(r.advance_back());"),
              ("x[first]", "touch(x[r.first()]);"), ("x[upper_middle]", "touch(x[r.upper_middle()]);"), ("as a NonEmpty slice", "let t: PSlice<u32, NonEmpty> = r; touch(t);"),
              ("upper half's last", "touch(r.split_in_half().1.last());"), ("converted last", "touch(PRange::from(r).last());")]
U_PINDEX = ["x.pointer_range().first()", "x.pointer_range().upper_middle()", "np.past_the_end()", "np.tail().first()", "ip.after()", "ip.no_proof()", "x.pointer_slice().first()", "x.pointer_slice().upper_middle()",
            "indexing::pointer::PointerRange::first(x.pointer_range())", "indexing::pointer::PointerRange::first(np)", "indexing::pointer::PointerRange::end(np)", "indexing::pointer::PointerRange::first(x.pointer_slice())", "indexing::pointer::PointerRange::first(ns)", "indexing::pointer::PointerRange::end(ns)",
            "ns.past_the_end()", "np.split_in_half().0.first()", "lower_bound_prange_(np, &x, |_| true)", "lower_bound_pslice_(ns, &x, |_| true)",
            "binary_search_by_prange_(np, &x, |_| Ordering::Less).unwrap_err()", "binary_search_by_pslice_(ns, &x, |_| Ordering::Less).unwrap_err()"]
USE_PINDEX = [("read", "touch(x[j]);"), ("after", "touch(j.after());"), ("scan_tail_", "touch(x.scan_tail_(j, |_| true));"), ("swap first", "x.swap_ptr(j, ip);"), ("swap second", "x.swap_ptr(ip, j);"),
              ("split_at_pointer keeps proof", "touch(x.split_at_pointer(j).1.last());"), ("split container keeps proof", "x.split_container_at_pointer(j, |_, _, c, r| touch(c[r.last()]));"),
              ("split container's first half", "x.split_container_at_pointer(ip, |c, r, _, _| { let j = %s; touch(c[j]) });"), ("as a NonEmpty pointer", "let t: PIndex<u32, NonEmpty> = j; touch(t);"),
              ("assigned to a NonEmpty pointer", "let mut t = ip; t = j; touch(t);")]
USE_PINDEX = [u for u in USE_PINDEX if "%s" not in u[1]]


def c22():
    s = Set()
    for e in U_RANGE:
        for name, use in USE_RANGE:
            s.add("%s of %s" % (name, e), ONE.replace("$BODY", "%s { %s }" % (mark("let r = %s;" % e, "if let Ok(r) = %s.nonempty()" % e), use)))
        s.add("IntoCheckedRange of %s" % e, ONE.replace("$BODY", "if let Ok(r) = IntoCheckedRange::into(%s) { touch(x[r.first()]); x.rotate1_up(%s); x.rotate1_down(%s); }" % (e, e, e)))
    for e in U_INDEX:
        for name, use in USE_INDEX:
            s.add("%s through %s" % (name, e), ONE.replace("$BODY", "let j = %s; %s" % (mark(e, "i"), use)))
    for e in U_PRANGE:
        for name, use in USE_PRANGE:
            s.add("%s of %s" % (name, e), ONE.replace("$BODY", "%s { %s }" % (mark("let r = %s;" % e, "if let Ok(r) = %s.nonempty()" % e), use)))
    for e in U_PSLICE:
        for name, use in USE_PSLICE:
            s.add("%s of %s" % (name, e), ONE.replace("$BODY", "%s { %s }" % (mark("let r = %s;" % e, "if let Ok(r) = %s.nonempty()" % e), use)))
    for e in U_PINDEX:
        for name, use in USE_PINDEX:
            s.add("%s through %s" % (name, e), ONE.replace("$BODY", "let j = %s; %s" % (mark(e, "ip"), use)))
    B = lambda name, bad, good: s.add(name, ONE.replace("$BODY", mark(bad, good)))
    B("first half of a split container is unproven", "x.split_container_at_pointer(ip, |c, r, _, _| touch(c[r.first()]));", "x.split_container_at_pointer(ip, |_, _, c, r| touch(c[r.first()]));")
    B("last of the first half of a split container", "x.split_container_at_pointer(ip, |c, r, _, _| touch(r.last()));", "x.split_container_at_pointer(ip, |_, _, c, r| touch(r.last()));")
    B("new containers start unproven", "let w = [1u8]; scope(&w[..], |w| touch(w.range().last()));", "let w = [1u8]; scope(&w[..], |w| touch(w.range().nonempty().unwrap().last()));")
    B("proof by conversion of a range", "let t: Range<NonEmpty> = From::from(x.range()); touch(t);", "let t: Range<Unknown> = From::from(x.range()); touch(t);")
    B("proof by conversion of an index", "let t: Index<NonEmpty> = From::from(x.range().first()); touch(t);", "let t: Index<Unknown> = From::from(x.range().first()); touch(t);")
    B("proof by conversion between pointer kinds", "let t: PRange<u32, NonEmpty> = PRange::from(x.pointer_slice()); touch(t);", "let t: PRange<u32, NonEmpty> = PRange::from(ns); touch(t);")
    B("proof by conversion between pointer kinds back", "let t: PSlice<u32, NonEmpty> = PSlice::from(x.pointer_range()); touch(t);", "let t: PSlice<u32, NonEmpty> = PSlice::from(np); touch(t);")
    B("proof by type annotation of split_at", "let (_, t): (_, Range<NonEmpty>) = x.split_at(i.after()); touch(t);", "let (_, t): (_, Range<NonEmpty>) = x.split_at(i); touch(t);")
    B("proof by type annotation of join_cover", "let t: Range<NonEmpty> = x.empty_range().join_cover(n); touch(t);", "let t: Range<NonEmpty> = n.join_cover(x.empty_range()); touch(t);")
    B("proof by type annotation of first", "let t: Index<NonEmpty> = x.range().first(); touch(t);", "let t: Index<NonEmpty> = n.first(); touch(t);")
    B("proof by Ok of unknown", "let t: Result<Range<NonEmpty>, IndexingError> = x.vet_range(0..0); touch(t);", "let t: Result<Range, IndexingError> = x.vet_range(0..0); touch(t);")
    B("nonempty error used", "let t = x.empty_range().nonempty(); touch(x[t.first()]);", "let t = x.empty_range().nonempty(); touch(t.map(|t| t.first()));")
    B("vet error used", "touch(x[x.vet(9)]);", "touch(x.vet(9).map(|i| x[i]));")
    B("option of contains used", "touch(x[n.contains(9)]);", "touch(n.contains(9).map(|i| x[i]));")
    B("pushed index is proven, its successor is not", "scope(vec![1u8], |v| { let mut v = v.only_index(); let i = v.push(2); touch(v[i.after()]); });", "scope(vec![1u8], |v| { let mut v = v.only_index(); let i = v.push(2); touch(v[i]); });")
    B("insert position is not proven", "scope(vec![1u8], |v| { let mut v = v.only_index(); let e = v.range().past_the_end(); v.insert(e, 1); touch(v[e]); });", "scope(vec![1u8], |v| { let mut v = v.only_index(); let e = v.range().past_the_end(); v.insert(e, 1); touch(v.vet(e.integer())); });")
    s.add("own proof sum for unproven pairs", "%s\npub fn run() { }" % mark("impl ProofAdd for (Unknown, u8) { type Sum = NonEmpty; }", "struct My; impl ProofAdd for My { type Sum = NonEmpty; }"))
    s.add("own proof sum for a local type in a pair", "struct My;\n%s\npub fn run() { }" % mark("impl ProofAdd for (My, Unknown) { type Sum = NonEmpty; }", "impl ProofAdd for My { type Sum = NonEmpty; }"))
    s.add("sum of unproven pairs", "fn f<T: ProofAdd<Sum=NonEmpty>>() {}\npub fn run() { f::<(%s, Unknown)>(); }" % mark("Unknown", "NonEmpty"))
    s.add("no_proof has no proof", "fn f<T: Provable<Proof=NonEmpty>>(_: T) {}\npub fn run() { let a = [1]; scope(&a[..], |x| { let n = x.range().nonempty().unwrap(); f(%s); f(n.first()); }); }" % mark("Provable::no_proof(n)", "n"))
    s.add("no_proof of an index has no proof", "fn f<T: Provable<Proof=NonEmpty>>(_: T) {}\npub fn run() { let a = [1]; scope(&a[..], |x| { let n = x.range().nonempty().unwrap(); f(n.first()%s); }); }" % mark(".no_proof()", ""))
    # the proof is covered by the type only: it must not vary
    for t in ("Index<'a, $>", "Range<'a, $>", "PIndex<'a, u8, $>", "PRange<'a, u8, $>", "PSlice<'a, u8, $>"):
        s.add("%s from unproven to proven" % t, "fn f<'a>(i: %s) -> %s { i }\npub fn run() {}" % (t.replace("$", mark("Unknown", "NonEmpty")), t.replace("$", "NonEmpty")))
        s.add("%s from proven to unproven without no_proof" % t, "fn f<'a>(i: %s) -> %s { i%s }\npub fn run() {}" % (t.replace("$", "NonEmpty"), t.replace("$", "Unknown"), mark("", ".no_proof()")))
        s.add("%s of any proof as proven" % t, "fn f<'a, P>(i: %s) -> %s { i }\npub fn run() {}" % (t.replace("$", "P"), t.replace("$", mark("NonEmpty", "P"))))
    # programs that rely on documented proofs
    P = lambda name, code: s.add("kept: " + name, ONE.replace("$BODY", code))
    for name, e in (("upper half", "n.split_in_half().1"), ("upper half twice", "n.split_in_half().1.split_in_half().1"), ("join first", "n.join(n.frontiers().1).unwrap()"), ("join second", "n.frontiers().0.join(n).unwrap()"),
                    ("join both", "n.split_in_half().0.nonempty().unwrap().join(n.split_in_half().1).unwrap()"), ("join_cover self", "n.join_cover(x.empty_range())"), ("join_cover both proven", "n.join_cover(n)"),
                    ("join_cover_both self", "n.join_cover_both(x.empty_range())"), ("join_cover_both other", "x.empty_range().join_cover_both(n)"), ("scan_from", "x.scan_from(i, |_| false)"),
                    ("scan_from_rev", "x.scan_from_rev(i, |_| false)"), ("split_after", "x.split_after(i).0"), ("split_at", "x.split_at(i).1"), ("subdivide", "n.subdivide(3).last().unwrap()"), ("nonempty", "x.range().nonempty().unwrap()"),
                    ("IntoCheckedRange", "IntoCheckedRange::into(n).unwrap()"), ("IntoCheckedRange unproven", "IntoCheckedRange::into(x.range()).unwrap()"), ("advance_", "n.advance_().unwrap()"),
                    ("advance", "{ let mut m = n; m.advance(); m }"), ("advance_by", "{ let mut m = n; m.advance_by(2); m }"), ("advance_back", "{ let mut m = n; m.advance_back(); m }")):
        P("range of " + name, "let r: Range<NonEmpty> = %s; assert!(r.len() > 0); x[r.first()] = 1; touch(x[r.last()] + x[r.lower_middle()] + x[r.upper_middle()]); touch((r.tail(), r.init())); x.swap(r.first(), r.last()); x.rotate1_up(r);" % e)
    for name, e in (("vet", "x.vet(1).unwrap()"), ("contains", "n.contains(1).unwrap()"), ("iteration", "x.range().into_iter().next().unwrap()"), ("reverse iteration", "x.range().into_iter().next_back().unwrap()"),
                    ("first", "n.first()"), ("last", "n.last()"), ("lower_middle", "n.lower_middle()"), ("upper_middle", "n.upper_middle()"), ("forward", "{ let mut j = i; x.forward(&mut j); j }"),
                    ("backward", "{ let mut j = i; x.backward(&mut j); j }"), ("forward_by", "{ let mut j = i; x.forward_by(&mut j, 2); n.forward_by(&mut j, 1); j }")):
        P("index of " + name, "let j: Index<NonEmpty> = %s; x[j] += 1; x.swap(i, j); touch((j.after(), x.after(j), x.split_after(j), x.scan_from(j, |_| true)));" % e)
    P("index of push", "scope(vec![1u8], |v| { let mut v = v.only_index(); let i: Index<NonEmpty> = v.push(2); v[i] += 1; });")
    for name, e in (("nonempty", "x.pointer_range().nonempty().unwrap()"), ("nonempty_range", "x.nonempty_range(ip, np.past_the_end()).unwrap()"), ("scan_tail_", "x.scan_tail_(ip, |_| false)"),
                    ("split_at_pointer", "x.split_at_pointer(ip).1"), ("upper half", "np.split_in_half().1"), ("conversion", "PRange::from(ns)"), ("advance", "{ let mut m = np; m.advance(); m.advance_back(); m }")):
        P("pointer range of " + name, "let r: PRange<u32, NonEmpty> = %s; assert!(r.len() > 0); touch(x[r.first()] + x[r.last()] + x[r.upper_middle()]); touch((r.tail(), r.init())); x.rotate1_prange(r); x.swap_ptr(r.first(), r.last());" % e)
    for name, e in (("nonempty", "x.pointer_slice().nonempty().unwrap()"), ("upper half", "ns.split_in_half().1"), ("conversion", "PSlice::from(np)"), ("advance", "{ let mut m = ns; m.advance(); m.advance_back(); m }")):
        P("pointer slice of " + name, "let r: PSlice<u32, NonEmpty> = %s; assert!(r.len() > 0); touch(x[r.first()] + x[r.last()] + x[r.upper_middle()]); touch((r.tail(), r.init()));" % e)
    for name, e in (("iteration", "x.pointer_range().into_iter().next().unwrap()"), ("reverse iteration", "x.pointer_range().into_iter().next_back().unwrap()"), ("first", "np.first()"), ("last", "np.last()"), ("upper_middle", "np.upper_middle()"),
                    ("slice first", "ns.first()"), ("slice last", "ns.last()"), ("search", "binary_search_by_prange_(np, &x, |_| Ordering::Equal).unwrap()"), ("slice search", "binary_search_by_pslice_(ns, &x, |_| Ordering::Equal).unwrap()")):
        P("pointer of " + name, "let j: PIndex<u32, NonEmpty> = %s; touch(x[j]); touch((j.after(), x.scan_tail_(j, |_| true))); x.swap_ptr(ip, j); x.split_container_at_pointer(j, |_, _, c, r| touch(c[r.first()]));" % e)
    return s.out


# ---------------------------------------------------------------- C23
HOLDS = [
    ("shared element", 0, "&x[i]"), ("mutable element", 1, "&mut x[i]"), ("shared range", 0, "&x[r]"), ("mutable range", 1, "&mut x[r]"), ("shared tail", 0, "&x[i..]"), ("mutable tail", 1, "&mut x[i..]"),
    ("shared head", 0, "&x[..i]"), ("mutable head", 1, "&mut x[..i]"), ("shared whole", 0, "&x[..]"), ("mutable whole", 1, "&mut x[..]"), ("two mutable ranges", 1, "x.index_twice(r, s).unwrap()"),
    ("scanned elements", 0, "{ let mut k = Vec::new(); x.scan_from(i, |e| { k.push(e); true }); k }"), ("reverse scanned elements", 0, "{ let mut k = Vec::new(); x.scan_from_rev(i, |e| { k.push(e); true }); k }"),
    ("range scanned elements", 0, "{ let mut k = Vec::new(); x.scan_range(r, |e| { k.push(e); true }); k }"),
    ("element by pointer", 0, "&x[p]"), ("pointer range", 0, "&x[pr]"), ("mutable pointer range", 1, "&mut x[pr]"), ("pointer tail", 0, "&x[p..]"), ("mutable pointer tail", 1, "&mut x[p..]"), ("pointer head", 0, "&x[..p]"),
    ("mutable pointer head", 1, "&mut x[..p]"), ("pointer scanned elements", 0, "{ let mut k = Vec::new(); x.scan_pointer_range(pr, |e| { k.push(e); true }); k }"),
    ("reverse pointer scanned elements", 0, "{ let mut k = Vec::new(); x.scan_pointer_range_rev(pr, |e| { k.push(e); true }); k }"),
    ("zipped elements", 0, "{ let mut k = Vec::new(); zip(pr, &x, pr, &x, |e, _| k.push(e)); k }"), ("mutably zipped elements", 1, "{ let mut k = Vec::new(); let w = [1u8; 9]; scope(&w[..], |w| zip(pr, &mut x, w.pointer_range(), &w, |e, _| k.push(e))); k }"),
    ("shared container", 0, "&x"), ("mutable container", 1, "&mut x"),
]
MUTS = [
    ("write", "x[i] = 9;"), ("slice_mut", "touch(&mut x[r]);"), ("tail_mut", "touch(&mut x[i..]);"), ("head_mut", "touch(&mut x[..i]);"), ("whole_mut", "touch(&mut x[..]);"), ("swap", "x.swap(i, j);"),
    ("rotate1_up", "x.rotate1_up(r);"), ("rotate1_down", "x.rotate1_down(r);"), ("index_twice", "touch(x.index_twice(r, s));"), ("zip_mut_raw", "x.zip_mut_raw(r, s, |_, _| ());"),
    ("prange_mut", "touch(&mut x[pr]);"), ("ptail_mut", "touch(&mut x[p..]);"), ("phead_mut", "touch(&mut x[..p]);"), ("split_container", "x.split_container_at_pointer(p, |_, _, _, _| ());"),
    ("rotate1_prange", "x.rotate1_prange(pn);"), ("swap_ptr", "x.swap_ptr(p, p);"), ("zip first", "{ let w = [1u8; 9]; scope(&w[..], |w| zip(pr, &mut x, w.pointer_range(), &w, |_, _| ())) }"),
    ("zip second", "{ let w = [1u8; 9]; scope(&w[..], |w| zip(w.pointer_range(), &w, pr, &mut x, |_, _| ())) }"),
]
READS = [
    ("read", "touch(x[j]);"), ("slice", "touch(&x[r]);"), ("tail", "touch(&x[i..]);"), ("head", "touch(&x[..i]);"), ("whole", "touch(&x[..]);"), ("scan_from", "touch(x.scan_from(i, |_| true));"),
    ("scan_from_rev", "touch(x.scan_from_rev(i, |_| true));"), ("scan_range", "touch(x.scan_range(r, |_| true));"), ("read by pointer", "touch(x[p]);"), ("slice by pointers", "touch(&x[pr]);"), ("pointer tail", "touch(&x[p..]);"),
    ("pointer head", "touch(&x[..p]);"), ("scan_tail_", "touch(x.scan_tail_(p, |_| true));"), ("scan_pointer_range", "touch(x.scan_pointer_range(pr, |_| true));"),
    ("scan_pointer_range_rev", "touch(x.scan_pointer_range_rev(pr, |_| true));"), ("zip", "zip(pr, &x, pr, &x, |_, _| ());"), ("binary_search_by_prange_", "touch(binary_search_by_prange_(pr, &x, |_| Ordering::Equal));"),
    ("binary_search_by_pslice_", "touch(binary_search_by_pslice_(x_ps, &x, |_| Ordering::Equal));"), ("lower_bound_prange_", "touch(lower_bound_prange_(pr, &x, |_| true));"),
    ("lower_bound_pslice_", "touch(lower_bound_pslice_(x_ps, &x, |_| true));"), ("debug", "touch(format!(\"{:?}\", x));"),
]
PARTS = "let (i, j) = (x.vet(2).unwrap(), x.vet(4).unwrap()); let (r, s) = x.range().split_in_half(); let x_ps = x.pointer_slice(); let pr = x.pointer_range(); let pn = pr.nonempty().unwrap(); let p = pn.upper_middle();"
BORROW = """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    scope(&mut a[..], |mut x| {
        $PARTS
        $BODY
    })
}
""".replace("$PARTS", PARTS)


def c23():
    s = Set()
    for hname, m, hold in HOLDS:
        for oname, op in MUTS + (READS if m else []):
            s.add("%s while %s is held" % (oname, hname), BORROW.replace("$BODY", "let h = %s; %s %s %s" % (hold, mark("", "touch(h);"), op, mark("touch(h);", ""))))
    # in callbacks
    for sname, call in (("scan_from", "x.scan_from(i, |_| { $; true });"), ("scan_from_rev", "x.scan_from_rev(i, |_| { $; true });"), ("scan_range", "x.scan_range(r, |_| { $; true });"),
                        ("scan_tail_", "x.scan_tail_(p, |_| { $; true });"), ("scan_pointer_range", "x.scan_pointer_range(pr, |_| { $; true });"), ("scan_pointer_range_rev", "x.scan_pointer_range_rev(pr, |_| { $; true });"),
                        ("binary_search_by_prange_", "touch(binary_search_by_prange_(pr, &x, |_| { $; Ordering::Less }));"), ("lower_bound_prange_", "touch(lower_bound_prange_(pr, &x, |_| { $; true }));"),
                        ("zip", "zip(pr, &x, pr, &x, |_, _| { $ });")):
        for oname, op in (("write", "x[i] = 9"), ("swap", "x.swap(i, j)"), ("rotate", "x.rotate1_up(r)"), ("swap_ptr", "x.swap_ptr(p, p)"), ("mutable slice", "touch(&mut x[..])")):
            s.add("%s inside %s" % (oname, sname), BORROW.replace("$BODY", call.replace("$", mark(op, "touch(x[i])"))))
    for sname, call in (("zip_mut_raw", "x.zip_mut_raw(r, s, |_, _| { $ });"), ("zip of a mutable container", "let w = [1u8; 9]; scope(&w[..], |w| zip(pr, &mut x, w.pointer_range(), &w, |_, _| { $ }));"),
                        ("split_container_at_pointer", "x.split_container_at_pointer(p, |_, _, _, _| { $ });")):
        for oname, op in (("read", "touch(x[i])"), ("write", "x[i] = 9"), ("slice", "touch(&x[..])"), ("scan", "touch(x.scan_from(i, |_| true))"), ("pointer read", "touch(x[p])")):
            s.add("%s inside %s" % (oname, sname), BORROW.replace("$BODY", call.replace("$", mark(op, "touch(i)")) + mark("", op + ";")))
    B = lambda name, bad, good: s.add(name, BORROW.replace("$BODY", mark(bad, good)))
    B("two mutable elements", "let g = &mut x[i]; let h = &mut x[j]; std::mem::swap(g, h);", "let g = x[i]; let h = x[j]; x[i] = h; x[j] = g;")
    B("mutable halves by two slices", "let g = &mut x[r]; let h = &mut x[s]; g[0] = h[0];", "let (g, h) = x.index_twice(r, s).unwrap(); g[0] = h[0];")
    B("index_twice twice", "let (g, _) = x.index_twice(r, s).unwrap(); let (h, _) = x.index_twice(r, s).unwrap(); g[0] = h[0];", "let (g, _) = x.index_twice(r, s).unwrap(); g[0] = 1; let (h, _) = x.index_twice(r, s).unwrap(); h[0] = 1;")
    B("index_twice result outlives container", "let g = { let mut y = x; y.index_twice(r, s).unwrap().0 }; touch(g);", "let mut y = x; let g = y.index_twice(r, s).unwrap().0; touch(g);")
    B("zip of a container with itself mutably", "zip(pr, &x, pr, &mut x, |_, _| ());", "zip(pr, &x, pr, &x, |_, _| ());")
    B("zip of a container with itself mutably, first", "zip(pr, &mut x, pr, &x, |_, _| ());", "zip(pr, &x, pr, &x, |_, _| ());")
    B("zip of a mutable container twice", "zip(pr, &mut x, pr, &mut x, |_, _| ());", "let mut w = [1u8; 6]; scope(&mut w[..], |mut w| zip(pr, &mut x, w.pointer_range(), &mut w, |_, _| ()));")
    B("element moved out", "let b = x; let v = scope(vec![String::new()], |w| { let k = w.vet(0).unwrap(); let m: String = w[k]; });", "let v = scope(vec![String::new()], |w| { let k = w.vet(0).unwrap(); let m: &String = &w[k]; });")
    B("slice moved out", "scope(vec![String::new()], |w| { let k = w.range(); let m: [String] = w[k]; });", "scope(vec![String::new()], |w| { let k = w.range(); let m: &[String] = &w[k]; });")
    B("element reference kept after the scope of a vector ended", "let mut k = Vec::new(); scope(vec![1u8, 2], |w| { w.scan_range(w.range(), |e| { k.push(e); true }); }); touch(k);", "let mut k = Vec::new(); scope(vec![1u8, 2], |w| { w.scan_range(w.range(), |e| { k.push(*e); true }); }); touch(k);")
    B("scan_tail_ reference kept", "let mut k = Vec::new(); x.scan_tail_(p, |e| { k.push(e); true }); x[i] = 1; touch(k);", "let mut k = Vec::new(); x.scan_tail_(p, |e| { k.push(*e); true }); x[i] = 1; touch(k);")
    B("zip reference kept over mutation", "let mut k = Vec::new(); let w = [1u8; 9]; scope(&w[..], |w| zip(pr, &mut x, w.pointer_range(), &w, |e, _| k.push(e))); x[i] = 7; *k[2] = 3;", "let mut k = Vec::new(); let w = [1u8; 9]; scope(&w[..], |w| zip(pr, &mut x, w.pointer_range(), &w, |e, _| k.push(e))); *k[2] = 3; x[i] = 7;")
    B("container used after only_index", "let y = x.only_index(); touch((x[p], y.len()));", "touch(x[p]); let y = x.only_index(); touch(y.len());")
    B("container mutated after being moved", "let mut y = x; x[i] = 1; y[i] = 1;", "let mut y = x; y[i] = 1;")
    B("only_index behind a reference", "let y = &mut x; touch(y.only_index());", "let y = x; touch(y.only_index());")
    B("array used while in the scope", "touch(a[0]); x[i] = 1;", "touch(x[j]); x[i] = 1;")
    # immutability of the binding or the reference
    for oname, op in MUTS:
        s.add("%s of an immutable container" % oname, BORROW.replace("|mut x|", "|" + mark("", "mut ") + "x|").replace("$BODY", op))
        s.add("%s through a shared reference to the container" % oname, BORROW.replace("$BODY", "let y = %s x; " % mark("&", "&mut") + re.sub(r"&mut x\b(?!\[)", "&mut *y", re.sub(r"\bx\b(?!_)(?=\.|\[)", "y", op))))
        for sh, decl in (("slice", "&a[..]"), ("vector", "&v"), ("mutable slice", "&m")):
            need = {"slice": ("&a[..]", "&mut a[..]"), "vector": ("&v", "&mut v"), "mutable slice": ("&m", "m"), "mutable vector": ("&mv", "mv")}[sh]
            s.add("%s of a container of a shared %s" % (oname, sh), """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    let mut v = a.to_vec();
    let mut b = a;
    let m = &mut b[..];
    scope(%s, |mut x| {
        %s
        %s
    });
}""" % (mark(*need), PARTS, op))
        s.add("%s of a clone" % oname, """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    scope(%sa[..], |x| {
        let mut x = x%s;
        %s
        %s
    });
}""" % (mark("&", "&mut "), mark(".clone()", ""), PARTS, op))
    s.add("writing to a twin of a shared slice", "pub fn run() { let (a, mut b) = ([1u8, 2], [3u8, 4]); scope(&a[..], |x| { let mut t = x.make_twin(%s b[..]).unwrap(); let i = x.vet(1).unwrap(); t[i] = 7; }); }" % mark("&", "&mut"))
    s.add("shared reference to a mutable slice in a twin", "pub fn run() { let (a, mut b) = ([1u8, 2], [3u8, 4]); scope(&a[..], |x| { let m = &mut b[..]; let mut t = x.make_twin(%sm).unwrap(); let i = x.vet(1).unwrap(); t[i] = 7; }); }" % mark("&", ""))
    # growth
    GROW = "pub fn run() { let mut vec = vec![1u32, 2, 3]; let mut arr = [1u32, 2, 3]; scope($A, |x| { let mut x = x$O; let e = x.range().past_the_end(); $B }); }"
    def G(name, arr, only, body):
        s.add(name, GROW.replace("$A", arr).replace("$O", only).replace("$B", body))
    only = mark("", ".only_index()")
    G("push in pointer mode", "vec", only, "touch(x.push(4));")
    G("insert in pointer mode", "vec", only, "x.insert(e, 4);")
    G("push through a mutable reference in pointer mode", "&mut vec", only, "touch(x.push(4));")
    G("push to a slice", mark("&mut arr[..]", "&mut vec"), ".only_index()", "touch(x.push(4));")
    G("insert into a slice", mark("&mut arr[..]", "&mut vec"), ".only_index()", "x.insert(e, 4);")
    G("push to a shared vector", mark("&vec", "&mut vec"), ".only_index()", "touch(x.push(4));")
    G("insert into a shared vector", mark("&vec", "&mut vec"), ".only_index()", "x.insert(e, 4);")
    G("push to a shared slice", mark("&arr[..]", "vec"), ".only_index()", "touch(x.push(4));")
    G("push through a shared container", "vec", ".only_index()", "let y = %s x; touch(y.push(4));" % mark("&", "&mut"))
    G("insert at an integer", "vec", ".only_index()", "x.insert(%s, 4);" % mark("7usize", "e"))
    G("push of another type", "vec", ".only_index()", "touch(x.push(%s));" % mark("\"a\"", "4"))
    for m in ("pop()", "clear()", "truncate(1)", "remove(0)", "swap_remove(0)", "retain(|_| false)", "drain(..)", "resize(1, 0)", "set_len(9)", "append(&mut vec![1])", "extend(vec![1])", "split_off(1)", "dedup()", "reserve(9)", "shrink_to_fit()", "as_mut_vec()", "into_inner()", "get_mut()", "as_mut()", "into_vec()", "leak()"):
        for mode, o in (("pointer", ""), ("index-only", ".only_index()")):
            G("%s in %s mode" % (m, mode), "vec", o, mark("touch(x.%s);" % m, "touch(x.len());"))
    G("array replaced by assignment", "vec", "", mark("*x = vec![];", "touch(x.len());"))
    G("array replaced by mem::take", "vec", "", mark("std::mem::take(&mut x);", "touch(&mut x);"))
    G("array replaced by mem::replace", "vec", "", mark("std::mem::replace(&mut *x, vec![]);", "touch(&mut x);"))
    G("array replaced through deref", "&mut vec", "", mark("std::mem::swap(&mut *x, &mut vec![]);", "touch(&mut x);"))
    G("array replaced through AsMut", "vec", "", mark("let v: &mut Vec<u32> = x.as_mut(); v.clear();", "touch(&mut x);"))
    G("array replaced through Borrow", "vec", "", mark("use std::borrow::BorrowMut; let v: &mut Vec<u32> = x.borrow_mut(); v.clear();", "use std::borrow::BorrowMut; let v: &mut Container<Vec<u32>> = x.borrow_mut(); touch(v.len());"))
    for name, arr, other in (("vector", "vec", "vec![]"), ("mutable vector reference", "&mut vec", "&mut vec![]"), ("slice", "&arr[..]", "&[]"), ("mutable slice", "&mut arr[..]", "&mut []")):
        for f in ("arr", "array", "0", "inner", "data"):
            for mode, o in (("pointer", ""), ("index-only", ".only_index()")):
                G("array of a %s replaced through field %s in %s mode" % (name, f, mode), arr, o, mark("x.%s = %s;" % (f, other), "touch(x.len());"))
        for f in ("arr", "array()", "array_mut()", "get_mut()", "as_mut()", "inner_mut()"):
            G("array of a %s reached through %s" % (name, f), arr, "", mark("touch(&mut x.%s);" % f, "touch(&mut x);"))
    G("vector mutated while in its scope", "&mut vec", ".only_index()", mark("vec.clear(); touch(x.push(1));", "touch(x.push(1));"))
    G("shared vector mutated while in its scope", "&vec", "", mark("vec.clear(); touch(&x[..]);", "touch(&x[..]);"))
    G("growing while an element is borrowed", "vec", ".only_index()", "let i = x.vet(0).unwrap(); let h = &x[i]; %s touch(x.push(9)); %s" % (mark("", "touch(h);"), mark("touch(h);", "")))
    G("inserting while an element is borrowed", "vec", ".only_index()", "let i = x.vet(0).unwrap(); let h = &x[i]; %s x.insert(i, 9); %s" % (mark("", "touch(h);"), mark("touch(h);", "")))
    G("growing while a slice is borrowed", "vec", ".only_index()", "let h = &x[..]; %s touch(x.push(9)); %s" % (mark("", "touch(h);"), mark("touch(h);", "")))
    G("growing while a mutable element is borrowed", "&mut vec", ".only_index()", "let i = x.vet(0).unwrap(); let h = &mut x[i]; %s touch(x.push(9)); %s" % (mark("", "touch(h);"), mark("touch(h);", "")))
    G("growing while scanning", "vec", ".only_index()", "let i = x.vet(0).unwrap(); x.scan_from(i, |_| { %s; true });" % mark("x.push(1)", "x.len()"))
    G("growing while scanned elements are held", "vec", ".only_index()", "let i = x.vet(0).unwrap(); let mut h = Vec::new(); x.scan_from(i, |k| { h.push(k); true }); %s touch(x.push(9)); %s" % (mark("", "touch(h);"), mark("touch(h);", "")))
    # cloning and twins of growable arrays
    CL = "pub fn run() { let mut vec = vec![1u32, 2, 3]; let mut arr = [1u32, 2, 3]; let brr = [4u8, 5, 6]; scope($A, |x| { $B }); }"
    def K(name, arr, body):
        s.add(name, CL.replace("$A", arr).replace("$B", body))
    for name, arr in (("vector", "vec"), ("mutable vector reference", "&mut vec"), ("shared vector reference", "&vec"), ("mutable slice", "&mut arr[..]")):
        K("clone of a container of a %s" % name, mark(arr, "&arr[..]"), "let y = x.clone(); touch(y);")
        K("clone of an index-only container of a %s" % name, mark(arr, "&arr[..]"), "let y = x.only_index().clone(); touch(y);")
    for name, arr in (("vector", "vec"), ("mutable vector reference", "&mut vec"), ("shared vector reference", "&vec")):
        K("twin of a container of a %s" % name, mark(arr, "&vec[..]"), "touch(x.make_twin(&brr[..]).is_ok());")
        K("twin of an index-only container of a %s" % name, mark(arr, "&vec[..]"), "touch(x.only_index().make_twin(&brr[..]).is_ok());")
    for name, bad, good in (("vector", "vec![1u8, 2, 3]", "&vec![1u8, 2, 3][..]"), ("mutable vector reference", "&mut vec![1u8, 2, 3]", "&mut vec![1u8, 2, 3][..]"), ("shared vector reference", "&vec![1u8, 2, 3]", "&vec![1u8, 2, 3][..]"),
                            ("boxed slice pushed", "Box::new(vec![1u8, 2, 3])", "&[1u8, 2, 3][..]")):
        K("%s as a twin" % name, "&arr[..]", "touch(x.make_twin(%s).is_ok());" % mark(bad, good))
    K("twin pushed", "&arr[..]", "let mut v = vec![1u8, 2, 3]; let mut t = x.make_twin(&mut v[..]).unwrap(); touch(t.%s);" % mark("push(4)", "len()"))
    K("clone pushed", "&arr[..]", "let mut t = x.clone().only_index(); touch(t.%s);" % mark("push(4)", "len()"))
    K("copy of a container", "&arr[..]", "let y = x%s; touch((x, y));" % mark("", ".clone()"))
    K("copy of a container of a vector", "vec", mark("let y = x; touch((x, y));", "let y = x; touch(y);"))
    # pointer particles and modes
    PM = """
pub fn run() {
    let mut a = [1u32, 2, 3, 4, 5, 6];
    let mut b = a;
    scope(&mut a[..], |mut z| {
        let pr = z.pointer_range(); let x_ps = z.pointer_slice(); let pn = pr.nonempty().unwrap(); let p = pn.upper_middle(); let (i, j) = (z.vet(2).unwrap(), z.vet(4).unwrap()); let (r, s) = z.range().split_in_half();
        $Z
        $B
    })
}
"""
    pops = [o for o in MUTS + READS if re.search(r"\bp\b|\bpr\b|\bpn\b|x_ps", o[1])] + [("pointer_range", "touch(x.pointer_range());"), ("pointer_slice", "touch(x.pointer_slice());"), ("pointer_range_of", "touch(x.pointer_range_of(p..));"),
            ("nonempty_range", "touch(x.nonempty_range(p, p));"), ("distance_to", "touch(x.distance_to(p));"), ("split_at_pointer", "touch(x.split_at_pointer(p));")]
    for oname, op in pops:
        s.add("%s on an index-only container" % oname, PM.replace("$Z", "let mut x = z%s;" % mark(".only_index()", "")).replace("$B", op))
        s.add("%s on a twin" % oname, PM.replace("$Z", "let mut x = %s;" % mark("z.make_twin(&mut b[..]).unwrap()", "z")).replace("$B", op))
    iops = [o for o in MUTS + READS if o not in pops and "whole_mut" not in o[0] and "debug" not in o[0]]
    for oname, op in iops:
        s.add("%s on an index-only container is accepted" % oname, PM.replace("$Z", "let mut x = z.only_index();").replace("$B", op))
        s.add("%s on a twin is accepted" % oname, PM.replace("$Z", "let mut x = z.make_twin(&mut b[..]).unwrap();").replace("$B", op))
    s.add("back from index-only mode", PM.replace("$Z", "let x = z.only_index();").replace("$B", mark("let y: Container<&mut [u32]> = x; touch(y);", "let y: Container<&mut [u32], OnlyIndex> = x; touch(y);")))
    # threads
    SEND = "fn send<T: Send>() {}\nfn sync<T: Sync>() {}\nstruct L<'id>(&'id ());\nfn t<'id, 'a>() { %s::<%s>(); }\npub fn run() { t(); }"
    for b in ("send", "sync"):
        for bad in ("PIndex<'id, u8>", "PIndex<'id, u8, Unknown>", "PRange<'id, u8>", "PRange<'id, u8, NonEmpty>", "PSlice<'id, u8>", "PSlice<'id, u8, NonEmpty>", "PRangeIter<'id, u8>", "Vec<PIndex<'id, u8>>"):
            s.add("%s is not %s" % (bad, b), SEND % (b, mark(bad, "Index<'id>")))
        for good in ("Index<'id>", "Index<'id, Unknown>", "Range<'id>", "Range<'id, NonEmpty>", "RangeIter<'id>", "Subdivide<'id>", "Container<'id, &'a [u8]>", "Container<'id, &'a mut [u8]>", "Container<'id, Vec<u8>>",
                     "Container<'id, Vec<String>, OnlyIndex>", "Container<'id, &'a Vec<u8>>", "IndexingError"):
            s.add("%s is %s" % (good, b), SEND % (b, good))
        for bad, good in (("Container<'id, Vec<Rc<u8>>>", "Container<'id, Vec<Box<u8>>>"), ("Container<'id, &'a [Rc<u8>]>", "Container<'id, &'a [Box<u8>]>"), ("Container<'id, &'a [Cell<u8>]>", "Container<'id, &'a [u8]>"),
                          ("Container<'id, &'a mut [Rc<u8>]>", "Container<'id, &'a mut [u8]>"), ("Container<'id, Vec<Rc<u8>>, OnlyIndex>", "Container<'id, Vec<u8>, OnlyIndex>"), ("Container<'id, Vec<*const u8>>", "Container<'id, Vec<u8>>"),
                          ("Container<'id, &'a [RefCell<u8>]>", "Container<'id, &'a [u8]>"), ("Container<'id, Vec<std::sync::MutexGuard<'a, Rc<u8>>>>", "Container<'id, Vec<u8>>")):
            s.add("%s is not %s" % (bad, b), SEND % (b, mark(bad, good)))
    s.add("vector of cells is not sync", SEND % ("sync", mark("Container<'id, Vec<Cell<u8>>>", "Container<'id, Vec<u8>>")))
    s.add("vector of cells is send", SEND % ("send", "Container<'id, Vec<Cell<u8>>>"))
    s.add("mutable slice of cells is send", SEND % ("send", "Container<'id, &'a mut [Cell<u8>]>"))
    TH = "pub fn run() { let mut a = [1u32, 2, 3, 4]; scope(&mut a[..], |mut x| { let i = x.vet(1).unwrap(); let p = x.pointer_range().nonempty().unwrap().first(); let (r, s) = x.range().split_in_half(); std::thread::scope(|t| { $ }); }); }"
    T = lambda name, code: s.add(name, TH.replace("$", code))
    T("pointer used in another thread", "t.spawn(|| { touch(%s); });" % mark("p", "i"))
    T("pointer range sent to another thread", "let q = %s; t.spawn(move || { touch(q); });" % mark("x.pointer_range()", "x.range()"))
    T("threads mutating the same container", "t.spawn(|| x[i] = 1); %s" % mark("t.spawn(|| x[i] = 2);", ""))
    T("thread mutating, thread reading", "t.spawn(|| %s); t.spawn(|| touch(x[i]));" % mark("x[i] = 1", "touch(x[i])"))
    T("threads mutating overlapping slices", mark("let g = &mut x[r]; let h = &mut x[r];", "let (g, h) = x.index_twice(r, s).unwrap();") + " t.spawn(move || g[0] = 1); t.spawn(move || h[0] = 1);")
    T("threads holding the same half", "let (g, h) = x.index_twice(r, s).unwrap(); %s t.spawn(move || h[0] = 1); t.spawn(move || touch(g[0]));" % mark("let h = &mut *g;", ""))
    s.add("container of Rc sent to a thread", "pub fn run() { let a = [%s::new(1u8)]; scope(&a[..], |x| std::thread::scope(|t| { t.spawn(|| touch(x.len())); })); }" % mark("Rc", "Box"))
    s.add("container of cells shared with a thread", "pub fn run() { let a = %s; scope(&a[..], |x| std::thread::scope(|t| { t.spawn(|| touch(&x[..])); })); }" % mark("[Cell::new(1u8)]", "[1u8]"))
    # accepted as a matter of course
    A = lambda name, code: s.add("accepted: " + name, BORROW.replace("$BODY", code))
    A("many shared references", "let (g, h, k, l) = (&x[i], &x[j], &x[r], &x[p]); let m = (&x[..], &x[i..], &x[..j], &x[pr]); assert!(*g + *h + k[0] + *l + m.0[0] > 0); touch(m);")
    A("indices made while elements are borrowed", "let g = &x[i]; let k = x.vet(1).unwrap(); let t = x.range().subdivide(2).next(); assert_eq!(x.len(), 6); touch((g, k, t));")
    A("indices used while a mutable element is held", "let g = &mut x[i]; let k = r.join_cover(s).first(); let (f, b) = r.frontiers(); *g = 3; touch((k, f, b, i < j, r == s));")
    A("sequential mutable borrows", "x[i] = 1; let g = &mut x[j]; *g = 2; let h = &mut x[..]; h[0] = 3; x.swap(i, j); let k = &mut x[r]; k[0] = 1; assert_eq!(x[j], 1);")
    A("index_twice both mutable", "let (g, h) = x.index_twice(r, s).unwrap(); std::mem::swap(&mut g[0], &mut h[0]); g[1] = h[1];")
    A("scans holding references while reading", "let mut k = Vec::new(); let t = x.scan_from(i, |e| { k.push(e); *e > 0 }); let u = x.scan_range(r, |e| { k.push(e); true }); assert!(k.iter().all(|e| **e > 0)); touch((t, u, &x[i]));")
    A("function over a mutable container", "fn f<'id>(c: &mut Container<'id, &mut [u32]>, i: Index<'id>) { c[i] = 4; } f(&mut x, i); f(&mut x, j); assert_eq!(x[j], 4);")
    A("generic function", "fn f<'id, A: GetUncheckedMut<Item = u32>>(c: &mut Container<'id, A>, i: Index<'id>, j: Index<'id>) { c.swap(i, j); } f(&mut x, i, j);")
    A("inner scope over a part", "scope(&mut x[s], |mut y| { let k = y.vet(0).unwrap(); y[k] = 9; }); assert_eq!(x[s.nonempty().unwrap().first()], 9);")
    A("indices stored in a structure", "struct S<'id> { a: Vec<Index<'id>>, b: Range<'id> } let mut t = S { a: vec![], b: r }; t.a.push(i); t.a.extend(t.b); for k in &t.a { x[*k] += 1; } touch(t.b);")
    A("split container halves mutated", "x.split_container_at_pointer(p, |mut c, r1, mut d, r2| { c[..][0] = 1; d[..][0] = 2; zip(r1, &mut c, r2, &mut d, |a, b| std::mem::swap(a, b)); });")
    s.add("accepted: result returned", "pub fn run() { let a = [1u32, 2, 3]; let (n, s, t) = scope(&a[..], |x| { let r = x.range(); (r.end(), x[r].iter().sum::<u32>(), x[r].to_vec()) }); assert_eq!((n, s, t), (3, 6, vec![1, 2, 3])); }")
    s.add("accepted: once closure", "pub fn run() { let s = String::from(\"a\"); let t = scope(vec![1u8], move |x| { drop(s); x.len() }); assert_eq!(t, 1); }")
    s.add("accepted: vector grown through reference", "pub fn run() { let mut v = vec![1u8]; scope(&mut v, |x| { let mut x = x.only_index(); let i = x.push(2); x[i] = 3; let e = x.range().past_the_end(); x.insert(e, 4); x.insert(i, 5); }); assert_eq!(v, [1, 5, 3, 4]); }")
    s.add("accepted: scoped threads", "pub fn run() { let mut a = [1u32, 2, 3, 4]; scope(&mut a[..], |mut x| { let (r, s) = x.range().split_in_half(); { let (g, h) = x.index_twice(r, s).unwrap(); std::thread::scope(|t| { t.spawn(move || g[0] = 7); t.spawn(move || h[0] = 8); }); } let x = &x; std::thread::scope(|t| { for i in r { t.spawn(move || touch(x[i])); } }); }); assert_eq!(a, [7, 2, 8, 4]); }")
    s.add("accepted: container moved to a thread", "pub fn run() { scope(vec![1u8, 2], |x| { let i = x.vet(1).unwrap(); std::thread::scope(|t| { let h = t.spawn(move || { let mut x = x; x[i] = 9; x[i] }); assert_eq!(h.join().unwrap(), 9); }); }); }")
    return s.out


def c24():
    """Programs that share between threads what must not be shared; the counterparts share atomics or take turns."""
    s = Set()
    HEAD = """
use std::sync::{Arc, Mutex, RwLock, atomic::{AtomicU32, Ordering::Relaxed}};
trait Bump { fn make(n: u32) -> Self; fn bump(&self); fn get(&self) -> u32; }
impl Bump for Cell<u32> { fn make(n: u32) -> Self { Cell::new(n) } fn bump(&self) { self.set(self.get() + 1) } fn get(&self) -> u32 { Cell::get(self) } }
impl Bump for AtomicU32 { fn make(n: u32) -> Self { AtomicU32::new(n) } fn bump(&self) { self.fetch_add(1, Relaxed); } fn get(&self) -> u32 { self.load(Relaxed) } }
impl Bump for RefCell<u32> { fn make(n: u32) -> Self { RefCell::new(n) } fn bump(&self) { *self.borrow_mut() += 1 } fn get(&self) -> u32 { *self.borrow() } }
impl Bump for Rc<u32> { fn make(n: u32) -> Self { Rc::new(n) } fn bump(&self) { touch(self.clone()) } fn get(&self) -> u32 { **self } }
impl Bump for Arc<u32> { fn make(n: u32) -> Self { Arc::new(n) } fn bump(&self) { touch(self.clone()) } fn get(&self) -> u32 { **self } }
"""
    elems = [("cells", "Cell<u32>", "AtomicU32"), ("RefCells", "RefCell<u32>", "AtomicU32"), ("Rcs", "Rc<u32>", "Arc<u32>")]
    kinds = [("a slice", "&v[..]"), ("a vector by reference", "&v"), ("a mutable slice", "&mut v[..]"), ("a mutable vector", "&mut v"), ("a vector", "v")]
    bodies = [("elements", "for k in r { x[k].bump(); }"), ("slices", "for e in &x[r] { e.bump(); } for e in &x[i..] { e.bump(); }"),
              ("scans", "x.scan_from(i, |e| { e.bump(); true }); x.scan_range(r, |e| { e.bump(); true });"), ("iteration", "for e in x[..].iter() { e.bump(); }")]
    modes = [("", ""), (" (index only)", ".only_index()")]
    for en, bad, good in elems:
        E = mark(bad, good)
        V = "let mut v: Vec<%s> = (0..4).map(Bump::make).collect(); " % E
        for kn, k in kinds:
            for mn, m in modes:
                for bn, b in bodies:
                    s.add("%s of %s%s: %s from two threads" % (kn, en, mn, bn),
                          HEAD + "pub fn run() { %sscope(%s, |z| { let x = z%s; let i = x.vet(1).unwrap(); let r = x.range(); let x = &x; std::thread::scope(|t| { t.spawn(move || { %s }); %s }); assert!(x[i].get() >= 1); }) }" % (V, k, m, b, b))
        for mn, m in modes:
            s.add("clones of a container of %s%s in two threads" % (en, mn),
                  HEAD + "pub fn run() { %sscope(&v[..], |z| { let x = z%s; let y = x.clone(); let r = x.range(); std::thread::scope(|t| { t.spawn(move || for k in r { y[k].bump(); }); for k in r { x[k].bump(); } }); }) }" % (V, m))
            s.add("two references to a container of %s%s in two threads" % (en, mn),
                  HEAD + "pub fn run() { %sscope(&v[..], |z| { let x = z%s; let r = x.range(); std::thread::scope(|t| { for _ in 0..2 { let x = &x; t.spawn(move || for k in r { x[k].bump(); }); } }); }) }" % (V, m))
            s.add("container of %s%s behind a read-write lock" % (en, mn),
                  HEAD + "pub fn run() { %sscope(&mut v[..], |z| { let x = z%s; let r = x.range(); let x = RwLock::new(x); std::thread::scope(|t| { for _ in 0..2 { t.spawn(|| for k in r { x.read().unwrap()[k].bump(); }); } }); }) }" % (V, m))
            s.add("container of %s%s captured by a shared closure" % (en, mn),
                  HEAD + "fn both<F: Fn() + Sync>(f: F) { std::thread::scope(|t| { t.spawn(&f); f(); }); } pub fn run() { %sscope(v, |z| { let x = z%s; let r = x.range(); both(|| for k in r { x[k].bump(); }); }) }" % (V, m))
        s.add("twins of %s in two threads" % en,
              HEAD + "pub fn run() { %slet w = &v[..]; scope(w, |x| { let y = x.make_twin(w).unwrap(); let r = x.range(); std::thread::scope(|t| { t.spawn(move || for k in r { y[k].bump(); }); for k in r { x[k].bump(); } }); }) }" % V)
        s.add("halves of a split container of %s with a thread" % en,
              HEAD + "pub fn run() { %sscope(&v[..], |z| { let i = z.vet(1).unwrap(); let w = z.range(); let x = &z; std::thread::scope(|t| { let g = &x[..]; t.spawn(move || for e in g { e.bump(); }); for k in w { x[k].bump(); } }); }) }" % V)
    # moving what is shared behind the elements
    for mn, m in modes:
        for kn, k in (("vector", "v"), ("mutable slice", "&mut v[..]")):
            s.add("%s of Rcs%s moved to a thread while clones stay" % (kn, mn),
                  HEAD + "pub fn run() { let e: %s = Bump::make(3); let mut v = vec![e.clone(), e.clone()]; scope(%s, |z| { let x = z%s; let r = x.range(); std::thread::scope(|t| { t.spawn(move || for k in r { x[k].bump(); }); e.bump(); }); }) }" % (mark("Rc<u32>", "Arc<u32>"), k, m))
            s.add("%s of references to cells%s moved to a thread" % (kn, mn),
                  HEAD + "pub fn run() { let e: %s = Bump::make(3); let mut v = vec![&e, &e]; scope(%s, |z| { let x = z%s; let r = x.range(); std::thread::scope(|t| { t.spawn(move || for k in r { x[k].bump(); }); e.bump(); }); }) }" % (mark("Cell<u32>", "AtomicU32"), k, m))
    # one container mutated by several threads
    muts = [("an element", "x[i] = 7;"), ("a slice", "x[r][0] = 7;"), ("all of it", "x[..][0] = 7;"), ("swap", "x.swap(i, j);"), ("rotation", "x.rotate1_up(r);"), ("reverse rotation", "x.rotate1_down(r);"), ("two slices", "let (g, h) = x.index_twice(q, w).unwrap(); g[0] = h[0];"),
            ("a prefix", "x[..i][0] = 7;"), ("a suffix", "x[i..][0] = 7;"), ("iteration", "for e in x[..].iter_mut() { *e += 1; }"), ("pointers", "let p = x.pointer_range(); x[p][0] = 5;"),
            ("pointer swap", "let n = x.pointer_range().nonempty().unwrap(); x.swap_ptr(n.first(), n.last());"), ("sorting", "insertion_sort_indexes(&mut x[..], |a, b| a < b);"), ("an element through get", "let g = &mut x[j]; *g += 1;")]
    reads = [("an element", "touch(x[i] + 1);"), ("a slice", "touch(x[r].iter().sum::<u32>());"), ("all of it", "touch(x[..].to_vec());"), ("a scan", "touch(x.scan_from(i, |e| *e > 0));"), ("iteration", "touch(x[..].iter().sum::<u32>());"), ("the length", "touch(x.len());")]
    TH = HEAD + "pub fn run() { let mut a = [1u32, 2, 3, 4]; scope(&mut a[..], |mut x| { let (i, j) = (x.vet(1).unwrap(), x.vet(2).unwrap()); let (q, w) = x.range().split_in_half(); let (q, w) = (q.nonempty().unwrap(), w.nonempty().unwrap()); let r = x.range().nonempty().unwrap(); $A std::thread::scope(|t| { $B }); assert!(x[i] < 100); }); }"
    for n, b in muts:
        s.add("two threads mutating: %s" % n, TH.replace("$A", "").replace("$B", "t.spawn(|| { %s }); %s" % (b, mark("t.spawn(|| { %s });" % b, ""))))
        s.add("a thread mutating, the owner mutating: %s" % n, TH.replace("$A", "").replace("$B", "t.spawn(|| { %s }); %s { %s }" % (b, mark("", "}); std::thread::scope(|t| {"), b)))
        for rn, rb in reads:
            s.add("a thread mutating (%s), another reading (%s)" % (n, rn), TH.replace("$A", "").replace("$B", "t.spawn(|| { %s }); %s t.spawn(|| { %s });" % (b, mark("", "}); std::thread::scope(|t| {"), rb)))
        s.add("mutating through a shared reference from two threads: %s" % n, TH.replace("$A", "let y = %s;" % mark("&x", "Mutex::new(&mut x)")).replace("$B", "for _ in 0..2 { t.spawn(|| { let %s; %s }); }" % (mark("x = y", "mut x = y.lock().unwrap()"), b)))
    s.add("two threads with overlapping slices", TH.replace("$A", mark("let (g, h) = (&mut x[r], &mut x[r]);", "let (g, h) = x.index_twice(q, w).unwrap();")).replace("$B", "t.spawn(|| g[0] = 1); t.spawn(|| h[0] = 1);"))
    s.add("two threads with the same half", TH.replace("$A", "let (g, h) = x.index_twice(q, w).unwrap();").replace("$B", "t.spawn(|| g[0] = 1); t.spawn(|| %s[0] = 1);" % mark("g", "h")))
    s.add("owner reading while halves are mutated", TH.replace("$A", "let (g, h) = x.index_twice(q, w).unwrap();").replace("$B", "t.spawn(|| g[0] = 1); t.spawn(|| h[0] = 1); %s" % mark("touch(x[i]);", "")))
    s.add("owner mutating while a thread holds a shared slice", TH.replace("$A", "let y = &x;").replace("$B", "let g = &y[r]; t.spawn(move || touch(g[0])); %s" % mark("x[i] = 4;", "touch(y[i]);")))
    s.add("mutable iterators of two threads", TH.replace("$A", "").replace("$B", "let g = x[..].iter_mut(); t.spawn(move || for e in g { *e = 1; }); %s" % mark("let h = x[..].iter_mut(); t.spawn(move || for e in h { *e = 1; });", "")))
    # within the rules
    G = lambda name, code: s.add("accepted: " + name, HEAD + "pub fn run() { " + code + " }")
    for good in ("AtomicU32", "Arc<u32>", "Mutex<u32>", "String", "u8", "()", "Option<Box<u32>>", "&'static str", "std::sync::OnceLock<u32>"):
        for kn, k in kinds:
            s.add("accepted: %s of %s shared and sent" % (kn, good), HEAD + "pub fn run() { fn ok<T: Send + Sync>(_: &T) {} let mut v: Vec<%s> = Vec::new(); scope(%s, |x| { ok(&x); ok(&x.range()); ok(&x.empty_range()); let x = x.only_index(); ok(&x); std::thread::scope(|t| { t.spawn(|| assert_eq!(x.len(), 0)); t.spawn(|| touch(x.range().len())); }); }) }" % (good, k))
    G("cells moved to a thread", "let v: Vec<Cell<u32>> = (0..4).map(Bump::make).collect(); scope(v, |x| { let r = x.range(); std::thread::scope(|t| { let s = t.spawn(move || { for k in r { x[k].bump(); } x[..].iter().map(|e| e.get()).sum::<u32>() }).join().unwrap(); assert_eq!(s, 10); }); })")
    G("cells behind a mutex", "let v: Vec<Cell<u32>> = (0..4).map(Bump::make).collect(); scope(v, |x| { let r = x.range(); let x = Mutex::new(x); std::thread::scope(|t| { for _ in 0..3 { t.spawn(|| for k in r { x.lock().unwrap()[k].bump(); }); } }); assert_eq!(x.lock().unwrap()[..].iter().map(|e| e.get()).sum::<u32>(), 18); })")
    G("mutable cells moved to a thread", "let mut v: Vec<Cell<u32>> = (0..4).map(Bump::make).collect(); scope(&mut v[..], |x| { let r = x.range(); std::thread::scope(|t| { t.spawn(move || for k in r { x[k].bump(); }); }); }); assert_eq!(v[3].get(), 4);")
    G("particles of every proof sent and shared", "scope(vec![1u8, 2, 3], |x| { let i = x.vet(1).unwrap(); let e = x.range().past_the_end(); let r = x.range(); let n = r.nonempty().unwrap(); let it = r.into_iter(); let sub = r.subdivide(2); std::thread::scope(|t| { t.spawn(|| touch((i, e, r, n, x[i]))); t.spawn(move || touch((i, e, r, n, it.count(), sub.count()))); }); assert_eq!(x.vet(1).unwrap(), i); })")
    G("particles through channels and statics of the thread", "scope(&[1u32, 2, 3, 4][..], |x| { let (tx, rx) = std::sync::mpsc::channel(); let x = &x; std::thread::scope(|t| { t.spawn(move || { for i in x.range() { tx.send((i, x[i])).unwrap(); } }); let l: Vec<_> = t.spawn(move || rx.iter().map(|(i, e)| (x[i], e)).collect::<Vec<_>>()).join().unwrap(); assert!(l.len() == 4 && l.iter().all(|p| p.0 == p.1)); }); })")
    G("atomic particles", "scope(&[1u32, 2, 3, 4][..], |x| { let best = Mutex::new(x.vet(0).unwrap()); std::thread::scope(|t| { for i in x.range() { let (best, x) = (&best, &x); t.spawn(move || { let mut b = best.lock().unwrap(); if x[i] > x[*b] { *b = i; } }); } }); assert_eq!(x[*best.lock().unwrap()], 4); })")
    return s.out


def programs(pid):
    return {"C21": c21, "C22": c22, "C23": c23, "C24": c24}[pid]()


if __name__ == "__main__":
    for p in ("C21", "C22", "C23", "C24"):
        l = programs(p)
        print(p, len(l), sum("\x01" in x[1] for x in l))
