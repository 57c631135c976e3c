//! Pointer particles: observation, and every deriving operation judged against the
//! corresponding positions.
use crate::obs::Kind;
use crate::{check, check_eq, event, Rng};
use indexing::container_traits::*;
use indexing::pointer::{PIndex, PRange, PSlice};
use indexing::proof::Provable;
use indexing::{Container, NonEmpty, Unknown};

#[derive(Debug)]
pub enum Pq<'id, T> {
    I(PIndex<'id, T, NonEmpty>),
    E(PIndex<'id, T, Unknown>),
    N(PRange<'id, T, NonEmpty>),
    R(PRange<'id, T, Unknown>),
    SN(PSlice<'id, T, NonEmpty>),
    SR(PSlice<'id, T, Unknown>),
}
impl<'id, T> Copy for Pq<'id, T> {}
impl<'id, T> Clone for Pq<'id, T> { fn clone(&self) -> Self { *self } }

/// Where the container's elements are.
#[derive(Debug)]
pub struct Base<T> { pub ptr: *const T, pub len: usize }
impl<T> Copy for Base<T> {}
impl<T> Clone for Base<T> { fn clone(&self) -> Self { *self } }
impl<T> Base<T> {
    /// position of a pointer, which must be exactly at an element or the end
    pub fn pos(&self, what: &str, p: *const T) -> usize {
        let d = (p as usize).wrapping_sub(self.ptr as usize);
        let s = std::mem::size_of::<T>();
        check!(d % s == 0 && d / s <= self.len, "{}: pointer {} bytes from the start of {} elements of {} bytes", what, d as isize, self.len, s);
        d / s
    }
}

pub trait ToPq<'id, T> { fn pq(self) -> Pq<'id, T>; }
impl<'id, T> ToPq<'id, T> for PIndex<'id, T, NonEmpty> { fn pq(self) -> Pq<'id, T> { Pq::I(self) } }
impl<'id, T> ToPq<'id, T> for PIndex<'id, T, Unknown> { fn pq(self) -> Pq<'id, T> { Pq::E(self) } }
impl<'id, T> ToPq<'id, T> for PRange<'id, T, NonEmpty> { fn pq(self) -> Pq<'id, T> { Pq::N(self) } }
impl<'id, T> ToPq<'id, T> for PRange<'id, T, Unknown> { fn pq(self) -> Pq<'id, T> { Pq::R(self) } }
impl<'id, T> ToPq<'id, T> for PSlice<'id, T, NonEmpty> { fn pq(self) -> Pq<'id, T> { Pq::SN(self) } }
impl<'id, T> ToPq<'id, T> for PSlice<'id, T, Unknown> { fn pq(self) -> Pq<'id, T> { Pq::SR(self) } }

fn rpos<'id, T, P: Kind>(w: &str, b: &Base<T>, r: PRange<'id, T, P>) -> (usize, usize, bool) {
    let (s, e) = (b.pos(w, r.first().ptr()), b.pos(w, r.past_the_end().ptr()));
    check!(s <= e, "{}: range {}..{}", w, s, e);
    check_eq!(r.len(), e - s, "{}: len of pointer range {}..{}", w, s, e);
    check_eq!(r.is_empty(), e == s, "{}: is_empty of pointer range {}..{}", w, s, e);
    check!(!P::NE || s < e, "{}: NonEmpty pointer range {}..{}", w, s, e);
    (s, e, P::NE)
}
fn spos<'id, T, P: Kind>(w: &str, b: &Base<T>, r: PSlice<'id, T, P>) -> (usize, usize, bool) {
    let (s, e) = (b.pos(w, r.first().ptr()), b.pos(w, r.past_the_end().ptr()));
    check!(s <= e, "{}: slice {}..{}", w, s, e);
    check_eq!(r.len(), e - s, "{}: len of pointer slice {}..{}", w, s, e);
    check_eq!(r.is_empty(), e == s, "{}: is_empty of pointer slice {}..{}", w, s, e);
    check!(!P::NE || s < e, "{}: NonEmpty pointer slice {}..{}", w, s, e);
    (s, e, P::NE)
}

impl<'id, T> Pq<'id, T> {
    /// (start, end), validity included; for an index start == end
    pub fn at(&self, w: &str, b: &Base<T>) -> (usize, usize) {
        let r = match *self {
            Pq::I(i) => { let p = b.pos(w, i.ptr()); check!(p < b.len, "{}: NonEmpty pointer at {} of {}", w, p, b.len); check!(i.ptr_mut() as *const T == i.ptr(), "{}: ptr_mut", w); (p, p, true) }
            Pq::E(i) => { let p = b.pos(w, i.ptr()); check!(i.ptr_mut() as *const T == i.ptr(), "{}: ptr_mut", w); (p, p, false) }
            Pq::N(r) => rpos(w, b, r),
            Pq::R(r) => rpos(w, b, r),
            Pq::SN(r) => spos(w, b, r),
            Pq::SR(r) => spos(w, b, r),
        };
        (r.0, r.1)
    }
    pub fn kind(&self) -> &'static str {
        match self { Pq::I(_) => "PIndex<NonEmpty>", Pq::E(_) => "PIndex<Unknown>", Pq::N(_) => "PRange<NonEmpty>", Pq::R(_) => "PRange<Unknown>", Pq::SN(_) => "PSlice<NonEmpty>", Pq::SR(_) => "PSlice<Unknown>" }
    }
    pub fn index(&self) -> Option<PIndex<'id, T>> { if let Pq::I(i) = *self { Some(i) } else { None } }
    pub fn any_index(&self) -> Option<PIndex<'id, T, Unknown>> { match *self { Pq::I(i) => Some(i.no_proof()), Pq::E(i) => Some(i), _ => None } }
    pub fn range(&self) -> Option<PRange<'id, T>> { match *self { Pq::N(r) => Some(r.no_proof()), Pq::R(r) => Some(r), Pq::SR(r) => Some(r.into()), Pq::SN(r) => Some(PRange::from(r).no_proof()), _ => None } }
    pub fn ne_range(&self) -> Option<PRange<'id, T, NonEmpty>> { match *self { Pq::N(r) => Some(r), Pq::SN(r) => Some(r.into()), _ => None } }
}

/// The judge: compares what an operation produced with the positions it must denote.
pub struct Judge<'id, T> { pub base: Base<T>, pub got: Vec<Pq<'id, T>>, pub keep: bool, pub n: u64 }
impl<'id, T> Judge<'id, T> {
    pub fn new(base: Base<T>, keep: bool) -> Self { Judge { base, got: vec![], keep, n: 0 } }
    pub fn put<X: ToPq<'id, T>>(&mut self, op: &'static str, from: (usize, usize), want: (usize, usize), x: X) {
        let x = x.pq();
        let got = x.at(op, &self.base);
        check_eq!(got, want, "{} on {:?} of {} elements ({})", op, from, self.base.len, x.kind());
        self.n += 1;
        if self.keep { self.got.push(x) }
    }
    pub fn val<V: PartialEq + std::fmt::Debug>(&mut self, op: &'static str, from: (usize, usize), want: V, got: V) {
        check_eq!(got, want, "{} on {:?} of {} elements", op, from, self.base.len);
        self.n += 1;
    }
}

fn half(a: usize, b: usize) -> usize { a + (b - a) / 2 }

macro_rules! common { ($j:ident, $r:ident, $a:ident, $b:ident, $op:expr, $x:ident) => { {
    let f = ($a, $b);
    match $op {
        0 => { $j.val("len", f, $b - $a, $r.len()); $j.val("is_empty", f, $a == $b, $r.is_empty()); }
        1 => { let n = $r.nonempty(); $j.val("nonempty", f, $a < $b, n.is_ok()); if let Ok(n) = n { $j.put("nonempty", f, f, n) } }
        2 => { let (l, r) = $r.split_in_half(); let m = half($a, $b); $j.put("split_in_half.0", f, ($a, m), l); $j.put("split_in_half.1", f, (m, $b), r) }
        3 => $j.put("first", f, ($a, $a), $r.first()),
        4 => { let m = half($a, $b); $j.put("upper_middle", f, (m, m), $r.upper_middle()) }
        5 => $j.put("past_the_end", f, ($b, $b), $r.past_the_end()),
        6 => $j.put("no_proof", f, f, $r.no_proof()),
        _ => return false,
    }
} } }
macro_rules! nonempty { ($j:ident, $r:ident, $a:ident, $b:ident, $op:expr) => { {
    let f = ($a, $b);
    match $op {
        10 => $j.put("last", f, ($b - 1, $b - 1), $r.last()),
        11 => $j.put("tail", f, ($a + 1, $b), $r.tail()),
        12 => $j.put("init", f, ($a, $b - 1), $r.init()),
        13 => { let mut r = $r; let ok = $b - $a > 1; $j.val("advance", f, ok, r.advance()); $j.put("advance", f, ($a + ok as usize, $b), r); }
        14 => { let mut r = $r; let ok = $b - $a > 1; $j.val("advance_back", f, ok, r.advance_back()); $j.put("advance_back", f, ($a, $b - ok as usize), r); }
        _ => return false,
    }
} } }

pub const NPOPS: usize = 26;

/// Apply operation `op`; false if the operands don't fit.
pub fn papply<'id, T, A>(op: usize, v: &Container<'id, A>, p: Pq<'id, T>, q: Pq<'id, T>, x: usize, j: &mut Judge<'id, T>) -> bool
    where A: Contiguous<Item = T>
{
    let n = j.base.len;
    let (a, b) = p.at("operand", &j.base);
    let (c, d) = q.at("operand", &j.base);
    let f = (a, b);
    match op {
        0..=6 => match p {
            Pq::N(r) => common!(j, r, a, b, op, x),
            Pq::R(r) => common!(j, r, a, b, op, x),
            Pq::SN(r) => common!(j, r, a, b, op, x),
            Pq::SR(r) => common!(j, r, a, b, op, x),
            Pq::I(i) => if op == 6 { j.put("no_proof", f, f, i.no_proof()) } else { return false },
            Pq::E(i) => if op == 6 { j.put("no_proof", f, f, i.no_proof()) } else { return false },
        },
        10..=14 => match p {
            Pq::N(r) => nonempty!(j, r, a, b, op),
            Pq::SN(r) => nonempty!(j, r, a, b, op),
            _ => return false,
        },
        7 => match p { // conversions
            Pq::N(r) => j.put("PSlice::from", f, f, PSlice::from(r)),
            Pq::R(r) => j.put("PSlice::from", f, f, PSlice::from(r)),
            Pq::SN(r) => j.put("PRange::from", f, f, PRange::from(r)),
            Pq::SR(r) => j.put("PRange::from", f, f, PRange::from(r)),
            _ => return false,
        },
        8 => if let Pq::I(i) = p { j.put("after", f, (a + 1, a + 1), i.after()) } else { return false },
        9 => { // equality
            let same = f == (c, d);
            match (p, q) {
                (Pq::I(s), Pq::I(t)) => j.val("==", f, same, s == t),
                (Pq::E(s), Pq::E(t)) => j.val("==", f, same, s == t),
                (Pq::N(s), Pq::N(t)) => j.val("==", f, same, s == t && !(s != t)),
                (Pq::N(s), Pq::R(t)) => j.val("==", f, same, s == t),
                (Pq::R(s), Pq::N(t)) => j.val("==", f, same, s == t),
                (Pq::R(s), Pq::R(t)) => j.val("==", f, same, s == t),
                (Pq::SN(s), Pq::SN(t)) => j.val("==", f, same, s == t && !(s != t)),
                (Pq::SN(s), Pq::SR(t)) => j.val("==", f, same, s == t),
                (Pq::SR(s), Pq::SN(t)) => j.val("==", f, same, s == t),
                (Pq::SR(s), Pq::SR(t)) => j.val("==", f, same, s == t),
                _ => return false,
            }
        }
        15 => { // iteration from both ends
            let mut it = match p { Pq::N(r) => r.into_iter(), Pq::R(r) => r.into_iter(), _ => return false };
            let (mut lo, mut hi) = f;
            for k in 0..b - a + 2 {
                let front = x >> (k % 60) & 1 == 0;
                check_eq!((it.len(), it.size_hint()), (hi - lo, (hi - lo, Some(hi - lo))), "len of pointer iterator of {:?} at {}..{}", f, lo, hi);
                j.put("iter.into_range", f, (lo, hi), it.into_range());
                let got = if front { it.next() } else { it.next_back() };
                check_eq!(got.is_some(), lo < hi, "pointer iterator of {:?} at {}..{} yields", f, lo, hi);
                if let Some(i) = got {
                    let want = if front { lo += 1; lo - 1 } else { hi -= 1; hi };
                    j.put("iter", f, (want, want), i);
                }
                if x >> 61 & 1 == 1 { let c = it; it = c.clone(); }
            }
            event("pointer iterations");
        }
        16 => { j.put("pointer_range", f, (0, n), v.pointer_range()); j.put("pointer_slice", f, (0, n), v.pointer_slice()); }
        17 => match p {
            Pq::I(i) => { j.put("pointer_range_of(i..)", f, (a, n), v.pointer_range_of(i..)); j.put("pointer_range_of(..i)", f, (0, a), v.pointer_range_of(..i)) }
            Pq::E(i) => { j.put("pointer_range_of(i..)", f, (a, n), v.pointer_range_of(i..)); j.put("pointer_range_of(..i)", f, (0, a), v.pointer_range_of(..i)) }
            _ => return false,
        },
        18 => { j.put("pointer_range_of(..)", f, (0, n), v.pointer_range_of::<Unknown, _>(..)); }
        19 => {
            let r = match (p, q) { (Pq::I(s), Pq::I(t)) => v.nonempty_range(s, t), (Pq::I(s), Pq::E(t)) => v.nonempty_range(s, t), (Pq::E(s), Pq::I(t)) => v.nonempty_range(s, t), (Pq::E(s), Pq::E(t)) => v.nonempty_range(s, t), _ => return false };
            check_eq!(r.is_ok(), a < c, "nonempty_range({}, {})", a, c);
            if let Ok(r) = r { j.put("nonempty_range", (a, c), (a, c), r) }
            event("nonempty_range decided");
        }
        20 => match p { Pq::I(i) => j.val("distance_to", f, a, v.distance_to(i)), Pq::E(i) => j.val("distance_to", f, a, v.distance_to(i)), _ => return false },
        21 => match p {
            Pq::I(i) => { let (l, r) = v.split_at_pointer(i); j.put("split_at_pointer.0", f, (0, a), l); j.put("split_at_pointer.1", f, (a, n), r) }
            Pq::E(i) => { let (l, r) = v.split_at_pointer(i); j.put("split_at_pointer.0", f, (0, a), l); j.put("split_at_pointer.1", f, (a, n), r) }
            _ => return false,
        },
        22 => if let Pq::I(i) = p { // scan towards the start
            let acc = x % 5;
            let mut k = 0;
            let r = v.scan_tail_(i, |_| { k += 1; k <= acc });
            j.put("scan_tail_", f, (a - acc.min(a), a + 1), r);
        } else { return false },
        23 => match p { // scan a range
            Pq::N(_) | Pq::R(_) => {
                let acc = x % 5;
                let mut k = 0;
                let m = acc.min(b - a);
                let (l, r) = match p { Pq::N(r) => v.scan_pointer_range(r, |_| { k += 1; k <= acc }), Pq::R(r) => v.scan_pointer_range(r, |_| { k += 1; k <= acc }), _ => unreachable!() };
                j.put("scan_pointer_range.0", f, (a, a + m), l);
                j.put("scan_pointer_range.1", f, (a + m, b), r);
                k = 0;
                let (l, r) = match p { Pq::N(r) => v.scan_pointer_range_rev(r, |_| { k += 1; k <= acc }), Pq::R(r) => v.scan_pointer_range_rev(r, |_| { k += 1; k <= acc }), _ => unreachable!() };
                j.put("scan_pointer_range_rev.0", f, (a, b - m), l);
                j.put("scan_pointer_range_rev.1", f, (b - m, b), r);
            }
            _ => return false,
        },
        24 => { // whatever the iterator adapters see
            let r = match p { Pq::N(r) => r.no_proof(), Pq::R(r) => r, _ => return false };
            let base = j.base;
            let ps = |it: Vec<PIndex<'id, T>>| it.into_iter().map(|i| base.pos("adapter", i.ptr())).collect::<Vec<_>>();
            j.val("collect", f, (a..b).collect(), ps(r.into_iter().collect()));
            j.val("rev", f, (a..b).rev().collect(), ps(r.into_iter().rev().collect()));
            j.val("count", f, b - a, r.into_iter().count());
            j.val("last", f, (a..b).last(), r.into_iter().last().map(|i| base.pos("last", i.ptr())));
            let k = x % 4;
            j.val("nth", f, (a..b).nth(k), r.into_iter().nth(k).map(|i| base.pos("nth", i.ptr())));
            j.val("nth_back", f, (a..b).nth_back(k), r.into_iter().nth_back(k).map(|i| base.pos("nth_back", i.ptr())));
            let sz = std::mem::size_of::<T>().max(1);
            // (the last ones wrap around when scaled by the element size and added to a pointer)
            for k in [0, 1, (b - a) / 2, (b - a).wrapping_sub(1), b - a, b - a + 1, b - a + 2, usize::MAX, usize::MAX / sz, (usize::MAX / sz).wrapping_add(1), (1 << 32) + 1] { if crate::is_miri() && k > 2 && k % 3 == 0 { continue }
                let (mut it, mut m) = (r.into_iter(), a..b);
                j.val("nth", f, m.nth(k), it.nth(k).map(|i| base.pos("nth", i.ptr())));
                j.put("rest after nth", f, (m.start, m.end), it.into_range());
                j.val("len after nth", f, m.len(), it.len());
                let (mut it, mut m) = (r.into_iter(), a..b);
                j.val("nth_back", f, m.nth_back(k), it.nth_back(k).map(|i| base.pos("nth_back", i.ptr())));
                j.val("len after nth_back", f, m.len(), it.len());
                j.val("rest after nth_back", f, m.collect(), ps(it.collect()));
                j.val("step_by", f, (a..b).step_by(k.max(1)).collect(), ps(r.into_iter().step_by(k.max(1)).collect()));
                j.val("skip", f, (a..b).skip(k).collect(), ps(r.into_iter().skip(k).collect()));
                j.val("take", f, (a..b).take(k).rev().collect(), ps(r.into_iter().take(k).rev().collect()));
                let mut it = r.into_iter();
                j.val("find", f, (a..b).nth(k), it.find(|i| base.pos("find", i.ptr()) >= a.saturating_add(k)).map(|i| base.pos("find", i.ptr())));
                j.val("rest after find", f, (b - a).saturating_sub(k.saturating_add(1)), it.len());
                j.val("rposition", f, (a..b).rposition(|p| p <= a.saturating_add(k)), r.into_iter().rposition(|i| base.pos("rposition", i.ptr()) <= a.saturating_add(k)));
            }
            j.val("fold", f, (a..b).fold(1u64, |h, p| crate::mix(h ^ p as u64)), r.into_iter().fold(1u64, |h, i| crate::mix(h ^ base.pos("fold", i.ptr()) as u64)));
            j.val("rfold", f, (a..b).rfold(1u64, |h, p| crate::mix(h ^ p as u64)), r.into_iter().rfold(1u64, |h, i| crate::mix(h ^ base.pos("rfold", i.ptr()) as u64)));
            j.val("zip", f, (a..b).zip((a..b).rev()).collect::<Vec<_>>(), r.into_iter().zip(r.into_iter().rev()).map(|(s, t)| (base.pos("zip", s.ptr()), base.pos("zip", t.ptr()))).collect());
        }
        25 => { // the same as the index ranges, operation by operation
            let (r, i) = match p { Pq::N(r) => (r.no_proof(), v.vet_range(a..b)), Pq::R(r) => (r, v.vet_range(a..b)), _ => return false };
            let i = i.unwrap();
            j.val("len as Range", f, i.len(), r.len());
            j.val("is_empty as Range", f, i.is_empty(), r.is_empty());
            let (l, u) = i.split_in_half();
            let (pl, pu) = r.split_in_half();
            j.put("split_in_half as Range", f, (l.start(), l.end()), pl);
            j.put("split_in_half as Range", f, (u.start(), u.end()), pu);
            j.val("nonempty as Range", f, i.nonempty().is_ok(), r.nonempty().is_ok());
            if let (Ok(mut i), Ok(mut r)) = (i.nonempty(), r.nonempty()) {
                let g = |x: usize| (x, x);
                j.put("first as Range", f, g(i.first().integer()), r.first());
                j.put("last as Range", f, g(i.last().integer()), r.last());
                j.put("upper_middle as Range", f, g(i.upper_middle().integer()), r.upper_middle());
                j.put("tail as Range", f, (i.tail().start(), i.tail().end()), r.tail());
                j.put("init as Range", f, (i.init().start(), i.init().end()), r.init());
                for k in 0..4 {
                    let (s, t) = if x >> k & 1 == 0 { (i.advance(), r.advance()) } else { (i.advance_back(), r.advance_back()) };
                    j.val("advance as Range", f, s, t);
                    j.put("advanced as Range", f, (i.start(), i.end()), r);
                }
            }
        }
        _ => unreachable!(),
    }
    true
}

/// Every pointer particle of a container, built from the whole range.
pub fn all_pq<'id, T, A>(v: &Container<'id, A>) -> Vec<Pq<'id, T>> where A: Contiguous<Item = T> {
    let mut is: Vec<PIndex<'id, T, Unknown>> = Vec::new();
    let mut out = Vec::new();
    for i in v.pointer_range() { out.push(Pq::I(i)); is.push(i.no_proof()) }
    is.push(v.pointer_range().past_the_end());
    for (a, &i) in is.iter().enumerate() {
        out.push(Pq::E(i));
        let r = v.pointer_range_of(i..).split_in_half().0; // some empty and some other ranges
        out.push(Pq::R(r));
        if a + 1 == is.len() { out.push(Pq::R(v.pointer_range_of(i..))); out.push(Pq::SR(v.pointer_range_of(i..).into())); }
        for &k in &is[a + 1..] {
            if let Ok(r) = v.nonempty_range(i, k) {
                out.push(Pq::N(r));
                out.push(Pq::R(r.no_proof()));
                out.push(Pq::SN(r.into()));
                out.push(Pq::SR(PSlice::from(r).no_proof()));
            }
        }
        // the empty range here
        if let Ok(r) = v.nonempty_range(is[a.saturating_sub(1)], is[(a + 1).min(is.len() - 1)]) {
            let mut r = r;
            r.advance_back();
            let e = if a == 0 { r.split_in_half().0 } else { r.tail() };
            out.push(Pq::R(e));
            out.push(Pq::SR(e.into()));
        }
    }
    out
}

pub fn pick<'id, T>(rng: &mut Rng, pool: &[Pq<'id, T>]) -> Pq<'id, T> { pool[rng.below(pool.len())] }

/// The pointer index at position `p` of a range of any length, found by halving.
pub fn pindex_at<'id, T>(r: PRange<'id, T>, p: usize) -> PIndex<'id, T> {
    let mut r = r.nonempty().unwrap_or_else(|_| crate::fail("no element".to_string()));
    let mut lo = 0;
    while r.len() > 1 {
        let h = r.len() / 2;
        let (l, u) = r.split_in_half();
        if p < lo + h { r = l.nonempty().unwrap_or_else(|_| crate::fail("lower half is empty".to_string())) }
        else { lo += h; r = u.nonempty().unwrap_or_else(|_| crate::fail("upper half is empty".to_string())) }
    }
    check_eq!(lo, p, "position found by halving");
    r.first()
}
/// The pointer index or end at position `p`.
pub fn pedge_at<'id, T>(r: PRange<'id, T>, p: usize) -> PIndex<'id, T, Unknown> {
    if p == r.len() { r.past_the_end() } else { pindex_at(r, p).no_proof() }
}
