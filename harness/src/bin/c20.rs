//! C20: container operations through pointers touch exactly what they denote.
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::pointer::{zip, PIndex, PRange, PSlice};
use indexing::proof::Provable;
use indexing::{scope, Container, NonEmpty, Unknown};
use mon::pengine::*;
use mon::*;
use std::cell::RefCell;

/// the sequence of callback arguments, as positions
struct Seen<T> { base: Base<T>, got: RefCell<Vec<usize>> }
impl<T: Elem> Seen<T> {
    fn new(base: Base<T>) -> Self { Seen { base, got: RefCell::new(vec![]) } }
    fn at(&self, x: &T, model: &[u64]) -> usize {
        let p = self.base.pos("callback argument", x as *const T);
        check!(p < self.base.len, "callback on a pointer past the end");
        check_eq!(x.id(), T::canon(model[p]), "callback argument at {}", p);
        self.got.borrow_mut().push(p);
        event("callback arguments judged");
        p
    }
    fn is<I: Iterator<Item = usize>>(&self, what: &str, want: I) { check_eq!(self.got.borrow_mut().drain(..).collect::<Vec<_>>(), want.collect::<Vec<_>>(), "{}: callbacks", what) }
}
fn slice_is<T: Elem>(what: &str, base: &Base<T>, s: &[T], a: usize, b: usize, model: &[u64]) {
    check!(s.len() == b - a && (s.as_ptr() as usize) == base.ptr as usize + a * std::mem::size_of::<T>(), "{}: slice at byte {} of length {} instead of {}..{}", what, s.as_ptr() as isize - base.ptr as isize, s.len(), a, b);
    expect_ids(what, s, &model[a..b]);
    event("slices judged");
}

/// pointers at every position: listed by iteration, or found by halving in long containers
struct Idx<'id, T> { i: Vec<PIndex<'id, T>>, e: Vec<PIndex<'id, T, Unknown>>, r: PRange<'id, T> }
fn idx<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>) -> Idx<'id, T> {
    let r = v.pointer_range();
    let i: Vec<_> = if r.len() <= 1000 { r.into_iter().collect() } else { vec![] };
    let mut e: Vec<_> = i.iter().map(|i| i.no_proof()).collect();
    if r.len() <= 1000 { e.push(r.past_the_end()) }
    Idx { i, e, r }
}
impl<'id, T> Idx<'id, T> {
    fn i(&self, p: usize) -> PIndex<'id, T> { if self.e.is_empty() { pindex_at(self.r, p) } else { self.i[p] } }
    fn e(&self, p: usize) -> PIndex<'id, T, Unknown> { if self.e.is_empty() { pedge_at(self.r, p) } else { self.e[p] } }
}
/// a..b as a pointer range
fn range<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>, x: &Idx<'id, T>, a: usize, b: usize) -> PRange<'id, T> {
    if a < b { v.nonempty_range(x.e(a), x.e(b)).unwrap().no_proof() } else {
        // cut the range from both sides until it is empty
        let r = v.pointer_range_of(x.e(a)..);
        v.scan_pointer_range(r, |_| false).0
    }
}
fn ne<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>, x: &Idx<'id, T>, a: usize, b: usize) -> Option<PRange<'id, T, NonEmpty>> { v.nonempty_range(x.e(a), x.e(b)).ok() }

/// reads, everywhere
fn reading<'id, T: Elem, A: Contiguous<Item = T>>(v: &Container<'id, A>, model: &[u64]) {
    let n = model.len();
    let x = idx(v);
    check_eq!((x.i.len(), x.e.len()), (n, n + 1), "pointers of a container");
    for a in 0..=n { for b in a..=n { reading_at(v, model, &x, a, b, |m| (0..=m + 1).collect()) } }
}
/// reads at a, and of a..b if that is not empty; the scans accept `accs` of the given number of elements
fn reading_at<'id, T: Elem, A: Contiguous<Item = T>>(v: &Container<'id, A>, model: &[u64], x: &Idx<'id, T>, a: usize, b: usize, accs: impl Fn(usize) -> Vec<usize>) {
    let n = model.len();
    let base = Base { ptr: if n > 0 { v[v.range()].as_ptr() } else { v[..].as_ptr() }, len: n };
    slice_is("v[pointer_range]", &base, &v[v.pointer_range()], 0, n, model);
    let seen = Seen::new(base);
    if a == b {
        if a < n {
            let r = &v[x.i(a)];
            check!(r as *const T as usize == base.ptr as usize + a * std::mem::size_of::<T>(), "v[p] at {}", a);
            check_eq!(r.id(), T::canon(model[a]), "v[p] at {}", a);
            slice_is("v[p..]", &base, &v[x.i(a)..], a, n, model);
            slice_is("v[..p]", &base, &v[..x.i(a)], 0, a, model);
            check_eq!(v.distance_to(x.i(a)), a, "distance_to");
            for acc in accs(a) {
                let r = v.scan_tail_(x.i(a), |e| a - 1 - seen.at(e, model) < acc);
                slice_is("scan_tail_", &base, &v[r], a - acc.min(a), a + 1, model);
                seen.is("scan_tail_", (a.saturating_sub(acc + 1)..a).rev());
                event("pointer scans");
            }
        }
        slice_is("v[e..]", &base, &v[x.e(a)..], a, n, model);
        slice_is("v[..e]", &base, &v[..x.e(a)], 0, a, model);
        let (s, t) = v.split_at_pointer(x.e(a));
        slice_is("split_at_pointer.0", &base, &v[s], 0, a, model);
        slice_is("split_at_pointer.1", &base, &v[t], a, n, model);
    }
    let r = range(v, &x, a, b);
    slice_is("v[r]", &base, &v[r], a, b, model);
    if let Some(r) = ne(v, &x, a, b) { slice_is("v[nonempty r]", &base, &v[r], a, b, model) }
    for acc in accs(b - a) {
        let m = acc.min(b - a);
        let (s, t) = v.scan_pointer_range(r, |e| seen.at(e, model) - a < acc);
        slice_is("scan_pointer_range.0", &base, &v[s], a, a + m, model);
        slice_is("scan_pointer_range.1", &base, &v[t], a + m, b, model);
        seen.is("scan_pointer_range", a..(a + m + 1).min(b));
        let (s, t) = v.scan_pointer_range_rev(r, |e| b - 1 - seen.at(e, model) < acc);
        slice_is("scan_pointer_range_rev.0", &base, &v[s], a, b - m, model);
        slice_is("scan_pointer_range_rev.1", &base, &v[t], b - m, b, model);
        seen.is("scan_pointer_range_rev", ((b - m).saturating_sub(1).max(a)..b).rev());
        event("pointer scans");
    }
}

/// More elements than 32 bits can count: where everything lands, at positions that need more.
fn giant<T: Copy + PartialEq + std::fmt::Debug + From<u8> + 'static>() {
    let mut g = match Giant::new() { Some(g) => g, None => { trivial(); return } };
    let n = g.of::<T>().len();
    let base = Base { ptr: g.of::<T>().as_ptr(), len: n };
    let z = std::mem::size_of::<T>();
    let ps = giant_positions(n);
    let is = |what: &str, s: &[T], a: usize, b: usize| { check!(s.len() == b - a && s.as_ptr() as usize == base.ptr as usize + a * z, "{}: slice at byte {} of length {} instead of {}..{}", what, s.as_ptr() as isize - base.ptr as isize, s.len(), a, b); event("giant slices") };
    let mut m: std::collections::BTreeMap<usize, T> = Default::default();
    scope(g.of::<T>(), |mut v| {
        let r0 = v.pointer_range();
        is("v[pointer_range]", &v[r0], 0, n);
        is("&mut v[pointer_range]", &mut v[r0], 0, n);
        for (k, &a) in ps.iter().enumerate() {
            let e = pedge_at(r0, a);
            check_eq!(v.distance_to(e), a, "distance_to");
            is("v[e..]", &v[e..], a, n); is("v[..e]", &v[..e], 0, a);
            is("&mut v[e..]", &mut v[e..], a, n); is("&mut v[..e]", &mut v[..e], 0, a);
            let (s, t) = v.split_at_pointer(e);
            is("split_at_pointer.0", &v[s], 0, a); is("split_at_pointer.1", &v[t], a, n);
            v.split_container_at_pointer(e, |l, lr, mut r, rr| {
                is("split container, first", &l[..], 0, a); is("split container, second", &r[..], a, n);
                is("split container, first range", &l[lr], 0, a); is("split container, second range", &r[rr], a, n);
                check_eq!((l.len(), r.len(), lr.len(), rr.len()), (a, n - a, a, n - a), "lengths of a split container");
                if a < n { r[..][0] = T::from(k as u8 + 1) }
            });
            if a < n {
                let i = pindex_at(r0, a);
                m.insert(a, T::from(k as u8 + 1));
                check_eq!(v[i], m[&a], "v[p] at {}", a);
                check!(&v[i] as *const T as usize == base.ptr as usize + a * z, "v[p] at {}", a);
                is("v[p..]", &v[i..], a, n); is("v[..p]", &v[..i], 0, a);
                is("&mut v[p..]", &mut v[i..], a, n); is("&mut v[..p]", &mut v[..i], 0, a);
                for k in 0..4usize {
                    let mut c = 0;
                    let r = v.scan_tail_(i, |_| { c += 1; c <= k });
                    is("scan_tail_", &v[r], a - k.min(a), a + 1);
                    c = 0;
                    let (s, t) = v.scan_pointer_range(v.pointer_range_of(i..), |_| { c += 1; c <= k });
                    let f = a + k.min(n - a);
                    is("scan_pointer_range.0", &v[s], a, f); is("scan_pointer_range.1", &v[t], f, n);
                    c = 0;
                    let (s, t) = v.scan_pointer_range_rev(v.pointer_range_of(..i), |_| { c += 1; c <= k });
                    let f = a - k.min(a);
                    is("scan_pointer_range_rev.0", &v[s], 0, f); is("scan_pointer_range_rev.1", &v[t], f, a);
                }
            }
            for &b in &ps[k + 1..] {
                let f = pedge_at(r0, b);
                let r = v.nonempty_range(e, f).unwrap_or_else(|_| fail(format!("nonempty_range({}, {}) refused", a, b)));
                check!(v.nonempty_range(f, e).is_err(), "nonempty_range({}, {}) admitted", b, a);
                is("v[r]", &v[r], a, b); is("&mut v[r]", &mut v[r], a, b);
                if b < n {
                    let (i, j) = (pindex_at(r0, a), pindex_at(r0, b));
                    let (x, y) = (v[i], v[j]);
                    if (a + b) % 2 == 0 { v.swap_ptr(i, j) } else { v.swap_ptr(j, i) }
                    check_eq!((v[i], v[j]), (y, x), "swap_ptr({}, {})", a, b);
                    m.insert(a, y); m.insert(b, x);
                }
            }
            // (what lies further on was zero until now, or is in the model)
            let q = (a + 5).min(n);
            if a < q {
                let mut w: Vec<T> = (a..q).map(|p| *m.get(&p).unwrap_or(&T::from(0))).collect();
                let r = v.nonempty_range(e, pedge_at(r0, q)).unwrap();
                check_eq!(&v[r], &w[..], "elements {}..{}", a, q);
                v.rotate1_prange(r);
                w.rotate_right(1);
                check_eq!(&v[r], &w[..], "rotate1_prange of {}..{}", a, q);
                for (p, x) in (a..q).zip(w) { m.insert(p, x); }
                let mut seen = vec![];
                let other: Vec<u16> = vec![7; q - a + (a % 3)];
                scope(&other[..], |u| {
                    zip(r, &v, u.pointer_range(), &u, |x, _| seen.push(x as *const T as usize));
                    let want: Vec<usize> = (a..q).map(|p| base.ptr as usize + p * z).collect();
                    check_eq!(seen, want, "zip of {}..{}: elements", a, q);
                    seen.clear();
                    zip(v.pointer_range_of(e..), &v, u.pointer_range(), &u, |x, _| seen.push(x as *const T as usize));
                    check_eq!(seen.len(), other.len().min(n - a), "zip of {}.. with {} elements", a, other.len());
                    check_eq!(seen[0], base.ptr as usize + a * z, "zip of {}..", a);
                });
            }
        }
    });
    for (&p, &x) in &m { check_eq!(g.at::<T>(p), x, "element {} of {} in memory", p, n) }
    for pr in [false, true] {
        let mut out = [T::from(99); 9];
        let first: Vec<T> = g.of::<T>()[..9].to_vec();
        if pr { copy_prange(g.of::<T>(), &mut out[..]) } else { copy(g.of::<T>(), &mut out[..]) }
        check_eq!(&out[..], &first[..], "copy of {} elements to 9", n);
        let back: Vec<T> = first.iter().rev().cloned().collect();
        if pr { copy_prange(&back, g.of::<T>()) } else { copy(&back, g.of::<T>()) }
        check_eq!(&g.of::<T>()[..9], &back[..], "copy of 9 elements to {}", n);
        check_eq!(g.at::<T>(9), m.get(&9).cloned().unwrap_or(T::from(0)), "copy of 9 elements to {}: the next one", n);
    }
    event("giant operations");
}

/// A rotation of more than 2^32 elements (thorough tier: it takes the memory).
fn giant_rotation() {
    let mut g = match Giant::sized((1 << 32) + 70_000) { Some(g) => g, None => { trivial(); return } };
    let n = g.of::<u8>().len();
    let ps: Vec<usize> = giant_positions(n).into_iter().filter(|p| p % 2 == 0 && p + 3 < n && *p > 2).collect();
    for (k, &p) in ps.iter().enumerate() { g.of::<u8>()[p] = k as u8 + 1 }
    g.of::<u8>()[n - 1] = 200;
    scope(g.of::<u8>(), |mut v| { let r = v.pointer_range().nonempty().unwrap(); v.rotate1_prange(r); });
    check_eq!((g.at::<u8>(0), g.at::<u8>(n - 1)), (200, 0), "ends after rotate1_prange of {}", n);
    for (k, &p) in ps.iter().enumerate() { check_eq!((g.at::<u8>(p + 1), g.at::<u8>(p)), (k as u8 + 1, 0), "elements {} and before after rotate1_prange of {}", p + 1, n) }
    event("giant rotations");
}

#[derive(Copy, Clone, Debug)]
enum Op { Set(usize), SetSlice(usize, usize, u8), Swap(usize, usize), Rot(usize, usize), Split(usize, bool) }

/// one mutation, on the container and on the model
fn apply<'id, T: Elem, A: ContiguousMut<Item = T>>(v: &mut Container<'id, A>, op: Op, model: &mut Vec<u64>, fresh: &mut u64) {
    let n = model.len();
    let x = idx(v);
    let base = Base { ptr: v[..].as_ptr(), len: n };
    fn set<T: Elem>(s: &mut [T], model: &mut [u64], fresh: &mut u64) { for (k, (e, m)) in s.iter_mut().zip(model).enumerate() { if k % 2 == 0 { *fresh += 1; *e = T::mk(*fresh); *m = *fresh } } }
    match op {
        Op::Set(a) => { *fresh += 1; v[x.i(a)..][0] = T::mk(*fresh); model[a] = *fresh }
        Op::SetSlice(a, b, form) => match form {
            0 => { let r = range(v, &x, a, b); let s = &mut v[r]; slice_is("&mut v[r]", &base, s, a, b, model); set(s, &mut model[a..b], fresh) }
            1 => if let Some(r) = ne(v, &x, a, b) { let s = &mut v[r]; slice_is("&mut v[nonempty r]", &base, s, a, b, model); set(s, &mut model[a..b], fresh) },
            2 => { let s = &mut v[x.e(a)..]; slice_is("&mut v[e..]", &base, s, a, n, model); set(s, &mut model[a..], fresh) }
            3 => { let s = &mut v[..x.e(b)]; slice_is("&mut v[..e]", &base, s, 0, b, model); set(s, &mut model[..b], fresh) }
            4 => if a < n { let s = &mut v[x.i(a)..]; slice_is("&mut v[p..]", &base, s, a, n, model); set(s, &mut model[a..], fresh) },
            _ => if b < n { let s = &mut v[..x.i(b)]; slice_is("&mut v[..p]", &base, s, 0, b, model); set(s, &mut model[..b], fresh) },
        },
        Op::Swap(a, b) => { v.swap_ptr(x.i(a), x.i(b)); model.swap(a, b) }
        Op::Rot(a, b) => if let Some(r) = ne(v, &x, a, b) { v.rotate1_prange(r); model[a..b].rotate_right(1) },
        Op::Split(a, proof) => {
            let mut seen = false;
            macro_rules! body { ($p:expr) => { v.split_container_at_pointer($p, |mut l, rl, mut r, rr| {
                seen = true;
                check_eq!((l.len(), r.len()), (a, n - a), "split_container_at_pointer({}) of {}", a, n);
                let (bl, br) = (Base { ptr: base.ptr, len: a }, Base { ptr: unsafe { base.ptr.add(a) }, len: n - a });
                slice_is("split container, first range", &bl, &l[rl], 0, a, &model[..a]);
                slice_is("split container, second range", &br, &r[rr], 0, n - a, &model[a..]);
                slice_is("split container, first part", &bl, &l[..], 0, a, &model[..a]);
                slice_is("split container, second part", &br, &r[..], 0, n - a, &model[a..]);
                check_eq!((rl.len(), rr.len()), (a, n - a), "ranges of a split container");
                // both parts are mutable, at the same time and separately
                if let Ok(q) = rl.nonempty() { l.rotate1_prange(q); model[..a].rotate_right(1); l.swap_ptr(q.first(), q.last()); model.swap(0, a - 1) }
                if let Ok(q) = rr.nonempty() { r.rotate1_prange(q); model[a..].rotate_right(1); r.swap_ptr(q.first(), q.last()); model.swap(a, n - 1) }
                set(&mut l[..], &mut model[..a], fresh);
                set(&mut r[..], &mut model[a..], fresh);
                for (e, f) in l[..].iter_mut().zip(&mut r[..]) { std::mem::swap(e, f) }
                for k in 0..a.min(n - a) { model.swap(k, a + k) }
            }) } }
            if proof && a < n { body!(x.i(a)) } else { body!(x.e(a)) }
            check!(seen, "split_container_at_pointer did not call");
            event("containers split");
        }
    }
    expect_ids("after a pointer operation", &v[..], model);
    event("mutations");
}
fn all_ops(n: usize) -> Vec<Op> {
    let mut o = vec![];
    for a in 0..n { o.push(Op::Set(a)); for b in 0..n { o.push(Op::Swap(a, b)) } }
    for a in 0..=n { o.push(Op::Split(a, true)); o.push(Op::Split(a, false)); for b in a..=n { o.push(Op::Rot(a, b)); for f in 0..6 { o.push(Op::SetSlice(a, b, f)) } } }
    o
}
fn rand_op(rng: &mut Rng, n: usize) -> Op {
    let a = rng.range(0, n);
    let b = rng.range(a, n);
    match rng.below(8) {
        0 if n > 0 => Op::Set(rng.below(n)),
        1 | 2 if n > 0 => Op::Swap(rng.below(n), rng.below(n)),
        3 | 4 => Op::Split(a, rng.chance(1, 2)),
        5 => Op::SetSlice(a, b, rng.below(6) as u8),
        _ => Op::Rot(a, b),
    }
}

/// zip over two containers, every form; what is seen is logged and the writes are replayed on the models
fn zips<T: Elem, U: Elem>(n: usize, m: usize, only: Option<(usize, usize, usize, usize)>) {
    ledger_reset();
    {
    let mut va = Arena::<T>::new(n, 2, 1000);
    let mut ua = Arena::<U>::new(m, 2, 5000);
    let mut mv: Vec<u64> = (0..n as u64).map(|i| 1000 + i).collect();
    let mut mu: Vec<u64> = (0..m as u64).map(|i| 5000 + i).collect();
    let mut fresh = 20_000;
    let mut one = |a: usize, b: usize, c: usize, d: usize| for form in 0..8usize {
        let (bv, bu) = (Base { ptr: va.mid_ref().as_ptr(), len: n }, Base { ptr: ua.mid_ref().as_ptr(), len: m });
        let k = (b - a).min(d - c);
        let log = RefCell::new(vec![]);
        let see = |x: &T, y: &U| {
            let (p, q) = (bv.pos("zip", x), bu.pos("zip", y));
            check!(p < n && q < m, "zip: past the end");
            log.borrow_mut().push((p, q, x.id(), y.id()));
            event("pairs visited");
        };
        let (fx, fy) = (fresh + 1, fresh + 2);
        let what = format!("zip form {} of {}..{} and {}..{}", form, a, b, c, d);
        // writes on every call: left element in odd forms and right element in even forms ending with mut
        let (mut wl, mut wr) = (false, false);
        scope(va.mid(), |mut v| scope(ua.mid(), |mut u| {
            let (xv, xu) = (idx(&v), idx(&u));
            let (r, s) = (range(&v, &xv, a, b), range(&u, &xu, c, d));
            let mut i = 0;
            macro_rules! wl { ($x:expr) => { { wl = true; *$x = T::mk(fx + 2 * i) } } }
            macro_rules! wr { ($y:expr) => { { wr = true; *$y = U::mk(fy + 2 * i) } } }
            match form {
                0 => zip(r, &v, s, &u, |x, y| { see(x, y) }),
                1 => zip(PSlice::from(r), &v, s, &mut u, |x, y| { see(x, y); wr!(y); i += 1 }),
                2 => zip(r, &mut v, PSlice::from(s), &u, |x, y| { see(x, y); wl!(x); i += 1 }),
                3 => zip(PSlice::from(r), &mut v, PSlice::from(s), &mut u, |x, y| { see(x, y); wl!(x); wr!(y); i += 1 }),
                4 => if let (Ok(r), Ok(s)) = (r.nonempty(), s.nonempty()) { zip(r, &mut v, s, &mut u, |x, y| { see(x, y); wl!(x); wr!(y); i += 1 }) } else { return },
                5 => if let Ok(r) = PSlice::from(r).nonempty() { zip(r, &v, s, &u, |x, y| { see(x, y) }) } else { return },
                6 => if let Ok(s) = PSlice::from(s).nonempty() { zip(r, &v, s, &mut u, |x, y| { see(x, y); wr!(y); i += 1 }) } else { return },
                _ => { // the references handed out may all be kept
                    let mut xs: Vec<&mut T> = vec![];
                    let mut ys: Vec<&mut U> = vec![];
                    zip(r, &mut v, s, &mut u, |x, y| { see(x, y); xs.push(x); ys.push(y) });
                    for (x, y) in xs.into_iter().zip(ys) { wl!(x); wr!(y); i += 1 }
                }
            }
            let want: Vec<_> = (0..k).map(|j| (a + j, c + j, T::canon(mv[a + j]), U::canon(mu[c + j]))).collect();
            check_eq!(*log.borrow(), want, "{}: pairs (position, position, element, element)", what);
            event("zips");
        }));
        for j in 0..k { if wl { mv[a + j] = fx + 2 * j as u64 } if wr { mu[c + j] = fy + 2 * j as u64 } }
        fresh += 2 * k as u64 + 2;
        va.expect(&what, &mv);
        ua.expect(&what, &mu);
    };
    match only {
        Some((a, b, c, d)) => one(a, b, c, d),
        None => for a in 0..=n { for b in a..=n { for c in 0..=m { for d in c..=m {
            if is_miri() && (a * 7 + b * 5 + c * 3 + d) % 6 != 0 { continue }
            one(a, b, c, d)
        } } } },
    }
    }
    ledger_clean("zip");
}

fn copies<T: Elem + Copy>(n: usize, m: usize) { copies_at::<T>(n, m, 2, 2) }
/// with `g` elements before the source and `h` before the target
fn copies_at<T: Elem + Copy>(n: usize, m: usize, g: usize, h: usize) {
    for pr in [false, true] {
        let a = Arena::<T>::new(n, g, 100);
        let mut b = Arena::<T>::new(m, h, 3000);
        if pr { copy_prange(a.mid_ref(), b.mid()) } else { copy(a.mid_ref(), b.mid()) }
        let k = n.min(m) as u64;
        a.expect("copy, source", &(0..n as u64).map(|i| 100 + i).collect::<Vec<_>>());
        b.expect(if pr { "copy_prange" } else { "copy" }, &(0..m as u64).map(|i| if i < k { 100 + i } else { 3000 + i }).collect::<Vec<_>>());
        event("copies");
    }
}
fn dots(n: usize, m: usize, rng: &mut Rng) { let most = if rng.chance(1, 2) { 10_000 } else { 3 }; dots_of(n, m, rng, most) }
fn dots_of(n: usize, m: usize, rng: &mut Rng, most: usize) {
    let mut mk = |n| (0..n).map(|_| rng.range(0, 2 * most) as i32 - most as i32).collect::<Vec<i32>>();
    let (xs, ys) = (mk(n), mk(m));
    let want: i64 = (0..n.min(m)).map(|i| xs[i] as i64 * ys[i] as i64).sum();
    if want.abs() > i32::MAX as i64 || (0..n.min(m)).scan(0i64, |s, i| { *s += xs[i] as i64 * ys[i] as i64; Some(*s) }).any(|s| s.abs() > i32::MAX as i64) { trivial(); return } // i32 sums
    check_eq!(zip_dot_i32(&xs, &ys) as i64, want, "zip_dot_i32 of {} and {} elements", n, m);
    check_eq!(zip_dot_i32_prange(&xs, &ys) as i64, want, "zip_dot_i32_prange of {} and {} elements", n, m);
    event("dot products");
}

/// guarded storage and all container kinds; the body has the container as $v
macro_rules! with { ($t:ty, $n:expr, $kind:expr, $v:ident => $e:expr) => {{
    ledger_reset();
    {
        let mut a = Arena::<$t>::new($n, 2, 100);
        let vec = |n: usize| (0..n as u64).map(|i| <$t>::mk(100 + i)).collect::<Vec<$t>>();
        match $kind {
            0 => scope(a.mid(), |mut $v| $e),
            1 => scope(&mut a.mid(), |mut $v| $e),
            2 => scope(&mut vec($n), |mut $v| $e),
            _ => scope(vec($n), |mut $v| $e),
        }
        a.guards("pointer operations");
    }
    ledger_clean("pointer operations");
}} }
macro_rules! with_ref { ($t:ty, $n:expr, $kind:expr, $v:ident => $e:expr) => {{
    ledger_reset();
    {
        let mut a = Arena::<$t>::new($n, 2, 100);
        let mut vec = roomy::<$t>($n, $kind, 100);
        match $kind {
            0 => scope(a.mid_ref(), |$v| $e),
            1 => scope(a.mid(), |$v| $e),
            2 => scope(&vec, |$v| $e),
            3 => scope(&mut vec, |$v| $e),
            4 => scope(&a.mid_ref(), |$v| $e),
            _ => scope(vec, |$v| $e),
        }
        a.expect("reading", &(0..$n as u64).map(|i| 100 + i).collect::<Vec<_>>());
    }
    ledger_clean("reading");
}} }
macro_rules! types { ($m:ident) => { $m!(u8, u64, [u8; 3], u16, u128, [u16; 3], Big, Wide, Al64, Pad, Box<u64>, Tr, String); } }

fn main() {
    run::main(|| {
        macro_rules! r { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for n in 0..mqt(3, 7, 11usize) { for kind in 0..6 {
                if is_miri() && (ty + n as i128 + kind as i128) % 17 != 5 { continue }
                let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                case("reading", &[ty, n as i128, kind as i128], || with_ref!($t, n, kind, v => reading::<$t, _>(&v, &model)));
            } } )* let _ = ty; } }
        types!(r);
        macro_rules! w { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for n in 0..mqt(3, 6, 8usize) { for kind in 0..4 {
                if is_miri() && (ty + n as i128 + kind as i128) % 13 != 5 { continue }
                case("single", &[ty, n as i128, kind as i128], || with!($t, n, kind, v => {
                    let (mut model, mut fresh) = ((0..n as u64).map(|i| 100 + i).collect::<Vec<u64>>(), 100_000);
                    for op in all_ops(n) { apply(&mut v, op, &mut model, &mut fresh) }
                }));
            } } )* let _ = ty; } }
        types!(w);
        macro_rules! z { ($($t:ty),*) => { $( if !is_miri() || std::mem::size_of::<$t>() % 23 == 5 { case("element sizes", &[std::mem::size_of::<$t>() as i128, std::mem::align_of::<$t>() as i128], || {
            for n in 0..mqt(3, 5, 6usize) {
                let ids = (0..n as u64).map(|i| 100 + i).collect::<Vec<u64>>();
                with_ref!($t, n, n % 6, v => reading::<$t, _>(&v, &ids));
                with!($t, n, n % 4, v => {
                    let (mut model, mut fresh) = (ids.clone(), 100_000);
                    for op in all_ops(n) { apply(&mut v, op, &mut model, &mut fresh) }
                });
            }
            for n in mqt(vec![2usize], vec![1, 7, 8, 9, 40], (0..70).collect()) { copies::<$t>(n, n); copies::<$t>(n + 3, n); copies::<$t>(n, n + 1); zips::<$t, $t>(n, n + 1, Some((0, n, 1, n + 1))) }
            event("element sizes");
        }) } )* } }
        more_sizes!(z);
        for n in 0..mqt(3, 5, 7usize) { for m in 0..mqt(3, 5, 7usize) {
            case("zip", &[n as i128, m as i128, 0], || zips::<u64, u64>(n, m, None));
            case("zip", &[n as i128, m as i128, 1], || zips::<u8, u32>(n, m, None));
            case("zip", &[n as i128, m as i128, 2], || zips::<Tr, [u8; 3]>(n, m, None));
            case("zip", &[n as i128, m as i128, 3], || zips::<Big, Tr>(n, m, None));
        } }
        for n in 0..mqt(4, 40, 70usize) { for m in 0..mqt(4, 40, 70usize) { case("copy", &[n as i128, m as i128], || {
            copies::<u64>(n, m); copies::<u8>(n, m); copies::<[u8; 3]>(n, m); copies::<u16>(n, m); copies::<Big>(n, m); copies::<Al64>(n, m); copies::<u128>(n, m);
            dots(n, m, &mut Rng::new(seed() ^ (n * 1000 + m) as u64));
        }) } }
        // source and target at every offset from a multiple of sixteen bytes
        for g in 0..16usize { if is_miri() && g % 5 != 0 { continue } case("alignments", &[g as i128], || {
            let ns = mqt(vec![9usize, 24], vec![1, 2, 4, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 56, 63, 64, 65, 71, 72, 100, 120, 127, 128, 129, 136, 200], (0..300).collect());
            for h in 0..16usize { if is_miri() && h % 8 != 0 { continue } for &n in &ns {
                copies_at::<u8>(n, n, g, h); copies_at::<u8>(n + g, n, g, h);
                if g < 8 && h < 8 { copies_at::<u16>(n, n + 1, g, h); copies_at::<[u8; 3]>(n, n, g, h); copies_at::<[u16; 3]>(n, n, g, h); copies_at::<u32>(n, n, g, h) }
            } }
            let xs = vec![3i32; 64]; for n in 0..40 { for h in 0..8 { check_eq!((zip_dot_i32(&xs[g..g + n], &xs[h..h + n]), zip_dot_i32_prange(&xs[g..g + n], &xs[h..h + n])), (9 * n as i32, 9 * n as i32), "dot product of {} elements at {} and {}", n, g, h) } }
            event("alignments");
        }) }
        // ranges and copies of round sizes
        for d in round_lens() { case("round sizes", &[d as i128], || {
            let mut rng = Rng::new(seed() ^ mix(d as u64));
            copies::<u64>(d, d); copies::<u8>(d, d + 1); copies::<[u8; 3]>(d + 1, d); copies::<u16>(d, 2 * d); copies::<u128>(2 * d, d); copies::<u32>(d, d);
            for (n, m) in [(d, d), (d + 3, d), (d, 2 * d)] { dots_of(n, m, &mut rng, 150) }
            for n in [d, 2 * d + 9] { if n > 20_000 && !thorough() { continue }
                let ids: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                with_ref!(u64, n, d % 6, v => { let x = idx(&v); for (a, b) in [(0, d), (n - d, n), (d - 1, d - 1), ((n - d) / 2, (n - d) / 2 + d)] { reading_at::<u64, _>(&v, &ids, &x, a, b, |m| vec![m, d.min(m), d - 1]) } });
                with!([u8; 3], n, d % 4, v => {
                    let (mut model, mut fresh) = (ids.clone(), 200_000);
                    let y = (n - d) / 2;
                    let mut ops = vec![Op::Swap(y, y + d - 1), Op::Rot(0, d), Op::Rot(n - d, n), Op::Rot(y, y + d), Op::Split(d, true), Op::Split(n - d, false), Op::Split(d, false)];
                    for f in 0..6 { ops.push(Op::SetSlice(y, y + d, f)) }
                    for op in ops { apply(&mut v, op, &mut model, &mut fresh) }
                });
            }
            zips::<u16, u64>(d, d + 2, Some((0, d, 2, d + 2)));
            event("round-sized operations");
        }) }
        // long containers: few positions of each, but nothing small about them
        for (q, n) in long_lens().into_iter().enumerate() {
            macro_rules! l { ($($t:ty),*) => { let mut j = 0usize; $( j += 1; if std::mem::size_of::<$t>() < 256 || n < 11_000 {
                case("long", &[n as i128, j as i128], || {
                    let mut rng = Rng::new(seed() ^ mix((n * 32 + j) as u64));
                    let ids: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                    let (h, lo, hi) = (rng.below(n), rng.range(0, n / 9), rng.range(n - n / 9, n));
                    with_ref!($t, n, (q + j) % 6, v => {
                        let x = idx(&v);
                        for (a, b) in [(0, 0), (n, n), (n - 1, n - 1), (h, h), (lo, lo), (hi, hi), (0, n), (lo, hi), (h, n), (0, h)] {
                            reading_at::<$t, _>(&v, &ids, &x, a, b, |m| vec![m, m.saturating_sub(1), m / 3]);
                        }
                    });
                    with!($t, n, (q + j) % 4, v => {
                        let (mut model, mut fresh) = (ids.clone(), 200_000);
                        let mut ops = vec![Op::Set(hi - 1), Op::Swap(lo, hi - 1), Op::Swap(n - 1, h), Op::Rot(0, n), Op::Rot(lo, hi), Op::Split(h, true), Op::Split(hi, false), Op::Split(lo, false), Op::Split(n / 2, true)];
                        for f in 0..6 { ops.push(Op::SetSlice(lo, hi, f)) }
                        for _ in 0..6 { ops.push(rand_op(&mut rng, n)) }
                        for op in ops { apply(&mut v, op, &mut model, &mut fresh) }
                        event("long histories");
                    });
                });
            } )* } }
            l!(u8, u64, [u8; 3], u16, u128, Big, Al64, Tr, Wide);
            case("long zips", &[n as i128], || {
                let mut rng = Rng::new(seed() ^ n as u64);
                zips::<u8, u64>(n, n, Some((0, n, 0, n)));
                zips::<u64, u16>(n, n + 9, Some((rng.range(0, n / 9), n, 3, n + 9)));
                zips::<Tr, Al64>(n + 1, n, Some((1, n, 0, rng.range(n - n / 9, n))));
            });
            case("long copies", &[n as i128], || {
                copies::<u64>(n, n); copies::<u8>(n, n + 1); copies::<[u8; 3]>(n + 7, n); copies::<u16>(n, n); copies::<u128>(n - 1, n);
                let mut rng = Rng::new(seed() ^ n as u64);
                for _ in 0..4 { dots_of(n, n - rng.below(3), &mut rng, 150) }
            });
        }
        if thorough() && !cfg!(debug_assertions) { case("giant rotation", &[], giant_rotation) }
        case("giant", &[1], || giant::<u8>());
        case("giant", &[2], || giant::<u16>());
        case("giant", &[8], || giant::<u64>());
        rounds("history", 1, 200, |_, s| {
            macro_rules! h { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; if !is_miri() || j % 5 == 1 { case("~history", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let n = if rng.chance(1, 8) { rng.below(mqt(10, 300, 1000)) } else { rng.below(mqt(6, 30, 30)) };
                let kind = rng.below(4);
                with!($t, n, kind, v => {
                    let (mut model, mut fresh) = ((0..n as u64).map(|i| 100 + i).collect::<Vec<u64>>(), 100_000);
                    for _ in 0..mqt(12, 60, 100) { apply(&mut v, rand_op(&mut rng, n), &mut model, &mut fresh) }
                    event("histories");
                });
            }) } )* let _ = j; } }
            types!(h);
        });
        rounds("zips", 1, 400, |_, s| {
            macro_rules! z { ($($j:expr, $t:ty, $u:ty);*) => { $( if !is_miri() || s % 5 == $j % 5 { case("~zips", &[$j, s as i128], || {
                let mut rng = Rng::new(s ^ $j as u64);
                let mx = mqt(8, 200, 400);
                let (n, m) = (rng.below(mx), rng.below(mx));
                let (a, c) = (rng.range(0, n), rng.range(0, m));
                let (b, d) = (rng.range(a, n), rng.range(c, m));
                let d = if rng.chance(1, 3) { (c + b - a).min(m) } else { d };
                zips::<$t, $u>(n, m, Some((a, b, c, d)));
            }) } )* } }
            z!(0, u8, u64; 1, [u8; 3], [u16; 3]; 2, Tr, Tr; 3, Big, u16; 4, u128, String; 5, Al64, Pad; 6, Box<u64>, u8);
            case("~dot", &[s as i128], || { let mut rng = Rng::new(s); let (n, m) = (rng.below(mqt(9, 500, 500)), rng.below(mqt(9, 500, 500))); dots(n, m, &mut rng) });
        });
    });
}
