//! C16: every search returns the right position with logarithmically many probes.
use indexing::algorithms::*;
use indexing::scope;
use mon::algos::*;
use mon::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// generous: a correct search needs floor(log2 n) + 1 probes
fn bound(n: usize) -> usize { 2 * (usize::BITS - n.leading_zeros()) as usize + 8 }

/// Element whose comparisons log the addresses of both operands.
#[repr(C)]
struct Pr<T> { k: T }
thread_local! { static LOG: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new()); }
fn logged<T>(a: &Pr<T>, b: &Pr<T>) { LOG.with(|l| l.borrow_mut().push((a as *const _ as usize, b as *const _ as usize))) }
impl<T: Keyed> PartialEq for Pr<T> { fn eq(&self, o: &Self) -> bool { logged(self, o); self.k.key() == o.k.key() } }
impl<T: Keyed> Eq for Pr<T> {}
impl<T: Keyed> PartialOrd for Pr<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { logged(self, o); Some(self.k.key().cmp(&o.k.key())) } }
impl<T: Keyed> Ord for Pr<T> { fn cmp(&self, o: &Self) -> Ordering { logged(self, o); self.k.key().cmp(&o.k.key()) } }

fn judge_bin(what: &str, keys: &[u64], x: u64, r: Result<usize, usize>) {
    let want = keys.partition_point(|&k| k < x);
    let exists = want < keys.len() && keys[want] == x;
    match r {
        Ok(i) => check!(i < keys.len() && keys[i] == x, "{}: search for {} in {}: Ok({})", what, x, short(keys), i),
        Err(i) => check!(!exists && i == want, "{}: search for {} in {}: Err({}), expected {} {}", what, x, short(keys), i, if exists { "Ok near" } else { "Err" }, want),
    }
    event("binary searches");
}
fn judge_low(what: &str, keys: &[u64], x: u64, r: usize) {
    let want = keys.partition_point(|&k| k < x);
    check_eq!(r, want, "{}: lower bound of {} in {}", what, x, short(keys));
    event("lower bounds");
}

/// every search on one sorted slice, for one key
fn all<T: Keyed>(keys: &[u64], x: u64, pad: usize) {
    let n = keys.len();
    let mut v: Vec<Pr<T>> = Vec::with_capacity(n + 2 * pad);
    for _ in 0..pad { v.push(Pr { k: T::new(0, 0) }) }
    for (i, &k) in keys.iter().enumerate() { v.push(Pr { k: T::new(k, i as u64) }) }
    for _ in 0..pad { v.push(Pr { k: T::new(0, 0) }) }
    let s = &v[pad..pad + n];
    let (lo, hi) = (s.as_ptr() as usize, s.as_ptr() as usize + n * std::mem::size_of::<Pr<T>>());
    let zst = std::mem::size_of::<Pr<T>>() == 0;
    let inside = |what: &str, p: usize| check!(if zst { n > 0 && p == lo } else { lo <= p && p < hi && (p - lo) % std::mem::size_of::<Pr<T>>() == 0 },
        "{}<{}>: probe outside the slice of {} elements", what, T::NAME, n);
    let elt = Pr { k: T::new(x, 0) };
    let ea = &elt as *const _ as usize;
    let probes = |what: &str| LOG.with(|l| {
        let l: Vec<_> = l.borrow_mut().drain(..).collect();
        check!(l.len() <= bound(n), "{}<{}>: {} probes for {} elements", what, T::NAME, l.len(), n);
        for &(a, b) in &l { check!(zst || a == ea || b == ea, "{}<{}>: compared two elements of the slice", what, T::NAME); if a != ea { inside(what, a) } if b != ea { inside(what, b) } }
        events("probes", l.len() as u64);
    });
    let guard = |what: &'static str, f: &mut dyn FnMut()| {
        if zst && what.contains("_p") {
            // pointer ranges cannot represent zero-sized elements: known
            if let Err(_) = catch_unwind(AssertUnwindSafe(|| f())) { keyed_fail(&format!("zst:{}", what), format!("{} fails on {} zero-sized elements", what, n)) }
        } else { f() }
    };
    LOG.with(|l| l.borrow_mut().clear());
    judge_bin("binary_search", keys, x, binary_search(s, &elt));
    probes("binary_search");
    for (name, f) in lower_elts::<Pr<T>>() { guard(name, &mut || { let r = f(s, &elt); judge_low(name, keys, x, r); }); probes(name) }
    for (name, f) in bin_searches::<Pr<T>>() {
        let mut cnt = 0;
        guard(name, &mut || { let r = f(s, &mut |e| { cnt += 1; inside(name, e as *const _ as usize); e.k.key().cmp(&x) }); judge_bin(name, keys, x, r) });
        check!(cnt <= bound(n), "{}<{}>: {} probes for {} elements", name, T::NAME, cnt, n);
        events("probes", cnt as u64);
    }
    for (name, f) in lower_bys::<Pr<T>>() {
        let mut cnt = 0;
        guard(name, &mut || { let r = f(s, &mut |e| { cnt += 1; inside(name, e as *const _ as usize); e.k.key() < x }); judge_low(name, keys, x, r) });
        check!(cnt <= bound(n), "{}<{}>: {} probes for {} elements", name, T::NAME, cnt, n);
    }
    #[cfg(feature = "ptr")]
    if !zst { subranges(s, keys, x) }
}

/// the pointer-range searches confined to a part of the container
#[cfg(feature = "ptr")]
fn subranges<T: Keyed>(s: &[Pr<T>], keys: &[u64], x: u64) {
    use indexing::pointer::{PRange, PSlice};
    use indexing::proof::Provable;
    let n = keys.len();
    let mut rng = Rng::new(n as u64 * 1000 + x);
    for t in 0..3 {
        let a = rng.range(0, n);
        let b = if t == 0 { a } else { rng.range(a, n) };
        scope(s, |v| {
            let mut is: Vec<_> = v.pointer_range().into_iter().map(|p| p.no_proof()).collect();
            is.push(v.pointer_range().past_the_end());
            let r: PRange<_> = if a < b { v.nonempty_range(is[a], is[b]).unwrap().no_proof() } else if a < n { v.pointer_range_of(is[a]..).split_in_half().0 } else { return };
            let (a, b) = if a < b { (a, b) } else { let l = r.len(); (a, a + l) };
            let ps: PSlice<_> = r.into();
            let mut cnt = 0;
            let base = s.as_ptr() as usize;
            let mut see = |e: &Pr<T>| { cnt += 1; let i = (e as *const _ as usize - base) / std::mem::size_of::<Pr<T>>(); check!(a <= i && i < b, "probe at {} outside {}..{}", i, a, b); e.k.key() };
            let sub = &keys[a..b];
            let off = |r: Result<usize, usize>| match r { Ok(i) => { check!(a <= i, "result {} before the range {}..{}", i, a, b); Ok(i - a) } Err(i) => { check!(a <= i, "result {} before the range {}..{}", i, a, b); Err(i - a) } };
            let g = binary_search_by_prange_(r, &v, |e| see(e).cmp(&x));
            judge_bin("binary_search_by_prange_ (part)", sub, x, off(match g { Ok(p) => Ok(v.distance_to(p)), Err(p) => Err(v.distance_to(p)) }));
            let g = binary_search_by_pslice_(ps, &v, |e| see(e).cmp(&x));
            judge_bin("binary_search_by_pslice_ (part)", sub, x, off(match g { Ok(p) => Ok(v.distance_to(p)), Err(p) => Err(v.distance_to(p)) }));
            let g = v.distance_to(lower_bound_prange_(r, &v, |e| see(e) < x));
            judge_low("lower_bound_prange_ (part)", sub, x, off(Err(g)).unwrap_err());
            let g = v.distance_to(lower_bound_pslice_(ps, &v, |e| see(e) < x));
            judge_low("lower_bound_pslice_ (part)", sub, x, off(Err(g)).unwrap_err());
            if let (Ok(r), Ok(ps)) = (r.nonempty(), ps.nonempty()) {
                let g = v.distance_to(lower_bound_prange_(r, &v, |e| see(e) < x));
                judge_low("lower_bound_prange_ (nonempty part)", sub, x, off(Err(g)).unwrap_err());
                let g = v.distance_to(lower_bound_pslice_(ps, &v, |e| see(e) < x));
                judge_low("lower_bound_pslice_ (nonempty part)", sub, x, off(Err(g)).unwrap_err());
                let g = binary_search_by_prange_(r, &v, |e| see(e).cmp(&x));
                judge_bin("binary_search_by_prange_ (nonempty part)", sub, x, off(match g { Ok(p) => Ok(v.distance_to(p)), Err(p) => Err(v.distance_to(p)) }));
                let g = binary_search_by_pslice_(ps, &v, |e| see(e).cmp(&x));
                judge_bin("binary_search_by_pslice_ (nonempty part)", sub, x, off(match g { Ok(p) => Ok(v.distance_to(p)), Err(p) => Err(v.distance_to(p)) }));
            }
            check!(cnt <= 8 * bound(b - a), "{} probes for eight searches in {} elements", cnt, b - a);
            event("partial searches");
        });
    }
}

/// arbitrary answers: in bounds, Ok only where Equal was answered, few probes
fn arbitrary<T>(s: &[T], seed: u64) {
    let n = s.len();
    let sz = std::mem::size_of::<T>();
    let base = s.as_ptr() as usize;
    for (name, f) in bin_searches::<T>() {
        if sz == 0 && name.contains("_p") { continue }
        let mut rng = Rng::new(seed);
        let eqs = rng.below(8);
        let mut last = None;
        let mut cnt = 0;
        let r = f(s, &mut |e| {
            cnt += 1;
            let p = e as *const T as usize;
            let i = if sz == 0 { 0 } else { (p.wrapping_sub(base)) / sz };
            check!(i < n.max(1) && n > 0, "{}: probe outside the slice", name);
            let o = if rng.below(16) < eqs { Ordering::Equal } else if rng.chance(1, 2) { Ordering::Less } else { Ordering::Greater };
            last = Some((i, o));
            if cnt > 10 * bound(n) { fail(format!("{}: {} probes for {} elements", name, cnt, n)) }
            o
        });
        check!(cnt <= bound(n), "{}: {} probes for {} elements", name, cnt, n);
        match r {
            Ok(i) => check!(i < n && last.map_or(false, |(j, o)| o == Ordering::Equal && (sz == 0 || i == j)), "{}: Ok({}) where the last answer was {:?}", name, i, last),
            Err(i) => check!(i <= n, "{}: Err({}) of {} elements", name, i, n),
        }
        event("arbitrary searches");
    }
    for (name, f) in lower_bys::<T>() {
        if sz == 0 { continue }
        let mut rng = Rng::new(seed);
        let mut cnt = 0;
        let r = f(s, &mut |e| {
            cnt += 1;
            let i = (e as *const T as usize).wrapping_sub(base) / sz;
            check!(i < n, "{}: probe outside the slice", name);
            rng.chance(1, 2)
        });
        check!(cnt <= bound(n), "{}: {} probes for {} elements", name, cnt, n);
        check!(r <= n, "{}: {} of {} elements", name, r, n);
        event("arbitrary searches");
    }
}
fn arbitrary_elt(n: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let v: Vec<Tk> = (0..n).map(|i| Tk::new(rng.below(n + 1) as i64, i as u64)).collect();
    let e = Tk::new(rng.below(n + 1) as i64, 0);
    for (name, f) in lower_elts::<Tk>() {
        for mode in [Mode::Honest, Mode::Reverse, Mode::Chaos(seed)] {
            set_mode(mode, 1000);
            let r = f(&v, &e);
            check!(r <= n, "{}: {} of {} elements", name, r, n);
            check!(comparisons() as usize <= bound(n), "{}: {} probes for {} elements", name, comparisons(), n);
        }
        event("arbitrary searches");
    }
    for mode in [Mode::Honest, Mode::Reverse, Mode::Chaos(seed), Mode::Always(Ordering::Less), Mode::Always(Ordering::Greater), Mode::Always(Ordering::Equal)] {
        set_mode(mode, 1000);
        let r = binary_search(&v, &e);
        check!(match r { Ok(i) => i < n, Err(i) => i <= n }, "binary_search: {:?} of {} elements", r, n);
        check!(comparisons() as usize <= bound(n), "binary_search: {} probes for {} elements", comparisons(), n);
        set_mode(Mode::Honest, u64::MAX);
        if let Ok(i) = r { if mode == Mode::Honest { check!(v[i].key == e.key, "binary_search: Ok({}) at another element", i) } }
    }
    set_mode(Mode::Honest, u64::MAX);
}

/// a slice too long for anything but searching: the comparison goes by position
fn positional<T>(s: &[T], target: usize, dup: usize) {
    let n = s.len();
    let sz = std::mem::size_of::<T>();
    let base = s.as_ptr() as usize;
    for (name, f) in bin_searches::<T>() {
        let mut cnt = 0;
        let r = f(s, &mut |e| { cnt += 1; let i = (e as *const T as usize - base) / sz; if i < target { Ordering::Less } else if i < target + dup { Ordering::Equal } else { Ordering::Greater } });
        check!(cnt <= bound(n), "{}: {} probes for {} elements", name, cnt, n);
        match r { Ok(i) => check!(i >= target && i < target + dup && i < n, "{} of {} elements, equal ones {}+{}: Ok({})", name, n, target, dup, i),
            Err(i) => check!(i == target.min(n) && (dup == 0 || target >= n), "{} of {} elements, equal ones {}+{}: Err({})", name, n, target, dup, i) }
        event("positional searches");
    }
    for (name, f) in lower_bys::<T>() {
        let mut cnt = 0;
        let r = f(s, &mut |e| { cnt += 1; let i = (e as *const T as usize - base) / sz; i < target });
        check!(cnt <= bound(n), "{}: {} probes for {} elements", name, cnt, n);
        check_eq!(r, target.min(n), "{} of {} elements, true below {}", name, n, target);
        event("positional searches");
    }
}

/// An element that is compared by where it is: less than the sought element below a position, greater above.
#[derive(Copy, Clone)]
#[repr(transparent)]
struct ByAddr<T>(T);
thread_local! { static WHERE: std::cell::Cell<(usize, usize, usize)> = std::cell::Cell::new((0, 0, 0)); static LOOKS: std::cell::Cell<usize> = std::cell::Cell::new(0); }
impl<T> ByAddr<T> {
    fn rank(&self) -> u8 { let (base, bytes, cut) = WHERE.with(|w| w.get()); let d = (self as *const Self as usize).wrapping_sub(base); if d >= bytes { 1 } else { LOOKS.with(|l| l.set(l.get() + 1)); if d / std::mem::size_of::<T>() < cut { 0 } else { 2 } } }
}
impl<T> PartialEq for ByAddr<T> { fn eq(&self, o: &Self) -> bool { self.rank() == o.rank() } }
impl<T> PartialOrd for ByAddr<T> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.rank().cmp(&o.rank())) } }
fn by_address<T: Copy + From<u8>>(s: &[ByAddr<T>], cut: usize) {
    let x = ByAddr(T::from(0));
    WHERE.with(|w| w.set((s.as_ptr() as usize, std::mem::size_of_val(s), cut)));
    for (name, f) in lower_elts::<ByAddr<T>>() {
        LOOKS.with(|l| l.set(0));
        check_eq!(f(s, &x), cut.min(s.len()), "{} of {} elements, {} of them less", name, s.len(), cut);
        let c = LOOKS.with(|l| l.get());
        check!(c <= bound(s.len()), "{}: {} probes for {} elements", name, c, s.len());
        event("positional searches");
    }
}

fn sorted_words(n: usize, k: u64, f: &mut dyn FnMut(&[u64])) {
    fn go(v: &mut Vec<u64>, n: usize, k: u64, f: &mut dyn FnMut(&[u64])) {
        if v.len() == n { f(v); return }
        for x in *v.last().unwrap_or(&0)..k { v.push(x); go(v, n, k, f); v.pop(); }
    }
    go(&mut vec![], n, k, f)
}

/// elements that need not be comparable: a lower bound is the number of elements less than the sought one
fn incomparable(v: &[f64], x: f64) {
    let want = v.iter().take_while(|y| **y < x).count();
    debug_assert!(v[want..].iter().all(|y| !(*y < x)));
    for (name, f) in lower_elts::<f64>() { check_eq!(f(v, &x), want, "{} of {} in {:?}", name, x, v); event("lower bounds of incomparable elements") }
    for (name, f) in lower_bys::<f64>() { check_eq!(f(v, &mut |y| *y < x), want, "{} of {} in {:?}", name, x, v); event("lower bounds of incomparable elements") }
    // elements whose order is that of their parts, as pairs and as options
    let p: Vec<(u8, f64)> = v.iter().map(|y| (1, *y)).collect();
    for (name, f) in lower_elts::<(u8, f64)>() { check_eq!(f(&p, &(1, x)), want, "{} of (1, {}) in {:?}", name, x, p) }
    let p: Vec<Option<f64>> = v.iter().map(|y| Some(*y)).collect();
    for (name, f) in lower_elts::<Option<f64>>() { check_eq!(f(&p, &Some(x)), want, "{} of Some({}) in {:?}", name, x, p); check_eq!(f(&p, &None), 0, "{} of None in {:?}", name, p) }
}
/// sets ordered by inclusion
#[derive(Clone, Copy, PartialEq, Debug)]
struct Sub(u32);
impl PartialOrd for Sub { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { if self == o { Some(Ordering::Equal) } else if self.0 & o.0 == self.0 { Some(Ordering::Less) } else if self.0 & o.0 == o.0 { Some(Ordering::Greater) } else { None } } }
fn inclusion(v: &[Sub], x: Sub) {
    let mut v = v.to_vec();
    v.sort_by_key(|y| !(*y < x)); // the subsets of x first
    let want = v.iter().filter(|y| **y < x).count();
    for (name, f) in lower_elts::<Sub>() { check_eq!(f(&v, &x), want, "{} of {:?} in {:?}", name, x, v); event("lower bounds of incomparable elements") }
}

macro_rules! types { ($m:ident) => { $m!(Kt, u8, K3, KBox, i32, u64, KBig, KAl); } }

fn main() {
    run::main(|| {
        for n in 0..mqt(3, 9, 12usize) {
            case("all sorted words", &[n as i128], || sorted_words(n, 4, &mut |k| { let k: Vec<u64> = k.iter().map(|k| k * 2 + 1).collect(); for x in 0..10 { if is_miri() && x % 3 != 1 { continue } all::<Kt>(&k, x, 1) } }));
        }
        // every length, every position of the sought element
        macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for n in if is_miri() { vec![4] } else { (0..qt(20, 70)).chain(qt(vec![31, 32, 33, 64, 100], vec![127, 128, 129, 255, 256, 257])).collect() } {
                if is_miri() && ty > 5 { continue }
                case("every position", &[ty, n as i128], || {
                    let keys: Vec<u64> = (0..n as u64).map(|i| (i * 2 + 1).min(<$t>::KEYS - 1)).collect();
                    let mut x = 0;
                    while x <= (2 * n as u64 + 1).min(<$t>::KEYS - 1) { all::<$t>(&keys, x, 2); x += 1 + is_miri() as u64 * 5; }
                    let keys: Vec<u64> = (0..n as u64).map(|i| i / 3 + 1).collect();
                    for x in 0..(n as u64 / 3 + 3) { if is_miri() && x > 1 { break } all::<$t>(&keys, x, 2) }
                });
            } )* } }
        types!(d);
        for n in [0usize, 1, 2, 3, 7, 100] { case("zero-sized", &[n as i128], || all::<()>(&vec![0; n], 0, 0)); }
        if !is_miri() {
            for n in huge_lens() { case("huge zero-sized", &[n as i128], || { let v = zsts(n); let s: &[()] = &v[..]; if s.len() <= isize::MAX as usize { for k in 0..20 { arbitrary(s, seed() ^ k); } } }); }
            macro_rules! g { ($($t:ty),*) => { $( case("giant", &[std::mem::size_of::<$t>() as i128], || if let Some(mut g) = Giant::new() {
                let v = g.of::<$t>();
                let n = v.len();
                let mut rng = Rng::new(seed());
                for p in giant_positions(n) { for d in [0, 1, 5] { positional(v, p, d) } }
                for _ in 0..qt(100, 1000) { positional(v, rng.below(n), [0, 1, 5, 1 << 20, 1 << 31][rng.below(5)]) }
                for k in 0..20 { arbitrary(v, seed() ^ k) }
                let v = g.of::<ByAddr<$t>>();
                for p in giant_positions(n) { by_address(v, p) }
                for _ in 0..qt(100, 1000) { by_address(v, rng.below(n)) }
            } else { trivial() }); )* } }
            g!(u8, u16, u32, u64);
            case("huge", &[1 << 31], || {
                let v = vec![0u8; 1 << 31]; // never touched
                let n = v.len();
                let w = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const [u8; 3], n / 3) };
                let mut rng = Rng::new(seed());
                for k in 0..qt(300, 3000) { let t = match k % 4 { 0 => rng.below(n), 1 => n - rng.below(4), 2 => rng.below(4), _ => (1usize << rng.below(32)).min(n) }; let d = [0, 1, 5, 1 << 20][rng.below(4)];
                    positional(&v, t, d); positional(w, t / 3, d) }
            });
        }
        for n in long_lens() { case("long", &[n as i128], || {
            let mut rng = Rng::new(seed() ^ n as u64);
            let v = vec![ByAddr(0u16); n];
            let w = vec![0u64; n];
            for k in 0..60 { let p = match k { 0 => 0, 1 => 1, 2 => n, 3 => n - 1, 4 => n / 2, _ => rng.below(n) }; by_address(&v, p); positional(&v, p, k % 3); positional(&w, p, [0, 1, n / 2][k % 3]) }
        }) }
        // at every offset from a multiple of sixteen bytes
        for g in 0..16usize { case("alignments", &[g as i128], || {
            let v = vec![0u8; 160];
            let w = vec![ByAddr(0u16); 160];
            for n in [1usize, 7, 8, 9, 16, 17, 31, 32, 33, 64, 100, 128] { if is_miri() && n > 20 { continue } for p in 0..=n { if is_miri() && (p + g) % 6 != 0 { continue } positional(&v[g..g + n], p, p % 2); by_address(&w[g..g + n], p) } }
            event("alignments");
        }) }
        for d in round_lens() { case("round sizes", &[d as i128], || {
            for n in [d, 2 * d, 70_001] { if n < d { continue }
                let v = vec![ByAddr(0u16); n];
                let w = vec![0u64; n];
                for p in [0, 1, d - 1, d, d + 1, n - d, n.saturating_sub(d + 1), n - 1, n] { if p <= n { by_address(&v, p); positional(&v, p, 0); positional(&w, p, 1) } }
            }
        }) }
        // every word of greater, equal and incomparable elements after every number of lesser ones
        for n in 0..mqt(4, 8, 10usize) { case("incomparable", &[n as i128], || {
            let rest = [f64::NAN, 5.0, 7.0, f64::INFINITY];
            for k in 0..=n { for w in 0..4usize.pow((n - k) as u32) { if is_miri() && w % 5 != 1 { continue }
                let v: Vec<f64> = (0..k).map(|i| if i % 3 == 0 { f64::NEG_INFINITY } else { i as f64 - 8.0 }).chain((0..n - k).map(|i| rest[w >> (2 * i) & 3])).collect();
                incomparable(&v, 5.0); incomparable(&v[k..], f64::NAN); incomparable(&v[k..], 5.0); if k == n { incomparable(&v, f64::INFINITY) }
                incomparable(&v[k..].iter().map(|_| 0.0).collect::<Vec<_>>(), -0.0);
            } }
            for w in 0..1u32 << n { let v: Vec<f64> = (0..n).map(|i| if w >> i & 1 == 0 { f64::NAN } else { i as f64 }).collect(); incomparable(&v, f64::NAN) }
        }); }
        slice_until(0.7);
        rounds("random incomparable", 2, 3000, |_, s| case("~incomparable", &[s as i128], || {
            let mut rng = Rng::new(s);
            let top = if is_miri() { 12 } else if rng.chance(1, 5) { 2000 } else { 60 };
            let n = rng.below(top);
            let x = rng.below(2 * n + 1) as f64;
            let mut v: Vec<f64> = (0..n).map(|i| i as f64).collect();
            let k = v.iter().filter(|y| **y < x).count();
            for y in &mut v[k..] { if rng.chance(1, 2) { *y = f64::NAN } }
            rng.shuffle(&mut v[k..]);
            incomparable(&v, x); incomparable(&v[k..], f64::NAN);
            let t: Vec<Sub> = (0..n).map(|_| Sub(rng.next() as u32 & rng.next() as u32 & 0xfff)).collect();
            for _ in 0..4 { inclusion(&t, Sub(rng.next() as u32 & 0xfff)) }
        }));
        rounds("random", 2, 1500, |_, s| {
            macro_rules! h { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("~random", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let n = if is_miri() { rng.below(20) } else if rng.chance(1, 6) { rng.below(3000) } else { rng.below(100) };
                let mut keys = rand_keys(&mut rng, n, <$t>::KEYS - 2);
                keys.sort();
                for _ in 0..mqt(1, 6, 12) {
                    let x = match rng.below(4) { 0 if n > 0 => keys[rng.below(n)], 1 if n > 0 => (keys[rng.below(n)] + 1).min(<$t>::KEYS - 1), 2 => 0, _ => rng.below((<$t>::KEYS - 1).min(1 << 40) as usize) as u64 };
                    all::<$t>(&keys, x, 1);
                }
            }); )* } }
            types!(h);
        });
        slice_until(1.0);
        rounds("arbitrary", 4, 20000, |_, s| case("~arbitrary", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = if rng.chance(1, 4) { rng.below(mqt(50, 5000, 5000)) } else { rng.below(40) };
            arbitrary(&vec![1u8; n], s); arbitrary(&vec![[1u32; 3]; n], s); arbitrary(&vec![(); n], s); arbitrary_elt(n.min(200), s);
        }));
    });
}
