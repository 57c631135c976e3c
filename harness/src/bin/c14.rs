//! C14: every sort sorts.
use indexing::algorithms::*;
use mon::algos::*;
use mon::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The slice to sort sits between guard elements.
fn mk<T: Keyed>(keys: &[u64], g: usize) -> Vec<T> {
    let mut v: Vec<T> = Vec::with_capacity(keys.len() + 2 * g);
    for i in 0..g { v.push(T::new(i as u64 % T::KEYS, 900 + i as u64)) }
    for (i, &k) in keys.iter().enumerate() { v.push(T::new(k % T::KEYS, i as u64)) }
    for i in 0..g { v.push(T::new((i as u64 + 1) % T::KEYS, 950 + i as u64)) }
    v
}
fn kt<T: Keyed>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| (x.key(), x.tag())).collect() }

/// Judge the outcome: ordered by `rank`, a permutation, stable if asked, guards untouched.
fn judge<T: Keyed>(what: &str, before: &[(u64, u64)], after: &[(u64, u64)], g: usize, stable: bool, rank: &dyn Fn(u64) -> i64) {
    let n = before.len() - 2 * g;
    check!(before[..g] == after[..g] && before[g + n..] == after[g + n..], "{}<{}>: memory outside the slice changed", what, T::NAME);
    let (b, a) = (&before[g..g + n], &after[g..g + n]);
    for w in 1..n {
        check!(rank(a[w - 1].0) <= rank(a[w].0), "{}<{}> of {} elements: not sorted at {}: {} from {}", what, T::NAME, n, w, short(a), short(b));
    }
    let mut want = b.to_vec();
    want.sort_by_key(|&(k, _)| rank(k));
    if stable {
        if let Some(w) = (0..n).find(|&w| want[w] != a[w]) {
            fail(format!("{}<{}> of {} elements: not the stable order at {}: {} instead of {} from {}", what, T::NAME, n, w, short(a), short(&want), short(b)))
        }
    } else {
        let mut x = a.to_vec();
        x.sort();
        want.sort();
        check!(x == want, "{}<{}> of {} elements: not a permutation: {} from {}", what, T::NAME, n, short(a), short(b));
    }
    events("elements sorted", n as u64);
}

fn all_ord<T: Keyed>(keys: &[u64], g: usize) {
    for (name, f) in ord_sorts::<T>() {
        ledger_reset();
        {
            let mut v = mk::<T>(keys, g);
            let before = kt(&v);
            let n = keys.len();
            f(&mut v[g..g + n]);
            judge::<T>(name, &before, &kt(&v), g, false, &|k| k as i64);
        }
        ledger_clean(name);
        event("quicksorts");
    }
}
/// strict weak orders on keys, as ranks
fn rank(o: usize, k: u64) -> i64 {
    match o { 0 => k as i64, 1 => -(k as i64), 2 => (k / 2) as i64, 3 => (k % 3) as i64, 4 => 0, 5 => -((k % 2) as i64), _ => (mix(k) % 5) as i64 }
}
const ORDERS: usize = 7;
fn all_by<T: Keyed>(keys: &[u64], g: usize, o: usize) {
    for (name, stable, f) in by_sorts::<T>() {
        ledger_reset();
        {
            let mut v = mk::<T>(keys, g);
            let before = kt(&v);
            let n = keys.len();
            let base = v.as_ptr() as usize;
            let end = base + v.len() * std::mem::size_of::<T>();
            f(&mut v[g..g + n], &mut |a, b| {
                let (pa, pb) = (a as *const T as usize, b as *const T as usize);
                if pa == pb && std::mem::size_of::<T>() > 0 { event("self comparisons") }
                let _ = (base, end);
                rank(o, a.key()) < rank(o, b.key())
            });
            judge::<T>(name, &before, &kt(&v), g, stable, &|k| rank(o, k));
        }
        ledger_clean(name);
        event("insertion sorts");
    }
}
/// the two-slice sort
fn sort2<T: Keyed, U: Keyed>(keys: &[u64], nu: usize, o: usize, g: usize) {
    ledger_reset();
    {
        let n = keys.len();
        let mut v = mk::<T>(keys, g);
        let uk: Vec<u64> = (0..nu as u64).map(|i| mix(i) % 97).collect();
        let mut u = mk::<U>(&uk, g);
        let (bv, bu) = (kt(&v), kt(&u));
        let r = catch_unwind(AssertUnwindSafe(|| insertion_sort2_indexes(&mut v[g..g + n], &mut u[g..g + nu], |a, b| rank(o, a.key()) < rank(o, b.key()))));
        check_eq!(r.is_ok(), n == nu, "insertion_sort2_indexes with lengths {} and {} succeeds", n, nu);
        if n != nu {
            check_eq!(kt(&v), bv, "insertion_sort2_indexes with lengths {} and {}: first slice", n, nu);
            check_eq!(kt(&u), bu, "insertion_sort2_indexes with lengths {} and {}: second slice", n, nu);
            event("two-slice sorts refused");
        } else {
            judge::<T>("insertion_sort2_indexes", &bv, &kt(&v), g, true, &|k| rank(o, k));
            let mut perm: Vec<usize> = (0..n).collect();
            perm.sort_by_key(|&i| rank(o, bv[g + i].0));
            let mut want = bu.clone();
            for (i, &p) in perm.iter().enumerate() { want[g + i] = bu[g + p] }
            check_eq!(kt(&u), want, "insertion_sort2_indexes: second slice <{}> after sorting {} by order {}", U::NAME, short(keys), o);
            event("two-slice sorts");
        }
    }
    ledger_clean("insertion_sort2_indexes");
}

/// structured inputs of length n
fn structured(n: usize) -> Vec<Vec<u64>> {
    let m = n as u64;
    let up: Vec<u64> = (0..m).collect();
    let mut out = vec![up.clone(), up.iter().rev().cloned().collect(), vec![3; n],
        (0..m).map(|i| i.min(m - i)).collect(), (0..m).map(|i| m - i.min(m - i)).collect(),
        (0..m).map(|i| i % 2).collect(), (0..m).map(|i| i / 2).collect(), (0..m).map(|i| i * 7919 % 13).collect(),
        (0..m).map(|i| if i % 2 == 0 { i } else { m - i }).collect()];
    // one extreme or differing element anywhere
    let step = if n > 64 { n / 16 } else { 1 };
    let mut p = 0;
    while p < n {
        for x in [0u64, 5, 9] { let mut v = vec![5u64; n]; v[p] = x; out.push(v); let mut v: Vec<u64> = (10..10 + m).collect(); v[p] = if x == 9 { 10_000 } else { x }; out.push(v) }
        let mut v: Vec<u64> = up.iter().rev().cloned().collect();
        v.rotate_left(p);
        out.push(v);
        let mut v = up.clone();
        v.rotate_left(p);
        out.push(v);
        p += step;
    }
    // all orders of first, middle and last
    if n >= 3 { for a in 0..3u64 { for b in 0..3u64 { for c in 0..3u64 { for base in [0u64, 1, 2, 50] {
        let mut v: Vec<u64> = (0..m).map(|i| if base == 50 { 1 + mix(i) % 50 } else { base }).collect();
        v[0] = a * 20; v[n / 2] = b * 20; v[n - 1] = c * 20;
        out.push(v);
    } } } } }
    out
}

/// Everything up to length n over the given number of keys.
fn words(n: usize, k: u64, f: &mut dyn FnMut(&[u64])) {
    let mut v = vec![0; n];
    loop {
        f(&v);
        let mut i = 0;
        loop { if i == n { return } v[i] += 1; if v[i] < k { break } v[i] = 0; i += 1 }
    }
}
fn perms(n: usize, f: &mut dyn FnMut(&[u64])) {
    fn go(v: &mut Vec<u64>, k: usize, f: &mut dyn FnMut(&[u64])) {
        if k == v.len() { f(v); return }
        for i in k..v.len() { v.swap(k, i); go(v, k + 1, f); v.swap(k, i) }
    }
    go(&mut (0..n as u64).collect(), 0, f)
}

macro_rules! types { ($m:ident) => { $m!(Kt, u8, K3, KBox, i32, u64, KBig, KAl, ()); } }

fn main() {
    run::main(|| {
        for n in 0..mqt(4, 7, 9usize) {
            case("all permutations", &[n as i128], || perms(n, &mut |k| { all_by::<Kt>(k, 1, 0); all_ord::<Kt>(k, 1); sort2::<Kt, K3>(k, n, 0, 1) }));
            if is_miri() && n > 2 { continue }
            case("all words", &[n as i128, 3], || words(n, 3, &mut |k| { all_by::<Kt>(k, 1, 0); all_ord::<Kt>(k, 1); sort2::<Kt, KBox>(k, n, 0, 1) }));
        }
        if !is_miri() { for o in 0..ORDERS { for n in 0..5 { case("all words, every order", &[o as i128, n as i128], || words(n, 4, &mut |k| all_by::<KBox>(k, 2, o))) } } }
        // around the insertion sort threshold and beyond
        let sizes: Vec<usize> = if is_miri() { vec![27] } else if thorough() { (2..80).chain([100, 128, 200, 257, 500]).collect() } else { (2..36).step_by(3).chain(22..34).chain([48, 64, 100, 257]).collect() };
        for n in sizes {
            macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
                if (ty <= 2 || n % 5 == ty as usize % 5) && !(is_miri() && ty > 1) {
                    case("structured", &[ty, n as i128], || for (k, keys) in structured(n).iter().enumerate() {
                        if is_miri() && k % 40 != 7 { continue }
                        all_ord::<$t>(keys, 2);
                        if n <= 40 || k % 7 == 0 { all_by::<$t>(keys, 2, k % ORDERS); }
                    });
                } )* } }
            types!(d);
        }
        for n in 0..mqt(2, 8, 12usize) { for m in 0..mqt(2, 8, 12usize) { case("two slices", &[n as i128, m as i128], || {
            let keys: Vec<u64> = (0..n as u64).rev().collect();
            sort2::<KBox, KBox>(&keys, m, 0, 1); sort2::<KBox, ()>(&keys, m, 0, 1); sort2::<u8, KBig>(&keys, m, 2, 2); sort2::<KAl, K3>(&keys, m, 1, 2); sort2::<(), KBox>(&keys, m, 0, 1);
        }) } }
        slice_until(0.6);
        rounds("random", 2, 400, |_, s| {
            macro_rules! h { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("~random", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let n = if is_miri() { rng.below(40) } else if rng.chance(1, 6) { rng.below(2000) } else { rng.below(130) };
                let keys = rand_keys(&mut rng, n, <$t>::KEYS);
                all_ord::<$t>(&keys, 2);
                let n = n.min(300);
                all_by::<$t>(&keys[..n], 2, rng.below(ORDERS));
                sort2::<$t, Kt>(&keys[..n], n, rng.below(ORDERS), 2);
                let m = if rng.chance(1, 2) { n + rng.range(1, 3) } else { n.saturating_sub(1) };
                if m != n { sort2::<Kt, $t>(&keys[..n], m, 0, 2) }
            }); )* } }
            types!(h);
        });
        // insertion over long distances (few elements out of place, so that it stays linear) and dense ones
        for n in long_lens() { macro_rules! l { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("long insertions", &[n as i128, j], || {
            let m = n as u64;
            let mut rng = Rng::new(seed() ^ mix(m * 8 + j as u64));
            let up: Vec<u64> = (0..m).map(|i| 10 + i * 200 / m).collect();
            let put = |p: usize, x: u64| { let mut v = up.clone(); v[p] = x; v };
            for (k, keys) in [put(n - 1, 0), put(n - 2, 10), put(n - 1, 110), put(0, 250), put(1, 209), put(rng.range(n / 2, n - 1), 9), { let mut v = put(n - 1, 20); v[n - 2] = 30; v }].into_iter().enumerate() {
                if n > 20_000 && !thorough() && (k + n + j as usize) % 3 > 0 { continue }
                all_by::<$t>(&keys, 1, 0);
                sort2::<$t, Kt>(&keys, n, 0, 1);
                all_by::<$t>(&keys.iter().map(|k| 255 - k).collect::<Vec<_>>(), 1, 1);
            }
            event("long insertions");
        }); )* } } l!(u8, Kt, KBox); }
        for n in [300usize, 530, 1030, 1500] { if is_miri() { break } for kind in 0..3 { case("dense insertions", &[n as i128, kind], || {
            let mut rng = Rng::new(seed() ^ mix(n as u64));
            let keys: Vec<u64> = (0..n as u64).map(|i| match kind { 0 => n as u64 - i, 1 => rng.next() >> 40, _ => (i * 7919) % 13 }).collect();
            all_by::<Kt>(&keys, 1, 0);
            sort2::<Kt, u64>(&keys, n, 0, 1);
        }) } }
        // elements moving over round distances, inputs of round sizes
        for d in round_lens() { if d > 20_000 && !thorough() { continue } case("round sizes", &[d as i128], || {
            let m = d as u64;
            let mut rng = Rng::new(seed() ^ mix(m));
            for (k, n) in [d, d + 1, d + 2, d + 60].into_iter().enumerate() {
                let up: Vec<u64> = (0..n as u64).map(|i| 10 + i).collect();
                // the last element belongs `d` before, or the first `d` after
                let mut a = up.clone(); if n > d { let x = up[n - 1 - d]; a[n - 1] = x - 1 } else { a[n - 1] = 0 }
                let mut b = up.clone(); if k == 3 { b.remove(d + 3); b.insert(3, 10 + d as u64 + 3) }
                if d < 3000 || k % 2 == 0 { all_by::<u64>(&a, 1, 0); sort2::<u64, Kt>(&a, n, 0, 1) }
                if k == 3 { all_by::<Kt>(&b, 1, 0) }
                if d < 3000 || k == 0 { let mut p = up.clone(); rng.shuffle(&mut p); all_ord::<u64>(&p, 1); all_ord::<Kt>(&a, 1); all_ord::<u64>(&vec![7; n], 1) }
            }
            event("round-sized sorts");
        }) }
        // at every offset from a multiple of sixteen bytes
        for g in 0..16usize { if is_miri() { break } case("alignments", &[g as i128], || {
            let mut rng = Rng::new(seed() ^ mix(g as u64));
            for n in [2, 7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 40, 64, 65, 100, 128, 200] {
                let keys = rand_keys(&mut rng, n, 256);
                all_ord::<u8>(&keys, g); all_by::<u8>(&keys, g, 0); all_ord::<i32>(&keys, g); all_by::<i32>(&keys, g, 1); sort2::<u8, u8>(&keys, n, 0, g);
            }
            event("alignments");
        }) }
        // quicksorts of long inputs of many shapes
        for n in long_lens() { macro_rules! l { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("long quicksorts", &[n as i128, j], || {
            let mut rng = Rng::new(seed() ^ mix(n as u64 * 8 + j as u64));
            let m = n as u64;
            let perm = { let mut p: Vec<u64> = (0..m).collect(); rng.shuffle(&mut p); p };
            let dups: Vec<u64> = perm.iter().map(|x| x / 9).collect();
            let mut nearly: Vec<u64> = (0..m).collect();
            for _ in 0..20 { let (a, b) = (rng.below(n), rng.below(n)); nearly.swap(a, b) }
            let down: Vec<u64> = nearly.iter().rev().cloned().collect();
            for (k, keys) in [perm, dups, nearly, down].into_iter().enumerate() { if n < 20_000 || thorough() || (k + n + j as usize) % 2 == 0 { all_ord::<$t>(&keys, 1) } }
            event("long quicksorts");
        }); )* } } l!(Kt, u64); }
        for n in very_long_lens() { for kind in 0..2 { case("very long quicksorts", &[n as i128, kind], || {
            let mut rng = Rng::new(seed() ^ mix(n as u64 * 8 + kind as u64));
            let m = n as u64;
            let keys: Vec<u64> = match kind {
                0 => { let mut p: Vec<u64> = (0..m).collect(); rng.shuffle(&mut p); p }
                _ => (0..m).map(|i| mix(i) % (m / 7)).collect(),
            };
            if kind == 0 { all_ord::<Kt>(&keys, 1) } else { all_ord::<u64>(&keys, 1) }
            event("very long quicksorts");
        }) } }
        for n in very_long_lens() { case("very long insertions", &[n as i128], || {
            let mut rng = Rng::new(seed() ^ mix(n as u64));
            let m = n as u64;
            let mut keys: Vec<u64> = (0..m).map(|i| 10 + i).collect();
            keys[n - 1] = 0;
            let p = rng.range(n / 2, n - 2);
            keys[p] = 5;
            all_by::<u64>(&keys, 1, 0);
            sort2::<u64, Kt>(&keys, n, 0, 1);
        }) }
        // long inputs must not exhaust the stack; a quarter of a megabyte is plenty for logarithmic depth
        if !is_miri() { for n in [3000usize, 8000] { for (k, (name, f)) in ord_sorts::<u32>().into_iter().enumerate() { for kind in 0..5u32 {
            case("long, small stack", &[n as i128, k as i128, kind as i128], || {
                let keys: Vec<u32> = (0..n as u32).map(|i| match kind { 0 => 7, 1 => i, 2 => n as u32 - i, 3 => i % 2, _ => i.min(n as u32 - i) }).collect();
                let mut want = keys.clone();
                want.sort();
                let got = std::thread::Builder::new().stack_size(256 << 10).spawn(move || { let mut v = keys; f(&mut v); v }).unwrap().join();
                check!(got.map_or(false, |g| g == want), "{} of {} elements (pattern {})", name, n, kind);
                event("long sorts");
            });
        } } } }
        slice_until(1.0);
        rounds("long", 0, 6, |_, s| case("~long", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = rng.range(5_000, 60_000);
            let mut keys = rand_keys(&mut rng, n, 1 << 30);
            // (few distinct keys make the quicksorts quadratic)
            if { let mut k = keys.clone(); k.sort(); k.dedup(); k.len() < n / 4 } { for k in keys.iter_mut() { *k = rng.below(1 << 30) as u64 } }
            all_ord::<Kt>(&keys, 1);
            all_ord::<u64>(&keys, 1);
        }));
    });
}
