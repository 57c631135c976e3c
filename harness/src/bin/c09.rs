//! C09: scans call the predicate on the right elements, stop at the first rejection, return the exact extent.
use indexing::container_traits::*;
use indexing::{scope, Container};
use mon::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Predicate that accepts `k` elements; records what it sees; checks that it is not called after a rejection.
struct Pred<T> { base: *const T, calls: Vec<usize>, ids: Vec<u64>, k: usize, done: bool, panic: bool }
impl<T: Elem> Pred<T> {
    fn new(base: *const T, k: usize) -> Self { Pred { base, calls: vec![], ids: vec![], k, done: false, panic: false } }
    fn call(&mut self, x: &T) -> bool {
        check!(!self.done, "predicate called again after it returned false");
        let off = (x as *const T as usize).wrapping_sub(self.base as usize);
        let z = std::mem::size_of::<T>();
        if z > 0 { check!(off % z == 0, "predicate got a misplaced reference (byte {})", off as isize); self.calls.push(off / z) } else { check!(off == 0, "misplaced zero-sized reference"); self.calls.push(0) }
        self.ids.push(x.id());
        event("predicate calls");
        if self.calls.len() > self.k { self.done = true; if self.panic { std::panic::panic_any(Injected) } return false }
        true
    }
    /// The calls must be exactly at `want`.
    fn saw<I: Iterator<Item = usize>>(&self, what: &str, want: I, model: &[u64]) {
        let w: Vec<usize> = want.take(self.k + 1).collect();
        let ws: Vec<usize> = if std::mem::size_of::<T>() > 0 { w.clone() } else { vec![0; w.len()] };
        check!(self.calls == ws, "{}: predicate called on positions {:?} instead of {:?} (accepting {})", what, self.calls, ws, self.k);
        let wi: Vec<u64> = w.iter().map(|&i| T::canon(model[i])).collect();
        check!(self.ids == wi, "{}: predicate saw elements {:?} instead of {:?}", what, self.ids, wi);
    }
}

fn scans<'id, T: Elem, A: Contiguous<Item = T>, M>(v: &Container<'id, A, M>, base: *const T, model: &[u64], ks: impl Fn(usize) -> Vec<usize>, ps: &[(usize, usize)]) {
    let n = model.len();
    for &(a, b) in ps {
        if a == b && a < n {
            let i = v.vet(a).unwrap();
            for k in ks(n - a) {
                let mut p = Pred::<T>::new(base, k);
                let r = v.scan_from(i, |x| p.call(x));
                let m = k.min(n - a - 1);
                check_eq!(ro(&r), (a, a + 1 + m, true), "scan_from({}) of {} accepting {}", a, n, k);
                p.saw("scan_from", a + 1..n, model);
                event("scans");
            }
            for k in ks(a + 1) {
                let mut p = Pred::<T>::new(base, k);
                let r = v.scan_from_rev(i, |x| p.call(x));
                check_eq!(ro(&r), (a - k.min(a), a + 1, true), "scan_from_rev({}) of {} accepting {}", a, n, k);
                p.saw("scan_from_rev", (0..a).rev(), model);
                event("scans");
            }
        }
        let r = v.vet_range(a..b).unwrap();
        for k in ks(b - a + 1) {
            let m = k.min(b - a);
            let mut p = Pred::<T>::new(base, k);
            let (s, t) = v.scan_range(r, |x| p.call(x));
            check_eq!((ro(&s), ro(&t)), ((a, a + m, false), (a + m, b, false)), "scan_range({}..{}) accepting {}", a, b, k);
            p.saw("scan_range", a..b, model);
            if let Ok(r) = r.nonempty() {
                let mut p = Pred::<T>::new(base, k);
                let (s, t) = v.scan_range(r, |x| p.call(x));
                check_eq!((se(&s), se(&t)), ((a, a + m), (a + m, b)), "scan_range(nonempty {}..{}) accepting {}", a, b, k);
                p.saw("scan_range", a..b, model);
            }
            event("scans");
        }
    }
}

fn panics<T: Elem>(n: usize) {
    let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let a = Arena::<T>::new(n, 2, 100);
    let base = a.mid_ref().as_ptr();
    scope(a.mid_ref(), |v| {
        for i in v.range() { for k in 0..=n { for rev in [false, true] {
            let mut p = Pred::<T>::new(base, k);
            p.panic = true;
            let c = catch_unwind(AssertUnwindSafe(|| if rev { v.scan_from_rev(i, |x| p.call(x)) } else { v.scan_from(i, |x| p.call(x)) }));
            check_eq!(c.is_err(), p.done, "panic of the predicate must propagate");
            event(if c.is_err() { "predicate panics" } else { "scans" });
            scans(&v, base, &model, |_| vec![1], &[(i.integer(), i.integer())]);
        } } }
        for k in 0..=n {
            let mut p = Pred::<T>::new(base, k);
            p.panic = true;
            let c = catch_unwind(AssertUnwindSafe(|| v.scan_range(v.range(), |x| p.call(x))));
            check_eq!(c.is_err(), p.done, "panic of the predicate must propagate");
        }
    });
    a.expect("after panicking predicates", &model);
}

fn all<T: Elem>(n: usize, kind: usize) {
    ledger_reset();
    {
        let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let ps: Vec<(usize, usize)> = (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect();
        let ks = |m: usize| (0..=m + 1).chain([1000]).collect::<Vec<_>>();
        let mut a = Arena::<T>::new(n, if kind == 1 { 0 } else { 3 }, 100);
        let base = a.mid_ref().as_ptr();
        match kind {
            0 | 1 => scope(a.mid_ref(), |v| scans(&v, base, &model, ks, &ps)),
            2 => scope(a.mid(), |v| scans(&v, base, &model, ks, &ps)),
            3 => scope(a.mid(), |v| scans(&v.only_index(), base, &model, ks, &ps)),
            _ => { let mut x: Vec<T> = Vec::with_capacity(n + 3); for i in 0..n { x.push(T::mk(100 + i as u64)) } let base = x.as_ptr();
                   scope(&x, |v| scans(&v, base, &model, ks, &ps)); scope(x, |v| scans(&v, base, &model, ks, &ps)) }
        }
        a.expect("after scans", &model);
        if kind == 0 { panics::<T>(n) }
    }
    ledger_clean("scans");
}

/// Short scans at positions anywhere in containers of any length.
fn far<T, A: Contiguous<Item = T>>(v: A, ps: &[usize]) {
    let z = std::mem::size_of::<T>();
    scope(v, |v| {
        let n = v.len();
        let base = v[..].as_ptr() as usize;
        for &a in ps { for k in 0..5usize {
            let log = std::cell::RefCell::new(vec![]);
            let f = |x: &T| { let mut l = log.borrow_mut(); l.push(if z > 0 { (x as *const T as usize).wrapping_sub(base) / z } else { 0 }); l.len() <= k };
            let saw = |what: &str, want: Vec<usize>| { let got: Vec<usize> = log.borrow_mut().drain(..).collect(); let want: Vec<usize> = want.into_iter().take(k + 1).map(|p| if z > 0 { p } else { 0 }).collect();
                check!(got == want, "{} at {} of {}: predicate called on {:?} instead of {:?}", what, a, n, got, want) };
            if let Ok(i) = v.vet(a) {
                let r = v.scan_from(i, &f);
                check_eq!(ro(&r), (a, a + 1 + k.min(n - a - 1), true), "scan_from({}) of {} accepting {}", a, n, k);
                saw("scan_from", (1..=(k + 1).min(n - a - 1)).map(|d| a + d).collect());
                let r = v.scan_from_rev(i, &f);
                check_eq!(ro(&r), (a - k.min(a), a + 1, true), "scan_from_rev({}) of {} accepting {}", a, n, k);
                saw("scan_from_rev", (1..=(k + 1).min(a)).map(|d| a - d).collect());
            }
            for b in ps.iter().cloned().chain([a + 1, a + 2, a + 3]) { if let Ok(r) = v.vet_range(a..b) { if a <= b {
                let (s, t) = v.scan_range(r, &f);
                let m = a + k.min(b - a);
                check_eq!((ro(&s), ro(&t)), ((a, m, false), (m, b, false)), "scan_range({}..{}) of {} accepting {}", a, b, n, k);
                saw("scan_range", (0..(k + 1).min(b - a)).map(|d| a + d).collect());
                event("far scans");
            } } }
        } }
    });
}

macro_rules! types { ($m:ident) => { $m!(u8, u16, u64, u128, [u8; 3], Big, Wide, Al64, Pad, (), Box<u64>, String, Tr, Zt); } }

fn main() {
    run::main(|| {
        macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for n in 0..mqt(4, 8, 13usize) { for kind in 0..5 {
                if is_miri() && (ty + n as i128 + kind as i128) % 11 != 0 { continue }
                case("exhaustive", &[ty, n as i128, kind as i128], || all::<$t>(n, kind))
            } } )* let _ = ty; } }
        types!(d);
        rounds("random", 4, 6000, |_, s| {
            fn go<T: Elem>(s: u64) { let mut rng = Rng::new(s); let n = rng.range(1, mqt(12, 300, 2000)); let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                let a = Arena::<T>::new(n, 2, 100); let base = a.mid_ref().as_ptr();
                let ps: Vec<_> = (0..4).map(|_| { let x = rng.range(0, n); let y = if rng.chance(1, 2) { x } else { rng.range(x, n) }; (x, y) }).collect();
                let k1 = rng.below(n + 2);
                scope(a.mid_ref(), |v| scans(&v, base, &model, |m| vec![k1, m / 2, m.wrapping_sub(1).min(m), m], &ps)); a.expect("scans", &model) }
            case("~random", &[0, s as i128], || match s % 3 { 0 => go::<u8>(s), 1 => go::<[u16; 3]>(s), _ => go::<u64>(s) });
        });
        for n in huge_lens() { if is_miri() && n % 3 != 1 { continue } case("far", &[n as i128], || {
            let mut ps = vec![0, 1, 2, n / 3, n / 2, n - 5, n - 2, n - 1, n];
            for b in [8, 16, 31, 32, 48, 62] { for d in 0..3 { let p = (1usize << b) - 1 + d; if p < n { ps.push(p); if is_miri() { break } } } }
            far(zsts(n), &ps)
        }) }
        case("far, giant", &[1], || if let Some(mut g) = Giant::new() { let s = g.of::<u8>(); let ps = giant_positions(s.len()); far(&*s, &ps); far(s, &ps) } else { trivial() });
        case("far, giant", &[2], || if let Some(mut g) = Giant::new() { let s = g.of::<u16>(); let ps = giant_positions(s.len()); far(&*s, &ps); far(s, &ps) } else { trivial() });
        // long scans: nothing may stop, skip or repeat after some number of elements
        macro_rules! l { ($($t:ty),*) => { for (x, n) in long_lens().into_iter().enumerate() { let mut j = 0usize; $( j += 1;
            case("long", &[n as i128, j as i128], || {
                ledger_reset();
                {
                    let mut rng = Rng::new(seed() ^ mix((n * 16 + j) as u64));
                    let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                    let (y, z) = (rng.range(0, n / 9), rng.range(n - n / 9, n));
                    let h = rng.below(n);
                    let ps = [(0, 0), (n - 1, n - 1), (y, y), (h, h), (0, n), (y, z)];
                    let cut = rng.below(n);
                    let ks = |m: usize| vec![m, m.saturating_sub(2), cut.min(m)];
                    let mut a = Arena::<$t>::new(n, 2, 100);
                    let base = a.mid_ref().as_ptr();
                    match (x + j) % 4 {
                        0 => scope(a.mid_ref(), |v| scans(&v, base, &model, ks, &ps)),
                        1 => scope(a.mid(), |v| scans(&v.only_index(), base, &model, ks, &ps)),
                        2 => scope(a.mid(), |v| scans(&v, base, &model, ks, &ps)),
                        _ => { let x = roomy::<$t>(n, j, 100); let base = x.as_ptr(); scope(x, |v| scans(&v, base, &model, ks, &ps)) }
                    }
                    a.expect("long scans", &model);
                    event("long scans");
                }
                ledger_clean("long scans");
            }); )* } } }
        l!(u8, [u16; 3], u64, Tr, Al64);
        // extents of round sizes, in containers of those sizes and much larger ones
        for d in round_lens() { for n in [d, d + 1, 70_001] { case("round sizes", &[d as i128, n as i128], || {
            if n < d { trivial(); return }
            let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
            let mut rng = Rng::new(seed() ^ mix((d * 7 + n) as u64));
            let y = rng.range(0, n - d);
            let mut ps = vec![(0, d), (n - d, n), (y, y + d)];
            for p in [n.wrapping_sub(d + 1), d, n - d, d - 1] { if p < n { ps.push((p, p)) } }
            let cut = rng.below(d);
            let ks = |m: usize| vec![m, d, d - 1, cut.min(m)];
            macro_rules! go { ($t:ty, $v:expr) => {{ let v: Vec<$t> = $v; let base = v.as_ptr(); scope(v, |v| scans(&v, base, &model, ks, &ps)) }} }
            if d % 2 == 0 { go!(u64, model.iter().map(|&i| u64::mk(i)).collect()) } else { go!([u16; 3], model.iter().map(|&i| <[u16; 3]>::mk(i)).collect()) }
            event("round-sized scans");
        }) } }
        // results of scans as input for further scans: runs of equal elements partition the slice
        rounds("runs", 4, 6000, |_, s| case("~runs", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = rng.range(1, 60);
            let mut x = 0u32;
            let data: Vec<u32> = (0..n).map(|_| { if rng.chance(1, 3) { x += 1 } x }).collect();
            scope(&data[..], |v| {
                let mut rest = v.range();
                let mut at = 0;
                while let Ok(r) = rest.nonempty() {
                    let c = v[r.first()];
                    let (run, tail) = v.scan_range(r, |&y| y == c);
                    let up = v.scan_from(r.first(), |&y| y == c);
                    check_eq!(se(&up), se(&run), "run by scan_from and scan_range");
                    check_eq!(se(&v.scan_from_rev(up.last(), |&y| y == c)), se(&run), "run by scan_from_rev");
                    let e = data[at..].iter().position(|&y| y != c).map_or(n, |k| at + k);
                    check_eq!(se(&run), (at, e), "run of equal elements");
                    at = e;
                    rest = tail;
                    event("runs found");
                }
                check_eq!(at, n, "runs cover");
            });
        }));
    });
}
