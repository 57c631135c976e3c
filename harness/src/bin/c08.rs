//! C08: range iteration yields each index exactly once, in order, from both ends.
use indexing::indexing::RangeIter;
use indexing::{scope, Range};
use mon::*;

fn chk<'id>(it: &RangeIter<'id>, a: usize, b: usize, what: &str) {
    let r = it.into_range();
    check!((r.start(), r.end()) == (a, b) || (a == b && r.is_empty()), "{}: remaining range is {:?}, should be {}..{}", what, r, a, b);
    event("remaining ranges compared");
}
/// Drive an iterator by a bit pattern (0 front, 1 back), model alongside.
fn drive<'id, P>(r: Range<'id, P>, steps: usize, mut bit: impl FnMut(usize) -> bool, copies: bool) {
    let (mut a, mut b) = (r.start(), r.end());
    let (s, e) = (a, b);
    let mut it = r.into_iter();
    chk(&it, a, b, "fresh iterator");
    for k in 0..steps {
        let back = bit(k);
        let copy = it;
        let got = if back { it.next_back() } else { it.next() };
        let want = if a < b { Some(if back { b -= 1; b } else { a += 1; a - 1 }) } else { None };
        check_eq!(got.map(|i| io(&i)), want.map(|w| (w, true)), "iterating {}..{} step {} ({})", s, e, k, if back { "back" } else { "front" });
        chk(&it, a, b, "after a step");
        if copies {
            let mut c = copy; let mut d = copy.clone();
            let x = if back { c.next_back() } else { c.next() };
            check_eq!(x, got, "copy of the iterator yields something else");
            chk(&c, a, b, "copy");
            // and from the other side
            let y = if back { d.next() } else { d.next_back() };
            check_eq!(y.is_some(), got.is_some(), "other end of the copy");
            chk(&it, a, b, "original after using copies");
        }
        event("iterator steps");
    }
}
/// Adapters must agree with integer iteration.
fn adapters<'id, P: Copy>(r: Range<'id, P>) {
    let s = r.start()..r.end();
    let ints = |v: Vec<indexing::Index<'id>>| v.into_iter().map(|i| i.integer()).collect::<Vec<_>>();
    let want: Vec<usize> = s.clone().collect();
    let rev: Vec<usize> = s.clone().rev().collect();
    check_eq!(ints(r.into_iter().collect()), want, "collect of {:?}", r);
    check_eq!(ints(r.into_iter().rev().collect()), rev, "rev of {:?}", r);
    check_eq!(r.into_iter().enumerate().map(|(k, i)| i.integer().wrapping_sub(k)).collect::<Vec<_>>(), vec![s.start; s.len()], "enumerate of {:?}", r);
    check!(r.into_iter().zip(r.into_iter().rev()).all(|(i, j)| i.integer() + j.integer() == s.start + s.end - 1), "zip of {:?}", r);
    check_eq!(r.into_iter().count(), s.len(), "count of {:?}", r);
    check_eq!(r.into_iter().last().map(|i| i.integer()), s.clone().last(), "last of {:?}", r);
    // (the last ones wrap around when added to a start, an end or a multiple of them)
    for k in [0, 1, 2, s.len() / 2, s.len().wrapping_sub(1), s.len(), s.len() + 1, s.len() + 2, usize::MAX, usize::MAX - 1, usize::MAX - s.start, usize::MAX - s.end, (usize::MAX - s.start).wrapping_add(2), isize::MAX as usize, 1 << 32] {
        check_eq!(r.into_iter().nth(k).map(|i| i.integer()), s.clone().nth(k), "nth({}) of {:?}", k, r);
        check_eq!(r.into_iter().nth_back(k).map(|i| i.integer()), s.clone().nth_back(k), "nth_back({}) of {:?}", k, r);
        let mut it = r.into_iter(); let mut m = s.clone();
        it.nth(k); m.nth(k);
        check_eq!(ints(it.collect()), m.collect::<Vec<_>>(), "rest after nth({}) of {:?}", k, r);
        let mut it = r.into_iter(); let mut m = s.clone();
        it.nth_back(k); m.nth_back(k);
        check_eq!(ints(it.rev().collect()), m.rev().collect::<Vec<_>>(), "rest after nth_back({}) of {:?}", k, r);
        check_eq!(ints(r.into_iter().skip(k).collect()), s.clone().skip(k).collect::<Vec<_>>(), "skip({}) of {:?}", k, r);
        check_eq!(ints(r.into_iter().take(k).collect()), s.clone().take(k).collect::<Vec<_>>(), "take({}) of {:?}", k, r);
        check_eq!(ints(r.into_iter().step_by(k.max(1)).collect()), s.clone().step_by(k.max(1)).collect::<Vec<_>>(), "step_by of {:?}", r);
    }
    check_eq!(r.into_iter().fold(0u64, |h, i| mix(h ^ i.integer() as u64)), s.clone().fold(0u64, |h, i| mix(h ^ i as u64)), "fold of {:?}", r);
    check_eq!(r.into_iter().rfold(0u64, |h, i| mix(h ^ i.integer() as u64)), s.clone().rfold(0u64, |h, i| mix(h ^ i as u64)), "rfold of {:?}", r);
    let mut it = r.into_iter();
    let mid = s.start + s.len() / 2;
    check_eq!(it.find(|i| i.integer() == mid).map(|i| i.integer()), s.clone().find(|&i| i == mid), "find of {:?}", r);
    check_eq!(it.map(|i| i.integer()).collect::<Vec<_>>(), (mid.saturating_add(1)..s.end).collect::<Vec<_>>(), "rest after find of {:?}", r);
    let (lo, hi) = r.into_iter().size_hint();
    check!(lo <= s.len() && hi.map_or(true, |h| h >= s.len()), "size_hint {:?} of {:?}", (lo, hi), r);
    check_eq!(r.into_iter().max().map(|i| i.integer()), s.clone().max(), "max of {:?}", r);
    check_eq!(r.into_iter().min().map(|i| i.integer()), s.clone().min(), "min of {:?}", r);
    event("adapter suites");
}

fn main() {
    run::main(|| {
        for len in 0..mqt(2, 10, 13usize) {
            case("all interleavings", &[len as i128], || scope(zsts(len + 3), |v| {
                let r = v.vet_range(2..2 + len).unwrap();
                for bits in 0..1u32 << (len + 2) {
                    drive(r, len + 2, |k| bits >> k & 1 == 1, len <= 6 || bits % 5 == 0);
                    if let Ok(q) = r.nonempty() { if len < 8 { drive(q, len + 2, |k| bits >> k & 1 == 1, false) } }
                    event("interleavings");
                }
            }));
        }
        for n in 0..mqt(3, 24, 60usize) { case("adapters", &[n as i128], || scope(zsts(n), |v| for a in 0..=n { for b in a..=n {
            let r = v.vet_range(a..b).unwrap(); adapters(r); if let Ok(r) = r.nonempty() { adapters(r) } } })); }
        for h in huge_lens() { if is_miri() && h % 5 != 0 { continue } case("huge", &[h as i128], || scope(zsts(h), |v| {
            for (a, b) in [(0, h), (h - 5, h), (h / 2, h / 2 + 3), (h, h), (1, h - 1)] {
                let r = v.vet_range(a..b).unwrap();
                for pat in [0u32, !0, 0xAAAA_AAAA, 0x0F0F_0F0F] { drive(r, 20, |k| pat >> k & 1 == 1, true) }
                if b - a < 10 { adapters(r) }
            }
        })); }
        for n in long_lens() { case("long", &[n as i128], || for h in [n + 9, (1 << 32) + n, isize::MAX as usize] { scope(zsts(h), |v| {
            let mut rng = Rng::new(seed() ^ n as u64);
            for a in [3, h - n] {
                let r = v.vet_range(a..a + n).unwrap();
                for bias in [0, 2, 4] { drive(r, n + 2, |_| rng.below(4) < bias, false) }
                let mut at = a;
                for i in r { check_eq!(i.integer(), at, "for loop over {:?}", r); at += 1 }
                check_eq!(at, a + n, "for loop over {:?}: visits", r);
                adapters(r);
                events("elements visited", n as u64);
            }
        }) }) }
        rounds("random", 5, 15000, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let h = if rng.chance(1, 2) { rng.below(60) } else { (rng.next() >> rng.range(1, 63)) as usize };
            scope(zsts(h), |v| { let a = rng.range(0, h); let b = if rng.chance(1, 2) { a + rng.below((h - a).min(40) + 1) } else { rng.range(a, h) };
                let bias = rng.below(5); drive(v.vet_range(a..b).unwrap(), 70, |_| rng.below(4) < bias, true) });
        }));
        // all the iterator's methods, in any order
        rounds("methods", 3, 6000, |_, s| case("~methods", &[s as i128], || {
            let mut rng = Rng::new(s);
            let huge = rng.chance(1, 3);
            let h = if huge { (rng.next() >> rng.range(1, 40)) as usize + 8 } else { rng.below(70) };
            scope(zsts(h), |v| for _ in 0..mqt(2, 6, 6usize) {
                let a = rng.range(0, h); let b = rng.range(a, h);
                let (r, m) = (v.vet_range(a..b).unwrap(), a..b);
                let w = format!("iterating {:?}", r);
                conform::two_ended(&w, r.into_iter(), m.clone(), &|i| i.integer(), &mut rng, b - a, huge, |it, m| {
                    chk(it, m.start, m.end, &w);
                    if !huge { check_eq!((it.max().map(|i| i.integer()), it.min().map(|i| i.integer())), (m.clone().max(), m.clone().min()), "{}: max and min of the rest {:?}", w, m) }
                });
            });
        }));
        // driving real element access through the iterator
        rounds("elements", 4, 3000, |_, s| case("~elements", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = rng.below(50);
            let mut data: Vec<u32> = vec![0; n];
            let (a, b) = { let a = rng.range(0, n); (a, rng.range(a, n)) };
            scope(&mut data[..], |mut v| { let mut it = v.vet_range(a..b).unwrap().into_iter(); loop { let x = if rng.chance(1, 2) { it.next() } else { it.next_back() }; match x { Some(i) => v[i] += 1, None => break } } });
            for k in 0..n { check_eq!(data[k], (a <= k && k < b) as u32, "visits of element {} when iterating {}..{}", k, a, b) }
            events("elements visited", (b - a) as u64);
        }));
    });
}
