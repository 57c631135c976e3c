//! C07: subdividing yields even, nonempty, adjacent chunks that cover the range.
use indexing::{scope, Range};
use mon::*;

fn sub<'id, P>(r: Range<'id, P>, n: usize, cap: usize) {
    let (s, e) = (r.start(), r.end());
    let len = e - s;
    let mut it = r.subdivide(n);
    if n > len {
        for _ in 0..3 { let x = it.next(); check!(x.is_none(), "({}..{}).subdivide({}) yields {:?} although there are fewer elements than parts", s, e, n, x) }
        event("subdivisions refused");
        return;
    }
    let end = |k: usize| s + ((k as u128 + 1) * len as u128 / n as u128) as usize;
    let mut at = s;
    let m = n.min(cap);
    for k in 0..m {
        let c = match it.next() { Some(c) => c, None => fail(format!("({}..{}).subdivide({}) ends after {} parts", s, e, n, k)) };
        check_eq!(ro(&c), (at, end(k), true), "({}..{}).subdivide({}) part {}", s, e, n, k);
        let (a, b) = se(&c);
        check!(a < b, "empty part");
        check!(b - a == len / n || b - a == len / n + (len % n != 0) as usize, "({}..{}).subdivide({}) part {} has length {}", s, e, n, k, b - a);
        at = b;
        event("chunks checked");
    }
    if m == n {
        check_eq!(at, e, "({}..{}).subdivide({}) last end", s, e, n);
        let mut c = it;
        for _ in 0..3 { check!(it.next().is_none(), "({}..{}).subdivide({}) yields more than {} parts", s, e, n, n) }
        check!(c.next().is_none(), "copy of an exhausted iterator yields");
    }
    event("subdivisions");
}
/// Copies of the iterator continue independently.
fn copies(len: usize, n: usize, at: usize) {
    scope(zsts(len), |v| {
        let mut it = v.range().subdivide(n);
        for _ in 0..at { it.next(); }
        let a: Vec<_> = it.collect();
        let b: Vec<_> = it.clone().collect();
        let c: Vec<_> = { let mut c = vec![]; while let Some(x) = it.next() { c.push(x) } c };
        check!(a == b && b == c, "copies of subdivide({}) of {} at {} differ", n, len, at);
        check_eq!(a.len(), n - at, "remaining parts");
    });
}

/// Whatever the iterator's provided (or overridden) methods do agrees with stepping one by one, from any state.
fn adapters(h: usize, s: usize, len: usize, n: usize, at: usize) {
    scope(zsts(h), |v| {
        let r = v.vet_range(s..s + len).unwrap();
        let parts: Vec<(usize, usize)> = if n > len { vec![] } else { (0..n).map(|k| (s + (k as u128 * len as u128 / n as u128) as usize, s + ((k as u128 + 1) * len as u128 / n as u128) as usize)).collect() };
        let at = at.min(parts.len());
        let parts = &parts[at..];
        let it = || { let mut it = r.subdivide(n); for _ in 0..at { it.next(); } it };
        let m = parts.len();
        let w = format!("({}..{}).subdivide({}) after {}", s, s + len, n, at);
        check_eq!(it().map(|c| se(&c)).collect::<Vec<_>>(), parts.to_vec(), "{}: collect", w);
        check_eq!(it().count(), m, "{}: count", w);
        check_eq!(it().last().map(|c| se(&c)), parts.last().copied(), "{}: last", w);
        let (lo, hi) = it().size_hint();
        check!(lo <= m && hi.map_or(true, |x| x >= m), "{}: size_hint {:?}", w, (lo, hi));
        for k in [0, 1, 2, m / 2, m.wrapping_sub(1), m, m + 1, usize::MAX, usize::MAX - 1, usize::MAX - at, 1 << 32, usize::MAX / len.max(1), (usize::MAX / len.max(1)).wrapping_add(1), (1 << 32) + m / 2] {
            let mut i = it();
            check_eq!(i.nth(k).map(|c| se(&c)), parts.get(k).copied(), "{}: nth({})", w, k);
            check_eq!(i.map(|c| se(&c)).collect::<Vec<_>>(), parts.get(k.saturating_add(1)..).unwrap_or(&[]).to_vec(), "{}: rest after nth({})", w, k);
            check_eq!(it().skip(k).map(|c| se(&c)).collect::<Vec<_>>(), parts.iter().copied().skip(k).collect::<Vec<_>>(), "{}: skip({})", w, k);
            check_eq!(it().take(k).map(|c| se(&c)).collect::<Vec<_>>(), parts.iter().copied().take(k).collect::<Vec<_>>(), "{}: take({})", w, k);
            check_eq!(it().step_by(k.max(1)).map(|c| se(&c)).collect::<Vec<_>>(), parts.iter().copied().step_by(k.max(1)).collect::<Vec<_>>(), "{}: step_by({})", w, k.max(1));
            let mut i = it();
            let f = i.by_ref().find(|c| c.start() >= s + len / 2).map(|c| se(&c));
            let p = parts.iter().position(|c| c.0 >= s + len / 2);
            check_eq!(f, p.map(|p| parts[p]), "{}: find", w);
            check_eq!(i.count(), p.map_or(0, |p| m - p - 1), "{}: rest after find", w);
        }
        check_eq!(it().fold(1u64, |h, c| mix(h ^ c.end() as u64)), parts.iter().fold(1u64, |h, c| mix(h ^ c.1 as u64)), "{}: fold", w);
        let mut seen = 0; it().for_each(|c| seen = mix(seen ^ c.start() as u64));
        check_eq!(seen, parts.iter().fold(0, |h, c| mix(h ^ c.0 as u64)), "{}: for_each", w);
        check_eq!((it().max().map(|c| se(&c)), it().min().map(|c| se(&c))), (parts.iter().max().copied(), parts.iter().min().copied()), "{}: max, min", w);
        check!(it().zip(parts).enumerate().all(|(_, (c, p))| se(&c) == *p), "{}: zip", w);
        event("adapter suites");
    })
}

fn main() {
    run::main(|| {
        for len in 0..mqt(5, 70, 200usize) {
            case("exhaustive", &[len as i128], || scope(zsts(len + 9), |v| {
                for s in [0, 1, 9] {
                    let r = v.vet_range(s..s + len).unwrap();
                    for n in (1..=len + 3).chain([1000, 1 << 32, usize::MAX - 1, usize::MAX]) { sub(r, n, usize::MAX); if let Ok(q) = r.nonempty() { sub(q, n, usize::MAX) } }
                }
            }));
        }
        for len in 1..mqt(4, 25, 60usize) { case("copies", &[len as i128], || for n in 1..=len { for at in 0..=n { copies(len, n, at) } }); }
        for len in 0..mqt(3, 20, 40usize) { case("adapters", &[len as i128], || for n in 1..=len + 2 { for at in 0..=n.min(len) { adapters(len + 5, if n % 2 == 0 { 0 } else { 4 }, len, n, at) } }); }
        for h in huge_lens() { if is_miri() && h % 7 != 0 { continue } case("huge adapters", &[h as i128], || for n in [1, 2, 3, 7, 64, 300] { for at in [0, 1, n / 2] { adapters(h, h / 5, h - h / 5, n, at); adapters(h, 0, h, n, at) } }) }
        for h in huge_lens() { if is_miri() && h % 7 != 0 { continue } case("huge", &[h as i128], || scope(zsts(h), |v| {
            let cap = mqt(20, 400, 4000);
            for (a, b) in [(0, h), (1, h), (0, h - 1), (h / 2, h), (h - 200, h), (h / 3, h / 3 + 77)] {
                let r = v.vet_range(a..b).unwrap();
                let l = b - a;
                for n in [1, 2, 3, 5, 7, 16, 100, 127, 255, 256, 1000, 65535, l / 2, l / 2 + 1, l / 3, l.wrapping_sub(1), l, l.wrapping_add(1), l.wrapping_mul(2), (1 << 32) - 1, 1 << 32, usize::MAX] {
                    if n > 0 { sub(r, n, cap) }
                }
            }
        })); }
        // all the iterator's methods, in any order
        rounds("methods", 3, 6000, |_, s| case("~methods", &[s as i128], || {
            let mut rng = Rng::new(s);
            let h = if rng.chance(2, 3) { rng.below(120) } else { (rng.next() >> rng.range(1, 40)) as usize };
            scope(zsts(h), |v| for _ in 0..mqt(2, 6, 6usize) {
                let a = rng.range(0, h); let b = rng.range(a, h);
                let (r, len) = (v.vet_range(a..b).unwrap(), b - a);
                let n = 1 + if rng.chance(1, 5) { rng.below(3) } else { rng.below(len.min(60) + 2) };
                let parts: Vec<(usize, usize)> = if n > len { vec![] } else { (0..n).map(|k| (a + (k as u128 * len as u128 / n as u128) as usize, a + ((k as u128 + 1) * len as u128 / n as u128) as usize)).collect() };
                conform::one_ended(&format!("{:?}.subdivide({})", r, n), r.subdivide(n), parts.iter().copied(), &|c| se(&c), &mut rng, parts.len());
            });
        }));
        rounds("random", 10, 15000, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let h = if rng.chance(1, 2) { rng.below(2000) } else { (rng.next() >> rng.range(1, 63)) as usize };
            scope(zsts(h), |v| for _ in 0..4 {
                let a = rng.range(0, h); let b = rng.range(a, h);
                let n = match rng.below(3) { 0 => rng.range(1, 40), 1 => rng.range(1, (b - a).max(1)), _ => rand_arg(&mut rng, b - a, 0).max(1) };
                sub(v.vet_range(a..b).unwrap(), n, mqt(30, 300, 3000));
            });
        }));
    });
}
