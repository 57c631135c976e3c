//! C13: comparisons and hashes of indices and ranges are positional and consistent.
use indexing::{scope, Index, Range};
use mon::engine::*;
use mon::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn h<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn partial<A: PartialOrd<B>, B, K: Ord + Copy + std::fmt::Debug>(x: &A, y: &B, k: K, l: K) {
    let o = k.cmp(&l);
    check_eq!(x == y, o == Ordering::Equal, "{:?} == {:?}", k, l);
    check_eq!(x != y, o != Ordering::Equal, "{:?} != {:?}", k, l);
    check_eq!(x.partial_cmp(y), Some(o), "{:?} partial_cmp {:?}", k, l);
    check_eq!(x < y, o == Ordering::Less, "{:?} < {:?}", k, l);
    check_eq!(x <= y, o != Ordering::Greater, "{:?} <= {:?}", k, l);
    check_eq!(x > y, o == Ordering::Greater, "{:?} > {:?}", k, l);
    check_eq!(x >= y, o != Ordering::Less, "{:?} >= {:?}", k, l);
    event("partial comparisons");
}
fn total<A: Ord + Copy + Hash + std::fmt::Debug, K: Ord + Copy + std::fmt::Debug>(x: A, y: A, k: K, l: K, key: impl Fn(A) -> K) {
    check_eq!(x.cmp(&y), k.cmp(&l), "{:?} cmp {:?}", k, l);
    check_eq!(key(x.max(y)), k.max(l), "max({:?}, {:?})", k, l);
    check_eq!(key(x.min(y)), k.min(l), "min({:?}, {:?})", k, l);
    let (lo, hi) = (x.min(y), x.max(y));
    check_eq!(key(x.clamp(lo, hi)), k, "clamp");
    if k == l { check_eq!(h(&x), h(&y), "hashes of equal {:?}", k) }
    event("total comparisons");
}
/// "exactly as the integers they denote": with the standard hasher, alone, as part of a tuple and in a slice
fn hash_as<A: Hash + Copy, K: Hash + Copy>(x: A, k: K) {
    check_eq!(h(&x), h(&k), "hash of a particle and of its position");
    check_eq!(h(&(7u8, x, x)), h(&(7u8, k, k)), "hash of a tuple of particles and of positions");
    check_eq!(h(&vec![x, x, x]), h(&vec![k, k, k]), "hash of a vector of particles and of positions");
    event("hashes compared");
}
fn clamps<A: Ord + Copy, K: Ord + Copy + std::fmt::Debug>(x: A, lo: A, hi: A, key: impl Fn(A) -> K) {
    let (lo, hi) = if key(lo) <= key(hi) { (lo, hi) } else { (hi, lo) };
    check_eq!(key(x.clamp(lo, hi)), key(x).clamp(key(lo), key(hi)), "clamp of {:?} to {:?}..={:?}", key(x), key(lo), key(hi));
}
fn hash_ne<A: Hash, B: Hash>(x: &A, y: &B, equal: bool) { if equal { check_eq!(h(x), h(y), "hashes of equal values with different markers") } event("hashes compared") }

fn pair<'id>(p: Pt<'id>, q: Pt<'id>) {
    macro_rules! two { ($x:expr, $y:expr, $k:expr, $l:expr) => {{ partial(&$x, &$y, $k, $l); hash_ne(&$x, &$y, $k == $l); }} }
    let (_, a, b) = p.obs();
    let (_, c, d) = q.obs();
    match (p, q) {
        (Pt::I(x), Pt::I(y)) => { hash_as(x, a); two!(x, y, a, c); total(x, y, a, c, |i: Index<'id>| i.integer()) }
        (Pt::I(x), Pt::E(y)) => two!(x, y, a, c),
        (Pt::E(x), Pt::I(y)) => two!(x, y, a, c),
        (Pt::E(x), Pt::E(y)) => { hash_as(x, a); two!(x, y, a, c); total(x, y, a, c, |i| i.integer()) }
        (Pt::R(x), Pt::R(y)) => { hash_as(x, (a, b)); two!(x, y, (a, b), (c, d)); total(x, y, (a, b), (c, d), |r: Range<'id>| (r.start(), r.end())) }
        (Pt::R(x), Pt::N(y)) => two!(x, y, (a, b), (c, d)),
        (Pt::N(x), Pt::R(y)) => two!(x, y, (a, b), (c, d)),
        (Pt::N(x), Pt::N(y)) => { hash_as(x, (a, b)); two!(x, y, (a, b), (c, d)); total(x, y, (a, b), (c, d), |r| (r.start(), r.end())) }
        _ => {}
    }
}

/// As keys of ordered and hashed collections and for sorting.
fn collections<'id>(rng: &mut Rng, is: &[Index<'id>], rs: &[Range<'id>]) {
    fn go<A: Ord + Copy + Hash + std::fmt::Debug, K: Ord + Hash + Copy + std::fmt::Debug>(rng: &mut Rng, xs: &[A], key: impl Fn(&A) -> K) {
        let mut seq = vec![];
        if xs.is_empty() { return }
        for _ in 0..40 { seq.push(*rng.pick(xs)) }
        for w in seq.windows(3) { clamps(w[0], w[1], w[2], |x| key(&x)); }
        let keys: Vec<K> = seq.iter().map(&key).collect();
        let (mut s, mut k) = (seq.clone(), keys.clone());
        s.sort(); k.sort();
        check_eq!(s.iter().map(&key).collect::<Vec<_>>(), k, "sort");
        let mut s = seq.clone(); s.sort_unstable();
        check_eq!(s.iter().map(&key).collect::<Vec<_>>(), k, "sort_unstable");
        let mut s = seq.clone(); s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        check_eq!(s.iter().map(&key).collect::<Vec<_>>(), k, "sort by partial_cmp");
        check_eq!(seq.iter().max().map(&key), keys.iter().max().copied(), "max");
        check_eq!(seq.iter().min().map(&key), keys.iter().min().copied(), "min");
        let bs: BTreeSet<A> = seq.iter().copied().collect();
        let bk: BTreeSet<K> = keys.iter().copied().collect();
        check_eq!(bs.iter().map(&key).collect::<Vec<_>>(), bk.iter().copied().collect::<Vec<_>>(), "BTreeSet");
        let hs: HashSet<A> = seq.iter().copied().collect();
        let hk: HashSet<K> = keys.iter().copied().collect();
        check_eq!(hs.iter().map(&key).collect::<BTreeSet<_>>(), hk.iter().copied().collect::<BTreeSet<_>>(), "HashSet");
        check_eq!(hs.len(), hk.len(), "HashSet size");
        let mut m1: HashMap<A, usize> = HashMap::new(); let mut m2: BTreeMap<K, usize> = BTreeMap::new();
        for (x, k) in seq.iter().zip(&keys) { *m1.entry(*x).or_default() += 1; *m2.entry(*k).or_default() += 1 }
        check_eq!(m1.iter().map(|(x, c)| (key(x), *c)).collect::<BTreeMap<_, _>>(), m2, "HashMap counts");
        for _ in 0..6 { // sequences of particles compare like sequences of positions
            let (a, b) = (rng.below(36), rng.below(36)); let (l, m) = (rng.below(5), rng.below(5));
            let (x, y, kx, ky) = (&seq[a..a + l], &seq[b..b + m], &keys[a..a + l], &keys[b..b + m]);
            check_eq!((x.cmp(y), x.partial_cmp(y), x < y, x <= y, x == y), (kx.cmp(ky), kx.partial_cmp(ky), kx < ky, kx <= ky, kx == ky), "sequences {:?} and {:?}", kx, ky);
            check_eq!(h(&x), h(&kx), "hash of the sequence {:?}", kx);
            check_eq!((seq[a], seq[b]).cmp(&(seq[b], seq[a])), (keys[a], keys[b]).cmp(&(keys[b], keys[a])), "pairs of {:?} and {:?}", keys[a], keys[b]);
            check_eq!((std::cmp::Reverse(seq[a]) < std::cmp::Reverse(seq[b]), Some(seq[a]) < Some(seq[b])), (std::cmp::Reverse(keys[a]) < std::cmp::Reverse(keys[b]), Some(keys[a]) < Some(keys[b])), "wrapped {:?} and {:?}", keys[a], keys[b]);
        }
        let mut s = seq.clone(); s.sort(); let mut k = keys.clone(); k.sort();
        let z = rng.below(40);
        check_eq!((s.binary_search(&seq[z]).is_ok(), s.partition_point(|x| *x < seq[z])), (true, k.partition_point(|x| *x < keys[z])), "searching sorted particles");
        let mut hp: std::collections::BinaryHeap<A> = seq.iter().copied().collect();
        for want in k.iter().rev() { check_eq!(hp.pop().map(|x| key(&x)), Some(*want), "BinaryHeap") }
        let mut s = seq.clone(); s.dedup(); let mut k = keys.clone(); k.dedup();
        check_eq!(s.iter().map(&key).collect::<Vec<_>>(), k, "dedup");
        check_eq!(seq.iter().position(|x| *x == seq[20]), keys.iter().position(|x| *x == keys[20]), "position");
        event("collections compared");
    }
    go(rng, is, |i| i.integer());
    go(rng, rs, |r| (r.start(), r.end()));
    let es: Vec<_> = is.iter().map(|i| i.after()).collect();
    go(rng, &es, |i| i.integer());
    let ns: Vec<_> = rs.iter().filter_map(|r| r.nonempty().ok()).collect();
    go(rng, &ns, |r| (r.start(), r.end()));
}

fn main() {
    run::main(|| {
        for n in 0..mqt(3, 12, 18usize) { case("exhaustive", &[n as i128], || scope(zsts(n), |v| { let ps = all_particles(&v); for &p in &ps { for &q in &ps { pair(p, q) } } })) }
        for n in huge_lens() { if is_miri() { break } case("huge", &[n as i128], || scope(zsts(n), |v| { let ps = edge_particles(&v); for &p in &ps { for &q in &ps { pair(p, q) } } })) }
        rounds("random", 3, 4000, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = if rng.chance(1, 2) { rng.range(1, 60) } else { ((rng.next() >> rng.range(1, 63)) as usize).max(1) };
            scope(zsts(n), |v| {
                let mut is = vec![]; let mut rs = vec![];
                let mut xs: Vec<usize> = (0..8).map(|_| rng.range(0, n)).collect();
                for k in 0..8 { let y = xs[k] ^ (1usize << rng.below(63)); if y <= n { xs.push(y) } if xs[k] < n { xs.push(xs[k] + 1) } }
                for &a in &xs { if let Ok(i) = v.vet(a) { is.push(i) } for &b in &xs { if let Ok(r) = v.vet_range(a..b) { rs.push(r) } } }
                let mut ps: Vec<Pt> = is.iter().map(|&i| Pt::I(i)).collect();
                ps.extend(rs.iter().map(|&r| Pt::R(r)));
                ps.extend(rs.iter().map(|&r| Pt::E(r.first())));
                ps.extend(rs.iter().filter_map(|r| r.nonempty().ok()).map(|r| Pt::N(r)));
                for _ in 0..mqt(40, 300, 900) { let (p, q) = (*rng.pick(&ps), *rng.pick(&ps)); pair(p, q) }
                collections(&mut rng, &is, &rs);
            });
        }));
    });
}
