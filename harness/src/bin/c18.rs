//! C18: heapify builds a min-heap from exactly the given elements.
use indexing::algorithms::heapify;
use mon::*;

fn kt<T: Keyed>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| (x.key(), x.tag())).collect() }
fn heap_at(k: &[u64]) -> Option<usize> { (1..k.len()).find(|&i| k[(i - 1) / 2] > k[i]) }

fn run<T: Keyed>(keys: &[u64], g: usize) {
    ledger_reset();
    {
        let n = keys.len();
        let mut v: Vec<T> = Vec::with_capacity(n + 2 * g);
        for i in 0..g { v.push(T::new(i as u64 % T::KEYS, 800 + i as u64)) }
        for (i, &k) in keys.iter().enumerate() { v.push(T::new(k % T::KEYS, i as u64)) }
        for i in 0..g { v.push(T::new(i as u64 % T::KEYS, 900 + i as u64)) }
        let before = kt(&v);
        heapify(&mut v[g..g + n]);
        let after = kt(&v);
        check!(before[..g] == after[..g] && before[g + n..] == after[g + n..], "heapify<{}>: memory outside the slice changed", T::NAME);
        let (b, a) = (&before[g..g + n], &after[g..g + n]);
        let bk: Vec<u64> = b.iter().map(|x| x.0).collect();
        let ak: Vec<u64> = a.iter().map(|x| x.0).collect();
        if let Some(i) = heap_at(&ak) { fail(format!("heapify<{}> of {} elements: element {} is smaller than its parent: {} from {}", T::NAME, n, i, short(&ak), short(&bk))) }
        let (mut x, mut y) = (a.to_vec(), b.to_vec());
        x.sort();
        y.sort();
        check!(x == y, "heapify<{}> of {} elements: not a permutation: {} from {}", T::NAME, n, short(a), short(b));
        if heap_at(&bk).is_none() {
            check!(a == b, "heapify<{}> changed a valid heap: {} from {}", T::NAME, short(a), short(b));
            event("valid heaps");
        } else { event("heaps built") }
        // and the result is a fixed point
        heapify(&mut v[g..g + n]);
        check!(kt(&v) == after, "heapify<{}> of {} elements: not stable under repetition", T::NAME, n);
        events("parent-child pairs checked", n.saturating_sub(1) as u64);
    }
    ledger_clean("heapify");
}

/// also total orders other than the natural one
struct Rev(Kt);
impl PartialEq for Rev { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Rev {}
impl PartialOrd for Rev { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { o.0.partial_cmp(&self.0) } }
impl Ord for Rev { fn cmp(&self, o: &Self) -> std::cmp::Ordering { o.0.cmp(&self.0) } }
impl Keyed for Rev {
    const NAME: &'static str = "reversed"; const KEYS: u64 = 1 << 32; const TAGGED: bool = true;
    fn new(k: u64, t: u64) -> Self { Rev(Kt::new(u32::MAX as u64 - k, t)) }
    fn key(&self) -> u64 { u32::MAX as u64 - self.0.key() }
    fn tag(&self) -> u64 { self.0.tag() }
}

macro_rules! types { ($m:ident) => { $m!(Kt, u8, K3, KBox, i32, u64, KBig, KAl, Rev, ()); } }

fn main() {
    run::main(|| {
        fn perms(n: usize, f: &mut dyn FnMut(&[u64])) {
            fn go(v: &mut Vec<u64>, k: usize, f: &mut dyn FnMut(&[u64])) {
                if k == v.len() { f(v); return }
                for i in k..v.len() { v.swap(k, i); go(v, k + 1, f); v.swap(k, i) }
            }
            go(&mut (0..n as u64).collect(), 0, f)
        }
        for n in 0..mqt(4, 9, 10usize) { case("all permutations", &[n as i128], || perms(n, &mut |k| run::<Kt>(k, 1))) }
        for n in 0..mqt(3, 10, 12usize) { case("all words", &[n as i128], || {
            let mut v = vec![0u64; n];
            'w: loop { run::<Kt>(&v, 1); if n < 7 && !is_miri() { run::<KBox>(&v, 1); run::<Rev>(&v, 1) }
                let mut i = 0; loop { if i == n { break 'w } v[i] += 1; if v[i] < 3 { break } v[i] = 0; i += 1 } }
        }) }
        // 0/1 patterns reach every path of sifting
        for n in mqt(5, 11, 13)..mqt(6, 15, 19usize) { case("all bit patterns", &[n as i128], || for b in 0..1u64 << n { if is_miri() && b % 7 != 0 { continue } let k: Vec<u64> = (0..n).map(|i| b >> i & 1).collect(); run::<u8>(&k, 1) }) }
        // lengths around powers of two, one displaced element
        for n in if is_miri() { vec![6] } else { (15..40).chain([63, 64, 65, 127, 128, 129, 255, 256]).collect() } { case("one displaced", &[n as i128], || {
            for p in 0..n { if n > 40 && p % 5 != 0 && p + 3 < n { continue } for x in [0u64, 60, 200] { for base in 0..3 {
                let mut k: Vec<u64> = (0..n as u64).map(|i| match base { 0 => i / 2 + 10, 1 => 250 - i.min(240), _ => 60 }).collect();
                k[p] = x;
                run::<KBig>(&k, 1); run::<u8>(&k, 2);
                if is_miri() { return }
            } } }
        }) }
        for n in long_lens() { macro_rules! l { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("long", &[n as i128, j], || {
            let mut rng = Rng::new(seed() ^ mix(n as u64 * 8 + j as u64));
            let m = n as u64;
            let up: Vec<u64> = (0..m).collect();
            run::<$t>(&up, 1);
            run::<$t>(&up.iter().rev().cloned().collect::<Vec<_>>(), 1);
            run::<$t>(&rand_keys(&mut rng, n, <$t>::KEYS), 1);
            for p in [0, 1, n / 2 - 1, n / 2, n - 1, rng.below(n)] { for x in [0, m * 3] { let mut v: Vec<u64> = up.iter().map(|i| i + 5).collect(); v[p] = x; run::<$t>(&v, 1) } }
            event("long heaps");
        }); )* } } l!(Kt, u64, KBox); }
        // at every offset from a multiple of sixteen bytes
        for g in 0..16usize { if is_miri() { break } case("alignments", &[g as i128], || {
            let mut rng = Rng::new(seed() ^ mix(g as u64));
            for n in [2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200] { for _ in 0..4 { let k = rand_keys(&mut rng, n, 256); run::<u8>(&k, g); run::<i32>(&k, g) } }
            event("alignments");
        }) }
        for d in round_lens() { case("round sizes", &[d as i128], || {
            let m = d as u64;
            let mut rng = Rng::new(seed() ^ mix(m));
            run::<u64>(&(0..m).collect::<Vec<_>>(), 1);
            run::<Kt>(&rand_keys(&mut rng, d, <Kt>::KEYS), 1);
            for p in [0, 1, d / 2 - 1, d / 2, d / 2 + 1, d - 2, d - 1] { for x in [0, 3 * m] { let mut v: Vec<u64> = (0..m).map(|i| if x > 0 { m - i } else { i + 5 }).collect(); v[p] = x; run::<u64>(&v, 1) } }
            event("round-sized heaps");
        }) }
        for n in very_long_lens().into_iter().chain(if is_miri() || cfg!(debug_assertions) { vec![] } else { vec![(1 << 21) + 1] }) { case("very long", &[n as i128], || {
            let m = n as u64;
            run::<Kt>(&(0..m).collect::<Vec<_>>(), 1);
            run::<u64>(&(0..m).map(|i| mix(i) >> 8).collect::<Vec<_>>(), 1);
            let mut v: Vec<u64> = (0..m).map(|i| m - i + 5).collect();
            v[n - 1] = 3 * m;
            run::<u64>(&v, 1);
            event("very long heaps");
        }) }
        rounds("random", 1, 1500, |_, s| {
            macro_rules! h { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("~random", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let n = if is_miri() { rng.below(20) } else if rng.chance(1, 30) { rng.below(5000) } else { rng.below(150) };
                run::<$t>(&rand_keys(&mut rng, n, <$t>::KEYS), 2);
            }); )* } }
            types!(h);
        });
    });
}
