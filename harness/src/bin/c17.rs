//! C17: merging is a stable in-place merge that gives the buffer back.
use mon::algos::*;
use mon::*;

fn kt<T: Keyed>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| (x.key(), x.tag())).collect() }

/// data = two sorted parts; guards around data and buffer
fn run<T: Keyed>(left: &[u64], right: &[u64], nb: usize, le: usize, g: usize) {
    let n = left.len() + right.len();
    for (name, f) in merges::<T>() {
        ledger_reset();
        {
            let k = |x: u64| x % T::KEYS;
            let mut data: Vec<T> = Vec::with_capacity(n + 2 * g);
            for i in 0..g { data.push(T::new(k(7), 8000 + i as u64)) }
            for (i, &x) in left.iter().chain(right).enumerate() { data.push(T::new(k(x), i as u64)) }
            for i in 0..g { data.push(T::new(k(3), 9000 + i as u64)) }
            let mut buf: Vec<T> = Vec::with_capacity(nb + 2 * g);
            for i in 0..nb + 2 * g { buf.push(T::new(k(mix(i as u64) % 50), 10_000 + i as u64)) }
            let (bd, bb) = (kt(&data), kt(&buf));
            let bufp = buf.as_ptr();
            let r = f(&mut data[g..g + n], le, &mut buf[g..g + nb]);
            check!(bufp == buf.as_ptr(), "harness");
            let fits = le <= n && le <= nb;
            check_eq!(r.is_ok(), fits, "{}<{}>: {} elements, left_end {}, buffer of {}: succeeds", name, T::NAME, n, le, nb);
            if let Err(e) = &r { check!(!format!("{:?}", e.clone()).is_empty(), "error has no text"); }
            let (ad, ab) = (kt(&data), kt(&buf));
            // the used part of the buffer may come back in another order, the rest must not be touched
            let (mut ab, mut bb) = (ab, bb);
            if fits { ab[g..g + le].sort(); bb[g..g + le].sort() }
            check!(ab == bb, "{}<{}>: {} elements, left_end {}: the buffer became {} from {}", name, T::NAME, n, le, short(&ab), short(&bb));
            let mut want = bd.clone();
            if fits { want[g..g + n].sort_by_key(|x| x.0) } // the stable merge of two sorted parts is their stable sort
            check!(ad == want, "{}<{}>: left_end {}, buffer {}: got {}, expected {} from {}", name, T::NAME, le, nb, short(&ad), short(&want), short(&bd));
            events("elements merged", n as u64);
            event(if fits { "merges" } else { "merges refused" });
            if fits && le == 0 { event("empty left parts") }
            if fits && le == n { event("empty right parts") }
        }
        ledger_clean(name);
    }
}

fn sorted_words(n: usize, k: u64) -> Vec<Vec<u64>> {
    fn go(v: &mut Vec<u64>, n: usize, k: u64, out: &mut Vec<Vec<u64>>) {
        if v.len() == n { out.push(v.clone()); return }
        for x in *v.last().unwrap_or(&0)..k { v.push(x); go(v, n, k, out); v.pop(); }
    }
    let mut o = vec![];
    go(&mut vec![], n, k, &mut o);
    o
}

macro_rules! types { ($m:ident) => { $m!(Kt, u8, K3, KBox, i32, u64, KBig, KAl, ()); } }

fn main() {
    run::main(|| {
        let m = mqt(2, 6, 8usize);
        for a in 0..=m { for b in 0..=m { case("all sorted parts", &[a as i128, b as i128], || {
            let k = if is_miri() { 2 } else if a + b > 8 { 3 } else { 4 };
            let ws = sorted_words(b, k);
            for l in sorted_words(a, k) { for r in &ws { run::<Kt>(&l, r, a + (l.len() + r.len()) % 3, a, 1) } }
            if a + b <= 6 { for l in sorted_words(a, 3) { for r in sorted_words(b, 3) { run::<KBox>(&l, &r, a, a, 1); if !is_miri() { run::<()>(&l, &r, a, a, 0); run::<u8>(&l, &r, a + 1, a, 2) } } } }
        }) } }
        // interleavings of distinct keys: every way the two parts can be merged
        let t = mqt(3, 10, 13usize);
        for a in 0..=t { case("all interleavings", &[t as i128, a as i128], || for bits in 0..1u32 << t { if bits.count_ones() as usize == a {
            let l: Vec<u64> = (0..t as u64).filter(|i| bits >> i & 1 == 1).collect();
            let r: Vec<u64> = (0..t as u64).filter(|i| bits >> i & 1 == 0).collect();
            run::<Kt>(&l, &r, a, a, 1);
        } }) }
        // lengths that do not fit
        for n in 0..mqt(3, 7, 10usize) { for nb in 0..mqt(3, 9, 12usize) { case("all lengths", &[n as i128, nb as i128], || for le in edge_args(n, nb).into_iter().chain(0..n + 4) {
            let v: Vec<u64> = (0..n as u64).collect();
            // the parts are sorted for every split
            let c = le.min(n);
            run::<KBox>(&v[..c], &v[c..], nb, le, 1); if !is_miri() { run::<KAl>(&v[..c], &v[c..], nb, le, 1); run::<K3>(&v[..c], &v[c..], nb, le, 1); run::<()>(&v[..c], &v[c..], nb, le, 0) }
        }) } }
        // long parts: runs of any length from one side, and many alternations
        for (x, n) in long_lens().into_iter().enumerate() { macro_rules! l { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("long", &[n as i128, j], || {
            let mut rng = Rng::new(seed() ^ mix(n as u64 * 8 + j as u64));
            let m = n as u64;
            let few = 3 + rng.below(20) as u64;
            let up = |a: u64, b: u64| (a..b).collect::<Vec<u64>>();
            let cut = rng.range(n / 3, n / 2) as u64;
            let (e, o): (Vec<u64>, Vec<u64>) = { let (mut e, mut o) = (vec![], vec![]); for i in 0..m { if mix(i) & 1 == 0 { e.push(i / 2) } else { o.push(i / 2) } } (e, o) };
            let all = [(up(0, m), up(m, m + few)), (up(m, 2 * m), up(0, few)), (up(m, m + few), up(0, m)), (up(0, few), up(m, 2 * m)), (up(cut, cut + few), up(0, m)), (up(0, m), up(cut, cut + few)),
                (e, o), (up(0, m), up(0, m)), (vec![5; n], vec![5; few as usize]), (vec![5; few as usize], vec![5; n])];
            for (k, (l, r)) in all.iter().enumerate() { if n < 5000 || (k + x) % 2 == 0 || n > 65_000 { let c = |v: &Vec<u64>| v.iter().map(|&x| if <$t>::KEYS < 1 << 32 { (x * 200 / (2 * m + few)) % 256 } else { x }).collect::<Vec<_>>();
                run::<$t>(&c(l), &c(r), l.len() + k % 2, l.len(), 1) } }
            event("long merges");
        }); )* } } l!(Kt, u64, u8, KBox); }
        // at every offset from a multiple of sixteen bytes
        for g in 0..16usize { if is_miri() { break } case("alignments", &[g as i128], || {
            let mut rng = Rng::new(seed() ^ mix(g as u64));
            for n in [1, 7, 8, 9, 16, 17, 24, 25, 33, 40, 64, 65, 100, 128] { for m in [0, 1, 8, 13, 16, 32, 40, 64] {
                let (mut l, mut r) = (rand_keys(&mut rng, n, 256), rand_keys(&mut rng, m, 256));
                l.sort(); r.sort();
                run::<u8>(&l, &r, n + g % 3, n, g); run::<i32>(&r, &l, m + g, m, g); run::<u8>(&(0..n as u64).collect::<Vec<_>>(), &vec![200; m], n, n, g); run::<u8>(&vec![200; n], &(0..m as u64).collect::<Vec<_>>(), n, n, g);
            } }
            event("alignments");
        }) }
        // parts, runs and buffers of round sizes
        for d in round_lens() { if d > 20_000 && !thorough() { continue } macro_rules! l { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("round sizes", &[d as i128, j], || {
            let m = d as u64;
            let up = |a: u64, b: u64| (a..b).collect::<Vec<u64>>();
            let even: Vec<u64> = (0..m).map(|i| 2 * i).collect();
            let odd: Vec<u64> = (0..m).map(|i| 2 * i + 1).collect();
            let all = [(up(0, m), up(m, 2 * m)), (up(m, 2 * m), up(0, m)), (even, odd), (up(0, m), vec![m / 2]), (vec![m / 2], up(0, m)), (vec![m; 3], up(0, m)), (up(0, m), vec![]), (up(0, m + 3), up(0, m)), (up(7, m + 7), up(0, 2 * m))];
            for (k, (l, r)) in all.iter().enumerate() { if d > 3000 && (k as i128 + j) % 3 != 0 { continue }
                let c = |v: &Vec<u64>| v.iter().map(|&x| if <$t>::KEYS < 1 << 32 { x * 100 / (2 * m + 8) } else { x }).collect::<Vec<_>>();
                run::<$t>(&c(l), &c(r), l.len() + k % 2, l.len(), 1) }
            event("round-sized merges");
        }); )* } } l!(Kt, u64, u8); }
        for n in very_long_lens() { for kind in 0..4 { case("very long", &[n as i128, kind], || {
            let m = n as u64;
            let up = |a: u64, b: u64| (a..b).collect::<Vec<u64>>();
            let (l, r): (Vec<u64>, Vec<u64>) = match kind {
                0 => { let (mut e, mut o) = (vec![], vec![]); for i in 0..2 * m { if mix(i) & 1 == 0 { e.push(i / 3) } else { o.push(i / 3) } } (e, o) }
                1 => (up(m, 2 * m), up(0, 3)),
                2 => (up(m, m + 3), up(0, m)),
                _ => (up(0, m), up(m - 10, 2 * m)),
            };
            if kind == 0 { run::<Kt>(&l, &r, l.len(), l.len(), 1) }
            run::<u64>(&l, &r, l.len() + 1, l.len(), 1);
            event("very long merges");
        }) } }
        rounds("random", 1, 1500, |_, s| {
            macro_rules! h { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; case("~random", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let top = mqt(12, 60, 200);
                let (mut a, mut b) = (rng.below(top), rng.below(top));
                if !is_miri() { match rng.below(8) { 0 => a = 0, 1 => b = 0, 2 => a = rng.below(2000), 3 => b = rng.below(2000), _ => {} } }
                let mut l = rand_keys(&mut rng, a, <$t>::KEYS);
                let mut r = rand_keys(&mut rng, b, <$t>::KEYS);
                l.sort();
                r.sort();
                match rng.below(6) { 0 => for x in r.iter_mut() { *x += l.last().unwrap_or(&0) }, 1 => for x in l.iter_mut() { *x += r.last().unwrap_or(&0) }, _ => {} }
                for x in l.iter_mut().chain(r.iter_mut()) { *x = (*x).min(<$t>::KEYS - 1) }
                let nb = a + rng.below(5);
                run::<$t>(&l, &r, nb, a, 2);
                if a > 0 { run::<$t>(&l, &r, a - 1, a, 1) }
            }); )* } }
            types!(h);
        });
    });
}
