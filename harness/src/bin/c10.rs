//! C10: swap, rotate, index_twice and zip_mut_raw apply exactly the documented permutation.
use indexing::container_traits::*;
use indexing::{scope, Container, Range};
use mon::*;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;

#[derive(Copy, Clone, Debug)]
enum Op { Swap(usize, usize), Up(usize, usize, bool), Down(usize, usize, bool), Twice(usize, usize, usize, usize, u8), Zip(usize, usize, usize, usize) }

fn model_op(m: &mut Vec<u64>, op: Op, fresh: u64) {
    match op {
        Op::Swap(i, j) => m.swap(i, j),
        Op::Up(a, b, _) => if b > a { m[a..b].rotate_right(1) },
        Op::Down(a, b, _) => if b > a { m[a..b].rotate_left(1) },
        Op::Twice(a, b, c, d, _) => if b <= c { let mut f = fresh; for k in (a..b).chain(c..d) { m[k] = f; f += 1 } },
        Op::Zip(a, b, c, d) => for k in 0..(b - a).min(d - c) { m.swap(a + k, c + k) },
    }
}

fn apply<'id, T: Elem, A, M>(v: &mut Container<'id, A, M>, base: *const T, op: Op, fresh: u64) where A: ContiguousMut<Item = T> + GetUncheckedMut {
    let (born0, died0) = ledger_counts();
    let mut replaced = 0;
    match op {
        Op::Swap(i, j) => { let (i, j) = (v.vet(i).unwrap(), v.vet(j).unwrap()); v.swap(i, j); }
        Op::Up(a, b, ne) => { let r = v.vet_range(a..b).unwrap(); if ne { if let Ok(r) = r.nonempty() { v.rotate1_up(r) } } else { v.rotate1_up(r) } }
        Op::Down(a, b, ne) => { let r = v.vet_range(a..b).unwrap(); if ne { if let Ok(r) = r.nonempty() { v.rotate1_down(r) } } else { v.rotate1_down(r) } }
        Op::Twice(a, b, c, d, ne) => {
            let (r, s) = (v.vet_range(a..b).unwrap(), v.vet_range(c..d).unwrap());
            fn fin<T: Elem>(got: Result<(&mut [T], &mut [T]), indexing::IndexingError>, base: *const T, a: usize, b: usize, c: usize, d: usize, fresh: u64) -> u64 {
                check_eq!(got.is_ok(), b <= c, "index_twice({}..{}, {}..{})", a, b, c, d);
                event(if b <= c { "index_twice admitted" } else { "index_twice rejected" });
                if let Ok((x, y)) = got {
                    check!(x.len() == b - a && at(base, a, x.as_ptr()), "index_twice({}..{}, {}..{}): first slice has length {}", a, b, c, d, x.len());
                    check!(y.len() == d - c && at(base, c, y.as_ptr()), "index_twice({}..{}, {}..{}): second slice has length {}", a, b, c, d, y.len());
                    let mut f = fresh;
                    // write through both, interleaved
                    let (nx, ny) = (x.len(), y.len());
                    for k in 0..nx.max(ny) { if k < nx { x[k] = T::mk(f + k as u64); } if k < ny { y[k] = T::mk(f + nx as u64 + k as u64); } }
                    f += (nx + ny) as u64;
                    f - fresh
                } else { 0 }
            }
            replaced = match (ne, r.nonempty(), s.nonempty()) {
                (1, Ok(r), _) => fin(v.index_twice(r, s), base, a, b, c, d, fresh),
                (2, _, Ok(s)) => fin(v.index_twice(r, s), base, a, b, c, d, fresh),
                (3, Ok(r), Ok(s)) => fin(v.index_twice(r, s), base, a, b, c, d, fresh),
                _ => fin(v.index_twice(r, s), base, a, b, c, d, fresh),
            };
        }
        Op::Zip(a, b, c, d) => {
            let (r, s): (Range, Range) = (v.vet_range(a..b).unwrap(), v.vet_range(c..d).unwrap());
            let mut k = 0;
            let mut f = |x: *mut T, y: *mut T| {
                check!(at(base, a + k, x) && at(base, c + k, y), "zip_mut_raw({}..{}, {}..{}): pair {} is at the wrong place", a, b, c, d, k);
                if x != y { unsafe { std::ptr::swap(x, y) } } // equal pointers alias, as documented
                k += 1;
                event("zip_mut_raw pairs");
            };
            match (r.nonempty(), s.nonempty()) { (Ok(r), Ok(s)) if (a + c) % 2 == 0 => v.zip_mut_raw(r, s, &mut f), (Ok(r), _) if a % 2 == 0 => v.zip_mut_raw(r, s, &mut f), _ => v.zip_mut_raw(r, s, &mut f) }
            check_eq!(k, (b - a).min(d - c), "zip_mut_raw({}..{}, {}..{}) number of pairs", a, b, c, d);
        }
    }
    let (born1, died1) = ledger_counts();
    if T::NAME.starts_with("Tracked") { check!(born1 - born0 == replaced && died1 - died0 == replaced, "{:?} created {} and dropped {} elements instead of {}", op, born1 - born0, died1 - died0, replaced) }
    event("operations");
}

fn ops(n: usize) -> Vec<Op> {
    let mut o = vec![];
    for i in 0..n { for j in 0..n { o.push(Op::Swap(i, j)) } }
    let rs: Vec<(usize, usize)> = (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect();
    for &(a, b) in &rs { for ne in [false, true] { o.push(Op::Up(a, b, ne)); o.push(Op::Down(a, b, ne)) } }
    for &(a, b) in &rs { for &(c, d) in &rs { for ne in 0..4 { o.push(Op::Twice(a, b, c, d, ne)) } o.push(Op::Zip(a, b, c, d)) } }
    o
}

fn single<T: Elem>(n: usize, kind: usize, g: usize) {
    ledger_reset();
    {
        let list = ops(n);
        let list: Vec<Op> = if is_miri() { list.into_iter().enumerate().filter(|(k, _)| k % 7 == n % 7).map(|x| x.1).collect() } else { list };
        for op in list {
            let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
            if kind < 2 {
                let mut a = Arena::<T>::new(n, g, 100);
                { let s = a.mid(); let base = s.as_ptr();
                  if kind == 0 { scope(s, |mut v| apply(&mut v, base, op, 500)) } else { scope(s, |v| apply(&mut v.only_index(), base, op, 500)) } }
                model_op(&mut model, op, 500);
                a.expect(&format!("{:?}", op), &model);
            } else {
                let mut x: Vec<T> = Vec::with_capacity(n + 2);
                for i in 0..n { x.push(T::mk(100 + i as u64)) }
                let base = x.as_ptr();
                model_op(&mut model, op, 500);
                if kind == 2 { scope(&mut x, |mut v| apply(&mut v, base, op, 500)); expect_ids(&format!("{:?}", op), &x, &model) }
                else { scope(x, |mut v| { apply(&mut v, base, op, 500); expect_ids(&format!("{:?}", op), &v[..], &model) }) }
            }
        }
    }
    ledger_clean("rearranging");
}

fn history<T: Elem>(s: u64, long: Option<usize>) {
    ledger_reset();
    {
        let mut rng = Rng::new(s);
        let n = match rng.below(8) { 0 => rng.range(200, 700), 1 => rng.below(3), _ => rng.range(1, 50) };
        let n = long.unwrap_or(if is_miri() { n.min(24) } else { n });
        let mut first = vec![];
        if long.is_some() {
            // every operation once over nearly everything
            let (a, b, h) = (rng.range(0, n / 9), rng.range(n - n / 9, n), rng.range(n / 3, n / 2));
            first = vec![Op::Swap(a, b - 1), Op::Up(a, b, true), Op::Down(0, b, false), Op::Down(a, n, true), Op::Up(0, n, false), Op::Twice(a, h, h, b, 0), Op::Twice(a, b, 0, h, 3), Op::Zip(0, h, n - h, n), Op::Zip(a, n, 0, n), Op::Zip(0, n, 0, n)];
        }
        let g = if rng.chance(1, 2) { 2 } else { 0 };
        let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let mut a = Arena::<T>::new(n, g, 100);
        {
            let sl = a.mid();
            let base = sl.as_ptr();
            scope(sl, |mut v| for k in 0..if is_miri() { 12 } else if n > 1000 { 16 } else { 40 } {
                let mut rr = |rng: &mut Rng| { let x = rng.range(0, n); let y = if rng.chance(1, 3) { n } else { rng.range(x, n) }; (x, y) };
                let (x, y) = rr(&mut rng); let (z, w) = if rng.chance(1, 2) && y <= n { let z = rng.range(y, n); (z, rng.range(z, n)) } else { rr(&mut rng) };
                let op = match rng.below(6) { 0 if n > 0 => Op::Swap(rng.below(n), rng.below(n)), 1 => Op::Up(x, y, rng.chance(1, 2)), 2 => Op::Down(x, y, rng.chance(1, 2)),
                    3 => Op::Twice(x, y, z, w, rng.below(4) as u8), 4 => Op::Zip(x, y, z, w), _ => Op::Up(x, y, false) };
                let op = first.pop().unwrap_or(op);
                let f = 1000 * (k as u64 + 1);
                apply(&mut v, base, op, f);
                model_op(&mut model, op, f);
                expect_ids(&format!("{:?}", op), &v[..], &model);
            });
        }
        a.expect("history", &model);
    }
    ledger_clean("history");
    event(if long.is_some() { "long histories" } else { "histories" });
}

/// More elements than 32 bits can count: swaps, slices and pairs at positions that need more.
fn giant<T: Copy + PartialEq + std::fmt::Debug + From<u8>>() {
    let mut g = match Giant::new() { Some(g) => g, None => { trivial(); return } };
    let n = g.of::<T>().len();
    let base = g.of::<T>().as_ptr();
    let mut m: BTreeMap<usize, T> = BTreeMap::new();
    let ps = giant_positions(n);
    let ps: Vec<usize> = ps.iter().cloned().filter(|&p| p < n).collect();
    scope(g.of::<T>(), |mut v| {
        let t = |k: usize| T::from((k % 251 + 1) as u8);
        let zero = T::from(0);
        for (k, &p) in ps.iter().enumerate() { let i = v.vet(p).unwrap(); v[i] = t(k); m.insert(p, t(k)); }
        for (x, &p) in ps.iter().enumerate() { for &q in &ps[..=x] {
            let (i, j) = (v.vet(p).unwrap(), v.vet(q).unwrap());
            v.swap(i, j);
            let (a, b) = (m[&p], m[&q]);
            m.insert(p, b); m.insert(q, a);
            check_eq!((v[i], v[j]), (m[&p], m[&q]), "after swap({}, {}) of {}", p, q, n);
        } }
        for &p in &ps { let i = v.vet(p).unwrap(); check_eq!(v[i], m[&p], "element {} after all swaps", p) }
        // rotations of a few elements far out; pairs of ranges wherever they are
        for &p in &ps {
            let q = (p + 5).min(n);
            let old: Vec<T> = (p..q).map(|k| *m.get(&k).unwrap_or(&zero)).collect();
            let r = v.vet_range(p..q).unwrap();
            let mut w = old.clone();
            if p % 2 == 0 { v.rotate1_up(r); w.rotate_right(1) } else { v.rotate1_down(r); w.rotate_left(1) }
            check_eq!(&v[r], &w[..], "rotation of {}..{}", p, q);
            for (k, x) in w.into_iter().enumerate() { m.insert(p + k, x); }
            for &c in &ps { for &d in &ps { if c > d { continue }
                let (s, z) = (v.vet_range(c..d).unwrap(), r);
                let got = v.index_twice(z, s).map(|(x, y)| (x.as_ptr() as usize, x.len(), y.as_ptr() as usize, y.len()));
                let want = (base as usize + p * std::mem::size_of::<T>(), q - p, base as usize + c * std::mem::size_of::<T>(), d - c);
                check_eq!(got.ok(), if q <= c { Some(want) } else { None }, "index_twice({}..{}, {}..{}) of {}", p, q, c, d, n);
                event(if q <= c { "index_twice admitted" } else { "index_twice rejected" });
                if d - c < 10_000 || q - p < 10_000 {
                    let mut k = 0;
                    v.zip_mut_raw(s, z, |x, y| { check!(at(base, c + k, x) && at(base, p + k, y), "zip_mut_raw({}..{}, {}..{}): pair {}", c, d, p, q, k); k += 1 });
                    check_eq!(k, (d - c).min(q - p), "zip_mut_raw({}..{}, {}..{}): pairs", c, d, p, q);
                }
            } }
        }
    });
    for (p, x) in m { check_eq!(g.at::<T>(p), x, "element {} of {} in memory", p, n) }
    event("giant operations");
}


/// A rotation of more than 2^32 elements (thorough tier: it takes the memory).
fn giant_rotation() {
    let mut g = match Giant::sized((1 << 32) + 70_000) { Some(g) => g, None => { trivial(); return } };
    let n = g.of::<u8>().len();
    let ps: Vec<usize> = giant_positions(n).into_iter().filter(|p| p % 2 == 0 && p + 3 < n && *p > 2).collect();
    for (k, &p) in ps.iter().enumerate() { g.of::<u8>()[p] = k as u8 + 1 }
    g.of::<u8>()[n - 1] = 200;
    scope(g.of::<u8>(), |mut v| { let r = v.range(); v.rotate1_up(r); });
    check_eq!((g.at::<u8>(0), g.at::<u8>(n - 1)), (200, 0), "ends after rotate1_up of {}", n);
    for (k, &p) in ps.iter().enumerate() { check_eq!((g.at::<u8>(p + 1), g.at::<u8>(p)), (k as u8 + 1, 0), "elements {} and before after rotate1_up of {}", p + 1, n) }
    scope(g.of::<u8>(), |mut v| { let r = v.range(); v.rotate1_down(r); });
    check_eq!((g.at::<u8>(0), g.at::<u8>(n - 1)), (0, 200), "ends after rotate1_down of {}", n);
    for (k, &p) in ps.iter().enumerate() { check_eq!((g.at::<u8>(p), g.at::<u8>(p + 1)), (k as u8 + 1, 0), "elements {} and after after rotate1_down of {}", p, n) }
    event("giant rotations");
}

/// Any length: swap and zip only need single-element access.
struct Virt { len: usize, cells: UnsafeCell<BTreeMap<usize, Box<u64>>> }
unsafe impl Trustworthy for Virt { type Item = u64; fn base_len(&self) -> usize { self.len } }
unsafe impl GetUnchecked for Virt { unsafe fn xget_unchecked(&self, i: usize) -> &u64 { check!(i < self.len, "unchecked access {} of {}", i, self.len); &**(*self.cells.get()).entry(i).or_insert_with(|| Box::new(i as u64)) } }
unsafe impl GetUncheckedMut for Virt { unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut u64 { check!(i < self.len, "unchecked access {} of {}", i, self.len); &mut **self.cells.get_mut().entry(i).or_insert_with(|| Box::new(i as u64)) } }

fn virt(n: usize, s: u64) {
    let mut rng = Rng::new(s);
    scope(Virt { len: n, cells: Default::default() }, |mut v| {
        let mut m: BTreeMap<usize, u64> = BTreeMap::new();
        let mut pos: Vec<usize> = vec![0, 1, n / 2, n - 1, n - 2, n / 3]; for _ in 0..6 { pos.push(rng.below(n)) }
        for &p in &pos.clone() { let q = p ^ (1 << 32); if q < n { pos.push(q) } let q = p & 0xffff_ffff; if q < n { pos.push(q) } }
        for _ in 0..60 {
            let (i, j) = (*rng.pick(&pos), *rng.pick(&pos));
            let (a, b) = (v.vet(i).unwrap(), v.vet(j).unwrap());
            if rng.chance(2, 3) {
                v.swap(a, b);
                let (x, y) = (*m.get(&i).unwrap_or(&(i as u64)), *m.get(&j).unwrap_or(&(j as u64)));
                m.insert(i, y); m.insert(j, x);
                if i == j { m.insert(i, x); }
            } else {
                let (l1, l2) = (rng.below(4).min(n - i), rng.below(4).min(n - j));
                let (r, q) = (v.vet_range(i..i + l1).unwrap(), v.vet_range(j..j + l2).unwrap());
                let mut seen = vec![];
                v.zip_mut_raw(r, q, |x, y| unsafe { seen.push((*x, *y)); if x != y { std::ptr::swap(x, y) } });
                let mut want = vec![];
                for k in 0..l1.min(l2) { let (i, j) = (i + k, j + k); let (x, y) = (*m.get(&i).unwrap_or(&(i as u64)), *m.get(&j).unwrap_or(&(j as u64))); want.push((x, y)); m.insert(i, y); m.insert(j, x); if i == j { m.insert(i, x); } }
                check_eq!(seen, want, "zip_mut_raw({}.., {}..) of {}", i, j, n);
            }
            for (&p, &x) in &m { let k = v.vet(p).unwrap(); check_eq!(v[k], x, "element {} of {} after swapping {} {}", p, n, i, j) }
            event("virtual operations");
        }
    });
}

macro_rules! types { ($m:ident) => { $m!(u8, u16, u32, u64, u128, [u8; 3], [u16; 3], Big, Wide, Al64, Pad, (), Box<u64>, String, Tr, Zt); } }

fn main() {
    run::main(|| {
        macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for n in 0..mqt(4, 6, 8usize) { for kind in 0..4 { for g in [0, 2] {
                if (kind >= 2 || is_miri()) && g > 0 { continue }
                if is_miri() && (ty + n as i128 + kind as i128) % 13 != 0 { continue }
                case("single", &[ty, n as i128, kind as i128, g as i128], || single::<$t>(n, kind, g))
            } } } )* let _ = ty; } }
        types!(d);
        macro_rules! l { ($($t:ty),*) => { for n in long_lens() { let mut j = 0usize; $( j += 1;
            if std::mem::size_of::<$t>() < 256 || n < 11_000 { case("long", &[n as i128, j as i128], || history::<$t>(seed() ^ mix((n * 32 + j) as u64), Some(n))) } )* } } }
        l!(u8, u64, u128, [u8; 3], [u16; 3], Big, Al64, (), Box<u64>, Tr, Wide, Zt);
        macro_rules! z { ($($t:ty),*) => { $( if !is_miri() || std::mem::size_of::<$t>() % 23 == 5 { case("element sizes", &[std::mem::size_of::<$t>() as i128, std::mem::align_of::<$t>() as i128], || {
            for n in 0..mqt(3, 5, 6usize) { single::<$t>(n, n % 4, 0) }
            for k in 0..mqt(0, 3, 9u64) { history::<$t>(seed() ^ mix(k), if k == 0 { Some(if std::mem::size_of::<$t>() > 300 { 40 } else { 300 }) } else { None }) }
            event("element sizes");
        }) } )* } }
        more_sizes!(z);
        // at every offset from a multiple of sixteen bytes
        for g in 0..16usize { if is_miri() && g % 5 != 0 { continue } macro_rules! l { ($($t:ty),*) => { let mut j = 0usize; $( j += 1; case("alignments", &[g as i128, j as i128], || for n in mqt(vec![12usize], vec![2, 3, 7, 8, 9, 15, 16, 17, 24, 33, 64, 100, 130], (2..140).collect()) {
            ledger_reset();
            {
                let list = vec![Op::Up(0, n, false), Op::Down(0, n, true), Op::Up(1, n, true), Op::Down(0, n - 1, false), Op::Zip(0, n / 2, n - n / 2, n), Op::Swap(0, n - 1), Op::Twice(0, n / 2, n / 2, n, 0)];
                let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                let mut a = Arena::<$t>::new(n, g, 100);
                { let sl = a.mid(); let base = sl.as_ptr(); scope(sl, |mut v| for (k, op) in list.into_iter().enumerate() {
                    apply(&mut v, base, op, 1000 * (k as u64 + 1)); model_op(&mut model, op, 1000 * (k as u64 + 1));
                    expect_ids(&format!("{:?} at offset {}", op, g), &v[..], &model);
                }) }
                a.expect("operations at every offset", &model);
            }
            ledger_clean("operations at every offset");
            event("alignments");
        }); )* } } l!(u8, u16, [u8; 3], u32, [u16; 3], u64); }
        // operations on ranges of round sizes
        for d in round_lens() { for n in [d, d + 1, 2 * d, 2 * d + 77] { macro_rules! l { ($($t:ty),*) => { let mut j = 0usize; $( j += 1; if (d + n + j) % 2 == 0 || thorough() || n == 2 * d { case("round sizes", &[d as i128, n as i128, j as i128], || {
            ledger_reset();
            {
                let mut rng = Rng::new(seed() ^ mix((d * 7 + n) as u64));
                let y = rng.range(0, n - d);
                let mut list = vec![Op::Up(0, d, false), Op::Down(n - d, n, true), Op::Up(y, y + d, true), Op::Down(y, y + d, false), Op::Swap(0, d - 1), Op::Swap(n - 1, n - d), Op::Zip(0, d, n - d, n), Op::Zip(y, y + d, 0, n)];
                if n >= 2 * d { if y + d < n { list.push(Op::Swap(y + d, y)) } list.extend([Op::Swap(y, y + d - 1), Op::Twice(0, d, d, 2 * d, 0), Op::Twice(0, n - d, n - d, n, 1), Op::Twice(n - d, n, 0, d, 2), Op::Twice(0, d, n - d, n, 3), Op::Zip(0, d, d, 2 * d)]) }
                let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                let mut a = Arena::<$t>::new(n, 2, 100);
                { let sl = a.mid(); let base = sl.as_ptr(); scope(sl, |mut v| for (k, op) in list.into_iter().enumerate() {
                    let f = 1_000_000 + 200_000 * k as u64;
                    apply(&mut v, base, op, f); model_op(&mut model, op, f);
                    expect_ids(&format!("{:?}", op), &v[..], &model);
                }) }
                a.expect("round-sized operations", &model);
            }
            ledger_clean("round-sized operations");
            event("round-sized histories");
        }) } )* } } l!(u64, [u8; 3], u16, Tr); } }
        for n in very_long_lens() { case("very long", &[n as i128, 1], || history::<u64>(seed() ^ mix(n as u64), Some(n))); case("very long", &[n as i128, 2], || history::<[u8; 3]>(seed() ^ mix(n as u64 + 1), Some(n))) }
        case("giant", &[1], || giant::<u8>());
        case("giant", &[2], || giant::<u16>());
        if thorough() && !cfg!(debug_assertions) { case("giant rotation", &[], giant_rotation) }
        for n in huge_lens() { if is_miri() { break } case("virtual", &[n as i128], || virt(n, seed() ^ n as u64)) }
        macro_rules! h { ($($t:ty),*) => { rounds("history", 1, 500, |_, s| { let mut j = 0i128; $( j += 1; case("~history", &[j, s as i128], || history::<$t>(s, None)); )* }); } }
        types!(h);
    });
}
