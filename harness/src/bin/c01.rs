//! C01: trusted access yields exactly the elements at the denoted positions.
use indexing::container_traits::*;
use indexing::{scope, Container};
use mon::engine::*;
use mon::*;
use std::cell::{RefCell, UnsafeCell};
use std::collections::BTreeMap;

fn slice_is<T: Elem>(what: &str, s: &[T], base: *const T, a: usize, b: usize, model: &[u64]) {
    check!(s.len() == b - a, "{}: slice of {}..{} has length {}", what, a, b, s.len());
    check!(at(base, a, s.as_ptr()), "{}: slice of {}..{} of {} starts {} bytes from the container's start", what, a, b, T::NAME,
           (s.as_ptr() as usize).wrapping_sub(base as usize) as isize);
    expect_ids(what, s, &model[a..b]);
    events("elements read", s.len() as u64);
}

/// All shared accesses through one particle.
fn read_one<'id, T: Elem, A, M>(v: &Container<'id, A, M>, base: *const T, model: &[u64], p: Pt<'id>)
    where A: Contiguous<Item = T> + GetUnchecked
{
    let n = model.len();
    match p {
        Pt::I(i) => {
            let k = i.integer();
            let x: &T = &v[i];
            check!(k < n, "index {} in container of {}", k, n);
            check!(at(base, k, x), "v[{}] of {} elements {} is at byte {}", k, n, T::NAME, (x as *const T as usize).wrapping_sub(base as usize) as isize);
            check_eq!(x.id(), T::canon(model[k]), "v[{}] of {} elements {}", k, n, T::NAME);
            event("elements read");
            slice_is("v[i..]", &v[i..], base, k, n, model);
            slice_is("v[..i]", &v[..i], base, 0, k, model);
        }
        Pt::E(i) => {
            let k = i.integer();
            slice_is("v[e..]", &v[i..], base, k, n, model);
            slice_is("v[..e]", &v[..i], base, 0, k, model);
        }
        Pt::N(r) => slice_is("v[nonempty range]", &v[r], base, r.start(), r.end(), model),
        Pt::R(r) => slice_is("v[range]", &v[r], base, r.start(), r.end(), model),
    }
    event("shared accesses");
}

/// One mutable access through one particle; `how` selects between the forms.
fn write_one<'id, T: Elem, A, M>(v: &mut Container<'id, A, M>, base: *const T, model: &mut Vec<u64>, p: Pt<'id>, how: usize, fresh: u64)
    where A: ContiguousMut<Item = T> + GetUncheckedMut
{
    let n = model.len();
    fn fill<T: Elem>(what: &str, s: &mut [T], base: *const T, a: usize, b: usize, model: &mut Vec<u64>, fresh: u64) {
        check!(s.len() == b - a, "{}: mutable slice of {}..{} has length {}", what, a, b, s.len());
        check!(at(base, a, s.as_ptr()), "{}: mutable slice of {}..{} of {} starts elsewhere", what, a, b, T::NAME);
        expect_ids(what, s, &model[a..b]);
        for (k, x) in s.iter_mut().enumerate() { *x = T::mk(fresh + k as u64); model[a + k] = fresh + k as u64; }
        events("elements written", (b - a) as u64);
    }
    match (p, how % 3) {
        (Pt::I(i), 0) => {
            let k = i.integer();
            {
                let x: &mut T = &mut v[i];
                check!(k < n, "index {} in container of {}", k, n);
                check!(at(base, k, x), "&mut v[{}] of {} elements {} is elsewhere", k, n, T::NAME);
                check_eq!(x.id(), T::canon(model[k]), "&mut v[{}]", k);
            }
            v[i] = T::mk(fresh);
            model[k] = fresh;
            event("elements written");
        }
        (Pt::I(i), 1) => fill("&mut v[i..]", &mut v[i..], base, i.integer(), n, model, fresh),
        (Pt::I(i), _) => fill("&mut v[..i]", &mut v[..i], base, 0, i.integer(), model, fresh),
        (Pt::E(i), 0) => fill("&mut v[e..]", &mut v[i..], base, i.integer(), n, model, fresh),
        (Pt::E(i), _) => fill("&mut v[..e]", &mut v[..i], base, 0, i.integer(), model, fresh),
        (Pt::N(r), _) => fill("&mut v[nonempty range]", &mut v[r], base, r.start(), r.end(), model, fresh),
        (Pt::R(r), _) => fill("&mut v[range]", &mut v[r], base, r.start(), r.end(), model, fresh),
    }
    event("mutable accesses");
}

/// The raw trait methods that the container relies on.
fn traits_ro<T: Elem, A: Contiguous<Item = T> + GetUnchecked>(a: &A, base: *const T, model: &[u64]) {
    let n = model.len();
    check_eq!(a.base_len(), n, "base_len");
    check!(at(base, 0, a.begin()) && at(base, n, a.end()), "begin/end of {} x {}", n, T::NAME);
    slice_is("as_slice", a.as_slice(), base, 0, n, model);
    for i in 0..n { let x = unsafe { a.xget_unchecked(i) }; check!(at(base, i, x), "xget_unchecked({})", i); }
}
fn traits_mut<T: Elem, A: ContiguousMut<Item = T> + GetUncheckedMut>(a: &mut A, base: *const T, model: &[u64]) {
    let n = model.len();
    check!(at(base, 0, a.begin_mut()) && at(base, n, a.end_mut()), "begin_mut/end_mut of {} x {}", n, T::NAME);
    let s = a.as_mut_slice();
    check!(s.len() == n && at(base, 0, s.as_ptr()), "as_mut_slice");
    for i in 0..n { let x: *const T = unsafe { a.xget_unchecked_mut(i) }; check!(at(base, i, x), "xget_unchecked_mut({})", i); }
    traits_ro(a, base, model);
}

struct Keep<'id>(Vec<Pt<'id>>);
impl<'id> Sink<'id> for Keep<'id> { fn particle(&mut self, _: &'static str, p: Pt<'id>) { self.0.push(p) } }

fn particles<'id, A: Trustworthy, M>(v: &Container<'id, A, M>) -> Vec<Pt<'id>> { if v.len() <= 12 { all_particles(v) } else { edge_particles(v) } }

fn read_all<'id, T: Elem, A, M>(v: &Container<'id, A, M>, base: *const T, model: &[u64]) where A: Contiguous<Item = T> + GetUnchecked {
    check_eq!(v.len(), model.len(), "container length");
    slice_is("v[..]", &v[..], base, 0, model.len(), model);
    let e = v.empty_range();
    slice_is("v[empty_range()]", &v[e], base, 0, 0, model);
    slice_is("v[range()]", &v[v.range()], base, 0, model.len(), model);
    for p in particles(v) { read_one(v, base, model, p) }
}

/// Every access form on every kind of array.
fn direct<T: Elem>(n: usize, kind: usize, g: usize) {
    ledger_reset();
    {
        let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let mut a = Arena::<T>::new(n, g, 100);
        let base = a.mid_ref().as_ptr();
        // number of particles, to enumerate the writes one by one
        let np = scope(a.mid_ref(), |v| particles(&v).len());
        macro_rules! writes { ($arr:expr, |$v:ident| $mode:expr) => {
            for k in 0..np { for how in 0..3 {
                let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
                let mut a = Arena::<T>::new(n, g, 100);
                { let s = a.mid(); let base = s.as_ptr(); let arr = $arr(s);
                  scope(arr, |$v| { let mut v = $mode; let p = particles(&v)[k]; write_one(&mut v, base, &mut model, p, how, 1000 + how as u64 * 50); read_all(&v, base, &model) }); }
                a.expect("after a write", &model);
            } }
        } }
        match kind {
            0 => { scope(a.mid_ref(), |v| read_all(&v, base, &model)); traits_ro(&a.mid_ref(), base, &model) }
            1 => { { let mut s = a.mid(); traits_mut(&mut s, base, &model); scope(&mut *s, |v| read_all(&v, base, &model)); }
                   writes!(|s| s, |v| v) }
            2 => { let s = a.mid_ref(); scope(&s, |v| read_all(&v, base, &model)); scope(&&s, |v| read_all(&v, base, &model)); traits_ro(&&s, base, &model) }
            3 => { let mut s = a.mid(); { let ss = &mut s; traits_mut(&mut &mut *ss, base, &model); scope(ss, |v| read_all(&v, base, &model)); }
                   scope(&s, |v| read_all(&v, base, &model));
                   let mut m2 = model.clone();
                   scope(&mut s, |mut v| { for (j, p) in particles(&v).into_iter().enumerate() { write_one(&mut v, base, &mut m2, p, j, 5000 + 64 * j as u64) } read_all(&v, base, &m2) });
                   a.expect("&mut &mut [T]", &m2) }
            4 => writes!(|s| s, |v| v.only_index()),
            5 | 6 | 7 => {
                // vectors, with spare capacity
                let mut x: Vec<T> = Vec::with_capacity(n + 5);
                for i in 0..n { x.push(T::mk(100 + i as u64)) }
                let base = x.as_ptr();
                let mut m2 = model.clone();
                traits_mut(&mut x, base, &model);
                scope(&x, |v| read_all(&v, base, &model));
                scope(&mut x, |mut v| { for (j, p) in particles(&v).into_iter().enumerate() { write_one(&mut v, base, &mut m2, p, j + kind, 5000 + 64 * j as u64) } read_all(&v, base, &m2) });
                expect_ids("&mut Vec", &x, &m2);
                if kind == 6 {
                    let m3 = m2.clone();
                    let mut m4 = m2.clone();
                    scope(x, |mut v| { read_all(&v, base, &m3);
                        for (j, p) in particles(&v).into_iter().enumerate() { write_one(&mut v, base, &mut m4, p, j + kind, 9000 + 64 * j as u64) }
                        read_all(&v, base, &m4);
                    });
                } else if kind == 7 {
                    scope(x, |v| { let mut v = v.only_index(); let mut m4 = m2.clone();
                        for (j, p) in particles(&v).into_iter().enumerate() { write_one(&mut v, base, &mut m4, p, j + kind, 9000 + 64 * j as u64) }
                        read_all(&v, base, &m4) });
                }
            }
            _ => {
                // full mutable slice
                let mut m2 = model.clone();
                scope(a.mid(), |mut v| { let s = &mut v[..]; check!(s.len() == n && at(base, 0, s.as_ptr()), "&mut v[..]");
                    for (k, x) in s.iter_mut().enumerate() { *x = T::mk(7000 + k as u64); m2[k] = 7000 + k as u64 }
                    read_all(&v, base, &m2) });
                a.expect("&mut v[..]", &m2);
            }
        }
        a.guards("access");
    }
    ledger_clean("container access");
}

/// Random history: derive particles, read and write through any of them.
fn history<T: Elem>(seed: u64, long: Option<usize>, kind: usize) {
    ledger_reset();
    let mut rng = Rng::new(seed);
    let n = match rng.below(6) { 0 => rng.below(4), 5 => rng.range(100, 300), _ => rng.below(30) };
    let n = long.unwrap_or(n);
    let g = if rng.chance(1, 2) { 3 } else { 0 };
    let steps = if is_miri() { 20 } else if long.is_some() { 14 } else { 60 };
    {
        let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let mut a = Arena::<T>::new(n, g, 100);
        let base = a.mid_ref().as_ptr();
        fn go<'id, T: Elem, A, M>(v: &mut Container<'id, A, M>, base: *const T, model: &mut Vec<u64>, rng: &mut Rng, steps: usize)
            where A: ContiguousMut<Item = T> + GetUncheckedMut
        {
            let n = model.len();
            let mut pool = Pool::new(20);
            for p in edge_particles(v) { pool.add(rng, p) }
            if n > 300 {
                // single elements around every power of two
                for b in 0..20 { for p in (1usize << b) - 1..(1 << b) + 2 { if let Ok(i) = v.vet(p) {
                    check!(at(base, p, &v[i]), "v[{}] of {} elements {} is elsewhere", p, n, T::NAME);
                    check_eq!(v[i].id(), T::canon(model[p]), "v[{}] of {} elements {}", p, n, T::NAME);
                    check!(at(base, p, &mut v[i]), "&mut v[{}] of {} elements {} is elsewhere", p, n, T::NAME);
                } } }
                // positions anywhere; every form of access at least once
                for _ in 0..12 { let (x, y) = (rng.range(0, n), rng.range(0, n)); pool.add(rng, Pt::R(v.vet_range(x.min(y)..x.max(y)).unwrap())); if let Ok(i) = v.vet(x) { pool.add(rng, Pt::I(i)) } }
                let (x, y) = (rng.range(0, n / 5), rng.range(n - n / 5, n));
                let (i, r) = (v.vet(rng.below(n)).unwrap(), v.vet_range(x..y).unwrap());
                for (j, p) in vec![Pt::I(i), Pt::I(i), Pt::I(i), Pt::E(r.first()), Pt::E(r.past_the_end()), Pt::R(r), Pt::N(r.nonempty().unwrap())].into_iter().enumerate() {
                    read_one(v, base, model, p);
                    write_one(v, base, model, p, j, 500_000 + 77 * j as u64);
                }
            }
            for k in 0..steps {
                match rng.below(4) {
                    0 => { let p = pool.pick(rng); let how = rng.below(3); write_one(v, base, model, p, how, 1000 * k as u64 + 7) }
                    1 => { let p = pool.pick(rng); read_one(v, base, model, p) }
                    _ => { let mut s = Keep(vec![]); step(rng, v, &pool, true, &mut s); for p in s.0 { pool.add(rng, p) } }
                }
            }
            slice_is("v[..] after history", &v[..], base, 0, model.len(), model);
            let r = v.range();
            let s = &mut v[r];
            check!(s.len() == n && at(base, 0, s.as_ptr()), "&mut v[range()] of {} has length {}", n, s.len());
            if n > 0 { s[n - 1] = T::mk(77); model[n - 1] = 77; s[n / 2] = T::mk(78); model[n / 2] = 78 }
        }
        match kind {
            0 => scope(a.mid(), |mut v| go(&mut v, base, &mut model, &mut rng, steps)),
            1 => scope(a.mid(), |v| { let mut v = v.only_index(); go(&mut v, base, &mut model, &mut rng, steps) }),
            2 => scope(&mut a.mid(), |mut v| go(&mut v, base, &mut model, &mut rng, steps)),
            _ => {
                let mut x = roomy::<T>(n, kind, 100);
                let b = x.as_ptr();
                let mut m = model.clone();
                match kind {
                    3 => scope(&mut x, |mut v| go(&mut v, b, &mut m, &mut rng, steps)),
                    4 => scope(&mut &mut x, |mut v| go(&mut v, b, &mut m, &mut rng, steps)),
                    5 => { scope(x, |mut v| { go(&mut v, b, &mut m, &mut rng, steps); expect_ids("vector after history", &v[..], &m) }); x = vec![]; m.clear() }
                    _ => { scope(x, |v| { let mut v = v.only_index(); go(&mut v, b, &mut m, &mut rng, steps); expect_ids("vector after history", &v[..], &m) }); x = vec![]; m.clear() }
                }
                expect_ids("vector after history", &x, &m);
            }
        }
        a.expect("after history", &model);
        let model = ids(a.mid_ref());
        let pos: Vec<usize> = if n <= 300 { vec![] } else { (0..6).map(|_| rng.below(n)).collect() };
        scope(a.mid_ref(), |v| for &p in &pos { let i = v.vet(p).unwrap(); read_one(&v, base, &model, Pt::I(i)); read_one(&v, base, &model, Pt::R(v.vet_range(p / 3..p).unwrap())) });
        scope(&a.mid_ref(), |v| for &p in &pos { let i = v.vet(p).unwrap(); read_one(&v, base, &model, Pt::I(i)); read_one(&v, base, &model, Pt::E(i.after())) });
    }
    ledger_clean("history");
    event(if long.is_some() { "long histories" } else { "histories" });
}

/// Slices of more than 2^32 elements (or bytes): where every access form lands, at positions that need more than 32 bits.
fn giant<T: Copy + PartialEq + std::fmt::Debug + From<u8>>(kind: usize) {
    let mut g = match Giant::new() { Some(g) => g, None => { trivial(); return } };
    let n = g.of::<T>().len();
    let base = g.of::<T>().as_ptr();
    let zero = T::from(0);
    fn is<T>(what: &str, s: &[T], base: *const T, a: usize, b: usize) { check!(s.len() == b - a && at(base, a, s.as_ptr()), "{}: {}..{} is at byte {} and has length {}", what, a, b, (s.as_ptr() as usize).wrapping_sub(base as usize) as isize, s.len()); event("giant accesses") }
    fn go<'id, T: Copy + PartialEq + std::fmt::Debug + From<u8>, A, M>(mut v: Container<'id, A, M>, base: *const T, n: usize) where A: ContiguousMut<Item = T> + GetUncheckedMut {
        check_eq!(v.len(), n, "length");
        let ps = giant_positions(n);
        is("v[..]", &v[..], base, 0, n);
        { let r = v.range(); is("&mut v[range()]", &mut v[r], base, 0, n); }
        is("v[range()]", &v[v.range()], base, 0, n);
        for (k, &a) in ps.iter().enumerate() {
            if let Ok(i) = v.vet(a) {
                let f = T::from(k as u8 + 1);
                check!(at(base, a, &v[i]), "v[{}] of {}", a, n);
                check!(at(base, a, &mut v[i]), "&mut v[{}] of {}", a, n);
                v[i] = f;
                check_eq!(v[i], f, "v[{}] of {}", a, n);
                is("v[i..]", &v[i..], base, a, n);
                is("v[..i]", &v[..i], base, 0, a);
                is("&mut v[i..]", &mut v[i..], base, a, n);
                is("&mut v[..i]", &mut v[..i], base, 0, a);
                let e = i.after();
                is("v[e..]", &v[e..], base, a + 1, n);
                is("v[..e]", &v[..e], base, 0, a + 1);
                is("&mut v[e..]", &mut v[e..], base, a + 1, n);
                is("&mut v[..e]", &mut v[..e], base, 0, a + 1);
            }
            for &b in &ps[k..] {
                let r = v.vet_range(a..b).unwrap();
                is("v[r]", &v[r], base, a, b);
                is("&mut v[r]", &mut v[r], base, a, b);
                if let Ok(r) = r.nonempty() { is("v[nonempty r]", &v[r], base, a, b); is("&mut v[nonempty r]", &mut v[r], base, a, b) }
            }
        }
        for (k, &a) in ps.iter().enumerate() { if let Ok(i) = v.vet(a) { check_eq!(v[i], T::from(k as u8 + 1), "v[{}] of {} after other writes", a, n) } }
    }
    match kind {
        0 => scope(g.of::<T>(), |v| go(v, base, n)),
        1 => scope(g.of::<T>(), |v| go(v.only_index(), base, n)),
        _ => scope(&mut g.of::<T>(), |v| go(v, base, n)),
    }
    for (k, a) in giant_positions(n).into_iter().enumerate() { if a < n { check_eq!(g.at::<T>(a), T::from(k as u8 + 1), "element {} of {} in memory", a, n); let _ = zero; } }
    scope(g.of::<T>(), |mut v| is("&mut v[..]", &mut v[..], base, 0, n));
    scope(&*g.of::<T>(), |v| for a in giant_positions(n) { if let Ok(i) = v.vet(a) { check!(at(base, a, &v[i]), "v[{}] of {}", a, n); is("v[i..]", &v[i..], base, a, n); is("v[..i]", &v[..i], base, 0, a) } });
}

/// A container of any length that records which positions are asked for.
struct Virt { len: usize, cells: UnsafeCell<BTreeMap<usize, Box<u64>>>, log: RefCell<Vec<usize>> }
unsafe impl Trustworthy for Virt { type Item = u64; fn base_len(&self) -> usize { self.len } }
unsafe impl GetUnchecked for Virt {
    unsafe fn xget_unchecked(&self, i: usize) -> &u64 {
        self.log.borrow_mut().push(i);
        let m = &mut *self.cells.get();
        &**m.entry(i).or_insert_with(|| Box::new(i as u64 ^ 0x5555))
    }
}
unsafe impl GetUncheckedMut for Virt {
    unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut u64 {
        self.log.borrow_mut().push(i);
        &mut **self.cells.get_mut().entry(i).or_insert_with(|| Box::new(i as u64 ^ 0x5555))
    }
}
unsafe impl FixedLength for Virt {}

fn virt(n: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let m = Virt { len: n, cells: Default::default(), log: Default::default() };
    scope(m, |mut v| {
        check_eq!(v.len(), n, "virtual container length");
        let mut model: BTreeMap<usize, u64> = BTreeMap::new();
        let mut ps = edge_particles(&v);
        for _ in 0..20 { if n > 0 { if let Ok(i) = v.vet(rng.below(n)) { ps.push(Pt::I(i)) } } }
        let mut k = 0u64;
        for p in ps {
            let is: Vec<_> = match p {
                Pt::I(i) => vec![i],
                Pt::N(r) => vec![r.first(), r.last(), r.lower_middle(), r.upper_middle()],
                Pt::R(r) => r.into_iter().take(2).chain(r.into_iter().rev().take(2)).collect(),
                _ => vec![],
            };
            for i in is {
                let pos = i.integer();
                let want = *model.get(&pos).unwrap_or(&(pos as u64 ^ 0x5555));
                check_eq!(v[i], want, "virtual container of length {}: v[{}]", n, pos);
                k += 1;
                v[i] = k;
                model.insert(pos, k);
                check_eq!(v[i], k, "virtual container of length {}: v[{}] after write", n, pos);
                event("virtual accesses");
            }
        }
        for (&p, &x) in &model { if let Ok(i) = v.vet(p) { check_eq!(v[i], x, "virtual container: v[{}]", p) } }
    });
}

macro_rules! types { ($m:ident) => { $m!(u8, u16, u32, u64, u128, [u8; 3], [u16; 3], Big, Wide, Al64, Pad, (), Box<u64>, String, Tr, Zt); } }

fn main() {
    run::main(|| {
        let sizes: Vec<usize> = mqt(vec![0, 1, 3], vec![0, 1, 2, 3, 4, 5, 7, 33, 257], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 33, 64, 255, 256, 257, 1025]);
        macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for &n in &sizes { for kind in 0..9 {
                if n > 40 && (kind == 1 || kind == 4) && std::mem::size_of::<$t>() > 8 && !thorough() { continue }
                if is_miri() && (ty + kind as i128 + n as i128) % 17 != 0 { continue }
                for g in [0, 3] {
                    if g == 3 && is_miri() { continue }
                    case("access", &[ty, n as i128, kind as i128, g as i128], || direct::<$t>(n, kind, g));
                }
            } } )* let _ = ty; } }
        types!(d);
        let mut hl = huge_lens();
        hl.extend([0, 1, 2, 3, 10, 1000]);
        for n in hl { if is_miri() && n % 7 != 0 { continue } case("virtual", &[n as i128], || virt(n, seed() ^ n as u64)); }
        macro_rules! z { ($($t:ty),*) => { $( for kind in 0..7 { if is_miri() && (std::mem::size_of::<$t>() + kind) % 23 != 0 { continue }
            case("element sizes", &[std::mem::size_of::<$t>() as i128, std::mem::align_of::<$t>() as i128, kind as i128], || { history::<$t>(seed() ^ mix((std::mem::size_of::<$t>() * 8 + kind) as u64), None, kind); event("element sizes") }) } )* } }
        more_sizes!(z);
        macro_rules! l { ($($t:ty),*) => { let lens = long_lens(); for (x, &n) in lens.iter().enumerate() { let mut j = 0; $( j += 1;
            case("long", &[n as i128, j as i128], || history::<$t>(seed() ^ mix((n * 100 + j) as u64), Some(n), x + j));
            if std::mem::size_of::<$t>() < 8 { for kind in 0..7 { case("long", &[n as i128, j as i128, kind], || history::<$t>(seed() ^ mix((n * 100 + j + 50) as u64), Some(n), kind as usize)) } }
        )* } } }
        types!(l);
        for kind in 0..3 {
            case("giant", &[1, kind as i128], || giant::<u8>(kind));
            case("giant", &[2, kind as i128], || giant::<u16>(kind));
            case("giant", &[8, kind as i128], || giant::<u64>(kind));
        }
        macro_rules! h { ($($t:ty),*) => {
            rounds("history", 2, 600, |r, s| { let _ = r; let mut j = 0; $( j += 1; if !is_miri() || (r + s) as usize % 7 == j % 7 {
                case("~history", &[j as i128, s as i128], || history::<$t>(s, None, (s >> 20) as usize % 7)) } )* });
        } }
        types!(h);
    });
}
