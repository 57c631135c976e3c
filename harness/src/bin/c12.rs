//! C12: twins are admitted exactly at equal length and share indices; clones view the same elements.
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::{scope, Container};
use mon::engine::*;
use mon::*;

fn admit(n: usize, m: usize) {
    // zero-sized twins of any length
    scope(zsts(n), |v| {
        let t = v.make_twin(zsts(m));
        check_eq!(t.is_ok(), n == m, "make_twin of length {} for a container of length {}", m, n);
        event(if n == m { "twins admitted" } else { "twins rejected" });
        check_eq!(v.len(), n, "container length after make_twin");
        if let Ok(t) = t {
            check_eq!(t.len(), n, "twin length");
            for p in edge_particles(&v) { check!(p.valid(t.len()), "{} in a twin of length {}", p.describe(), t.len()) }
            // a twin of a twin
            check_eq!(t.make_twin(zsts(m)).is_ok(), true, "twin of a twin");
            check_eq!(t.make_twin(zsts(m.wrapping_add(1) & isize::MAX as usize)).is_ok(), false, "longer twin of a twin");
            let o = v.only_index();
            check_eq!(o.make_twin(zsts(n)).is_ok(), true, "twin of an index-only container");
            if n > 0 { check_eq!(o.make_twin(zsts(n - 1)).is_ok(), false, "shorter twin of an index-only container") }
        }
    });
}
fn mem_admit<T: Elem, U: Elem>(n: usize, m: usize) {
    ledger_reset();
    {
        let mut a = Arena::<T>::new(n, 2, 100);
        let mut b = Arena::<U>::new(m, 2, 500);
        let ma: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let mb: Vec<u64> = (0..m as u64).map(|i| 500 + i).collect();
        for kind in 0..4 {
            let ok = match kind {
                0 => scope(a.mid_ref(), |v| v.make_twin(b.mid_ref()).is_ok()),
                1 => { let (x, y) = (a.mid(), b.mid()); scope(&mut *x, |v| v.make_twin(&mut *y).is_ok()) }
                2 => { let (x, y) = (a.mid(), b.mid_ref()); scope(&mut *x, |v| v.make_twin(y).is_ok()) }
                _ => { let (x, y) = (a.mid_ref(), b.mid()); scope(x, |v| v.only_index().make_twin(&mut *y).is_ok()) }
            };
            check_eq!(ok, n == m, "make_twin kind {} of length {} for a container of length {}", kind, m, n);
            event(if ok { "twins admitted" } else { "twins rejected" });
        }
        a.expect("container after make_twin", &ma);
        b.expect("array after make_twin", &mb);
    }
    ledger_clean("twins");
}

fn lockstep<T: Elem, U: Elem>(s: u64, long: Option<usize>) {
    ledger_reset();
    {
        let mut rng = Rng::new(s);
        let n = long.unwrap_or(if is_miri() { rng.below(7) } else { rng.below(40) });
        let (mut a, mut b) = (Arena::<T>::new(n, 2, 100), Arena::<U>::new(n, 2, 500));
        let mut ma: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let mut mb: Vec<u64> = (0..n as u64).map(|i| 500 + i).collect();
        {
            let (x, y) = (a.mid(), b.mid());
            let (bx, by) = (x.as_ptr(), y.as_ptr());
            scope(x, |mut v| {
                let mut t = v.make_twin(y).unwrap_or_else(|_| fail(format!("twin of equal length {} rejected", n)));
                let mut pool = Pool::new(16);
                for p in edge_particles(&v) { pool.add(&mut rng, p) }
                if n > 40 { for _ in 0..8 { let (x, y) = (rng.range(0, n), rng.range(0, n)); pool.add(&mut rng, Pt::R(v.vet_range(x.min(y)..x.max(y)).unwrap())); if let Ok(i) = t.vet(x) { pool.add(&mut rng, Pt::I(i)) } } }
                for k in 0..if is_miri() { 12 } else if long.is_some() { 24 } else { 50 } {
                    let f = 1000 * (k as u64 + 1);
                    // new particles come from either container
                    let mut keep = Keep(vec![]);
                    if rng.chance(1, 2) { step(&mut rng, &v, &pool, true, &mut keep); } else { step(&mut rng, &t, &pool, true, &mut keep); }
                    for p in keep.0 { check!(p.valid(n), "{} from a twin of length {}", p.describe(), n); pool.add(&mut rng, p) }
                    match rng.below(6) {
                        0 => if let (Some(i), Some(j)) = (pool.index(&mut rng), pool.index(&mut rng)) {
                            let (p, q) = (i.integer(), j.integer());
                            let w = rng.below(3);
                            if w != 1 { v.swap(i, j); ma.swap(p, q) }
                            if w != 0 { t.swap(i, j); mb.swap(p, q) }
                        },
                        1 => if let Some(r) = pool.range(&mut rng) { let (p, q) = se(&r); v.rotate1_up(r); t.rotate1_down(r); if q > p { ma[p..q].rotate_right(1); mb[p..q].rotate_left(1) } },
                        2 => if let Some(i) = pool.index(&mut rng) { let p = i.integer(); if rng.chance(1, 2) { v[i] = T::mk(f); ma[p] = f } else { t[i] = U::mk(f); mb[p] = f } },
                        3 => if let Some(r) = pool.range(&mut rng) { let (p, q) = se(&r); for (k, x) in t[r].iter_mut().enumerate() { *x = U::mk(f + k as u64); mb[p + k] = f + k as u64 } let _ = q; },
                        4 => if let Some(i) = pool.index(&mut rng) { let p = i.integer(); check!(at(bx, p, &v[i]), "container element {}", p); check!(at(by, p, &t[i]), "twin element {} at another place", p);
                            check_eq!((v[i].id(), t[i].id()), (T::canon(ma[p]), U::canon(mb[p])), "elements {} of container and twin", p) },
                        _ => if let (Some(r), Some(e)) = (pool.range(&mut rng), pool.edge(&mut rng)) { let (p, q) = se(&r); expect_ids("container slice", &v[r], &ma[p..q]); expect_ids("twin slice", &t[r], &mb[p..q]);
                            let z = e.integer(); expect_ids("twin tail", &t[e..], &mb[z..]); expect_ids("twin head", &t[..e], &mb[..z]) },
                    }
                    event("lock step operations");
                }
                expect_ids("container", &v[..], &ma);
                expect_ids("twin", &t[..], &mb);
            });
        }
        a.expect("container", &ma);
        b.expect("twin", &mb);
    }
    ledger_clean("lock step");
}
struct Keep<'id>(Vec<Pt<'id>>);
impl<'id> Sink<'id> for Keep<'id> { fn particle(&mut self, _: &'static str, p: Pt<'id>) { self.0.push(p) } }

fn same<'id, T: Elem, A, M, B, N>(v: &Container<'id, A, M>, c: &Container<'id, B, N>, n: usize) where A: Contiguous<Item = T> + GetUnchecked, B: Contiguous<Item = T> + GetUnchecked {
    check_eq!(c.len(), n, "clone length");
    for p in all_particles(v).into_iter().chain(all_particles(c)) {
        match p {
            Pt::I(i) => check!(std::ptr::eq(&v[i], &c[i]), "element {} of a clone is another one", i.integer()),
            Pt::R(r) => check!(std::ptr::eq(&v[r], &c[r]), "slice {:?} of a clone is another one", r),
            Pt::N(r) => check!(std::ptr::eq(&v[r], &c[r]), "slice {:?} of a clone is another one", r),
            Pt::E(e) => check!(std::ptr::eq(&v[e..], &c[e..]) && std::ptr::eq(&v[..e], &c[..e]), "slices at {} of a clone", e.integer()),
        }
        event("clone accesses compared");
    }
    check!(std::ptr::eq(&v[..], &c[..]), "whole slice of a clone");
}
fn clones<T: Elem>(n: usize) {
    let a = Arena::<T>::new(n, 1, 100);
    scope(a.mid_ref(), |v| {
        let c = v.clone();
        same(&v, &c, n);
        let d = c.clone();
        drop(v);
        same(&c, &d, n);
        let e: Container<_, OnlyIndex> = d.only_index();
        same(&c, &e, n);
        same(&e, &e.clone(), n);
        let t = c.make_twin(a.mid_ref()).unwrap_or_else(|_| fail("twin of the same slice rejected".to_string()));
        same(&c, &t, n);
        same(&t, &t.clone(), n);
        same(&c, &t.clone().clone(), n);
        let mut u = t.clone();
        u.clone_from(&t);
        same(&c, &u, n);
        // clone_from another twin of the same scope: it then views that one's elements
        let b = Arena::<T>::new(n, 1, 500);
        let mut w = c.make_twin(b.mid_ref()).unwrap_or_else(|_| fail("twin of the same length rejected".to_string()));
        w.clone_from(&u);
        same(&c, &w, n);
    });
    a.expect("clones", &(0..n as u64).map(|i| 100 + i).collect::<Vec<_>>());
}

fn main() {
    run::main(|| {
        let k = mqt(5, 24, 60usize);
        for n in 0..k { case("admit", &[n as i128], || for m in 0..k + 3 { admit(n, m) }) }
        let mut h = huge_lens(); h.extend([0, 1, 2, 3]);
        for &n in &h { if is_miri() { break } case("admit-huge", &[n as i128], || for &m in &h { admit(n, m); for b in [0, 7, 8, 16, 31, 32, 33, 48, 61, 62] { admit(n, n ^ (1usize << b)) } }) }
        macro_rules! p { ($($t:ty, $u:ty);*) => { let mut ty = 0i128; $( ty += 1;
            for n in 0..mqt(3, 7, 12usize) { case("memory", &[ty, n as i128], || for m in 0..n + 3 { mem_admit::<$t, $u>(n, m) }) }
            rounds("lockstep", 1, 700, |_, s| case("~lockstep", &[ty, s as i128], || lockstep::<$t, $u>(s, None)));
            for n in long_lens() { if !is_miri() { case("long lockstep", &[ty, n as i128], || { lockstep::<$t, $u>(seed() ^ mix(n as u64 * 8 + ty as u64), Some(n)); event("long lock steps") }) } }
            for n in [255usize, 256, 257, 4096, 65_535, 65_536, 65_537] { if !is_miri() { case("long memory", &[ty, n as i128], || for m in [n, n - 1, n + 1, n ^ 256, n ^ 65536, n / 2] { mem_admit::<$t, $u>(n, m) }) } }
        )* } }
        p!(u32, u32; u8, String; Tr, u16; Box<u64>, Tr; [u8; 3], Big; (), u64; Zt, Zt; u128, Al64);
        macro_rules! c { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1; for n in 0..mqt(3, 9, 14usize) { case("clones", &[ty, n as i128], || clones::<$t>(n)) } )* } }
        c!(u8, u64, [u16; 3], Al64, (), String, Tr);
    });
}
