//! C11: push and insert in index-only mode behave like the vector operations, and older particles stay valid.
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::{scope, Container};
use mon::engine::*;
use mon::*;

struct Keep<'id>(Vec<Pt<'id>>);
impl<'id> Sink<'id> for Keep<'id> { fn particle(&mut self, _: &'static str, p: Pt<'id>) { self.0.push(p) } }

fn access<'id, T: Elem, A>(v: &mut Container<'id, A, OnlyIndex>, model: &mut Vec<u64>, p: Pt<'id>, (kind, a, b): (u8, usize, usize), fresh: Option<u64>)
    where A: Contiguous<Item = T> + ContiguousMut + GetUncheckedMut
{
    let n = model.len();
    check_eq!(p.obs(), (kind, a, b), "an older particle moved");
    check!(p.valid(n), "older {} is out of bounds at length {}", p.describe(), n);
    match p {
        Pt::I(i) => { check_eq!(v[i].id(), T::canon(model[a]), "v[{}] of length {}", a, n); if let Some(f) = fresh { v[i] = T::mk(f); model[a] = f } expect_ids("v[i..]", &v[i..], &model[a..]); }
        Pt::E(i) => { expect_ids("v[e..]", &v[i..], &model[a..]); expect_ids("v[..e]", &v[..i], &model[..a]) }
        Pt::N(r) => { expect_ids("v[r]", &v[r], &model[a..b]); if let Some(f) = fresh { for (k, x) in v[r].iter_mut().enumerate() { *x = T::mk(f + k as u64); model[a + k] = f + k as u64 } } check_eq!(v[r.last()].id(), T::canon(model[b - 1]), "v[r.last()]") }
        Pt::R(r) => expect_ids("v[r]", &v[r], &model[a..b]),
    }
    event("accesses through older particles");
}

fn drive<'id, T: Elem, A>(v: Container<'id, A>, model: &mut Vec<u64>, rng: &mut Rng, steps: usize)
    where A: Pushable<Item = T> + ContiguousMut + GetUncheckedMut
{
    let mut old: Vec<(Pt<'id>, (u8, usize, usize))> = all_or_edge(&v).into_iter().map(|p| (p, p.obs())).collect();
    let mut v = v.only_index();
    let check_growth = |v: &Container<'id, A, OnlyIndex>, n: usize, what: &str| check_eq!(v.len(), n, "length after {}", what);
    check_eq!(v.len(), model.len(), "initial length");
    for k in 0..steps {
        let n = model.len();
        let fresh = 1000 + 100 * k as u64;
        let (b0, d0) = ledger_counts();
        let mut grew = true;
        match rng.below(8) {
            0 | 1 | 2 => {
                let i = v.push(T::mk(fresh));
                model.push(fresh);
                check_eq!(io(&i), (n, true), "push to a container of length {} returned", n);
                check_growth(&v, n + 1, "push");
                check_eq!(v[i].id(), T::canon(fresh), "element just pushed");
                old.push((Pt::I(i), (0, n, n)));
                event("pushes");
            }
            3 | 4 => {
                // anywhere, including the end, through any marker
                let at = match rng.below(4) { 0 => n, 1 => 0, _ => rng.range(0, n) };
                let e = v.vet_range(at..at).unwrap_or_else(|_| fail(format!("edge {} of {} not vetted", at, n)));
                match v.vet(at) { Ok(i) if rng.chance(1, 2) => v.insert(i, T::mk(fresh)), _ => v.insert(e.first(), T::mk(fresh)) }
                model.insert(at, fresh);
                check_growth(&v, n + 1, "insert");
                event(if at == n { "inserts at the end" } else { "inserts" });
            }
            5 => {
                // through a particle obtained earlier
                grew = false;
                let (p, o) = old[rng.below(old.len())];
                let e = match p { Pt::I(i) => { v.insert(i, T::mk(fresh)); Some(o.1) } Pt::E(i) => { v.insert(i, T::mk(fresh)); Some(o.1) } Pt::N(r) => { v.insert(r.past_the_end(), T::mk(fresh)); Some(o.2) } _ => None };
                if let Some(at) = e { grew = true; model.insert(at, fresh); check_growth(&v, n + 1, "insert"); event("inserts at older positions") }
            }
            6 => { grew = false; let mut s = Keep(vec![]); let mut pool = Pool::new(40); for &(p, _) in old.iter().rev().take(30) { pool.add(rng, p) } step(rng, &v, &pool, true, &mut s);
                   for p in s.0 { check!(p.valid(v.len()), "{} at length {}", p.describe(), v.len()); old.push((p, p.obs())) } }
            _ => { grew = false; let (p, o) = old[rng.below(old.len())]; let f = rng.chance(1, 2); access(&mut v, model, p, o, if f { Some(fresh) } else { None }) }
        }
        if grew && T::NAME.starts_with("Tracked") { let (b1, d1) = ledger_counts(); check!(b1 - b0 == 1 && d1 == d0, "growing by one created {} and dropped {} elements", b1 - b0, d1 - d0) }
        expect_ids("content", &v[..], model);
        for _ in 0..3 { let (p, o) = old[rng.below(old.len())]; access(&mut v, model, p, o, None) }
        if old.len() > 400 { let k = rng.below(200); old.drain(k..k + 200); }
    }
    for (p, o) in old { access(&mut v, model, p, o, None) }
    event("histories");
}
fn all_or_edge<'id, A: Trustworthy, M>(v: &Container<'id, A, M>) -> Vec<Pt<'id>> { if v.len() < 8 { all_particles(v) } else { edge_particles(v) } }

fn one<T: Elem>(s: u64, kind: usize) {
    ledger_reset();
    {
        let mut rng = Rng::new(s);
        let n = match rng.below(4) { 0 => 0, 1 => 1, 2 => rng.below(10), _ => rng.below(70) };
        let steps = if is_miri() { 14 } else { match rng.below(10) { 0 => 250, _ => 50 } };
        let mut x: Vec<T> = if rng.chance(1, 2) { Vec::new() } else { Vec::with_capacity(n + rng.below(9)) };
        for i in 0..n { x.push(T::mk(100 + i as u64)) }
        if rng.chance(1, 2) { x.shrink_to_fit() }
        let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        match kind {
            0 => scope(x, |v| drive(v, &mut model, &mut rng, steps)),
            1 => { scope(&mut x, |v| drive(v, &mut model, &mut rng, steps)); expect_ids("vector after the scope", &x, &model);
                   // and again on the same vector
                   scope(&mut x, |v| drive(v, &mut model, &mut rng, 10)); expect_ids("vector after the second scope", &x, &model) }
            _ => { let mut y = &mut x; scope(&mut y, |v| drive(v, &mut model, &mut rng, steps)); expect_ids("vector after the scope", &x, &model) }
        }
    }
    ledger_clean("growing");
}

/// Few operations on a long vector, the length passing over a boundary.
fn drive_long<T: Elem>(n: usize, kind: usize, s: u64) {
    ledger_reset();
    {
        let mut rng = Rng::new(s);
        let mut x = roomy::<T>(n, kind, 100);
        let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        match kind {
            0 => scope(x, |v| drive(v, &mut model, &mut rng, 30)),
            1 => { scope(&mut x, |v| drive(v, &mut model, &mut rng, 30)); expect_ids("vector after the scope", &x, &model) }
            _ => { let mut y = &mut x; scope(&mut y, |v| drive(v, &mut model, &mut rng, 30)); expect_ids("vector after the scope", &x, &model) }
        }
    }
    ledger_clean("growing a long vector");
}

/// Every insertion position of every small vector, spare capacity or not.
fn every<T: Elem>(n: usize) {
    ledger_reset();
    for at in 0..=n { for cap in [0, 1, 4] { for ne in [false, true] {
        let mut x: Vec<T> = Vec::with_capacity(n + cap);
        for i in 0..n { x.push(T::mk(100 + i as u64)) }
        let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        scope(&mut x, |v| {
            let ps = all_particles(&v);
            let mut v = v.only_index();
            if ne { if let Ok(i) = v.vet(at) { v.insert(i, T::mk(7)); model.insert(at, 7) } } else { v.insert(v.vet_range(at..at).unwrap().past_the_end(), T::mk(7)); model.insert(at, 7) }
            for p in ps { access(&mut v, &mut model, p, p.obs(), None) }
            let l = v.len();
            let i = v.push(T::mk(8));
            model.push(8);
            check_eq!((i.integer(), v.len()), (l, l + 1), "push");
            event("inserts");
        });
        expect_ids("vector", &x, &model);
    } } }
    ledger_clean("every insertion");
}

macro_rules! types { ($m:ident) => { $m!(u8, u32, u128, [u8; 3], Big, Wide, Al64, Pad, (), Box<u64>, String, Tr, Zt); } }

fn main() {
    run::main(|| {
        macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1; for n in 0..mqt(3, 8, 14usize) { if is_miri() && (ty + n as i128) % 3 != 0 { continue } case("every", &[ty, n as i128], || every::<$t>(n)) } )* let _ = ty; } }
        types!(d);
        macro_rules! z { ($($t:ty),*) => { $( if !is_miri() || std::mem::size_of::<$t>() % 23 == 5 { case("element sizes", &[std::mem::size_of::<$t>() as i128, std::mem::align_of::<$t>() as i128], || {
            for n in 0..mqt(2, 6, 9usize) { every::<$t>(n) }
            for k in 0..mqt(0, 6, 30usize) { drive_long::<$t>(k * 7, k % 3, seed() ^ mix(k as u64)) }
            event("element sizes");
        }) } )* } }
        more_sizes!(z);
        // growth across every size at which a narrow integer or a capacity step would show
        macro_rules! l { ($($t:ty),*) => { for n in [250usize, 508, 1018, 4090, 65_530] { let mut j = 0; $( j += 1; if !is_miri() && std::mem::size_of::<$t>() < 256 { for kind in 0..3 {
            case("long", &[n as i128, j, kind as i128], || { drive_long::<$t>(n, kind, seed() ^ mix(n as u64 * 100 + j as u64)); event("long histories") }); } } )* } } }
        l!(u8, u32, u128, [u8; 3], (), Tr, Zt, Al64);
        for n in very_long_lens() { for kind in 0..3 { case("very long", &[n as i128, kind as i128], || drive_long::<u32>(n - 40, kind, seed() ^ mix(n as u64 * 100))) } }
        macro_rules! h { ($($t:ty),*) => { rounds("history", 1, 300, |r, s| { let mut j = 0i128; $( j += 1; for kind in 0..3 { if is_miri() && (j as u64 + r + s + kind as u64) % 4 != 0 { continue } case("~history", &[j, kind as i128, s as i128], || one::<$t>(s, kind)); } )* }); } }
        types!(h);
    });
}
