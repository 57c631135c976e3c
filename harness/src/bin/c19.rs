//! C19: pointer indices, ranges and slices behave like index ranges.
use indexing::container_traits::*;
use indexing::proof::Provable;
use indexing::{scope, Container};
use mon::pengine::*;
use mon::*;

fn exhaustive<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>, base: Base<T>) {
    let ps = all_pq(v);
    let mut j = Judge::new(base, false);
    for &p in &ps { p.at("enumeration", &base); }
    for op in 0..NPOPS {
        match op {
            9 | 19 => for &p in &ps { for &q in &ps { papply(op, v, p, q, 0, &mut j); } },
            15 => for &p in &ps { let (a, b) = p.at("", &base); for x in 0..1usize << (b - a + 2).min(9) { if is_miri() && x % 3 != 1 { continue } papply(op, v, p, p, x | (x & 1) << 61, &mut j); } },
            22..=25 => for &p in &ps { for x in 0..16 { if is_miri() && x % 5 != 2 { continue } papply(op, v, p, p, x, &mut j); } },
            _ => for &p in &ps { papply(op, v, p, p, 0, &mut j); },
        }
    }
    events("particles judged", j.n);
    events("particles enumerated", ps.len() as u64);
}
/// Particles at positions anywhere in a container of any length; every operation on them (those that visit all elements only up to `most`).
fn long<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>, base: Base<T>, ps: &[usize], rng: &mut Rng, steps: usize, most: usize) {
    let mut j = Judge::new(base, true);
    let r0 = v.pointer_range();
    j.put("pointer_range", (0, 0), (0, base.len), r0);
    j.put("pointer_slice", (0, 0), (0, base.len), v.pointer_slice());
    let mut es = vec![];
    for &p in ps {
        let e = pedge_at(r0, p);
        j.put("halving", (p, p), (p, p), e);
        if p < base.len { j.put("halving", (p, p), (p, p), pindex_at(r0, p)) }
        es.push((p, e));
    }
    let mut rs = vec![];
    for &(p, e) in &es { for &(q, f) in &es {
        let r = v.nonempty_range(e, f);
        check_eq!(r.is_ok(), p < q, "nonempty_range({}, {}) of {}", p, q, base.len);
        event("nonempty_range decided");
        if let Ok(r) = r { rs.push(r); j.put("nonempty_range", (p, q), (p, q), r); }
    } }
    let mut pool: Vec<Pq<T>> = std::mem::take(&mut j.got);
    for r in rs { if rng.chance(1, 3) { pool.push(Pq::R(r.no_proof())); pool.push(Pq::SN(r.into())); pool.push(Pq::SR(indexing::pointer::PSlice::from(r).no_proof())) } }
    let mut k = 0;
    let fits = |op: usize, p: &Pq<T>| { let (a, b) = p.at("operand", &base); !(op == 15 || op == 24) || b - a <= most };
    for &p in &pool { for op in 0..NPOPS { if op != 15 && op != 24 && papply(op, v, p, pick(rng, &pool), rng.next() as usize, &mut j) { k += 1 } } j.got.clear(); }
    for _ in 0..steps {
        let (p, q) = (pick(rng, &pool), pick(rng, &pool));
        let op = rng.below(NPOPS);
        if fits(op, &p) && papply(op, v, p, q, rng.next() as usize, &mut j) { k += 1 }
        for g in j.got.drain(..) { if pool.len() < 200 { pool.push(g) } else { let at = rng.below(200); pool[at] = g } }
    }
    if base.len <= most { for op in [15, 24] { papply(op, v, Pq::R(r0), Pq::R(r0), rng.next() as usize, &mut j); } }
    events("history operations", k);
    events("particles judged", j.n);
    event("long histories");
}
/// What measures or divides distances, for one element size among many, at positions anywhere.
fn measured<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>, base: Base<T>, ps: &[usize]) {
    let r0 = v.pointer_range();
    check_eq!(Pq::R(r0).at("pointer_range", &base), (0, base.len), "pointer_range");
    check_eq!((r0.len(), v.pointer_slice().len(), r0.into_iter().len()), (base.len, base.len, base.len), "length of everything");
    let es: Vec<_> = ps.iter().map(|&p| (p, pedge_at(r0, p))).collect();
    let mut k = 0;
    for &(p, e) in &es {
        check_eq!((base.pos("halving", e.ptr()), v.distance_to(e)), (p, p), "position and distance_to of {} in {}", p, base.len);
        let (a, b) = v.split_at_pointer(e);
        check_eq!((a.len(), b.len()), (p, base.len - p), "lengths about {} of {}", p, base.len);
        k += 2;
        for &(q, f) in &es {
            let r = match v.nonempty_range(e, f) { Ok(r) => r, Err(_) => { check!(q <= p, "no nonempty_range({}, {}) of {}", p, q, base.len); continue } };
            check!(p < q, "nonempty_range({}, {}) of {}", p, q, base.len);
            check_eq!(Pq::N(r).at("nonempty_range", &base), (p, q), "nonempty_range");
            let m = p + (q - p) / 2;
            let (a, b) = r.split_in_half();
            check_eq!((Pq::R(a).at("half", &base), Pq::N(b).at("half", &base)), ((p, m), (m, q)), "halves of {}..{}", p, q);
            check_eq!(base.pos("upper_middle", r.upper_middle().ptr()), m, "upper_middle of {}..{}", p, q);
            let s = indexing::pointer::PSlice::from(r);
            check_eq!(Pq::SN(s).at("slice", &base), (p, q), "as a pointer slice");
            let (a, b) = s.split_in_half();
            check_eq!((Pq::SR(a).at("half", &base), Pq::SN(b).at("half", &base)), ((p, m), (m, q)), "halves of the slice {}..{}", p, q);
            check_eq!(base.pos("upper_middle", s.upper_middle().ptr()), m, "upper_middle of the slice {}..{}", p, q);
            check_eq!(indexing::pointer::PRange::from(s).len(), q - p, "and back");
            k += 8;
        }
    }
    events("distances measured", k);
}
fn history<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>, base: Base<T>, rng: &mut Rng, steps: usize) {
    let mut j = Judge::new(base, true);
    j.put("pointer_range", (0, 0), (0, base.len), v.pointer_range());
    j.put("pointer_slice", (0, 0), (0, base.len), v.pointer_slice());
    j.put("pointer_range().first", (0, 0), (0, 0), v.pointer_range().first());
    j.put("past_the_end", (0, 0), (base.len, base.len), v.pointer_slice().past_the_end());
    for i in v.pointer_range().into_iter().take(5) { j.got.push(Pq::I(i)) }
    if let Ok(r) = v.pointer_range().nonempty() { j.got.push(Pq::N(r)); j.got.push(Pq::I(r.last())) }
    let mut pool: Vec<Pq<T>> = std::mem::take(&mut j.got);
    let mut k = 0;
    for _ in 0..steps {
        let (p, q) = (pick(rng, &pool), pick(rng, &pool));
        if papply(rng.below(NPOPS), v, p, q, rng.next() as usize, &mut j) { k += 1 }
        for g in j.got.drain(..) { if pool.len() < 40 { pool.push(g) } else { let at = rng.below(40); pool[at] = g } }
    }
    events("history operations", k);
    events("particles judged", j.n);
}

macro_rules! with { ($t:ty, $n:expr, $kind:expr, $v:ident, $b:ident => $e:expr) => {{
    let mut data: Vec<$t> = roomy($n, $kind, 0);
    let $b = Base { ptr: data.as_ptr(), len: data.len() };
    match $kind {
        0 => scope(&data[..], |$v| $e),
        1 => scope(&mut data[..], |$v| $e),
        2 => scope(data, |$v| $e),
        3 => scope(&data, |$v| $e),
        4 => scope(&mut data, |$v| $e),
        _ => scope(&mut &mut data[..], |$v| $e),
    }
}} }
macro_rules! types { ($m:ident) => { $m!(u8, u64, [u8; 3], u16, u128, [u16; 3], Big, Wide, Al64, Pad, Box<u64>, Tr); } }

fn main() {
    run::main(|| {
        macro_rules! d { ($($t:ty),*) => { let mut ty = 0i128; $( ty += 1;
            for n in 0..mqt(3, 7, 10usize) { for kind in 0..6 {
                if is_miri() && (ty + n as i128 + kind as i128) % 23 != 5 { continue }
                if ty > 3 && !thorough() && (ty + kind as i128) % 3 != 0 { continue }
                case("exhaustive", &[ty, n as i128, kind as i128], || with!($t, n, kind, v, b => exhaustive(&v, b)));
            } } )* } }
        types!(d);
        for (x, n) in long_lens().into_iter().enumerate() { macro_rules! l { ($($t:ty),*) => { let mut y = 0usize; $( y += 1; case("long", &[n as i128, y as i128], || {
            let mut rng = Rng::new(seed() ^ mix((n * 32 + y) as u64));
            let mut ps = vec![0, 1, n / 2, n / 3, n - 1, n, 255.min(n), 256.min(n), 4096.min(n), 65_535.min(n), 65_536.min(n)];
            for _ in 0..5 { ps.push(rng.range(0, n)) }
            ps.sort(); ps.dedup();
            let kind = (x + y) % 6;
            with!($t, n, kind, v, b => long(&v, b, &ps, &mut rng, 150, 3000));
            with!($t, n, kind, v, b => { let mut j = Judge::new(b, false); let r = Pq::R(v.pointer_range()); for op in [15, 24] { papply(op, &v, r, r, rng.next() as usize, &mut j); } });
        }); )* } } l!(u8, u64, [u8; 3], u128, Al64, Tr); }
        macro_rules! g { ($($t:ty),*) => { $( case("giant", &[std::mem::size_of::<$t>() as i128], || {
            let mut g = match Giant::new() { Some(g) => g, None => { trivial(); return } };
            let s = g.of::<$t>();
            let b = Base { ptr: s.as_ptr(), len: s.len() };
            let ps = giant_positions(s.len());
            let mut rng = Rng::new(seed());
            scope(&*s, |v| long(&v, b, &ps, &mut rng, 3000, 100));
            scope(s, |v| long(&v, b, &ps, &mut rng, 3000, 100));
            event("giant histories");
        }); )* } }
        g!(u8, u16, [u8; 3], u64, u128);
        macro_rules! z { ($($t:ty),*) => { $( case("element sizes", &[std::mem::size_of::<$t>() as i128, std::mem::align_of::<$t>() as i128], || {
            let mut g = match Giant::new() { Some(g) => g, None => { trivial(); return } };
            let s = g.of::<$t>();
            let b = Base { ptr: s.as_ptr(), len: s.len() };
            let mut ps = giant_positions(s.len());
            // and those whose distance in bytes is about to need another bit
            for k in [8, 16, 31, 32] { for d in 0..2 { ps.push((1usize << k) / std::mem::size_of::<$t>() + d) } }
            let mut rng = Rng::new(seed());
            for _ in 0..6 { let k = rng.range(1, 34); ps.push((rng.next() >> (64 - k)) as usize) }
            ps.retain(|&p| p <= s.len());
            ps.sort(); ps.dedup();
            scope(&*s, |v| measured(&v, b, &ps));
            event("element sizes");
        }); )* } }
        z!([u8; 1], [u8; 2], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16], [u8; 17], [u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], [u8; 32],
            [u8; 33], [u8; 36], [u8; 40], [u8; 47], [u8; 48], [u8; 56], [u8; 60], [u8; 63], [u8; 64], [u8; 65], [u8; 72], [u8; 80], [u8; 96], [u8; 100], [u8; 127], [u8; 128], [u8; 160], [u8; 192], [u8; 255], [u8; 256], [u8; 257], [u8; 320], [u8; 384], [u8; 512], [u8; 640], [u8; 1000], [u8; 1024], [u8; 1536], [u8; 4095], [u8; 4096], [u8; 4097], [u8; 65_535], [u8; 65_536], [u8; 65_537], [u8; 1 << 20]);
        z!([u16; 3], [u16; 5], u32, [u32; 3], [u32; 5], [u32; 6], [u32; 7], [u32; 9], [u32; 12], [u32; 25], [u64; 2], [u64; 3], [u64; 4], [u64; 5], [u64; 6], [u64; 7], [u64; 8], [u64; 9], [u64; 10], [u64; 12], [u64; 16], [u64; 24], [u64; 100], [u64; 1000], [u128; 2], [u128; 3], [u128; 5], [u128; 7], [u128; 100], f32, f64);
        // all the iterator's methods, in any order
        rounds("methods", 1, 2000, |_, s| {
            macro_rules! m { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; if !is_miri() || j % 3 == 1 { case("~methods", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let n = if rng.chance(1, 8) { rng.below(mqt(10, 300, 300)) } else { rng.below(mqt(6, 40, 40)) };
                with!($t, n, rng.below(6), v, base => {
                    let r0 = v.pointer_range();
                    for _ in 0..mqt(1, 3, 3usize) {
                        let a = rng.range(0, n); let b = rng.range(a, n);
                        let r = match v.nonempty_range(pedge_at(r0, a), pedge_at(r0, b)) { Ok(r) => r.no_proof(), Err(_) => v.split_at_pointer(pedge_at(r0, 0)).0 };
                        let (a, b) = if a < b { (a, b) } else { (0, 0) };
                        let w = format!("iterating pointers {}..{} of {}", a, b, n);
                        conform::two_ended(&w, r.into_iter(), a..b, &|i| base.pos(&w, i.ptr()), &mut rng, b - a, false, |it, m| {
                            check_eq!(it.len(), m.len(), "{}: len of the rest", w);
                            let (x, y) = Pq::R(it.into_range()).at(&w, &base);
                            check!((x, y) == (m.start, m.end) || (x == y && m.is_empty()), "{}: the rest is {}..{}, should be {:?}", w, x, y, m);
                            let k = m.start + m.len() / 2;
                            check_eq!(it.clone().rposition(|i| base.pos(&w, i.ptr()) <= k), m.clone().rposition(|i| i <= k), "{}: rposition in the rest", w);
                        });
                    }
                });
            }) } )* } }
            m!(u8, u64, [u8; 3], Tr, Wide);
        });
        rounds("history", 1, 200, |_, s| {
            macro_rules! h { ($($t:ty),*) => { let mut j = 0i128; $( j += 1; if !is_miri() || j % 4 == 1 { case("~history", &[j, s as i128], || {
                let mut rng = Rng::new(s ^ j as u64);
                let n = if rng.chance(1, 8) { rng.below(mqt(10, 300, 1000)) } else { rng.below(mqt(6, 24, 24)) };
                let kind = rng.below(6);
                with!($t, n, kind, v, b => history(&v, b, &mut rng, mqt(40, 300, 600)));
            }) } )* } }
            types!(h);
        });
    });
}
