//! C06: stepping moves by exactly the offset or not at all.
use indexing::container_traits::*;
use indexing::{scope, Container, Index, NonEmpty, Range};
use mon::engine::*;
use mon::*;

fn index<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, i: Index<'id>, n: usize, xs: &[usize]) {
    let k = i.integer();
    let mut j = i;
    let ok = v.forward(&mut j);
    check_eq!((ok, j.integer()), if k + 1 < n { (true, k + 1) } else { (false, k) }, "forward at {} of {}", k, n);
    let mut j = i;
    let ok = v.backward(&mut j);
    check_eq!((ok, j.integer()), if k > 0 { (true, k - 1) } else { (false, k) }, "backward at {} of {}", k, n);
    for &x in xs {
        let mut j = i;
        let ok = v.forward_by(&mut j, x);
        let want = k as u128 + x as u128;
        check_eq!((ok, j.integer() as u128), if want < n as u128 { (true, want) } else { (false, k as u128) }, "forward_by({}) at {} of {}", x, k, n);
        event(if ok { "steps taken" } else { "steps refused" });
    }
}
fn in_range<'id, P>(r: Range<'id, P>, i: Index<'id>, xs: &[usize]) {
    let (k, e) = (i.integer(), r.end());
    for &x in xs {
        let mut j = i;
        let ok = r.forward_by(&mut j, x);
        let want = k as u128 + x as u128;
        check_eq!((ok, j.integer() as u128), if want < e as u128 { (true, want) } else { (false, k as u128) }, "range {}..{} forward_by({}) at {}", r.start(), e, x, k);
        event(if ok { "steps taken" } else { "steps refused" });
    }
}
fn shift<'id, A: Trustworthy, M, P: Kind>(v: &Container<'id, A, M>, r: Range<'id, P>, n: usize, xs: &[usize]) {
    let (a, b) = se(&r);
    for &x in xs {
        let c = |p: usize, m: usize| (p as u128 + x as u128).min(m as u128) as usize;
        check_eq!(ro(&v.forward_range_by(r, x)), (c(a, n), c(b, n), false), "forward_range_by({}..{}, {}) of {}", a, b, x, n);
        event("ranges shifted");
    }
}
fn shift_in<'id, P: Kind, Q: Kind>(o: Range<'id, P>, r: Range<'id, Q>, xs: &[usize]) {
    let (a, b) = se(&r);
    let m = o.end();
    for &x in xs {
        let c = |p: usize| (p as u128 + x as u128).min(m as u128) as usize;
        check_eq!(ro(&o.forward_range_by(r, x)), (c(a), c(b), false), "range {}..{} forward_range_by({}..{}, {})", o.start(), m, a, b, x);
        event("ranges shifted");
    }
}
fn shrink<'id>(r: Range<'id, NonEmpty>, xs: &[usize]) {
    let (a, b) = se(&r);
    let step = |ok: bool, s: usize, e: usize| if ok { (true, (s, e, true)) } else { (false, (a, b, true)) };
    let mut q = r;
    let ok = q.advance();
    check_eq!((ok, ro(&q)), step(a + 1 < b, a + 1, b), "({}..{}).advance()", a, b);
    let mut q = r;
    let ok = q.advance_back();
    check_eq!((ok, ro(&q)), step(a + 1 < b, a, b - 1), "({}..{}).advance_back()", a, b);
    let q = r.advance_();
    check_eq!(q.map(|q| ro(&q)).ok(), if a + 1 < b { Some((a + 1, b, true)) } else { None }, "({}..{}).advance_()", a, b);
    for &x in xs {
        let mut q = r;
        let ok = q.advance_by(x);
        let s = a as u128 + x as u128;
        check_eq!((ok, ro(&q)), step(s < b as u128, s as usize, b), "({}..{}).advance_by({})", a, b, x);
        event(if ok { "shrinks taken" } else { "shrinks refused" });
    }
}
fn every<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, ps: &[Pt<'id>], qs: &[Pt<'id>]) {
    let n = v.len();
    for &p in ps {
        let (_, a, b) = p.obs();
        let mut xs = edge_args(n, a);
        xs.extend(edge_args(b - a, b));
        xs.extend(edge_args(b, a));
        xs.sort(); xs.dedup();
        match p {
            Pt::I(i) => { index(v, i, n, &xs); for &q in qs { match q { Pt::R(r) => in_range(r, i, &edge_args(r.end(), a)), Pt::N(r) => in_range(r, i, &edge_args(r.end(), a)), _ => {} } } }
            Pt::R(r) => { shift(v, r, n, &xs); for &q in qs { match q { Pt::R(o) => shift_in(o, r, &edge_args(o.end(), a)), Pt::N(o) => shift_in(o, r, &edge_args(o.end(), b)), _ => {} } } }
            Pt::N(r) => { shift(v, r, n, &xs); shrink(r, &xs); for &q in qs { match q { Pt::R(o) => shift_in(o, r, &edge_args(o.end(), a)), Pt::N(o) => shift_in(o, r, &edge_args(o.end(), b)), _ => {} } } }
            _ => {}
        }
    }
}

/// Walk an index and a range along with an integer model.
fn walk(s: u64) {
    let mut rng = Rng::new(s);
    let n = if rng.chance(1, 2) { rng.range(1, 60) } else { ((rng.next() >> rng.range(1, 63)) as usize).max(1) };
    scope(zsts(n), |v| {
        let mut i = v.vet(rng.below(n)).unwrap();
        let mut k = i.integer();
        let mut r = v.range().nonempty().unwrap();
        let (mut a, mut b) = (0usize, n);
        for _ in 0..60 {
            let x = rand_arg(&mut rng, n, k);
            match rng.below(7) {
                0 => { let ok = v.forward(&mut i); let w = k + 1 < n; if w { k += 1 } check_eq!((ok, i.integer()), (w, k), "walk forward of {}", n) }
                1 => { let ok = v.backward(&mut i); let w = k > 0; if w { k -= 1 } check_eq!((ok, i.integer()), (w, k), "walk backward of {}", n) }
                2 => { let ok = v.forward_by(&mut i, x); let w = x < n - k; if w { k += x } check_eq!((ok, i.integer()), (w, k), "walk forward_by({}) of {}", x, n) }
                3 => { let ok = r.forward_by(&mut i, x); let w = k < b && x < b - k; if w { k += x } check_eq!((ok, i.integer()), (w, k), "walk forward_by({}) in {}..{}", x, a, b) }
                4 => { let ok = r.advance(); let w = b - a > 1; if w { a += 1 } check_eq!((ok, ro(&r)), (w, (a, b, true)), "walk advance") }
                5 => { let ok = r.advance_back(); let w = b - a > 1; if w { b -= 1 } check_eq!((ok, ro(&r)), (w, (a, b, true)), "walk advance_back") }
                _ => { let x = if rng.chance(1, 2) { rng.below(b - a + 2) } else { x }; let ok = r.advance_by(x); let w = x < b - a; if w { a += x } check_eq!((ok, ro(&r)), (w, (a, b, true)), "walk advance_by({})", x) }
            }
            event("walk steps");
        }
    });
}

fn main() {
    run::main(|| {
        for n in 0..mqt(2, 9, 14) {
            case("exhaustive", &[n as i128], || { let a = vec![0u8; n]; scope(&a[..], |v| { let ps = all_particles(&v); every(&v, &ps, &ps) }) });
            case("exhaustive-vec", &[n as i128], || scope(vec![0u64; n], |v| { let v = v.only_index(); let ps = edge_particles(&v); every(&v, &ps, &ps[..ps.len().min(6)]) }));
        }
        for n in huge_lens() { if is_miri() { break } for part in 0..4 { case("huge", &[n as i128, part], || scope(zsts(n), |v| { let ps = edge_particles(&v);
            let p: Vec<_> = ps.iter().copied().skip(part as usize).step_by(4).collect(); every(&v, &p, &ps) })); } }
        rounds("walk", 20, 30000, |_, s| case("~walk", &[s as i128], || walk(s)));
    });
}
