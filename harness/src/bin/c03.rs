//! C03: vetting accepts exactly the in-bounds integers and ranges.
use indexing::container_traits::*;
use indexing::indexing::IntoCheckedRange;
use indexing::{scope, Container};
use mon::engine::*;
use mon::*;

fn one<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, n: usize, x: usize) {
    let r = v.vet(x);
    check_eq!(r.is_ok(), x < n, "vet({}) in a container of length {}", x, n);
    if let Ok(i) = r { check_eq!(io(&i), (x, true), "vet({}) denotes", x) }
    else if let Err(e) = r {
        check_eq!(e.to_string(), "index error", "error text");
        check_eq!(e, e.clone(), "error value");
    }
    event(if x < n { "vet accepted" } else { "vet rejected" });
}
fn two<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, n: usize, a: usize, b: usize) {
    let ok = a <= b && b <= n;
    let r = v.vet_range(a..b);
    check_eq!(r.is_ok(), ok, "vet_range({}..{}) in a container of length {}", a, b, n);
    if let Ok(r) = r { check_eq!(se(&r), (a, b), "vet_range({}..{}) denotes", a, b); check_eq!(r.as_range(), a..b, "as_range"); nonempty(&r) }
    event(if ok { "vet_range accepted" } else { "vet_range rejected" });
}
fn nonempty<'id, P: Kind>(r: &indexing::Range<'id, P>) where indexing::Range<'id, P>: IntoCheckedRange<'id> {
    let (a, b) = se(r);
    check_eq!(r.len(), b - a, "len of {}..{}", a, b);
    check_eq!(r.is_empty(), a == b, "is_empty of {}..{}", a, b);
    for (k, ne) in [r.nonempty(), IntoCheckedRange::into(*r)].into_iter().enumerate() {
        check_eq!(ne.is_ok(), a < b, "nonempty proof ({}) of {}..{}", k, a, b);
        if let Ok(ne) = ne {
            check_eq!(ro(&ne), (a, b, true), "nonempty proof of {}..{}", a, b);
            check_eq!(ne.nonempty().map(|r| ro(&r)).ok(), Some((a, b, true)), "nonempty proof again");
            check_eq!(IntoCheckedRange::into(ne).map(|r| ro(&r)).ok(), Some((a, b, true)), "checked nonempty range");
        }
    }
    event("nonempty proofs decided");
}
fn contains<'id>(p: Pt<'id>, x: usize) {
    let (kind, a, b) = p.obs();
    let got = match p { Pt::R(r) => { nonempty(&r); r.contains(x) } Pt::N(r) => { nonempty(&r); r.contains(x) } _ => return };
    let _ = kind;
    check_eq!(got.map(|i| io(&i)), if a <= x && x < b { Some((x, true)) } else { None }, "({}..{}).contains({})", a, b, x);
    event("contains decided");
}
fn full<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, n: usize, all: bool) {
    check_eq!(v.len(), n, "len");
    check_eq!(ro(&v.range()), (0, n, false), "range()");
    check_eq!(ro(&v.empty_range()), (0, 0, false), "empty_range()");
    let mut e = edge_args(n, n / 2);
    if is_miri() { let k = n % 4; e = e.into_iter().enumerate().filter(|(i, _)| i % 4 == k).map(|x| x.1).collect() }
    for &x in &e { one(v, n, x); for &y in &e { two(v, n, x, y) } }
    if all { for x in 0..n + 4 { one(v, n, x); for y in 0..n + 4 { two(v, n, x, y) } } }
    let ps = if all { all_particles(v) } else { edge_particles(v) };
    for p in ps {
        if is_miri() && !matches!(p, Pt::R(_) | Pt::N(_)) { continue }
        let (_, a, b) = p.obs();
        if !is_miri() { for x in edge_args(b, a) { contains(p, x) } }
        for &x in &e { contains(p, x) }
        if all { for x in 0..n + 3 { contains(p, x) } }
    }
}

fn main() {
    run::main(|| {
        for n in 0..mqt(3, 20, 48) {
            case("slice", &[n as i128], || { let a = vec![0u8; n]; scope(&a[..], |v| full(&v, n, true)) });
            case("slice-mut", &[n as i128], || { let mut a = vec![0u64; n]; scope(&mut a[..], |v| full(&v, n, n < 12)) });
            case("vec", &[n as i128], || scope(vec![1u16; n], |v| { full(&v, n, n < 12); full(&v.only_index(), n, false) }));
            case("&vec", &[n as i128], || { let a = vec![1u128; n]; scope(&a, |v| full(&v, n, false)) });
            case("&mut vec, spare capacity", &[n as i128], || { let mut a = Vec::with_capacity(n + 9); a.resize(n, 1u32); scope(&mut a, |v| full(&v, n, false)) });
            case("&&[T]", &[n as i128], || { let a = vec![1u32; n]; scope(&&a[..], |v| full(&v, n, false)) });
        }
        for n in huge_lens() { if is_miri() && n % 7 != 0 { continue } case("zst", &[n as i128], || scope(zsts(n), |v| full(&v, n, false))); }
        // the current length counts, not the length at some earlier time
        rounds("growing", 2, 300, |_, s| case("~growing", &[s as i128], || {
            let mut rng = Rng::new(s);
            scope(vec![0u8; rng.below(5)], |v| { let mut v = v.only_index();
                for _ in 0..mqt(4, 20, 40) { let n = v.len(); for x in [0, n.wrapping_sub(1), n, n + 1, usize::MAX] { one(&v, n, x); two(&v, n, x, n); two(&v, n, n / 2, x) }
                    let l = v.len(); v.push(3); check_eq!(v.len(), l + 1, "length after push"); } });
        }));
        rounds("random", 8, 60000, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = if rng.chance(1, 2) { rng.below(70) } else { (rng.next() >> rng.range(1, 63)) as usize };
            scope(zsts(n), |v| for _ in 0..10 {
                let x = rand_arg(&mut rng, n, n); let y = rand_arg(&mut rng, n, x);
                one(&v, n, x); one(&v, n, y); two(&v, n, x, y);
                if let Ok(r) = v.vet_range(x..y) { for _ in 0..4 { let z = rand_arg(&mut rng, y, x); contains(Pt::R(r), z); if let Ok(q) = r.nonempty() { contains(Pt::N(q), z) } } }
            });
        }));
    });
}
