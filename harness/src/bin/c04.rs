//! C04: every split partitions exactly.
use indexing::container_traits::*;
use indexing::proof::Provable;
use indexing::{scope, Container, Index, NonEmpty, Range, Unknown};
use mon::engine::*;
use mon::*;

fn on_index<'id, A: Trustworthy, M, P: Kind>(v: &Container<'id, A, M>, i: Index<'id, P>, n: usize) {
    let k = i.integer();
    let (a, b) = v.split_at(i);
    check_eq!((ro(&a), ro(&b)), ((0, k, false), (k, n, P::NE)), "split_at({}) of length {}", k, n);
    check_eq!(ro(&v.before(i)), (0, k, false), "before({}) of length {}", k, n);
    check_eq!(ro(&v.range_of(..i)), (0, k, false), "range_of(..{}) of length {}", k, n);
    check_eq!(ro(&v.range_of(i..)), (k, n, false), "range_of({}..) of length {}", k, n);
    check_eq!(ro(&v.range_of::<P, _>(..)), (0, n, false), "range_of(..) of length {}", n);
    check_eq!(io(&i.no_proof()), (k, false), "no_proof of index {}", k);
    event("splits at an index");
}
fn on_ne_index<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, i: Index<'id, NonEmpty>, n: usize) {
    let k = i.integer();
    let (a, b) = v.split_after(i);
    check_eq!((ro(&a), ro(&b)), ((0, k + 1, true), (k + 1, n, false)), "split_after({}) of length {}", k, n);
    check_eq!(ro(&v.after(i)), (k + 1, n, false), "after({}) of length {}", k, n);
    check_eq!(io(&i.after()), (k + 1, false), "index {} after", k);
}
fn on_range<'id, A: Trustworthy, M, P: Kind>(v: &Container<'id, A, M>, r: Range<'id, P>, n: usize, xs: &[usize]) {
    let (s, e) = se(&r);
    let len = e - s;
    let (a, b) = v.split_around(r);
    check_eq!((ro(&a), ro(&b)), ((0, s, false), (e, n, false)), "split_around({}..{}) of length {}", s, e, n);
    let (a, b) = r.split_in_half();
    let m = s + len / 2;
    check_eq!((ro(&a), ro(&b)), ((s, m, false), (m, e, P::NE)), "({}..{}).split_in_half()", s, e);
    let (a, b) = r.frontiers();
    check_eq!((ro(&a), ro(&b)), ((s, s, false), (e, e, false)), "({}..{}).frontiers()", s, e);
    check_eq!(io(&r.first()), (s, P::NE), "({}..{}).first()", s, e);
    check_eq!(io(&r.upper_middle()), (m, P::NE), "({}..{}).upper_middle()", s, e);
    check_eq!(io(&r.past_the_end()), (e, false), "({}..{}).past_the_end()", s, e);
    check_eq!(ro(&r.no_proof()), (s, e, false), "({}..{}).no_proof()", s, e);
    check_eq!(ro(&Provable::no_proof(r)), (s, e, false), "Provable::no_proof({}..{})", s, e);
    check_eq!((r.start(), r.end(), r.len(), r.is_empty(), r.as_range()), (s, e, e - s, s == e, s..e), "observers of {}..{}", s, e);
    for &x in xs {
        let (a, b, ok) = r.split_at(x);
        let m = if x > len { e } else { s + x };
        check_eq!((ro(&a), ro(&b), ok), ((s, m, false), (m, e, false), x <= len), "({}..{}).split_at({})", s, e, x);
        event("range splits at an offset");
    }
    event("range splits");
}
fn on_ne_range<'id>(r: Range<'id, NonEmpty>) {
    let (s, e) = se(&r);
    check_eq!(io(&r.lower_middle()), (s + (e - s - 1) / 2, true), "({}..{}).lower_middle()", s, e);
    check_eq!(io(&r.last()), (e - 1, true), "({}..{}).last()", s, e);
    check_eq!(ro(&r.tail()), (s + 1, e, false), "({}..{}).tail()", s, e);
    check_eq!(ro(&r.init()), (s, e - 1, false), "({}..{}).init()", s, e);
    event("nonempty range splits");
}
fn on<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, p: Pt<'id>, n: usize, xs: &[usize]) {
    match p {
        Pt::I(i) => { on_index(v, i, n); on_ne_index(v, i, n); on_index::<_, _, Unknown>(v, i.no_proof(), n) }
        Pt::E(i) => on_index(v, i, n),
        Pt::R(r) => on_range(v, r, n, xs),
        Pt::N(r) => { on_range(v, r, n, xs); on_ne_range(r) }
    }
}
fn every<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, ps: &[Pt<'id>]) {
    let n = v.len();
    for &p in ps { let (_, a, b) = p.obs(); let mut xs = edge_args(b - a, a); xs.extend(edge_args(n, b)); on(v, p, n, &xs) }
}

/// Repeated splitting: leaves are in order, adjacent and cover the range.
fn tree(n: usize, rng: &mut Rng) {
    scope(zsts(n), |v| {
        let mut work = vec![v.range()];
        let mut leaves: Vec<Range> = vec![];
        for _ in 0..60 {
            if work.is_empty() { break }
            let k = rng.below(work.len());
            let r = work[k];
            let parts: Vec<Range> = match rng.below(4) {
                0 => { let (a, b) = r.split_in_half(); vec![a, b] }
                1 => { let (a, b, _) = r.split_at(rand_arg(rng, r.len(), r.start())); vec![a, b] }
                2 => if let Ok(q) = r.nonempty() { let (a, b) = q.split_in_half(); let (c, d) = (b.init(), v.vet_range(b.last().integer()..b.end()).unwrap()); vec![a, c, d] } else { vec![r] },
                _ => { let (a, b) = r.frontiers(); vec![a, r, b] }
            };
            work.splice(k..k + 1, parts);
        }
        leaves.extend(work);
        let mut at = 0;
        for r in &leaves { check!(r.start() == at && r.end() >= at, "pieces after repeated splitting are not adjacent: {:?} at {}", r, at); at = r.end() }
        check_eq!(at, n, "pieces after repeated splitting end");
        event("split trees");
    });
}

struct Keep<'id>(Vec<Pt<'id>>);
impl<'id> Sink<'id> for Keep<'id> { fn particle(&mut self, _: &'static str, p: Pt<'id>) { self.0.push(p) } }

fn main() {
    run::main(|| {
        for n in 0..mqt(2, 16, 32) {
            case("exhaustive", &[n as i128], || { let a = vec![0u8; n]; scope(&a[..], |v| every(&v, &all_particles(&v))) });
            case("exhaustive-vec", &[n as i128], || scope(vec![0u64; n], |v| { every(&v, &edge_particles(&v)); let v = v.only_index(); every(&v, &edge_particles(&v)) }));
        }
        for n in huge_lens() { if is_miri() { break } case("huge", &[n as i128], || scope(zsts(n), |v| every(&v, &edge_particles(&v)))); }
        rounds("random", 10, 20000, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = if rng.chance(1, 2) { rng.below(100) } else { (rng.next() >> rng.range(1, 63)) as usize };
            scope(zsts(n), |v| {
                let mut pool = Pool::new(16);
                for p in edge_particles(&v) { pool.add(&mut rng, p) }
                for _ in 0..25 {
                    let p = pool.pick(&mut rng);
                    let (_, a, b) = p.obs();
                    let xs = [rand_arg(&mut rng, b - a, a), rand_arg(&mut rng, n, b)];
                    on(&v, p, n, &xs);
                    let mut k = Keep(vec![]);
                    step(&mut rng, &v, &pool, false, &mut k);
                    for p in k.0 { pool.add(&mut rng, p) }
                }
            });
            tree(n, &mut rng);
        }));
    });
}
