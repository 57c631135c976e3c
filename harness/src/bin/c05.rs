//! C05: joins give exactly the documented cover and proof.
use indexing::container_traits::*;
use indexing::{scope, Container, Range};
use indexing::proof::ProofAdd;
use mon::engine::*;
use mon::*;

fn pair<'id, P: Kind, Q: Kind>(r: Range<'id, P>, s: Range<'id, Q>)
    where (P, Q): ProofAdd, <(P, Q) as ProofAdd>::Sum: Kind
{
    let ((a, b), (c, d)) = (se(&r), se(&s));
    let j = r.join(s);
    let sum = P::NE || Q::NE;
    check_eq!(j.map(|x| ro(&x)).ok(), if b == c { Some((a, d, sum)) } else { None }, "({}..{}).join({}..{}) [{} {}]", a, b, c, d, P::NE, Q::NE);
    check_eq!(ro(&r.join_cover(s)), (a, b.max(d), P::NE), "({}..{}).join_cover({}..{}) [{} {}]", a, b, c, d, P::NE, Q::NE);
    check_eq!(ro(&r.join_cover_both(s)), (a.min(c), b.max(d), sum), "({}..{}).join_cover_both({}..{}) [{} {}]", a, b, c, d, P::NE, Q::NE);
    event(if b == c { "joins admitted" } else { "joins rejected" });
    event(if b <= c { "ordered pairs" } else if d <= a { "reversed pairs" } else { "overlapping pairs" });
}
fn pt<'id>(p: Pt<'id>, q: Pt<'id>) {
    match (p, q) {
        (Pt::R(r), Pt::R(s)) => pair(r, s),
        (Pt::R(r), Pt::N(s)) => pair(r, s),
        (Pt::N(r), Pt::R(s)) => pair(r, s),
        (Pt::N(r), Pt::N(s)) => pair(r, s),
        _ => {}
    }
}
fn pairs<'id, A: Trustworthy, M>(_: &Container<'id, A, M>, ps: &[Pt<'id>]) { for &p in ps { for &q in ps { pt(p, q) } } }

struct Keep<'id>(Vec<Pt<'id>>);
impl<'id> Sink<'id> for Keep<'id> { fn particle(&mut self, _: &'static str, p: Pt<'id>) { self.0.push(p) } }

fn main() {
    run::main(|| {
        for n in 0..mqt(3, 15, 20) {
            case("exhaustive", &[n as i128], || { let a = vec![0u8; n]; scope(&a[..], |v| pairs(&v, &all_particles(&v))) });
        }
        for n in huge_lens() { if is_miri() { break } case("huge", &[n as i128], || scope(zsts(n), |v| pairs(&v, &edge_particles(&v)))); }
        rounds("random", 20, 20000, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = if rng.chance(1, 2) { rng.below(60) } else { (rng.next() >> rng.range(1, 63)) as usize };
            scope(zsts(n), |v| {
                let mut pool = Pool::new(14);
                for p in edge_particles(&v) { pool.add(&mut rng, p) }
                for _ in 0..12 { let mut k = Keep(vec![]); step(&mut rng, &v, &pool, false, &mut k); for p in k.0 { pool.add(&mut rng, p) } }
                for _ in 0..mqt(2, 5, 10) {
                    let (x, y, z) = (rand_arg(&mut rng, n, 0), rand_arg(&mut rng, n, 0), rand_arg(&mut rng, n, 0));
                    let mut t = [x, y, z]; t.sort();
                    for r in [v.vet_range(t[0]..t[1]), v.vet_range(t[1]..t[2]), v.vet_range(t[0]..t[2])] { if let Ok(r) = r { pool.add(&mut rng, Pt::R(r)); if let Ok(r) = r.nonempty() { pool.add(&mut rng, Pt::N(r)) } } }
                }
                pairs(&v, &pool.ps);
                // reassemble: consecutive pieces joined together give the whole
                let mut cuts: Vec<usize> = (0..5).map(|_| rng.range(0, n)).collect();
                cuts.push(0); cuts.push(n); cuts.sort();
                let mut acc = v.empty_range();
                for w in cuts.windows(2) { acc = acc.join(v.vet_range(w[0]..w[1]).unwrap()).unwrap_or_else(|_| fail(format!("adjacent pieces {:?} do not join", w))); }
                check_eq!(ro(&acc), (0, n, false), "pieces joined together");
            });
        }));
    });
}
