//! C02: every particle obtainable is in bounds and its NonEmpty marker is true.
use indexing::container_traits::*;
use indexing::{scope, Container};
use mon::engine::*;
use mon::*;

struct Watch<'id> { len: usize, got: Vec<Pt<'id>>, keep: bool, n: u64, ne: u64 }
impl<'id> Sink<'id> for Watch<'id> {
    fn particle(&mut self, op: &'static str, p: Pt<'id>) {
        self.n += 1;
        if let Pt::I(_) | Pt::N(_) = p { self.ne += 1 }
        check!(p.valid(self.len), "{} produced {} in a container of length {}", op, p.describe(), self.len);
        if self.keep { self.got.push(p) }
    }
}

fn exhaustive<'id, A: Contiguous, M>(v: &Container<'id, A, M>, ps: &[Pt<'id>], scan: bool, all_pairs: bool) {
    let n = v.len();
    let mut w = Watch { len: n, got: vec![], keep: false, n: 0, ne: 0 };
    for op in 0..NOPS {
        match op {
            1 => for &x in &edge_args(n, 0) { for &y in &edge_args(n, n / 2) { apply(op, v, ps[0], ps[0], x, y, scan, &mut w); } },
            0 | 2 | 9 => for &x in &edge_args(n, 0) { apply(op, v, ps[0], ps[0], x, 0, scan, &mut w); },
            22..=24 | 44 => for &p in ps { for &q in ps { apply(op, v, p, q, 0, 0, scan, &mut w); } },
            26 | 27 => for &p in ps { for &q in ps {
                if !all_pairs && op == 27 && p.obs().0 != 3 { continue }
                let (_, a, _) = q.obs();
                for &x in &edge_args(n, a) { apply(op, v, p, q, x, 0, scan, &mut w); }
            } },
            11 | 13 | 14 | 15 | 16 | 19 | 20 | 21 | 40 => for &p in ps { let (_, a, b) = p.obs();
                for &x in edge_args(b - a, a).iter().chain(&edge_args(n, a)) { apply(op, v, p, p, x, 0, scan, &mut w); } },
            42 => for &p in ps { for x in 0..64 { for y in [0, 5, 21] { apply(op, v, p, p, x, y, scan, &mut w); } } },
            _ => for &p in ps { apply(op, v, p, p, 0, 0, scan, &mut w); },
        }
    }
    events("particles checked", w.n);
    events("NonEmpty particles checked", w.ne);
}

fn history<'id, A: Contiguous, M>(v: &Container<'id, A, M>, rng: &mut Rng, steps: usize, scan: bool) {
    let n = v.len();
    let mut pool = Pool::new(24);
    for p in edge_particles(v) { pool.add(rng, p) }
    let mut ops = 0u64;
    for _ in 0..steps {
        let mut w = Watch { len: n, got: vec![], keep: true, n: 0, ne: 0 };
        if step(rng, v, &pool, scan, &mut w).is_some() { ops += 1 }
        events("particles checked", w.n);
        events("NonEmpty particles checked", w.ne);
        for p in w.got { pool.add(rng, p) }
    }
    events("history operations", ops);
}

fn growing(seed: u64) {
    let mut rng = Rng::new(seed);
    let n0 = rng.below(6);
    let v: Vec<u32> = (0..n0 as u32).collect();
    scope(v, |v| {
        let mut v = v.only_index();
        let mut pool = Pool::new(24);
        for p in edge_particles(&v) { pool.add(&mut rng, p) }
        for k in 0..60 {
            if rng.chance(1, 4) {
                let before = v.len();
                let i = if rng.chance(1, 2) { v.push(k) } else {
                    match pool.edge(&mut rng) { Some(e) => { v.insert(e, k); continue } None => v.push(k) } };
                check!(Pt::I(i).valid(v.len()), "push produced index {} in a container of length {}", i.integer(), v.len());
                check!(v.len() == before + 1, "push changed the length from {} to {}", before, v.len());
                event("particles checked");
                pool.add(&mut rng, Pt::I(i));
            } else {
                let mut w = Watch { len: v.len(), got: vec![], keep: true, n: 0, ne: 0 };
                step(&mut rng, &v, &pool, true, &mut w);
                events("particles checked", w.n);
                for p in w.got { pool.add(&mut rng, p) }
            }
            for p in &pool.ps { check!(p.valid(v.len()), "older {} is no longer valid at length {}", p.describe(), v.len()) }
        }
    });
}

fn main() {
    run::main(|| {
        for n in 0..mqt(0, 7, 9) {
            case("exhaustive", &[n as i128], || {
                let a: Vec<u8> = vec![7; n];
                scope(&a[..], |v| { let ps = all_particles(&v); exhaustive(&v, &ps, true, true) });
            });
            case("exhaustive-vec", &[n as i128], || {
                scope(vec![7u64; n], |v| { let v = v.only_index(); let ps = all_particles(&v); exhaustive(&v, &ps, n < 4, n < 5) });
            });
        }
        let huge = huge_lens();
        for (k, &n) in huge.iter().enumerate() {
            if is_miri() { continue }
            let _ = k;
            case("boundary-zst", &[n as i128], || {
                scope(zsts(n), |v| { let ps = edge_particles(&v);
                    let ps: Vec<_> = if thorough() { ps } else { ps.into_iter().step_by(3).collect() };
                    exhaustive(&v, &ps, false, false) });
            });
        }
        rounds("history-small", 6, 20000, |_, s| case("~history-small", &[s as i128], || {
            let mut rng = Rng::new(s);
            let a = vec![0u16; rng.below(40)];
            scope(&a[..], |v| history(&v, &mut rng, if is_miri() { 30 } else { 80 }, true));
        }));
        slice_until(0.5);
        rounds("history-zst", 4, 20000, |_, s| case("~history-zst", &[s as i128], || {
            let mut rng = Rng::new(s);
            let h = huge_lens();
            let n = if rng.chance(1, 2) { *rng.pick(&h) } else { (rng.next() >> rng.range(1, 63)) as usize };
            scope(zsts(n), |v| history(&v, &mut rng, 80, false));
        }));
        slice_until(0.9);
        rounds("history-growing", 3, 8000, |_, s| case("~history-growing", &[s as i128], || growing(s)));
    });
}
