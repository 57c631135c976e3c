//! C25: the observable results of many seeded histories and algorithm runs, recorded case by case
//! so that they can be compared between build configurations (c25run.py).
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::indexing::IntoCheckedRange;
use indexing::{scope, Container, Index, IndexingError, Range};
use mon::engine::*;
use mon::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- the recorder

struct Rec { hash: u64, n: u64, text: Option<Vec<String>> }
thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec { hash: 0, n: 0, text: None });
    static OUT: RefCell<Option<std::io::BufWriter<std::fs::File>>> = RefCell::new(None);
}
fn rec(op: &str, vals: &[u64]) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let mut h = r.hash;
        for b in op.bytes() { h = mix(h ^ b as u64) }
        for &v in vals { h = mix(h ^ v) }
        r.hash = h;
        r.n += 1;
        if let Some(t) = &mut r.text { if t.len() < 20000 { t.push(if vals.len() > 300 { format!("{} {:?}... {} in all, {:016x}", op, &vals[..100], vals.len(), h) } else { format!("{} {:?}", op, vals) }) } }
    })
}
fn rec_s(op: &str, s: &str) {
    let v: Vec<u64> = s.bytes().map(|b| b as u64).collect();
    rec(op, &v);
}
/// Run something that may panic; whether it does is part of the record.
fn guarded<F: FnOnce()>(op: &str, f: F) -> bool {
    let ok = catch_unwind(AssertUnwindSafe(f)).is_ok();
    if !ok { rec(op, &[0xdead]); rec_s("PANIC in", op); event("panics recorded") }
    ok
}
/// One recorded case.
fn one<F: FnOnce()>(wl: &'static str, args: &[i128], f: F) {
    if let Ok(k) = std::env::var("MON_KEY") { if k != format!("{}{:?}", wl, args) { return } }
    case(wl, args, || {
        REC.with(|r| { let mut r = r.borrow_mut(); r.hash = 0; r.n = 0; r.text = if std::env::var_os("MON_EVENTS").is_some() { Some(vec![]) } else { None } });
        guarded(wl, f);
        let soft = REC.with(|r| { let r = r.borrow(); (r.hash, r.n) });
        OUT.with(|o| if let Some(o) = &mut *o.borrow_mut() { writeln!(o, "{}{:?}\t{:016x}\t{}", wl, args, soft.0, soft.1).unwrap() });
        events("events recorded", soft.1);
        REC.with(|r| if let Some(t) = &r.borrow().text { for l in t { println!("EV {}", l) } });
    });
}

struct Tracer<'id> { got: Vec<Pt<'id>>, keep: bool }
impl<'id> Sink<'id> for Tracer<'id> {
    fn particle(&mut self, op: &'static str, p: Pt<'id>) {
        let (k, a, b) = p.obs();
        rec(op, &[k as u64, a as u64, b as u64]);
        if self.keep { self.got.push(p) }
    }
    fn value(&mut self, op: &'static str, v: u64) { rec(op, &[v]) }
}

// ---------------------------------------------------------------- particles

fn exhaustive<'id, A: Contiguous, M>(v: &Container<'id, A, M>, ps: &[Pt<'id>], scan: bool, pairs: bool) {
    let n = v.len();
    for op in 0..NOPS {
        let mut w = Tracer { got: vec![], keep: false };
        macro_rules! go { ($p:expr, $q:expr, $x:expr, $y:expr) => { guarded("operation", || { apply(op, v, $p, $q, $x, $y, scan, &mut w); }); } }
        match op {
            1 => for &x in &edge_args(n, 0) { for &y in edge_args(n, n / 2).iter().step_by(2) { go!(ps[0], ps[0], x, y); } },
            0 | 2 | 9 => for &x in &edge_args(n, 0) { go!(ps[0], ps[0], x, 0); },
            22..=24 | 44 => if pairs { for &p in ps { for &q in ps { go!(p, q, 0, 0); } } },
            26 | 27 => if pairs { for &p in ps { for &q in ps { for &x in edge_args(n, q.obs().1).iter().step_by(3) { go!(p, q, x, 0); } } } },
            11 | 13 | 14 | 15 | 16 | 19 | 20 | 21 | 40 => for &p in ps { for &x in &edge_args(n, p.obs().1) { go!(p, p, x, 0); } },
            42 => for &p in ps { for x in 0..16 { go!(p, p, x * 5, x); } },
            _ => for &p in ps { go!(p, p, 0, 0); },
        }
    }
    // what is printed, compared and hashed
    for p in ps {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        match *p { Pt::I(i) => { rec_s("debug", &format!("{:?}", i)); i.hash(&mut h) } Pt::E(i) => { rec_s("debug", &format!("{:?}", i)); i.hash(&mut h) }
                   Pt::R(r) => { rec_s("debug", &format!("{:?} {:?}", r, r.into_iter())); r.hash(&mut h) } Pt::N(r) => { rec_s("debug", &format!("{:?}", r)); r.hash(&mut h) } }
        rec("hash", &[h.finish()]);
    }
    for r in 1..n.min(9) + 2 { if let Pt::R(x) = Pt::R(v.range()) { let s = x.subdivide(r); for c in s.take(20) { rec("subdivide", &[c.start() as u64, c.end() as u64]) } } }
}

fn history<'id, A: Contiguous, M>(v: &Container<'id, A, M>, rng: &mut Rng, steps: usize, scan: bool) {
    let mut pool = Pool::new(24);
    for p in edge_particles(v) { pool.add(rng, p) }
    for _ in 0..steps {
        let mut w = Tracer { got: vec![], keep: true };
        // the history does not depend on what is observed, except through the particles themselves
        let s = rng.next();
        guarded("step", || { step(&mut Rng::new(s), v, &pool, scan, &mut w); });
        for p in w.got { pool.add(rng, p) }
    }
}

fn err<T>(op: &str, r: &Result<T, IndexingError>) { if let Err(e) = r { rec_s(op, &format!("{} {:?} {}", e, e, e.description())) } }

// ---------------------------------------------------------------- elements

fn content<T: Elem>(op: &str, v: &[T]) { let x = ids(v); rec(op, &x) }

fn mutate<'id, T: Elem, A, M>(v: &mut Container<'id, A, M>, rng: &mut Rng, steps: usize) where A: ContiguousMut<Item = T> + GetUncheckedMut {
    let n = v.len();
    let mut fresh = 1_000_000;
    for _ in 0..steps {
        let (a, b) = (rng.range(0, n), rng.range(0, n));
        let (a, b) = (a.min(b), a.max(b));
        let (c, d) = (rng.range(0, n), rng.range(0, n));
        let (c, d) = (c.min(d), c.max(d));
        let k = rng.below(19);
        let w = rng.next();
        rec("op", &[k as u64, a as u64, b as u64, c as u64, d as u64]);
        guarded("mutation", || {
            let r = v.vet_range(a..b); err("vet_range", &r); let r = r.unwrap();
            let s = v.vet_range(c..d).unwrap();
            let i = v.vet(a); err("vet", &i);
            let j = v.vet(c);
            match k {
                0 => if let (Ok(i), Ok(j)) = (i, j) { v.swap(i, j) },
                1 => v.rotate1_up(r),
                2 => v.rotate1_down(r),
                3 => if let Ok(r) = r.nonempty() { v.rotate1_up(r) },
                4 => if let Ok(r) = IntoCheckedRange::into(r) { v.rotate1_down(r) },
                5 => { let x = v.index_twice(r, s); rec("index_twice", &[x.is_ok() as u64]); if let Ok((x, y)) = x { content("first", x); content("second", y); x.reverse(); y.reverse() } }
                6 => { let mut n = 0; v.zip_mut_raw(r, s, |p, q| { n += 1; rec("pair", &unsafe { [(*p).id(), (*q).id()] }) }); rec("pairs", &[n]) }
                7 => if let Ok(i) = i { fresh += 1; v[i] = T::mk(fresh); rec("element", &[v[i].id()]) },
                8 => { v[r].reverse(); content("slice", &v[r]) }
                9 => if let Ok(i) = i { content("from", &v[i..]); content("to", &v[..i]); v[i..].reverse() },
                10 => { let e = r.past_the_end(); v[..e].reverse(); content("to edge", &v[..e]); content("from edge", &v[e..]) }
                11 => if let Ok(i) = i { let mut k = w % 5; let r = v.scan_from(i, |x| { rec("seen", &[x.id()]); k = k.wrapping_sub(1); k < 9 }); rec("run", &[r.start() as u64, r.end() as u64]) },
                12 => if let Ok(i) = i { let mut k = w % 5; let r = v.scan_from_rev(i, |x| { rec("seen", &[x.id()]); k = k.wrapping_sub(1); k < 9 }); rec("run", &[r.start() as u64, r.end() as u64]) },
                13 => { let mut k = w % 5; let (x, y) = v.scan_range(r, |x| { rec("seen", &[x.id()]); k = k.wrapping_sub(1); k < 9 }); rec("runs", &[x.start() as u64, x.end() as u64, y.start() as u64, y.end() as u64]) }
                14 => for i in r { rec("each", &[v[i].id()]) },
                15 => for c in r.subdivide(1 + w as usize % 6) { v[c].reverse(); content("chunk", &v[c]) },
                16 => { let (x, y) = r.split_in_half(); content("lower", &v[x]); content("upper", &v[y]); let z = x.join_cover_both(s); content("cover", &v[z]) }
                17 => if let Ok(r) = r.nonempty() { content("tail", &v[r.tail()]); content("init", &v[r.init()]); rec("ends", &[v[r.first()].id(), v[r.last()].id(), v[r.lower_middle()].id(), v[r.upper_middle()].id()]) },
                _ => if let (Ok(mut i), Ok(j)) = (i, j) { let ok = v.forward_by(&mut i, w as usize % 9); rec("forward_by", &[ok as u64, v[i].id()]); let ok = v.backward(&mut i); rec("backward", &[ok as u64, v[i].id(), (i < j) as u64]) },
            }
        });
        content("contents", &v[v.range()]);
    }
}

fn slices<T: Elem>(s: u64, long: Option<usize>, steps: usize) {
    let mut rng = Rng::new(s);
    let n = long.unwrap_or(rng.below(24));
    let mut a = Arena::<T>::new(n, 2, 100);
    scope(a.mid(), |mut v| mutate(&mut v, &mut rng, steps));
    content("afterwards", a.mid_ref());
    guarded("guards", || a.guards("memory around the container"));
    // shared containers, clones and twins
    let d: Vec<T> = (0..n as u64).map(|i| T::mk(i + 7)).collect();
    let m = if long.is_some() || rng.chance(2, 3) { n } else { rng.below(24) };
    let mut e: Vec<T> = (0..m as u64).map(|i| T::mk(i + 900)).collect();
    scope(&d[..], |v| {
        let c = v.clone();
        let t = v.make_twin(&mut e[..]);
        err("make_twin", &t);
        rec("make_twin", &[t.is_ok() as u64]);
        let r = v.vet_range(n / 3..n - n / 3).unwrap();
        content("clone", &c[r]);
        if let Ok(mut t) = t { t.rotate1_up(r); mutate(&mut t, &mut rng, 4); for (i, j) in r.into_iter().zip(t.range()) { rec("zipped", &[v[i].id(), t[i].id(), c[j].id()]) } }
    });
    content("twin", &e);
}

#[cfg(feature = "std")]
fn vectors<T: Elem>(s: u64, long: Option<usize>, steps: usize) {
    let mut rng = Rng::new(s);
    let n = long.unwrap_or(rng.below(8));
    let d: Vec<T> = (0..n as u64).map(T::mk).collect();
    scope(d, |mut v| {
        mutate(&mut v, &mut rng, 6);
        let mut v = v.only_index();
        let mut old: Vec<Index> = v.range().into_iter().collect();
        while long.is_some() && old.len() > 50 { let k = rng.below(old.len()); old.swap_remove(k); }
        for k in 0..steps as u64 {
            let e = v.vet_range(v.len() / 2..v.len()).unwrap();
            guarded("growing", || match rng.below(4) {
                0 | 1 => { let i = v.push(T::mk(500 + k)); rec("push", &[i.integer() as u64, v[i].id()]); old.push(i) }
                2 => if old.len() > 0 { let i = *rng.pick(&old); v.insert(i, T::mk(600 + k)) },
                _ => if rng.chance(1, 2) { let p = e.past_the_end(); v.insert(p, T::mk(700 + k)) } else { v.insert(e.first(), T::mk(800 + k)) },
            });
            rec("length", &[v.len() as u64]);
            for &i in &old { rec("old", &[v[i].id()]) }
            content("contents", &v[v.range()]);
        }
        mutate(&mut v, &mut rng, 4);
    });
}

// ---------------------------------------------------------------- algorithms

fn kt<T: Keyed>(op: &str, v: &[T]) { let x: Vec<u64> = v.iter().flat_map(|x| vec![x.key(), x.tag()]).collect(); rec(op, &x) }
fn mkv<T: Keyed>(k: &[u64]) -> Vec<T> { k.iter().enumerate().map(|(i, x)| T::new(x % T::KEYS, i as u64)).collect() }
fn keyed<T: Keyed>(v: &[T]) -> Vec<u64> { v.iter().map(|x| x.key()).collect() }

fn input(rng: &mut Rng, top: usize) -> Vec<u64> {
    let n = match rng.below(6) { 0 => rng.below(6), 1 => rng.below(20), 2..=3 => rng.below(70), _ => rng.below(top) };
    let mut k = rand_keys(rng, n, 1 << 20);
    match rng.below(9) {
        0 => k.sort(),
        1 => { k.sort(); k.reverse() }
        2 => { let m = rng.range(1, 5) as u64; for x in k.iter_mut() { *x %= m } }
        3 => { let n = k.len(); for (i, x) in k.iter_mut().enumerate() { *x = i.min(n - i) as u64 } }
        4 => { k.sort(); if n > 2 { let (i, j) = (rng.below(n), rng.below(n)); k.swap(i, j) } }
        5 => { let m = n / 2; k[m..].sort(); k[..m].sort() }
        _ => {}
    }
    k
}

fn algorithms<T: Keyed>(ty: i128, s: u64, long: Option<usize>) {
    let mut rng = Rng::new(s);
    let k = match long { Some(n) => rand_keys(&mut rng, n, 1 << 20), None => input(&mut rng, if thorough() { 1500 } else { 400 }) };
    let n = k.len();
    let a = [ty, s as i128];
    for (name, f) in algos::ord_sorts::<T>() { one(name, &a, || { let mut v = mkv::<T>(&k[..n.min(5000)]); f(&mut v); rec("keys", &keyed(&v)); kt("sorted", &v) }) }
    let small = &k[..n.min(if long.is_some() { 600 } else { 120 })];
    for (name, _, f) in algos::by_sorts::<T>() {
        one(name, &a, || { let mut v = mkv::<T>(small); f(&mut v, &mut |a, b| a < b); kt("sorted", &v); f(&mut v, &mut |a, b| a.key() > b.key()); kt("reversed", &v) });
    }
    one("insertion_sort2_indexes", &a, || {
        let mut v = mkv::<T>(small); let mut u = mkv::<Kt>(small);
        insertion_sort2_indexes(&mut v, &mut u, |a, b| a < b);
        kt("sorted", &v); kt("second", &u);
        let mut w = mkv::<Kt>(&k[..small.len() / 2]);
        let r = catch_unwind(AssertUnwindSafe(|| insertion_sort2_indexes(&mut v, &mut w, |a, b| a < b)));
        rec("other length", &[r.is_ok() as u64]); kt("refused", &w);
    });
    one("heapify", &a, || { let mut v = mkv::<T>(&k); heapify(&mut v); kt("heap", &v); heapify(&mut v); kt("heap", &v) });
    for (name, f) in algos::merges::<T>() {
        one(name, &a, || for t in 0..4 {
            let le = match t { 0 => 0, 1 => n, _ => mix(s ^ t) as usize % (n + 1) };
            let mut k = k.clone();
            for x in k.iter_mut() { *x %= T::KEYS }
            k[..le].sort(); k[le..].sort();
            let mut v = mkv::<T>(&k);
            let mut b = mkv::<T>(&rand_keys(&mut Rng::new(s ^ 3), le + (t as usize) % 3, 9));
            let r = f(&mut v, le, &mut b);
            rec("merged", &[r.is_ok() as u64]); kt("data", &v); kt("buffer", &b);
            let r = f(&mut v, n + 1, &mut b); rec("refused", &[r.is_ok() as u64]); if let Err(e) = r { rec_s("error", &format!("{:?}", e)) }
            if le > 0 { let r = f(&mut v, le, &mut b[..le - 1]); rec("refused", &[r.is_ok() as u64]) }
            kt("data", &v); kt("buffer", &b);
        });
    }
    // searches: in sorted data and in whatever it was
    let mut so = mkv::<T>(&k);
    so.sort_by_key(|x| x.key());
    let un = mkv::<T>(&k);
    let q: Vec<u64> = (0..12).map(|i| if n > 0 && i % 3 > 0 { (k[rng.below(n)] + i / 8) % T::KEYS } else { rng.next() % (1 << 20) % T::KEYS }).collect();
    for (name, f) in algos::bin_searches::<T>() { one(name, &a, || for &x in &q { for v in [&so, &un] { match f(v, &mut |y| y.key().cmp(&x)) { Ok(i) => rec("found", &[i as u64]), Err(i) => rec("not found", &[i as u64]) } } }) }
    one("binary_search", &a, || for &x in &q { for v in [&so, &un] { match binary_search(v, &T::new(x, 0)) { Ok(i) => rec("found", &[i as u64]), Err(i) => rec("not found", &[i as u64]) } } });
    for (name, f) in algos::lower_bys::<T>() { one(name, &a, || for &x in &q { for v in [&so, &un] { rec("bound", &[f(v, &mut |y| y.key() < x) as u64]) } }) }
    for (name, f) in algos::lower_elts::<T>() { one(name, &a, || for &x in &q { for v in [&so, &un] { rec("bound", &[f(v, &T::new(x, 0)) as u64]) } }) }
}

/// zero-sized elements: all equal, all less or all greater than what is searched
macro_rules! zero { ($z:ident $o:ident) => {
    #[derive(Clone, Copy)]
    struct $z;
    impl PartialEq for $z { fn eq(&self, _: &Self) -> bool { Ordering::$o == Ordering::Equal } }
    impl Eq for $z {}
    impl PartialOrd for $z { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $z { fn cmp(&self, _: &Self) -> Ordering { Ordering::$o } }
} }
zero!(ZEqual Equal);
zero!(ZLess Less);
zero!(ZGreater Greater);
fn zero_sized_searches<T: Ord + Copy>(z: T, ty: i128, n: usize) {
    let a = [ty, n as i128];
    let v: &[T] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) };
    let r = |r: Result<usize, usize>| match r { Ok(i) => rec("found", &[i as u64]), Err(i) => rec("not found", &[i as u64]) };
    one("lower_bound, zero-sized", &a, || rec("bound", &[lower_bound(v, &z) as u64]));
    one("lower_bound_raw_ptr, zero-sized", &a, || rec("bound", &[lower_bound_raw_ptr(v, &z) as u64]));
    one("binary_search, zero-sized", &a, || r(binary_search(v, &z)));
    one("binary_search_by, zero-sized", &a, || for o in [Ordering::Less, Ordering::Equal, Ordering::Greater] { r(binary_search_by(v, |_| o)) });
}
fn zero_sized_algorithms(n: usize) {
    let a = [n as i128];
    let mk = || vec![ZEqual; n];
    let w = |v: &Vec<ZEqual>| rec("length", &[v.len() as u64]);
    one("sorts, zero-sized", &a, || {
        let mut v = mk();
        quicksort_range(&mut v); quicksort_bounds(&mut v);
        w(&v);
        if n < 3000 { insertion_sort_indexes(&mut v, |_, _| false); insertion_sort_ranges(&mut v, |_, _| false); insertion_sort_rust(&mut v, |_, _| false) }
        if n < 200 { let mut u = mk(); insertion_sort2_indexes(&mut v, &mut u, |a, b| a < b); w(&u) }
        w(&v);
    });
    one("heapify, zero-sized", &a, || { let mut v = mk(); heapify(&mut v); w(&v) });
    one("copy, zero-sized", &a, || { let (x, mut y) = (mk(), vec![ZEqual; n / 2 + 1]); copy(&x, &mut y); copy(&y, &mut mk()); w(&y) });
    for (name, f) in algos::merges::<ZEqual>() {
        one(name, &[-1, n as i128], || for le in [0, 1, n / 2, n, n + 1] { for b in [0, 1, n / 2, n] { rec("merged", &[f(&mut mk(), le, &mut vec![ZEqual; b]).is_ok() as u64]) } });
    }
}

fn numbers(s: u64) {
    let mut rng = Rng::new(s);
    let (n, m) = (rng.below(70), rng.below(70));
    let m = if rng.chance(1, 2) { n } else { m };
    let x: Vec<i32> = (0..n).map(|_| rng.next() as i16 as i32 % 5000).collect();
    let y: Vec<i32> = (0..m).map(|_| rng.next() as i16 as i32 % 5000).collect();
    let a = [s as i128];
    #[cfg(feature = "ptr")]
    one("zip_dot_i32", &a, || rec("dot", &[zip_dot_i32(&x, &y) as u64]));
    one("copy", &a, || { let mut z = y.clone(); copy(&x, &mut z); rec("copied", &z.iter().map(|&x| x as u64).collect::<Vec<_>>()) });
    #[cfg(feature = "ptr")]
    one("zip_dot_i32_prange", &a, || rec("dot", &[zip_dot_i32_prange(&x, &y) as u64]));
    #[cfg(feature = "ptr")]
    one("copy_prange", &a, || { let mut z = y.clone(); copy_prange(&x, &mut z); rec("copied", &z.iter().map(|&x| x as u64).collect::<Vec<_>>()) });
    // floating point, with incomparable elements
    let f: Vec<f64> = (0..n).map(|i| if rng.chance(1, 12) { f64::NAN } else { (i / 3) as f64 }).collect();
    one("floats", &a, || for (_, g) in [("lower_bound", lower_bound::<f64> as fn(&[f64], &f64) -> usize), ("lower_bound_raw_ptr", lower_bound_raw_ptr::<f64>)] {
        for x in [0.0, 3.0, 7.5, f64::NAN, f64::INFINITY, -0.0] { rec("bound", &[g(&f, &x) as u64]) }
    });
}

// ---------------------------------------------------------------- pointers

#[cfg(feature = "ptr")]
mod ptr {
    use super::*;
    use indexing::pointer::{zip, PRange};
    use indexing::proof::Provable;
    use mon::pengine::*;

    fn trace<'id, T>(b: &Base<T>, ps: &[Pq<'id, T>]) {
        for p in ps { let (x, y) = p.at("result", b); rec_s("kind", p.kind()); rec("at", &[x as u64, y as u64]) }
    }
    fn long_pq<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>) -> Vec<Pq<'id, T>> {
        let n = v.len();
        let r = v.pointer_range();
        let mut out = vec![Pq::R(r), Pq::SR(v.pointer_slice())];
        let es: Vec<_> = [0, 1, n / 7, n / 3, n / 2, n - 2, n - 1, n].iter().map(|&p| { if p < n { out.push(Pq::I(pindex_at(r, p))) } pedge_at(r, p) }).collect();
        for &e in &es { out.push(Pq::E(e)); for &f in &es { if let Ok(r) = v.nonempty_range(e, f) { out.push(Pq::N(r)); out.push(Pq::SN(r.into())) } } }
        out
    }
    pub fn ops<T: Elem>(n: usize) {
        let mut a = Arena::<T>::new(n, 1, 100);
        let base = Base { ptr: a.mid_ref().as_ptr(), len: n };
        scope(a.mid(), |v| {
            let ps = all_pq(&v);
            trace(&base, &ps);
            for op in 0..NPOPS { for (k, &p) in ps.iter().enumerate() { for (l, &q) in ps.iter().enumerate() {
                if l > 0 && !matches!(op, 9 | 19) { break }
                let mut j = Judge::new(base, true);
                guarded("pointer operation", || { let ok = papply(op, &v, p, q, k * 7 + l, &mut j); rec("fits", &[ok as u64]) });
                trace(&base, &j.got);
                rec("judged", &[j.n]);
            } } }
        });
    }
    pub fn history<T: Elem>(s: u64, long: Option<usize>, steps: usize) {
        let mut rng = Rng::new(s);
        let n = long.unwrap_or(rng.range(1, 20));
        let mut a = Arena::<T>::new(n, 1, 100);
        let base = Base { ptr: a.mid_ref().as_ptr(), len: n };
        scope(a.mid(), |mut v| {
            let mut pool = if long.is_some() { long_pq(&v) } else { all_pq(&v) };
            while pool.len() > 40 { let k = rng.below(pool.len()); pool.swap_remove(k); }
            for _ in 0..steps {
                let (p, q, x) = (pick(&mut rng, &pool), pick(&mut rng, &pool), rng.next() as usize);
                let k = rng.below(NPOPS + 10);
                let mut j = Judge::new(base, true);
                guarded("pointer step", || match k {
                    0..NPOPS => { papply(k, &v, p, q, x, &mut j); }
                    26 => if let (Some(i), Some(j)) = (p.index(), q.index()) { v.swap_ptr(i, j) },
                    27 | 28 => if let Some(r) = p.ne_range() { v.rotate1_prange(r) },
                    29 => if let Some(r) = p.range() { v[r].reverse(); content("slice", &v[r]) },
                    30 => if let Some(i) = p.any_index() { content("from", &v[i..]); content("to", &v[..i]); v[i..].reverse() },
                    31 => if let Some(i) = p.index() { rec("element", &[v[i].id()]) },
                    32 => if let Some(i) = p.any_index() { v.split_container_at_pointer(i, |mut l, rl, mut r, rr| {
                        rec("lengths", &[l.len() as u64, r.len() as u64]);
                        let (x, y) = (l.range(), r.range());
                        l.rotate1_up(x); r.rotate1_down(y);
                        content("left", &l[rl]); content("right", &r[rr]);
                    }) },
                    33 => if let (Some(r), Some(s)) = (p.range(), q.range()) { zip(r, &v, s, &v, |x: &T, y: &T| rec("pair", &[x.id(), y.id()])) },
                    34 => if let Some(i) = p.index() { let mut k = x % 5; let r = v.scan_tail_(i, |e| { rec("seen", &[e.id()]); k = k.wrapping_sub(1); k < 9 }); content("tail", &v[r]) },
                    _ => if let Some(r) = p.range() { let mut k = x % 5;
                        let (l, u) = v.scan_pointer_range(r, |e| { rec("seen", &[e.id()]); k = k.wrapping_sub(1); k < 9 });
                        content("accepted", &v[l]); content("rest", &v[u]);
                        let (l, u) = v.scan_pointer_range_rev(r, |e| { rec("seen", &[e.id()]); k = k.wrapping_add(1); k < 9 });
                        content("rest", &v[l]); content("accepted", &v[u]) },
                });
                rec("step", &[k as u64]);
                trace(&base, &j.got);
                for p in j.got { if pool.len() < 60 { pool.push(p) } else { let k = rng.below(60); pool[k] = p } }
            }
            let r: PRange<T> = v.pointer_range().no_proof();
            content("contents", &v[r]);
        });
        content("afterwards", a.mid_ref());
    }
}

fn main() {
    if let Ok(p) = std::env::var("MON_RECORD") { OUT.with(|o| *o.borrow_mut() = Some(std::io::BufWriter::new(std::fs::File::create(p).unwrap()))) }
    run::main(|| {
        for n in 0..qt(6, 8usize) {
            one("index operations", &[n as i128], || { let a = vec![7u8; n]; scope(&a[..], |v| { let ps = all_particles(&v); exhaustive(&v, &ps, true, n < 6) }) });
            #[cfg(feature = "std")]
            one("index operations on a vector", &[n as i128], || { scope(vec![7u64; n], |v| { let v = v.only_index(); let ps = all_particles(&v); exhaustive(&v, &ps, true, n < 5) }) });
            #[cfg(feature = "ptr")]
            { one("pointer operations", &[n as i128, 0], || ptr::ops::<u64>(n)); one("pointer operations", &[n as i128, 1], || ptr::ops::<[u8; 3]>(n)); one("pointer operations", &[n as i128, 2], || ptr::ops::<Big>(n)); }
        }
        for n in huge_lens() {
            one("huge containers", &[n as i128], || scope(zsts(n), |v| { let ps: Vec<_> = edge_particles(&v).into_iter().step_by(2).collect(); exhaustive(&v, &ps, false, thorough()) }));
        }
        macro_rules! elems { ($j:ident, $t:ident => $e:expr) => { { let $j = 0i128; type $t = u64; $e } { let $j = 1i128; type $t = [u8; 3]; $e } { let $j = 2i128; type $t = Box<u64>; $e } { let $j = 3i128; type $t = Big; $e } { let $j = 4i128; type $t = u8; $e } } }
        for n in huge_lens().into_iter().chain([0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64, 100, 300]) {
            zero_sized_searches(ZEqual, 0, n); zero_sized_searches(ZLess, 1, n); zero_sized_searches(ZGreater, 2, n);
        }
        for n in [0, 1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 100, 300, 1025, 20_000] { zero_sized_algorithms(n) }
        for n in if thorough() { long_lens() } else { vec![300, 1025, 4099, 65_537] } {
            elems!(j, T => {
                if n < 11_000 || j % 4 == 0 {
                    one("long slices", &[j, n as i128], || slices::<T>(seed() ^ mix(n as u64 * 8 + j as u64), Some(n), 8));
                    #[cfg(feature = "std")]
                    one("long vectors", &[j, n as i128], || vectors::<T>(seed() ^ mix(n as u64 * 8 + j as u64), Some(n), 6));
                    #[cfg(feature = "ptr")]
                    one("long pointer history", &[j, n as i128], || ptr::history::<T>(seed() ^ mix(n as u64 * 8 + j as u64), Some(n), 15));
                }
            });
            algorithms::<Kt>(0, n as u64, Some(n));
            algorithms::<u8>(1, n as u64, Some(n));
        }
        let h = huge_lens();
        rounds("histories", 1, 800, |_, s| {
            one("~index history", &[s as i128], || { let mut rng = Rng::new(s); let a = vec![0u16; rng.below(40)]; scope(&a[..], |v| history(&v, &mut rng, 60, true)) });
            one("~index history, huge", &[s as i128], || { let mut rng = Rng::new(s); let n = if rng.chance(1, 2) { *rng.pick(&h) } else { (rng.next() >> rng.range(1, 63)) as usize }; scope(zsts(n), |v| history(&v, &mut rng, 60, false)) });
            elems!(j, T => {
                one("~slices", &[j, s as i128], || slices::<T>(s ^ j as u64, None, 12));
                #[cfg(feature = "std")]
                one("~vectors", &[j, s as i128], || vectors::<T>(s ^ j as u64, None, 10));
                #[cfg(feature = "ptr")]
                one("~pointer history", &[j, s as i128], || ptr::history::<T>(s ^ j as u64, None, 30));
            });
            one("~zero-sized slices", &[s as i128], || slices::<()>(s, None, 12));
            for k in 0..2 {
                algorithms::<Kt>(0, s ^ k, None);
                algorithms::<u8>(1, s ^ k, None);
                algorithms::<KBox>(2, s ^ k, None);
                algorithms::<K3>(3, s ^ k, None);
                numbers(s ^ k);
            }
        });
        OUT.with(|o| if let Some(o) = &mut *o.borrow_mut() { o.flush().unwrap() });
    });
}
