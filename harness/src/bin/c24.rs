//! C24: race freedom and consistency when containers and particles are shared across threads.
//! The workload runs under ThreadSanitizer and under Miri with many schedules; the monitor compares
//! what every thread saw with the model and counts the distinct interleavings of their steps.
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::{scope, Container, Index, Range};
use mon::algos;
use mon::engine::{apply, NOPS, Sink};
use mon::obs::Pt;
use mon::*;
use std::collections::HashSet;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering as AO};
use std::sync::{mpsc, Mutex, RwLock};
use std::thread;

// ------------------------------------------------------------ schedule: record and perturb

const LOG: usize = 512;
/// who did the k-th step; relaxed, so that it orders nothing between the threads
struct Steps { n: AtomicUsize, who: Vec<AtomicU8> }
impl Steps {
    fn new() -> Self { Steps { n: AtomicUsize::new(0), who: (0..if is_miri() { 48 } else { LOG }).map(|_| AtomicU8::new(0)).collect() } }
    fn step(&self, who: u8, rng: &mut Rng) {
        let k = self.n.fetch_add(1, AO::Relaxed);
        if let Some(w) = self.who.get(k) { w.store(who, AO::Relaxed) }
        if !is_miri() { match rng.below(24) { 0 => thread::yield_now(), 1..=3 => for _ in 0..rng.below(200) { std::hint::spin_loop() }, _ => {} } }
    }
    /// (hash of the order of steps, context switches seen)
    fn interleaving(&self) -> (u64, u64) {
        let n = self.n.load(AO::Relaxed).min(self.who.len());
        let (mut h, mut sw) = (n as u64, 0);
        for k in 0..n { let w = self.who[k].load(AO::Relaxed); h = mix(h ^ w as u64); if k > 0 && self.who[k - 1].load(AO::Relaxed) != w { sw += 1 } }
        (h, sw)
    }
}
thread_local! { static SEEN: RefCell<HashSet<u64>> = RefCell::new(HashSet::new()); }
fn done(s: &Steps) {
    let (h, sw) = s.interleaving();
    events("context switches between steps", sw);
    events("steps", s.n.load(AO::Relaxed) as u64);
    if SEEN.with(|x| x.borrow_mut().insert(h)) { event("distinct interleavings") }
}

/// start all threads at the same moment
struct Gate(AtomicUsize, usize);
impl Gate {
    fn new(n: usize) -> Self { Gate(AtomicUsize::new(0), n) }
    fn wait(&self) { self.0.fetch_add(1, AO::Relaxed); let mut k = 0; while self.0.load(AO::Relaxed) < self.1 && k < 100_000 { k += 1; if is_miri() { thread::yield_now(); if k > 20 { break } } else { std::hint::spin_loop() } } }
}
macro_rules! join { ($($h:expr),*) => { $( match $h.join() { Ok((r, o)) => { let o: Observed = o; o.merge(); r } Err(e) => std::panic::resume_unwind(e) } );* } }

// ------------------------------------------------------------ workers

/// particles derived in a thread: only validity and contents are looked at
struct Keep<'id> { got: Vec<Pt<'id>>, len: usize }
impl<'id> Sink<'id> for Keep<'id> {
    fn particle(&mut self, op: &'static str, p: Pt<'id>) { check!(p.valid(self.len), "{} in a thread produced {}", op, p.describe()); if self.got.len() < 12 { self.got.push(p) } }
}

/// read a shared container through the given particles and those derived from them
fn reader<'id, T: Elem + Sync, A, M>(v: &Container<'id, A, M>, ps: &[Pt<'id>], model: &[u64], who: u8, st: &Steps, seed: u64, n: usize)
    where A: Contiguous<Item = T> + GetUnchecked
{
    let mut rng = Rng::new(seed);
    let mut pool = ps.to_vec();
    let mut k = Keep { got: vec![], len: model.len() };
    for _ in 0..n {
        st.step(who, &mut rng);
        let (p, q) = (pool[rng.below(pool.len())], pool[rng.below(pool.len())]);
        match p {
            Pt::I(i) => { check_eq!(v[i].id(), T::canon(model[i.integer()]), "element {} read by thread {}", i.integer(), who); expect_ids("v[i..] in a thread", &v[i..], &model[i.integer()..]) }
            Pt::R(r) => expect_ids("v[r] in a thread", &v[r], &model[r.start()..r.end()]),
            Pt::N(r) => { expect_ids("v[r] in a thread", &v[r], &model[r.start()..r.end()]); for i in r { check_eq!(v[i].id(), T::canon(model[i.integer()]), "element {} read by thread {}", i.integer(), who) } }
            Pt::E(i) => expect_ids("v[..i] in a thread", &v[..i], &model[..i.integer()]),
        }
        event("reads by threads");
        let op = rng.below(NOPS);
        let (x, y) = (if op == 21 { rng.range(1, 5) } else { rng.below(model.len() + 2) }, rng.below(model.len() + 2));
        apply(op, v, p, q, x, y, true, &mut k);
        for g in k.got.drain(..) { if pool.len() < 24 { pool.push(g) } else { let j = rng.below(24); pool[j] = g } }
    }
}

/// change a slice that belongs to this thread; the model follows
fn writer<T: Elem>(s: &mut [T], model: &mut Vec<u64>, who: u8, st: &Steps, rng: &mut Rng, n: usize, fresh: &mut u64) {
    let len = model.len();
    scope(s, |mut v| for _ in 0..n {
        st.step(who, rng);
        let (a, b) = (rng.below(len + 1), rng.below(len + 1));
        let (a, b) = (a.min(b), a.max(b));
        let r = v.vet_range(a..b).unwrap();
        match rng.below(7) {
            0 if a < b => { let i = r.nonempty().unwrap().first(); *fresh += 1; v[i] = T::mk(*fresh); model[a] = *fresh }
            1 if a < b => { let (i, j) = (v.vet(a).unwrap(), v.vet(b - 1).unwrap()); v.swap(i, j); model.swap(a, b - 1) }
            2 => if let Ok(r) = r.nonempty() { v.rotate1_up(r); model[a..b].rotate_right(1) },
            3 => if let Ok(r) = r.nonempty() { v.rotate1_down(r); model[a..b].rotate_left(1) },
            4 => { let (x, y) = r.split_in_half(); let m = x.end(); let (p, q) = v.index_twice(x, y).unwrap(); let k = p.len(); p.swap_with_slice(&mut q[..k]); for z in 0..k { model.swap(a + z, m + z) } }
            5 => { v[r].reverse(); model[a..b].reverse() }
            _ => { let (x, y) = r.split_in_half(); let m = x.end(); let k = m - a; v.zip_mut_raw(x, y, |p, q| unsafe { std::ptr::swap(p, q) }); for z in 0..k { model.swap(a + z, m + z) } }
        }
        event("writes by threads");
        expect_ids("slice of one thread", &v[..], model);
    });
}

fn len(rng: &mut Rng) -> usize { if is_miri() { rng.range(2, 7) } else { match rng.below(4) { 0 => rng.range(1, 4), 1 => rng.range(100, 300), _ => rng.range(2, 40) } } }
fn steps() -> usize { mqt(3, 30, 40) }

// ------------------------------------------------------------ scenarios

/// one container, shared by reference; particles made here are used there
fn shared<T: Elem + Send + Sync>(s: u64) {
    let mut rng = Rng::new(s);
    let n = len(&mut rng);
    let mut a = Arena::<T>::new(n, 2, 100);
    let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let st = Steps::new();
    macro_rules! with { ($v:ident) => { {
        let mut ps = vec![Pt::R($v.range()), Pt::R($v.empty_range())];
        for _ in 0..6 { let i = $v.vet(rng.below(n)).unwrap(); ps.push(Pt::I(i)); let (a, b) = $v.split_after(i); ps.push(Pt::N(a)); ps.push(Pt::R(b)) }
        let g = Gate::new(3);
        let (w, p, m, t) = (&$v, &ps[..], &model[..], &st);
        thread::scope(|sc| {
            let hs: Vec<_> = (1..3u8).map(|k| { let g = &g; sc.spawn(move || observed(|| { g.wait(); reader(w, p, m, k, t, s ^ k as u64, steps()) })) }).collect();
            g.wait();
            reader(w, p, m, 0, t, s ^ 77, steps());
            for h in hs { join!(h) }
        });
    } } }
    match rng.below(4) {
        0 => scope(a.mid_ref(), |v| with!(v)),
        1 => scope(a.mid(), |v| with!(v)),
        2 => scope(roomy::<T>(n, s as usize % 3, 100), |v| with!(v)),
        _ => scope(roomy::<T>(n, s as usize % 3, 100), |v| { let v = v.only_index(); with!(v) }),
    }
    a.expect("sharing", &model);
    done(&st);
    event("shared containers");
}

/// clones and twins of a container, moved into threads, with particles of the original
fn copies<T: Elem + Send + Sync>(s: u64) {
    let mut rng = Rng::new(s);
    let n = len(&mut rng);
    let d: Vec<T> = (0..n as u64).map(|i| T::mk(100 + i)).collect();
    let mut e: Vec<T> = (0..n as u64).map(|i| T::mk(9000 + i)).collect();
    let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let mut model2: Vec<u64> = (0..n as u64).map(|i| 9000 + i).collect();
    let st = Steps::new();
    let g = Gate::new(3);
    scope(&d[..], |v| {
        let mut ps = vec![Pt::R(v.range())];
        for _ in 0..4 { let i = v.vet(rng.below(n)).unwrap(); ps.push(Pt::I(i)); ps.push(Pt::N(v.split_after(i).0)) }
        let mut twin = v.make_twin(&mut e[..]).unwrap();
        let c = v.clone();
        let (p, m, t, g) = (&ps[..], &model[..], &st, &g);
        let m2 = &mut model2;
        thread::scope(|sc| {
            let h = sc.spawn(move || observed(|| { g.wait(); reader(&c, p, m, 1, t, s ^ 1, steps()) }));
            let k = sc.spawn(move || observed(|| {
                g.wait();
                let mut rng = Rng::new(s ^ 5);
                let mut fresh = 50_000;
                for _ in 0..steps() {
                    t.step(2, &mut rng);
                    match *rng.pick(p) {
                        Pt::I(i) => { fresh += 1; twin[i] = T::mk(fresh); m2[i.integer()] = fresh; let j = twin.vet(rng.below(n)).unwrap(); twin.swap(i, j); m2.swap(i.integer(), j.integer()) }
                        Pt::N(r) => { twin.rotate1_up(r); m2[r.start()..r.end()].rotate_right(1) }
                        Pt::R(r) => { twin[r].reverse(); m2[r.start()..r.end()].reverse() }
                        _ => {}
                    }
                    expect_ids("twin in a thread", &twin[twin.range()], m2);
                    event("writes by threads");
                }
                twin.len()
            }));
            g.wait();
            reader(&v, p, m, 0, t, s ^ 77, steps());
            join!(h); let l = join!(k);
            check_eq!(l, n, "length of the twin");
        });
    });
    expect_ids("original after the twin", &d, &model);
    expect_ids("twin", &e, &model2);
    done(&st);
    event("clones and twins");
}

/// the disjoint slices of one container, mutated at the same time; recursively
fn disjoint<T: Elem + Send + Sync>(s: u64) {
    let mut rng = Rng::new(s);
    let n = len(&mut rng) + 1;
    let mut a = Arena::<T>::new(n, 2, 100);
    let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let st = Steps::new();
    let depth = if is_miri() { 1 } else { rng.range(1, 3) };
    fn split<T: Elem + Send>(s: &mut [T], seed: u64, depth: usize, who: u8, st: &Steps, model: &mut Vec<u64>) {
        let mut rng = Rng::new(seed ^ who as u64);
        let n = s.len();
        let mut fresh = 10_000 * (who as u64 + 1);
        if depth == 0 || n < 2 { writer(s, model, who, st, &mut rng, steps(), &mut fresh); return }
        scope(s, |mut v| {
            let r = v.range().nonempty().unwrap();
            // any two ranges in order, with or without a gap, one of them possibly empty
            let (x, y): (Range, Range) = match rng.below(5) {
                0 => v.range().split_in_half(),
                1 => { let i = v.vet(rng.below(n)).unwrap(); let (x, y) = v.split_at(i); (x, y.no_proof()) }
                2 => { let i = v.vet(rng.below(n)).unwrap(); let (x, y) = v.split_after(i); (x.no_proof(), y) }
                3 => { let (p, q) = (rng.below(n + 1), rng.below(n + 1)); let m = v.vet_range(p.min(q)..p.max(q)).unwrap(); v.split_around(m) }
                _ => { let (x, y, ok) = r.split_at(rng.below(n)); check!(ok, "split_at"); (x, y) }
            };
            let (xa, xb, ya, yb) = (x.start(), x.end(), y.start(), y.end());
            let (mut m1, mut m2) = (model[xa..xb].to_vec(), model[ya..yb].to_vec());
            let (p, q) = v.index_twice(x, y).unwrap_or_else(|_| fail(format!("index_twice({}..{}, {}..{}) refused", xa, xb, ya, yb)));
            check!(p.len() == xb - xa && q.len() == yb - ya, "index_twice: lengths");
            let (r1, r2) = (&mut m1, &mut m2);
            let g = Gate::new(2);
            thread::scope(|sc| {
                let g = &g;
                let h = sc.spawn(move || observed(|| { g.wait(); split(p, seed, depth - 1, who * 2 + 1, st, r1) }));
                g.wait();
                split(q, seed, depth - 1, who * 2 + 2, st, r2);
                join!(h);
            });
            model[xa..xb].copy_from_slice(&m1);
            model[ya..yb].copy_from_slice(&m2);
            expect_ids("slices mutated by two threads", &v[..], model);
        });
        event("disjoint mutations");
    }
    split(a.mid(), s, depth, 0, &st, &mut model);
    a.expect("disjoint mutation", &model);
    done(&st);
}

/// the container goes to another thread (and grows there) and comes back
fn moved<T: Elem + Send + Sync>(s: u64) {
    let mut rng = Rng::new(s);
    let n = len(&mut rng);
    let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let st = Steps::new();
    scope(roomy::<T>(n, s as usize % 3, 100), |v| {
        let first: Vec<Index> = v.range().into_iter().collect();
        let w = v.only_index();
        let (f, t, m) = (&first[..], &st, &mut model);
        let (mut w, made) = thread::scope(|sc| {
            let h = sc.spawn(move || observed(|| {
                let mut w = w;
                let mut rng = Rng::new(s ^ 3);
                let mut made = vec![];
                for k in 0..steps() as u64 {
                    t.step(1, &mut rng);
                    match rng.below(3) {
                        0 => { made.push(w.push(T::mk(500 + k))); m.push(500 + k) }
                        1 => { let i = *rng.pick(f); w.insert(i, T::mk(700 + k)); m.insert(i.integer(), 700 + k) }
                        _ => { let i = *rng.pick(f); w[i] = T::mk(900 + k); m[i.integer()] = 900 + k }
                    }
                    event("writes by threads");
                }
                (w, made)
            }));
            match h.join() { Ok((r, o)) => { o.merge(); r } Err(e) => std::panic::resume_unwind(e) }
        });
        for i in first.iter().chain(&made) { check_eq!(w[*i].id(), T::canon(model[i.integer()]), "element {} after the container came back", i.integer()); event("reads by threads") }
        let i = w.push(T::mk(7)); model.push(7);
        check_eq!((i.integer(), w.len()), (model.len() - 1, model.len()), "push after the container came back");
        expect_ids("container that came back", &w[w.range()], &model);
    });
    done(&st);
    event("containers moved");
}

/// particles travel through channels
fn channel<T: Elem + Send + Sync>(s: u64) {
    let mut rng = Rng::new(s);
    let n = len(&mut rng);
    let model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let st = Steps::new();
    scope(roomy::<T>(n, s as usize % 3, 100), |v| {
        let (v, m, t) = (&v, &model, &st);
        thread::scope(|sc| {
            let (tx, rx) = mpsc::sync_channel::<Pt>(2);
            let h = sc.spawn(move || observed(move || {
                let mut rng = Rng::new(s ^ 3);
                for _ in 0..steps() {
                    t.step(1, &mut rng);
                    let a = rng.below(n);
                    let p = match rng.below(3) { 0 => Pt::I(v.vet(a).unwrap()), 1 => Pt::R(v.vet_range(a..rng.range(a, n)).unwrap()), _ => Pt::N(v.split_after(v.vet(a).unwrap()).0) };
                    if tx.send(p).is_err() { break }
                }
            }));
            let mut rng = Rng::new(s ^ 9);
            for p in rx { event("particles received"); reader(v, &[p], m, 2, t, rng.next(), 2) }
            join!(h);
        });
    });
    done(&st);
}

/// a container behind a lock: every operation is applied exactly once, in the order of the lock
fn locked<T: Elem + Send + Sync>(s: u64) {
    let mut rng = Rng::new(s);
    let n = len(&mut rng);
    let mut a = Arena::<T>::new(n, 2, 100);
    let mut model: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
    let st = Steps::new();
    scope(a.mid(), |v| {
        let is: Vec<Index> = v.range().into_iter().collect();
        let log = Mutex::new(vec![]);
        let v = RwLock::new(v);
        let (p, t, l, w) = (&is[..], &st, &log, &v);
        thread::scope(|sc| {
            let hs: Vec<_> = (0..3u8).map(|who| sc.spawn(move || observed(|| {
                let mut rng = Rng::new(s ^ who as u64);
                for _ in 0..steps() {
                    t.step(who, &mut rng);
                    let (i, j) = (*rng.pick(p), *rng.pick(p));
                    if rng.chance(1, 3) { let v = w.read().unwrap(); let r = v.range(); check_eq!((v[r].len(), v.len()), (n, n), "length seen by a thread"); v[i].id(); v[j].id(); continue }
                    let mut v = w.write().unwrap();
                    v.swap(i, j);
                    l.lock().unwrap().push((i.integer(), j.integer()));
                    event("writes by threads");
                }
            }))).collect();
            for h in hs { join!(h) }
        });
        for (i, j) in log.into_inner().unwrap() { model.swap(i, j) }
    });
    a.expect("container behind a lock", &model);
    done(&st);
    event("locked containers");
}

/// the algorithms, in several threads at the same time on data of their own and on shared slices
fn algorithms(s: u64) {
    let mut rng = Rng::new(s);
    let n = if is_miri() { rng.range(2, 30) } else { rng.range(0, 200) };
    let st = Steps::new();
    let mut all: Vec<Kt> = rand_keys(&mut rng, n, 50).into_iter().enumerate().map(|(i, k)| Kt(k as u32, i as u32)).collect();
    let mut sorted = all.clone();
    sorted.sort();
    let cut = rng.below(n + 1);
    let (x, y) = all.split_at_mut(cut);
    let g = Gate::new(2);
    let (t, sh, g) = (&st, &sorted[..], &g);
    let work = move |d: &mut [Kt], who: u8| {
        let mut rng = Rng::new(s ^ who as u64);
        let mut want: Vec<Kt> = d.to_vec();
        want.sort();
        let want_keys: Vec<u32> = want.iter().map(|k| k.0).collect();
        g.wait();
        let (o, b) = (algos::ord_sorts::<Kt>(), algos::by_sorts::<Kt>());
        for _ in 0..mqt(2, 12, 12) {
            t.step(who, &mut rng);
            rng.shuffle(d);
            let k = rng.below(o.len() + b.len() + 2);
            if k < o.len() { (o[k].1)(d) } else if k < o.len() + b.len() { if d.len() > 60 { continue } (b[k - o.len()].2)(d, &mut |a, b| a < b) }
            else if k == o.len() + b.len() { heapify(d); for i in 1..d.len() { check!(d[(i - 1) / 2] <= d[i], "heapify in a thread") } d.sort() }
            else if d.len() > 1 { let h = d.len() / 2; d[..h].sort(); d[h..].sort(); let mut b: Vec<Kt> = (0..h as u32).map(|i| Kt(i, i)).collect(); merge_internal_ranges(d, h, &mut b).unwrap(); merge_internal_indices(&mut b, 0, &mut []).unwrap() }
            let got: Vec<u32> = d.iter().map(|k| k.0).collect();
            check!(got == want_keys || d.len() <= 1, "sorting in a thread (choice {}): {:?} instead of {:?}", k, short(&got), short(&want_keys));
            let mut tags: Vec<u32> = d.iter().map(|k| k.1).collect(); tags.sort();
            let mut wt: Vec<u32> = want.iter().map(|k| k.1).collect(); wt.sort();
            check!(tags == wt, "elements lost in a thread");
            // searches in data shared by all
            for _ in 0..3 { if sh.len() == 0 { break }
                let i = rng.below(sh.len());
                let lo = sh.iter().take_while(|x| **x < sh[i]).count();
                for (name, f) in algos::lower_elts::<Kt>() { check_eq!(f(sh, &sh[i]), lo, "{} in a thread", name) }
                for (name, f) in algos::bin_searches::<Kt>() { match f(sh, &mut |x| x.cmp(&sh[i])) { Ok(j) => check!(sh[j] == sh[i], "{} in a thread", name), Err(_) => fail(format!("{} in a thread: not found", name)) } }
            }
            event("algorithms run by threads");
        }
    };
    thread::scope(|sc| {
        let h = sc.spawn(move || observed(|| work(x, 1)));
        work(y, 2);
        join!(h);
    });
    done(&st);
}

/// the same integers, in bounds here and out of bounds there, vetted by all threads at once
fn deciding(s: u64) {
    let mut rng = Rng::new(s);
    let st = Steps::new();
    let g = Gate::new(3);
    let top = if is_miri() { 4 } else { rng.range(2, 40) };
    let own = rng.chance(1, 3);
    let lens: Vec<usize> = (0..3).map(|_| rng.below(top)).collect();
    let ints: Vec<usize> = (0..4).map(|k| match k { 0 => lens[0], 1 => lens[1], 2 => lens[2].wrapping_sub(1), _ => rng.below(top) }).collect();
    let (l, x, t, g) = (&lens, &ints, &st, &g);
    fn decide<'id, A: Trustworthy, M>(v: &Container<'id, A, M>, n: usize, who: u8, s: u64, x: &[usize], t: &Steps, g: &Gate) {
        let mut rng = Rng::new(s ^ who as u64);
        g.wait();
        let all = v.range();
        let mut ok = 0;
        for round in 0..mqt(2, 20, 40) {
            t.step(who, &mut rng);
            let kind = (round + rng.below(2) + who as usize) % 5;
            for k in 0..if is_miri() { 3 } else { 400 } {
                let (a, b) = (x[k % x.len()], x[(k * 7 + round) % x.len()]);
                let good = match kind {
                    0 => match v.vet(a) { Ok(i) => i.integer() == a && a < n, Err(_) => a >= n },
                    1 => match v.vet_range(a..b) { Ok(r) => (r.start(), r.end()) == (a, b) && a <= b && b <= n, Err(_) => !(a <= b && b <= n) },
                    2 => match all.contains(a) { Some(i) => i.integer() == a && a < n, None => a >= n },
                    3 => match all.nonempty() { Ok(r) => r.first().integer() == 0 && r.last().integer() + 1 == n && n > 0, Err(_) => n == 0 },
                    _ => { let (p, q, fit) = all.split_at(a); let m = a.min(n); fit == (a <= n) && (p.start(), p.end(), q.start(), q.end()) == (0, m, m, n) }
                };
                if !good { fail(format!("thread {}: a decision about {} and {} in a container of {} elements is wrong ({})", who, a, b, n, ["vet", "vet_range", "contains", "nonempty", "split_at"][kind])) }
                ok += 1;
            }
        }
        events("decisions by threads", ok);
    }
    let one = move |who: u8| {
        let n = l[who as usize];
        if own { scope(vec![0u8; n], |v| decide(&v.only_index(), n, who, s, x, t, g)) } else { let d = vec![7u32; n]; scope(&d[..], |v| decide(&v, n, who, s, x, t, g)) }
    };
    thread::scope(|sc| {
        let hs: Vec<_> = (1..3u8).map(|k| sc.spawn(move || observed(|| one(k)))).collect();
        one(0);
        for h in hs { join!(h) }
    });
    done(&st);
}

fn main() {
    run::main(|| {
        macro_rules! one { ($s:expr, $j:expr, $t:ty) => { if !is_miri() || $s % 2 == $j % 2 {
            let s = $s ^ $j as u64;
            case("~shared", &[$j, s as i128], || shared::<$t>(s));
            case("~clones and twins", &[$j, s as i128], || copies::<$t>(s));
            case("~disjoint", &[$j, s as i128], || disjoint::<$t>(s));
            case("~moved", &[$j, s as i128], || moved::<$t>(s));
            case("~channel", &[$j, s as i128], || channel::<$t>(s));
            case("~locked", &[$j, s as i128], || locked::<$t>(s));
        } } }
        rounds("threads", 1, 60, |_, s| {
            one!(s, 0, u64); one!(s, 1, [u8; 3]);
            if !is_miri() { one!(s, 2, Box<u64>); one!(s, 3, String); one!(s, 4, Big); one!(s, 5, u8); }
            for k in 0..mqt(1, 3, 3) { case("~deciding", &[k, s as i128], || deciding(s ^ k as u64)); }
            for k in 0..mqt(1, 4, 4) { case("~algorithms", &[k, s as i128], || algorithms(s ^ k as u64)); }
        });
    });
}
