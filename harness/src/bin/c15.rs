//! C15: hostile callbacks never duplicate, lose or corrupt elements.
use indexing::algorithms::*;
use indexing::scope;
use mon::algos::*;
use mon::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Owned elements with hooked comparisons.
trait Hk: Ord + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    fn mk(key: i64, id: u64) -> Self;
    fn id(&self) -> u64;
    fn key(&self) -> i64;
    /// comparison as the closures of the `_by` functions do it
    fn c(&self, o: &Self) -> Ordering { hooked(self.key(), o.key()) }
}
impl Hk for Tk {
    const NAME: &'static str = "tracked";
    fn mk(key: i64, id: u64) -> Self { Tk::new(key, id) }
    fn id(&self) -> u64 { Tk::id(self) }
    fn key(&self) -> i64 { Tk::id(self); self.key }
}
macro_rules! hooked_ord { ($t:ty) => {
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.c(o) == Ordering::Equal } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.c(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.c(o) } }
} }
/// heap owning, large and oddly sized; every comparison also writes to both elements
struct Bk { b: Box<(i64, u64)>, seen: Cell<u16>, t: Tr, pad: [u8; 13] }
impl Hk for Bk {
    const NAME: &'static str = "boxed, mutated by comparisons";
    fn mk(key: i64, id: u64) -> Self { Bk { b: Box::new((key, id)), seen: Cell::new(0), t: Tr::mk(id), pad: [id as u8; 13] } }
    fn id(&self) -> u64 { if self.pad != [self.b.1 as u8; 13] || self.t.id() != self.b.1 { soft_fail("torn element".into()) } self.b.1 }
    fn key(&self) -> i64 { self.seen.set(self.seen.get().wrapping_add(1)); self.b.0 }
}
hooked_ord!(Bk);
/// Every comparison an element takes part in replaces the state it owns. A registry outside of the
/// elements counts them: a comparison with a bitwise copy that is not the element that stays (or is
/// freed again through it) shows as a state that disagrees with the registry.
struct Ik { key: i64, id: u64, state: RefCell<Box<[u64; 3]>>, t: Tr }
thread_local! { static TOOK_PART: RefCell<HashMap<u64, u64>> = RefCell::new(HashMap::new()) }
fn took_part(id: u64) -> u64 { TOOK_PART.with(|m| m.borrow().get(&id).cloned().unwrap_or(0)) }
impl Hk for Ik {
    const NAME: &'static str = "owning state replaced by comparisons";
    fn mk(key: i64, id: u64) -> Self { TOOK_PART.with(|m| m.borrow_mut().insert(id, 0)); Ik { key, id, state: RefCell::new(Box::new([id, 0, !id])), t: Tr::mk(id) } }
    fn id(&self) -> u64 {
        let s = **self.state.borrow();
        if s[0] != self.id || s[2] != !self.id || self.t.id() != self.id { soft_fail(format!("torn element {} {:?}", self.id, s)) }
        if s[1] != took_part(self.id) { soft_fail(format!("element {} was changed by {} comparisons, but {} of those changes are left: a comparison ran on a copy", self.id, took_part(self.id), s[1])) }
        self.id
    }
    fn key(&self) -> i64 {
        self.id();
        let n = self.state.borrow()[1] + 1;
        *self.state.borrow_mut() = Box::new([self.id, n, !self.id]);
        TOOK_PART.with(|m| *m.borrow_mut().entry(self.id).or_insert(0) += 1);
        event("states replaced by comparisons");
        self.key
    }
}
hooked_ord!(Ik);

thread_local! { static DEPTH: Cell<u32> = Cell::new(0) }
/// A comparison that itself calls the library, on other data (and in part unwinding): nothing the
/// library keeps between calls may leak from one call into the other.
struct Nk { key: i64, t: Tr }
impl Hk for Nk {
    const NAME: &'static str = "comparisons call the library";
    fn mk(key: i64, id: u64) -> Self { Nk { key, t: Tr::mk(id) } }
    fn id(&self) -> u64 { self.t.id() }
    fn key(&self) -> i64 {
        let d = DEPTH.with(|d| d.get());
        if d < 2 { DEPTH.with(|x| x.set(d + 1)); nested(self.key, self.t.id() + d as u64); DEPTH.with(|x| x.set(d)) }
        self.key
    }
}
hooked_ord!(Nk);
/// one small call of everything, checked
fn nested(key: i64, pick: u64) {
    event("library calls from within comparisons");
    let n = [2, 5, 30][(pick % 3) as usize];
    let mut a: Vec<i64> = (0..n).map(|i| (i * 7 + key) % 11).collect();
    let mut want = a.clone();
    want.sort();
    match pick / 3 % 7 {
        0 => { let t = ord_sorts::<i64>(); t[pick as usize % t.len()].1(&mut a); check_eq!(a, want, "a sort called from within a comparison") }
        1 => { let t = by_sorts::<i64>(); t[pick as usize % t.len()].2(&mut a, &mut |x, y| x < y); check_eq!(a, want, "a sort called from within a comparison") }
        2 => { let le = n as usize / 2; a[..le].sort(); a[le..].sort(); let mut b = vec![0; le + 1]; let t = merges::<i64>(); check!(t[pick as usize % t.len()].1(&mut a, le, &mut b).is_ok(), "a merge called from within a comparison"); check_eq!(a, want, "a merge called from within a comparison") }
        3 => { let t = bin_searches::<i64>(); let w = t[pick as usize % t.len()].1(&want, &mut |x| x.cmp(&want[0])); check!(matches!(w, Ok(i) if want[i] == want[0]), "a search called from within a comparison: {:?}", w) }
        4 => { let mut u = want.clone(); insertion_sort2_indexes(&mut a, &mut u, |x, y| x < y); check_eq!(a, want, "a two-slice sort called from within a comparison") }
        5 => { let r = catch_unwind(AssertUnwindSafe(|| insertion_sort_ranges(&mut a, |_, _| std::panic::resume_unwind(Box::new(Injected))))); check!(r.is_err(), "a panic vanished"); a.sort(); check_eq!(a, want, "a call unwound within a comparison") }
        _ => { scope(&mut a[..], |mut v| { if let Ok(r) = v.range().nonempty() { v.rotate1_up(r); v.rotate1_down(r); v.scan_from(r.first(), |_| true); v.swap(r.first(), r.last()) } }); a.sort(); check_eq!(a, want, "a scope within a comparison") }
    }
}
struct Zk(#[allow(dead_code)] Zt);
impl Hk for Zk {
    const NAME: &'static str = "zero-sized";
    const ZST: bool = true;
    fn mk(_: i64, id: u64) -> Self { Zk(Zt::mk(id)) }
    fn id(&self) -> u64 { 0 }
    fn key(&self) -> i64 { 0 }
}
hooked_ord!(Zk);

struct Store<T> { v: Vec<T>, g: usize, n: usize, want: Vec<u64> }
impl<T: Hk> Store<T> {
    fn new(keys: &[i64], g: usize, first: u64) -> Self {
        let mut v = Vec::with_capacity(keys.len() + 2 * g);
        for i in 0..g { v.push(T::mk(5, first + 500_000 + i as u64)) }
        for (i, &k) in keys.iter().enumerate() { v.push(T::mk(k, first + i as u64)) }
        for i in 0..g { v.push(T::mk(5, first + 600_000 + i as u64)) }
        let want = v.iter().map(|x| x.id()).collect();
        Store { v, g, n: keys.len(), want }
    }
    fn s(&mut self) -> &mut [T] { let (g, n) = (self.g, self.n); &mut self.v[g..g + n] }
    fn ids(&self) -> Vec<u64> { self.v.iter().map(|x| x.id()).collect() }
    fn guards(&self, what: &str) {
        let a = self.ids();
        check!(a[..self.g] == self.want[..self.g] && a[self.g + self.n..] == self.want[self.g + self.n..], "{}<{}>: memory outside the slice changed", what, T::NAME);
    }
    /// every element once, nothing outside changed
    fn intact(&self, what: &str) {
        self.guards(what);
        let (mut a, mut b) = (self.ids(), self.want.clone());
        a.sort();
        b.sort();
        check!(a == b, "{}<{}>: elements duplicated or lost: {} from {}", what, T::NAME, short(&self.ids()), short(&self.want));
    }
    fn untouched(&self, what: &str) { check!(self.ids() == self.want, "{}<{}>: elements moved: {} from {}", what, T::NAME, short(&self.ids()), short(&self.want)) }
}
fn both_intact<T: Hk>(what: &str, a: &Store<T>, b: &Store<T>) {
    a.guards(what);
    b.guards(what);
    let mut x = a.ids();
    x.extend(b.ids());
    let mut y = a.want.clone();
    y.extend(&b.want);
    x.sort();
    y.sort();
    check!(x == y, "{}<{}>: elements duplicated or lost in {} and {}", what, T::NAME, short(&a.ids()), short(&b.ids()));
}

/// Run `f` on fresh data under a mode; returns (completed, comparisons)
fn attempt<T: Hk>(what: &str, keys: &[i64], mode: Mode, budget: u64, f: &dyn Fn(&mut [T])) -> (bool, u64) {
    ledger_reset();
    let out;
    {
        let mut st = Store::<T>::new(keys, 2, 1000);
        let live = ledger_live();
        set_mode(mode, budget);
        DEPTH.with(|d| d.set(0));
        let r = catch_unwind(AssertUnwindSafe(|| f(st.s())));
        let c = comparisons();
        set_mode(Mode::Honest, u64::MAX);
        if let Err(p) = &r { if !p.is::<Injected>() { event("library panics") } else { event("unwound") } } else { event("completed") }
        check_eq!(ledger_live(), live, "{}<{}> {:?}: live elements after the call", what, T::NAME, mode);
        st.intact(what);
        // still usable: it can be sorted
        let mut l: Vec<i64> = st.s().iter().map(|x| x.key()).collect();
        insertion_sort_ranges(st.s(), |a, b| a.key() < b.key());
        st.intact("sorting after the fault");
        l.sort();
        check_eq!(st.s().iter().map(|x| x.key()).collect::<Vec<_>>(), l, "{}: sorting after the fault", what);
        out = (r.is_ok(), c);
    }
    ledger_clean(what);
    out
}

/// Every single fault point (up to `max`, then a spread), plus inconsistent orders.
fn torture<T: Hk>(what: &'static str, keys: &[i64], max: u64, seed: u64, f: &dyn Fn(&mut [T])) {
    let n = keys.len() as u64;
    let budget = 40 * n * n + 2000;
    let (done, c) = attempt::<T>(what, keys, Mode::Honest, u64::MAX, f);
    check!(done, "{}<{}> did not finish on {}", what, T::NAME, short(keys));
    let step = (c / max).max(1);
    let mut k = 0;
    while k < c {
        let (done, _) = attempt::<T>(what, keys, Mode::PanicAt(k), budget, f);
        // (an element comparing itself away may end early, but not normally: call k was made above)
        check!(!done, "{}<{}>: panic at comparison {} of {} vanished", what, T::NAME, k, c);
        event("fault points");
        k += step;
    }
    for m in [Mode::Always(Ordering::Less), Mode::Always(Ordering::Equal), Mode::Always(Ordering::Greater), Mode::Reverse, Mode::Chaos(seed), Mode::Chaos(seed ^ 1), Mode::Chaos(seed ^ 2)] {
        attempt::<T>(what, keys, m, budget, f);
        event("inconsistent orders");
    }
}
/// the same function again, after all those faults
fn afterwards<T: Hk>(what: &str, keys: &[i64], f: &dyn Fn(&mut [T])) {
    let mut st = Store::<T>::new(keys, 1, 1000);
    f(st.s());
    st.intact(what);
    let mut want = keys.to_vec();
    want.sort();
    if !T::ZST { check_eq!(st.s().iter().map(|x| x.key()).collect::<Vec<_>>(), want, "{}<{}>: an honest run after the faults", what, T::NAME) }
    event("honest runs after faults");
}
fn sorts<T: Hk>(keys: &[i64], max: u64, seed: u64) {
    for (name, f) in ord_sorts::<T>() { torture::<T>(name, keys, max, seed, &|v| f(v)); afterwards::<T>(name, keys, &|v| f(v)) }
    for (name, _, f) in by_sorts::<T>() {
        torture::<T>(name, keys, max, seed, &|v| f(v, &mut |a, b| a.c(b) == Ordering::Less));
        torture::<T>(name, keys, max, seed, &|v| f(v, &mut |a, b| a.c(b) != Ordering::Greater)); // not strict
        afterwards::<T>(name, keys, &|v| f(v, &mut |a, b| a.c(b) == Ordering::Less));
    }
    torture::<T>("heapify", keys, max, seed, &|v| heapify(v));
    // lower bound and binary searches: shared access, nothing may move
    if !keys.is_empty() && !T::ZST {
        for (name, f) in bin_searches::<T>() { torture::<T>(name, keys, max, seed, &|v| { let k = v.len() as i64 / 2; let b: Vec<u64> = v.iter().map(|x| x.id()).collect(); let r = catch_unwind(AssertUnwindSafe(|| { let _ = f(v, &mut |x| hooked(x.key(), k)); })); check!(b == v.iter().map(|x| x.id()).collect::<Vec<_>>(), "{} moved elements", name); if let Err(p) = r { std::panic::resume_unwind(p) } }) }
        for (name, f) in lower_bys::<T>() { torture::<T>(name, keys, max, seed, &|v| { let k = v.len() as i64 / 2; f(v, &mut |x| hooked(x.key(), k) == Ordering::Less); }) }
    }
}
/// the two-slice sort: both slices conserve their elements
fn sort2<T: Hk>(keys: &[i64], nu: usize, max: u64, seed: u64) {
    let n = keys.len() as u64;
    let go = |mode, budget| {
        ledger_reset();
        let c;
        {
            let mut a = Store::<T>::new(keys, 2, 1000);
            let mut b = Store::<Bk>::new(&vec![1; nu], 2, 500);
            let live = ledger_live();
            set_mode(mode, budget);
            let r = catch_unwind(AssertUnwindSafe(|| insertion_sort2_indexes(a.s(), b.s(), |x, y| x.c(y) == Ordering::Less)));
            c = comparisons();
            set_mode(Mode::Honest, u64::MAX);
            let _ = r;
            check_eq!(ledger_live(), live, "insertion_sort2_indexes: live elements");
            if nu == keys.len() { a.intact("insertion_sort2_indexes"); b.intact("insertion_sort2_indexes (second slice)"); }
            else { a.untouched("insertion_sort2_indexes with unequal lengths"); b.untouched("insertion_sort2_indexes with unequal lengths (second slice)"); }
        }
        ledger_clean("insertion_sort2_indexes");
        c
    };
    let c = go(Mode::Honest, u64::MAX);
    let step = (c / max).max(1);
    let mut k = 0;
    while k < c { go(Mode::PanicAt(k), u64::MAX); event("fault points"); k += step }
    for m in [Mode::Always(Ordering::Less), Mode::Always(Ordering::Greater), Mode::Chaos(seed)] { go(m, 40 * n * n + 2000); event("inconsistent orders") }
}
fn merge<T: Hk>(left: &[i64], right: &[i64], nb: usize, max: u64, seed: u64) {
    if left.is_empty() && right.is_empty() { return }
    let keys: Vec<i64> = left.iter().chain(right).cloned().collect();
    let n = keys.len() as u64;
    for (name, f) in merges::<T>() {
        let go = |mode, budget| {
            ledger_reset();
            let c;
            {
                let mut a = Store::<T>::new(&keys, 2, 1000);
                let mut b = Store::<T>::new(&vec![1; nb], 2, 5000);
                let live = ledger_live();
                set_mode(mode, budget);
                let (le, sa, sb) = (left.len(), a.s() as *mut [T], b.s() as *mut [T]);
                let r = catch_unwind(AssertUnwindSafe(|| { let _ = f(unsafe { &mut *sa }, le, unsafe { &mut *sb }); }));
                c = comparisons();
                set_mode(Mode::Honest, u64::MAX);
                event(if r.is_ok() { "completed" } else { "unwound" });
                check_eq!(ledger_live(), live, "{}: live elements", name);
                both_intact(name, &a, &b);
                if nb < le { a.untouched(name); b.untouched(name) }
                // beyond left_end the buffer is never used
                else { check!(b.ids()[2 + le..] == b.want[2 + le..], "{}<{}>: buffer beyond left_end {} changed", name, T::NAME, le) }
            }
            ledger_clean(name);
            c
        };
        let c = go(Mode::Honest, u64::MAX);
        let step = (c / max).max(1);
        let mut k = 0;
        while k < c { go(Mode::PanicAt(k), u64::MAX); event("fault points"); k += step }
        for m in [Mode::Always(Ordering::Less), Mode::Always(Ordering::Equal), Mode::Always(Ordering::Greater), Mode::Reverse, Mode::Chaos(seed), Mode::Chaos(seed ^ 1)] { go(m, 40 * n + 2000); event("inconsistent orders") }
    }
}

/// a callback that panics at its k-th call, or answers by the bits
fn cb(k: u64, count: &Cell<u64>) { let n = count.get(); count.set(n + 1); if n == k { std::panic::panic_any(Injected) } }

/// scans, visitors and scopes with panics at every call
fn operations<T: Hk>(n: usize, owned: bool) {
    let keys: Vec<i64> = (0..n as i64).collect();
    macro_rules! each { ($name:expr, $v:ident, $k:ident, $c:ident, $body:expr) => {{
        let mut $k = 0u64;
        loop {
            ledger_reset();
            let $c = Cell::new(0);
            let finished;
            {
                let mut st = Store::<T>::new(&keys, 2, 1000);
                let live = ledger_live();
                let r = catch_unwind(AssertUnwindSafe(|| scope(st.s(), |mut $v| { $body })));
                finished = r.is_ok();
                check_eq!(ledger_live(), live, "{}<{}>: live elements after a panic at call {}", $name, T::NAME, $k);
                st.intact($name);
            }
            ledger_clean($name);
            event("fault points");
            $k += 1;
            if finished || $k > 300 { break }
        }
    }} }
    each!("scan_from", v, k, c, { if let Ok(r) = v.range().nonempty() { v.scan_from(r.first(), |_| { cb(k, &c); true }); v.rotate1_up(r); } });
    each!("scan_from_rev", v, k, c, { if let Ok(r) = v.range().nonempty() { v.rotate1_down(r); v.scan_from_rev(r.last(), |_| { cb(k, &c); true }); } });
    each!("scan_range", v, k, c, { let r = v.range(); let (a, _) = v.scan_range(r, |x| { cb(k, &c); x.key() % 3 != 2 }); if let Ok(a) = a.nonempty() { v.rotate1_up(a) } });
    each!("zip_mut_raw", v, k, c, { let (a, b) = v.range().split_in_half(); v.zip_mut_raw(a, b, |x, y| { cb(k, &c); unsafe { std::ptr::swap(x, y) } }) });
    each!("index_twice", v, k, c, { let (a, b) = v.range().split_in_half(); if let Ok((x, y)) = v.index_twice(a, b) { for (p, q) in x.iter_mut().zip(y) { std::mem::swap(p, q); cb(k, &c) } } });
    each!("subdivide", v, k, c, { for r in v.range().subdivide(3) { cb(k, &c); v.rotate1_up(r); cb(k, &c); v.swap(r.first(), r.last()) } });
    #[cfg(feature = "ptr")]
    if !T::ZST {
        use indexing::pointer::zip;
        each!("scan_tail_", v, k, c, { let i = v.pointer_range().nonempty(); if let Ok(r) = i { let t = v.scan_tail_(r.last(), |_| { cb(k, &c); true }); v.rotate1_prange(t); } });
        each!("scan_pointer_range", v, k, c, { let r = v.pointer_range(); let (a, _) = v.scan_pointer_range(r, |x| { cb(k, &c); x.key() % 4 != 3 }); if let Ok(a) = a.nonempty() { v.rotate1_prange(a) } });
        each!("scan_pointer_range_rev", v, k, c, { let r = v.pointer_range(); let (_, a) = v.scan_pointer_range_rev(r, |x| { cb(k, &c); x.key() != 1 }); if let Ok(a) = a.nonempty() { v.rotate1_prange(a) } });
        each!("zip", v, k, c, { let mut o: Vec<T> = (0..n as u64).map(|i| T::mk(9, 70_000 + i)).collect(); let mut order: Vec<u64> = Vec::new();
            scope(&mut o[..], |mut u| zip(v.pointer_range(), &mut v, u.pointer_range(), &mut u, |x, y| { cb(k, &c); order.push(x.id()); std::mem::swap(x, y); std::mem::swap(x, y) })) });
        each!("split_container_at_pointer", v, k, c, { if let Ok(r) = v.pointer_range().nonempty() { v.split_container_at_pointer(r.upper_middle(), |mut a, ra, mut b, rb| { cb(k, &c); if let Ok(ra) = ra.nonempty() { a.rotate1_prange(ra) } cb(k, &c); b.rotate1_prange(rb); cb(k, &c) }) } });
    }
    if owned {
        // containers owning their elements: dropped exactly once at the end or by unwinding
        for k in 0..40u64 {
            ledger_reset();
            let c = Cell::new(0);
            let (b0, d0) = ledger_counts();
            let r = catch_unwind(AssertUnwindSafe(|| scope(keys.iter().map(|&k| T::mk(k, 1000 + k as u64)).collect::<Vec<_>>(), |mut v| {
                cb(k, &c);
                if let Ok(r) = v.range().nonempty() { v.rotate1_up(r); cb(k, &c); v.swap(r.first(), r.last()); cb(k, &c); v.rotate1_down(r); }
                let mut v = v.only_index();
                let mut is = vec![];
                for i in 0..6 { is.push(v.push(T::mk(50 + i, 3000 + i as u64))); cb(k, &c); let at = is[i as usize / 2]; v.insert(at, T::mk(60 + i, 4000 + i as u64)); cb(k, &c); v.insert(v.range().past_the_end(), T::mk(1, 4100 + i as u64)); cb(k, &c) }
                let e = v.vet(0).unwrap();
                v[e] = T::mk(7, 8000);
                cb(k, &c);
                let mut t: Vec<T> = (0..v.len() as u64).map(|i| T::mk(3, 9000 + i)).collect();
                let mut w = vec![T::mk(1, 2), T::mk(1, 3)];
                let n = t.len();
                scope(&mut t[..], |mut t| { let same = t.make_twin(&mut w[..]).is_ok(); check_eq!(same, n == 2, "twin"); if let Ok(r) = t.range().nonempty() { t.rotate1_up(r); cb(k, &c) } });
                cb(k, &c);
                v.len()
            })));
            if let Err(p) = &r { check!(p.is::<Injected>(), "an owning scope panicked by itself at step {}", c.get()) }
            let (b1, d1) = ledger_counts();
            check_eq!(d1 - d0, b1 - b0, "elements of an owning container dropped (panic at step {})", k);
            ledger_clean("owning container");
            event("owned scopes ended");
            if r.is_ok() { break }
        }
    }
}

fn main() {
    run::main(|| {
        for n in 0..mqt(3, 12, 20usize) { for owned in [false, true] { case("operations", &[n as i128, owned as i128], || { operations::<Tk>(n, owned); operations::<Bk>(n, owned); operations::<Zk>(n, owned); if !is_miri() || n == 2 { operations::<Ik>(n, owned) } if n < 9 && !is_miri() { operations::<Nk>(n, owned) } }) } }
        let pat = |n: usize, p: usize| -> Vec<i64> { let m = n as i64; (0..m).map(|i| match p { 0 => i, 1 => m - i, 2 => 3, 3 => (i * 7919 + 3) % (m + 1), 4 => i % 2, _ => (i - m / 2).abs() }).collect() };
        for n in if is_miri() { vec![3] } else { qt(vec![0, 1, 2, 3, 4, 5, 7, 10, 26, 33], (0..12).chain([24, 25, 26, 27, 33, 48, 60]).collect()) } { for p in 0..6 {
            if is_miri() && p != 3 { continue }
            case("every fault point", &[n as i128, p as i128], || {
                let k = pat(n, p);
                let max = mqt(4, 120, 400);
                sorts::<Tk>(&k, max, 5);
                sorts::<Ik>(&k, mqt(1, 40, 150), 6);
                if n <= 33 && !is_miri() { sorts::<Nk>(&k, mqt(1, 6, 12), 6) }
                if is_miri() { sort2::<Tk>(&k, n, 2, 5); merge::<Tk>(&k[..1], &[2, 9], 2, 3, 5); return }
                sorts::<Bk>(&k, max, 6);
                if n < 6 { sorts::<Zk>(&k, 6, 5) }
                sort2::<Tk>(&k, n, max, 7); sort2::<Bk>(&k, n, max, 7); sort2::<Tk>(&k, n + 1, max, 7); sort2::<Bk>(&k, n.saturating_sub(1), max, 7); sort2::<Ik>(&k, n, max / 3, 7); sort2::<Nk>(&k, n, 3, 7);
                for le in [0, 1, n / 2, n.saturating_sub(1), n] { let le = le.min(n); let (mut l, mut r) = (k[..le].to_vec(), k[le..].to_vec()); l.sort(); r.sort();
                    merge::<Tk>(&l, &r, le + 2, max, 8); merge::<Bk>(&l, &r, le, max, 9); merge::<Ik>(&l, &r, le, max / 3, 9); merge::<Ik>(&k[..le], &k[le..], le + 3, max / 3, 9); merge::<Nk>(&l, &r, le, 3, 9); merge::<Bk>(&k[..le], &k[le..], le + 1, max, 9); if le > 0 { merge::<Tk>(&l, &r, le - 1, max, 8) } if n < 6 { merge::<Zk>(&l, &r, le + 1, max, 8) } }
            })
        } }
        // long: fault points far into a run
        if !is_miri() {
            case("long operations", &[260, 1], || { operations::<Tk>(260, true); operations::<Bk>(260, true) });
            for n in qt(vec![300, 600], vec![300, 600, 1100, 1500]) { for p in [1, 3, 4] { case("long", &[n as i128, p as i128], || {
                let k = pat(n, p);
                if p != 3 { sorts::<Tk>(&k, 3, n as u64); if p == 4 && n == 300 { sorts::<Ik>(&k, 2, 1) } } else { sorts::<Bk>(&k, 3, n as u64) }
                sort2::<Tk>(&k, n, 3, n as u64);
                event("long inputs");
            }) } }
            for n in [1025, 4100, 70_001] { for p in [1, 3, 4] { case("long", &[n as i128, p as i128], || {
                let k = pat(n, p);
                for le in [n / 3, n / 2 + 1, n - 1] { let (mut l, mut r) = (k[..le].to_vec(), k[le..].to_vec()); l.sort(); r.sort();
                    merge::<Tk>(&l, &r, le + 2, 3, n as u64); merge::<Bk>(&l, &r, le, 3, n as u64); if n < 5000 { merge::<Bk>(&k[..le], &k[le..], le + 1, 3, n as u64) } }
                event("long inputs");
            }) } }
        }
        rounds("random", 1, 120, |_, s| case("~random", &[s as i128], || {
            let mut rng = Rng::new(s);
            let n = if is_miri() { 3 } else { rng.below(70) };
            let k: Vec<i64> = rand_keys(&mut rng, n, 1000).into_iter().map(|x| x as i64).collect();
            let max = mqt(1, 12, 30);
            match rng.below(4) { 0 => sorts::<Tk>(&k, max, s), 3 => { sorts::<Ik>(&k, max, s); sort2::<Ik>(&k, n, max, s); let le = rng.range(0, n); merge::<Ik>(&k[..le], &k[le..], le + rng.below(3), max, s) } 1 => sorts::<Bk>(&k, max, s), _ => { sort2::<Tk>(&k, n, max, s);
                for _ in 0..4 { let le = rng.range(0, n); merge::<Bk>(&k[..le], &k[le..], le + rng.below(3), max, s) } } }
        }));
    });
}
