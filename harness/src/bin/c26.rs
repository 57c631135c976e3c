//! C26: each operation alone and interleavings of operations, to be run by an interpreter that tracks borrows.
//! MON_OP selects one operation (each may need a process of its own); without it, the list of operations is
//! run one after the other (natively this checks their results).
use indexing::algorithms::*;
use indexing::container_traits::*;
use indexing::pointer::{zip, PIndex, PSlice};
use indexing::{scope, Container};
use mon::*;
use std::cmp::Ordering;
use std::mem::MaybeUninit;

const N: usize = 6;
fn vals<T: Elem>() -> Vec<T> { (0..N as u64).map(|i| T::mk(10 + i)).collect() }
fn want(w: &[u64]) -> Vec<u64> { w.to_vec() }
fn eq<T: Elem>(what: &str, v: &[T], w: &[u64]) { expect_ids(what, v, w); event("contents compared") }

fn ptrs<'id, T, A: Contiguous<Item = T>>(v: &Container<'id, A>) -> Vec<PIndex<'id, T>> { v.pointer_range().into_iter().collect() }

type Shared = &'static str;
/// operations on a shared container
macro_rules! shared_ops { ($m:ident) => {
    $m!("Index<PIndex>", v => { for (k, p) in ptrs(&v).into_iter().enumerate() { check_eq!(v[p].id(), 10 + k as u64, "v[p]") } });
    $m!("Index<PRange>", v => { let r = v.pointer_range(); eq("v[r]", &v[r], &want(&[10, 11, 12, 13, 14, 15])); let (a, b) = r.split_in_half(); let (x, y) = (&v[a], &v[b]); check_eq!((x[0].id(), y[0].id(), x[2].id()), (10, 13, 12), "halves") });
    $m!("Index<RangeTo<PIndex>>, Index<RangeFrom<PIndex>>", v => { let p = ptrs(&v)[2]; eq("v[..p]", &v[..p], &[10, 11]); eq("v[p..]", &v[p..], &[12, 13, 14, 15]) });
    $m!("distance_to, split_at_pointer, pointer_range_of", v => { let p = ptrs(&v); check_eq!(v.distance_to(p[3]), 3, "distance"); let (a, b) = v.split_at_pointer(p[1]); check_eq!((v[a].len(), v[b].len()), (1, 5), "split"); let r = v.pointer_range_of(..p[4]); eq("of", &v[r], &[10, 11, 12, 13]) });
    $m!("scan_tail_", v => { let p = ptrs(&v)[4]; let r = v.scan_tail_(p, |x| x.id() > 11); eq("scan_tail_", &v[r], &[12, 13, 14]) });
    $m!("scan_pointer_range", v => { let mut kept = vec![]; let (a, b) = v.scan_pointer_range(v.pointer_range(), |x| { kept.push(x); x.id() < 13 }); eq("scan", &v[a], &[10, 11, 12]); eq("scan", &v[b], &[13, 14, 15]); check_eq!(kept.iter().map(|x| x.id()).collect::<Vec<_>>(), vec![10, 11, 12, 13], "kept") });
    $m!("scan_pointer_range_rev", v => { let (a, b) = v.scan_pointer_range_rev(v.pointer_range(), |x| x.id() > 13); eq("scan", &v[a], &[10, 11, 12, 13]); eq("scan", &v[b], &[14, 15]) });
    $m!("zip of shared containers", v => { let mut n = 0; zip(v.pointer_range(), &v, PSlice::from(v.pointer_range()), &v, |x, y| { check_eq!(x.id(), y.id(), "zip"); n += 1 }); check_eq!(n, N, "zip") });
    $m!("pointer particles of a clone of the data", v => { let mut d = vec![]; for i in v.pointer_range() { d.push(v[i].id()) } for i in v.pointer_range().into_iter().rev() { check_eq!(Some(v[i].id()), d.pop(), "rev") } });
} }
macro_rules! mut_ops { ($m:ident) => {
    $m!("IndexMut<PRange>", v => { let r = v.pointer_range(); let (a, _) = r.split_in_half(); let s = &mut v[a]; s.swap(0, 2); eq("swapped", &v[..], &[12, 11, 10, 13, 14, 15]) });
    $m!("IndexMut<RangeTo<PIndex>>", v => { let p = ptrs(&v)[2]; v[..p].swap(0, 1); eq("swapped", &v[..], &[11, 10, 12, 13, 14, 15]) });
    $m!("IndexMut<RangeFrom<PIndex>>", v => { let p = ptrs(&v)[4]; v[p..].swap(0, 1); eq("swapped", &v[..], &[10, 11, 12, 13, 15, 14]) });
    $m!("swap_ptr", v => { let p = ptrs(&v); v.swap_ptr(p[1], p[4]); eq("swapped", &v[..], &[10, 14, 12, 13, 11, 15]) });
    $m!("rotate1_prange", v => { let r = v.pointer_range().nonempty().unwrap(); v.rotate1_prange(r); eq("rotated", &v[..], &[15, 10, 11, 12, 13, 14]) });
    $m!("zip with a mutable container", v => { let mut o = vals(); o.reverse(); scope(&mut o[..], |mut u| zip(v.pointer_range(), &mut v, u.pointer_range(), &mut u, |x, y| std::mem::swap(x, y))); eq("swapped", &v[..], &[15, 14, 13, 12, 11, 10]); eq("swapped", &o, &[10, 11, 12, 13, 14, 15]) });
    $m!("split_container_at_pointer", v => { let p = ptrs(&v)[2]; v.split_container_at_pointer(p, |mut a, _, mut b, _| { a[..].swap(0, 1); b[..].swap(0, 1); std::mem::swap(&mut a[..][0], &mut b[..][3]) }); eq("split", &v[..], &[15, 10, 13, 12, 14, 11]) });
    $m!("split_container_at_pointer, its ranges", v => { let p = ptrs(&v)[2]; v.split_container_at_pointer(p, |a, r, b, q| { eq("left", &a[r], &[10, 11]); eq("right", &b[q], &[12, 13, 14, 15]); check_eq!(a[r.nonempty().unwrap().last()].id() + b[q.first()].id(), 23, "both") }) });
    $m!("Index<PIndex> after a mutation", v => { let p = ptrs(&v)[2]; v[..].swap(2, 3); check_eq!(v[p].id(), 13, "v[p]") });
} }
/// index API interleavings and operations on a mutable container
macro_rules! index_ops { ($m:ident) => {
    $m!("index_twice, both halves alternately", v => { let (a, b) = v.range().split_in_half(); let (x, y) = v.index_twice(a, b).unwrap(); for k in 0..3 { std::mem::swap(&mut x[k], &mut y[2 - k]); std::mem::swap(&mut y[k], &mut x[(k + 1) % 3]) } let z = ids(x); check_eq!((z.len(), y.len()), (3, 3), "lengths"); std::mem::swap(&mut y[0], &mut x[0]) });
    $m!("nested index_twice", v => { let (a, b) = v.range().split_in_half(); let (x, y) = v.index_twice(a, b).unwrap(); scope(x, |mut w| { let (c, d) = w.range().split_in_half(); let (p, q) = w.index_twice(c, d).unwrap(); std::mem::swap(&mut p[0], &mut q[1]); std::mem::swap(&mut q[0], &mut y[1]) }); y.swap(0, 2) });
    $m!("scan holding references", v => { let mut kept = vec![]; let r = v.range().nonempty().unwrap(); let f = v.scan_from(r.first(), |x| { kept.push(x); x.id() < 13 }); let g = v.scan_from_rev(r.last(), |x| { kept.push(x); x.id() > 12 }); let s = &v[f]; check!(kept.len() >= 4 && s.len() >= 1 && v[g].len() >= 1, "scan"); for k in kept { k.id(); } });
    $m!("shared references through many particles", v => { let r = v.range(); let all: Vec<&_> = r.into_iter().map(|i| &v[i]).collect(); let s = &v[..]; let t = &v[r]; let w = &v[r.nonempty().unwrap().last()..]; for k in 0..N { check!(all[k].id() == s[k].id() && t[k].id() == 10 + k as u64, "read") } check_eq!(w.len(), 1, "tail") });
    $m!("mutable access through every particle in turn", v => { let r = v.range(); for i in r { let x = &mut v[i]; let y = &mut *x; y.id(); } v[r].reverse(); for i in r.into_iter().rev() { v.swap(i, r.nonempty().unwrap().first()) } v[..].reverse(); let (f, l) = (r.nonempty().unwrap().first(), r.nonempty().unwrap().last()); v[f..].swap(0, 1); v[..l].swap(0, 1); v[l..][0].id(); });
    $m!("swap of an index with itself", v => { for i in v.range() { v.swap(i, i) } eq("unchanged", &v[..], &[10, 11, 12, 13, 14, 15]) });
    $m!("rotate1_up, rotate1_down", v => { let r = v.range().nonempty().unwrap(); v.rotate1_up(r); eq("up", &v[..], &[15, 10, 11, 12, 13, 14]); v.rotate1_down(r); eq("down", &v[..], &[10, 11, 12, 13, 14, 15]); let (_, s) = v.range().split_in_half(); v.rotate1_up(s.nonempty().unwrap()); eq("up", &v[..], &[10, 11, 12, 15, 13, 14]) });
    $m!("zip_mut_raw", v => { let (a, b) = v.range().split_in_half(); v.zip_mut_raw(a, b, |x, y| unsafe { std::ptr::swap(x, y) }); eq("swapped", &v[..], &[13, 14, 15, 10, 11, 12]) });
    $m!("zip_mut_raw, distinct places of one range", v => { let r = v.range(); let t = r.nonempty().unwrap().tail(); v.zip_mut_raw(r, t, |x, y| unsafe { std::ptr::swap(x, y) }); eq("rotated", &v[..], &[11, 12, 13, 14, 15, 10]) });
    $m!("iterating while mutating", v => { let mut n = 0; for i in v.range() { for j in v.range() { if i < j { v.swap(i, j); n += 1 } } } check_eq!(n, 15, "swaps") });
    $m!("a scope inside a scope", v => { let r = v.range(); scope(&mut v[r], |mut w| { let q = w.range(); let i = q.nonempty().unwrap().last(); w[i].id(); w[..].reverse(); scope(&w[..], |u| { u[u.range()].len(); }); }); eq("reversed", &v[..], &[15, 14, 13, 12, 11, 10]) });
} }
/// Elements whose bytes are not plain numbers: pointers with a provenance, padding, bytes that were never written, values with niches.
/// Moving them as anything but values of their type is undefined or loses what they are.
trait Kx: Ord + Clone + 'static {
    const NAME: &'static str;
    fn mk(key: u64, tag: u64) -> Self;
    fn key(&self) -> u64;
}
static TABLE: [u64; 128] = { let mut t = [0; 128]; let mut i = 0; while i < 128 { t[i] = i as u64; i += 1 } t };
fn entry(k: u64) -> &'static u64 { &TABLE[k as usize % 128] }
/// a reference, then a byte, then padding
#[derive(Copy, Clone)]
struct Rf(&'static u64, u8);
impl Kx for Rf { const NAME: &'static str = "reference and padding"; fn mk(k: u64, t: u64) -> Self { Rf(entry(k), t as u8) } fn key(&self) -> u64 { *self.0 } }
impl Elem for Rf { const NAME: &'static str = "reference and padding"; const IDS: u64 = 128; fn mk(id: u64) -> Self { Rf(entry(id), id as u8) } fn id(&self) -> u64 { check_eq!(self.1, *self.0 as u8, "torn"); *self.0 } }
/// one word written, one word never
#[derive(Copy, Clone)]
struct Un(u64, MaybeUninit<u64>);
impl Kx for Un { const NAME: &'static str = "half uninitialised"; fn mk(k: u64, _: u64) -> Self { Un(k, MaybeUninit::uninit()) } fn key(&self) -> u64 { self.0 } }
impl Elem for Un { const NAME: &'static str = "half uninitialised"; const IDS: u64 = u64::MAX; fn mk(id: u64) -> Self { Un(id, MaybeUninit::uninit()) } fn id(&self) -> u64 { self.0 } }
/// the size of three words, with the alignment of none
#[derive(Copy, Clone)]
struct Ux(u16, MaybeUninit<[u8; 21]>, bool);
impl Kx for Ux { const NAME: &'static str = "24 bytes, aligned to 2"; fn mk(k: u64, t: u64) -> Self { Ux(k as u16, MaybeUninit::uninit(), t & 1 == 1) } fn key(&self) -> u64 { self.0 as u64 + (self.2 as u64 & 0) } }
impl Kx for Option<&'static u64> { const NAME: &'static str = "optional reference"; fn mk(k: u64, _: u64) -> Self { if k == 0 { None } else { Some(entry(k)) } } fn key(&self) -> u64 { self.map_or(0, |p| *p) } }
impl Kx for (char, bool, Option<std::num::NonZeroU8>) { const NAME: &'static str = "niches"; fn mk(k: u64, t: u64) -> Self { (char::from_u32(0xD7F0 + k as u32 % 16).unwrap(), t & 1 == 1, std::num::NonZeroU8::new(k as u8)) } fn key(&self) -> u64 { self.2.map_or(0, |x| x.get() as u64) } }
impl Kx for Kt { const NAME: &'static str = "(key, tag)"; fn mk(k: u64, t: u64) -> Self { Kt(k as u32, t as u32) } fn key(&self) -> u64 { self.0 as u64 } }
impl Kx for Box<(u64, u64)> { const NAME: &'static str = "box"; fn mk(k: u64, t: u64) -> Self { Box::new((k, t)) } fn key(&self) -> u64 { self.0 } }
macro_rules! by_key { ($($t:ty),*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.key().cmp(&o.key()) } }
)* } }
by_key!(Rf, Un, Ux);
/// algorithms over slices, from the tables all monitors share
type Alg<T> = (&'static str, Box<dyn Fn(&mut Vec<T>)>);
fn algos<T: Kx>() -> Vec<Alg<T>> {
    let mut o: Vec<Alg<T>> = vec![];
    for (name, f) in mon::algos::ord_sorts::<T>() { o.push((name, Box::new(move |d| f(d)))) }
    for (name, _, f) in mon::algos::by_sorts::<T>() { o.push((name, Box::new(move |d| f(d, &mut |a, b| a < b)))) }
    o.push(("insertion_sort2_indexes", Box::new(|d| { let mut e: Vec<T> = d.clone(); let mut f: Vec<u64> = d.iter().map(|x| x.key()).collect(); insertion_sort2_indexes(&mut f, &mut e, |a, b| a < b); insertion_sort2_indexes(d, &mut f, |a, b| a < b); check!(e.iter().zip(&*d).all(|(x, y)| x.key() == y.key()), "insertion_sort2_indexes") })));
    o.push(("heapify", Box::new(|d| { heapify(d); d.sort() })));
    for (name, f) in mon::algos::merges::<T>() { o.push((name, Box::new(move |d| { if d.len() == 0 { return } let h = d.len() / 2; d[..h].sort(); d[h..].sort(); let mut b: Vec<_> = (0..h as u64).map(|i| T::mk(i, i)).collect(); f(d, h, &mut b).unwrap() }))) }
    for (name, f) in mon::algos::bin_searches::<T>() { o.push((name, Box::new(move |d| { d.sort(); for x in d.iter() { check!(f(d, &mut |y| y.cmp(x)).is_ok(), "{}: not found", name) } }))) }
    for (name, f) in mon::algos::lower_bys::<T>() { o.push((name, Box::new(move |d| { d.sort(); for (k, x) in d.iter().enumerate() { check!(f(d, &mut |y| y < x) <= k, "{}: beyond", name) } }))) }
    for (name, f) in mon::algos::lower_elts::<T>() { o.push((name, Box::new(move |d| { d.sort(); for (k, x) in d.iter().enumerate() { check!(f(d, x) <= k, "{}: beyond", name) } }))) }
    o.push(("binary_search", Box::new(|d| { d.sort(); for x in d.iter() { check!(binary_search(d, x).is_ok(), "binary_search: not found") } })));
    o
}
/// those for elements that can be copied
fn copies<T: Kx + Copy>() -> Vec<Alg<T>> {
    let mut o = algos::<T>();
    o.push(("copy", Box::new(|d| copied("copy", d, &|a, b| copy(a, b)))));
    o.push(("copy_prange", Box::new(|d| copied("copy_prange", d, &|a, b| copy_prange(a, b)))));
    o.push(("zip_dot_i32_prange", Box::new(|d| { let e: Vec<i32> = d.iter().map(|x| x.key() as i32).collect(); check_eq!(zip_dot_i32(&e, &e), zip_dot_i32_prange(&e, &e), "dot"); d.sort() })));
    o
}
fn copied<T: Kx + Copy>(what: &str, d: &mut Vec<T>, f: &dyn Fn(&[T], &mut [T])) {
    let e: Vec<T> = d.iter().rev().cloned().collect();
    f(&e, d);
    check!(e.iter().zip(&*d).all(|(x, y)| x.key() == y.key()), "{} of {}", what, T::NAME);
    if d.len() > 2 { let n = d.len(); f(&e[..1], d); f(&e[n - 1..], &mut d[n - 1..]); f(&e, &mut d[1..n - 1]); check!(d[1..n - 1].iter().zip(&e).all(|(x, y)| x.key() == y.key()), "{} of {}", what, T::NAME) }
    d.sort();
}

fn go(op: &Option<String>, name: Shared, n: i128, f: &mut dyn FnMut()) {
    if op.as_ref().map_or(true, |o| o == name) {
        case("operation", &[n], || { f(); event("operations run"); });
    }
}

fn main() {
    let op = std::env::var("MON_OP").ok();
    if op.as_ref().map_or(false, |o| o == "list") {
        macro_rules! n { ($name:expr, $($t:tt)*) => { println!("OP ptr {}", $name) } }
        macro_rules! i { ($name:expr, $($t:tt)*) => { println!("OP index {}", $name) } }
        shared_ops!(n); mut_ops!(n);
        for (name, _) in copies::<Kt>() { println!("OP ptr {}", name) }
        index_ops!(i);
        return;
    }
    run::main(|| {
        let mut n = 0;
        macro_rules! on { ($t:ty, $name:expr, $v:ident => $body:expr, [$($c:expr),*]) => { $( n += 1; go(&op, $name, n, &mut || {
            ledger_reset();
            { let mut d = vals::<$t>(); let c = $c; match c {
                0 => scope(&mut d[..], |mut $v| { let _ = &mut $v; $body }),
                1 => scope(&mut d, |mut $v| { let _ = &mut $v; $body }),
                _ => scope(d, |mut $v| { let _ = &mut $v; $body }),
            } }
            ledger_clean($name);
        }); )* } }
        macro_rules! kinds { ($name:expr, $v:ident => $body:expr) => { on!(u64, $name, $v => $body, [0, 1, 2]); on!(Tr, $name, $v => $body, [0, 2]); on!(u8, $name, $v => $body, [0]); on!(String, $name, $v => $body, [0]); on!(Al64, $name, $v => $body, [0]); on!(Rf, $name, $v => $body, [0, 1]); on!(Un, $name, $v => $body, [0]); } }
        macro_rules! sh { ($name:expr, $v:ident => $body:expr) => {
            kinds!($name, $v => $body);
            n += 1; go(&op, $name, n, &mut || { let d = vals::<u64>(); scope(&d[..], |$v| $body) });
            n += 1; go(&op, $name, n, &mut || { let d = vals::<String>(); scope(&d, |$v| $body) });
        } }
        shared_ops!(sh);
        mut_ops!(kinds);
        index_ops!(kinds);
        macro_rules! al { ($tab:ident, $($t:ty),*) => { $( for (name, f) in $tab::<$t>() { for len in [0usize, 1, 2, 7, 30] {
            if is_miri() && (len == 7 || len == 0 && <$t as Kx>::NAME != "(key, tag)") { continue }
            n += 1;
            go(&op, name, n, &mut || {
                let mut v: Vec<$t> = (0..len as u64).map(|i| Kx::mk((i * 7 + 3) % 11, i)).collect();
                f(&mut v);
                check!(v.windows(2).all(|w| w[0] <= w[1]), "{}: {} not sorted", name, <$t as Kx>::NAME);
                event("contents compared");
            });
        } } )* } }
        al!(copies, Kt, Rf, Un, Ux, Option<&'static u64>, (char, bool, Option<std::num::NonZeroU8>));
        al!(algos, Box<(u64, u64)>);
    });
}
