//! Instrumented element types: every size, alignment and drop behaviour the monitors use,
//! a ledger that sees duplicated, lost, leaked and doubly dropped elements,
//! keyed elements whose comparisons can panic or lie, and guarded memory.
use crate::{mix, soft_fail, Injected, Rng};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

pub trait Elem: Sized + 'static {
    const NAME: &'static str;
    /// identities that can be told apart
    const IDS: u64;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
    fn canon(id: u64) -> u64 { if Self::IDS == u64::MAX { id } else { id % Self::IDS } }
}

macro_rules! int_elem { ($($t:ident $ids:expr),*) => { $(
    impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        const IDS: u64 = $ids;
        fn mk(id: u64) -> Self { Self::canon(id) as $t }
        fn id(&self) -> u64 { *self as u64 }
    }
)* } }
int_elem!(u8 256, u16 65536, u32 1 << 32, u64 u64::MAX);

impl Elem for u128 {
    const NAME: &'static str = "u128";
    const IDS: u64 = u64::MAX;
    fn mk(id: u64) -> Self { (id as u128) << 64 | !(id as u128) & u64::MAX as u128 }
    fn id(&self) -> u64 {
        let id = (*self >> 64) as u64;
        if *self as u64 != !id { soft_fail(format!("torn u128 element {:x}", self)) }
        id
    }
}
impl Elem for [u8; 3] {
    const NAME: &'static str = "[u8;3]";
    const IDS: u64 = 1 << 24;
    fn mk(id: u64) -> Self { [id as u8, (id >> 8) as u8, (id >> 16) as u8] }
    fn id(&self) -> u64 { self[0] as u64 | (self[1] as u64) << 8 | (self[2] as u64) << 16 }
}
impl Elem for [u16; 3] {
    const NAME: &'static str = "[u16;3]";
    const IDS: u64 = 1 << 48;
    fn mk(id: u64) -> Self { [id as u16, (id >> 16) as u16, (id >> 32) as u16] }
    fn id(&self) -> u64 { self[0] as u64 | (self[1] as u64) << 16 | (self[2] as u64) << 32 }
}
#[derive(Clone, Copy)]
pub struct Big([u64; 16]);
impl Elem for Big {
    const NAME: &'static str = "Big128";
    const IDS: u64 = u64::MAX;
    fn mk(id: u64) -> Self { let mut a = [0; 16]; for i in 0..16 { a[i] = id.wrapping_add(i as u64) } Big(a) }
    fn id(&self) -> u64 {
        for i in 0..16 { if self.0[i] != self.0[0].wrapping_add(i as u64) { soft_fail("torn 128-byte element".to_string()); break; } }
        self.0[0]
    }
}
#[repr(align(64))]
#[derive(Clone, Copy)]
pub struct Al64(u32);
impl Elem for Al64 {
    const NAME: &'static str = "Align64";
    const IDS: u64 = 1 << 32;
    fn mk(id: u64) -> Self { Al64(id as u32) }
    fn id(&self) -> u64 {
        if self as *const _ as usize % 64 != 0 { soft_fail("misaligned element".to_string()) }
        self.0 as u64
    }
}
#[derive(Clone, Copy)]
pub struct Pad(u8, u32);
impl Elem for Pad {
    const NAME: &'static str = "(u8,u32)";
    const IDS: u64 = 1 << 40;
    fn mk(id: u64) -> Self { Pad(id as u8, (id >> 8) as u32) }
    fn id(&self) -> u64 { self.0 as u64 | (self.1 as u64) << 8 }
}
impl Elem for () {
    const NAME: &'static str = "()";
    const IDS: u64 = 1;
    fn mk(_: u64) -> Self {}
    fn id(&self) -> u64 { 0 }
}
impl Elem for Box<u64> {
    const NAME: &'static str = "Box";
    const IDS: u64 = u64::MAX;
    fn mk(id: u64) -> Self { Box::new(id) }
    fn id(&self) -> u64 { **self }
}
impl Elem for String {
    const NAME: &'static str = "String";
    const IDS: u64 = u64::MAX;
    fn mk(id: u64) -> Self { id.to_string() }
    fn id(&self) -> u64 { self.parse().unwrap_or_else(|_| { soft_fail(format!("corrupt string {:?}", self)); u64::MAX }) }
}

// ---------------------------------------------------------------- ledger

thread_local! {
    static LIVE: RefCell<Vec<u8>> = RefCell::new(Vec::new());
    static ZLIVE: Cell<i64> = Cell::new(0);
    static BORN: Cell<u64> = Cell::new(0);
    static DIED: Cell<u64> = Cell::new(0);
}

/// Forget all tracked elements (start of a case).
pub fn ledger_reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    ZLIVE.with(|z| z.set(0));
}
/// Number of live tracked elements.
pub fn ledger_live() -> i64 {
    LIVE.with(|l| l.borrow().iter().filter(|&&x| x == 1).count() as i64) + ZLIVE.with(|z| z.get())
}
pub fn ledger_counts() -> (u64, u64) { (BORN.with(|b| b.get()), DIED.with(|b| b.get())) }
/// Everything created must be dropped by now.
pub fn ledger_clean(what: &str) {
    let n = ledger_live();
    if n != 0 { soft_fail(format!("{}: {} elements leaked or dropped too often", what, n)) }
    ledger_reset();
}

const MAGIC: u32 = 0x7ac4ed01;
const DEAD: u32 = 0xdeadbeef;

fn born() -> u32 {
    BORN.with(|b| b.set(b.get() + 1));
    LIVE.with(|l| { let mut l = l.borrow_mut(); l.push(1); (l.len() - 1) as u32 })
}
fn died(serial: u32, what: &str) {
    DIED.with(|b| b.set(b.get() + 1));
    let ok = LIVE.with(|l| match l.borrow_mut().get_mut(serial as usize) {
        Some(x) if *x == 1 => { *x = 2; true }
        _ => false,
    });
    if !ok { soft_fail(format!("element {} dropped twice", what)) }
}

/// Tracked owned element.
pub struct Tr { magic: u32, serial: u32, id: u64 }
impl Elem for Tr {
    const NAME: &'static str = "Tracked";
    const IDS: u64 = u64::MAX;
    fn mk(id: u64) -> Self { Tr { magic: MAGIC, serial: born(), id } }
    fn id(&self) -> u64 {
        if self.magic != MAGIC { soft_fail(format!("access to a dead or foreign element ({:x})", self.magic)) }
        self.id
    }
}
impl Tr { pub fn serial(&self) -> u32 { self.serial } }
impl Drop for Tr {
    fn drop(&mut self) {
        if self.magic != MAGIC { soft_fail(format!("drop of a dead or foreign element ({:x})", self.magic)); return }
        died(self.serial, &self.id.to_string());
        self.magic = DEAD;
    }
}
/// Tracked zero-sized element.
pub struct Zt(());
impl Elem for Zt {
    const NAME: &'static str = "TrackedZst";
    const IDS: u64 = 1;
    fn mk(_: u64) -> Self { ZLIVE.with(|z| z.set(z.get() + 1)); BORN.with(|b| b.set(b.get() + 1)); Zt(()) }
    fn id(&self) -> u64 { 0 }
}
impl Drop for Zt {
    fn drop(&mut self) { ZLIVE.with(|z| z.set(z.get() - 1)); DIED.with(|b| b.set(b.get() + 1)); }
}

// ---------------------------------------------------------------- keyed elements with hooked comparisons

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Mode {
    Honest,
    /// panic at the n-th comparison (0-based)
    PanicAt(u64),
    /// arbitrary answers, seeded; comparisons beyond the budget panic
    Chaos(u64),
    /// always the same answer
    Always(Ordering),
    /// reversed
    Reverse,
}

thread_local! {
    static MODE: Cell<Mode> = Cell::new(Mode::Honest);
    static CMPS: Cell<u64> = Cell::new(0);
    static BUDGET: Cell<u64> = Cell::new(u64::MAX);
}
pub fn set_mode(m: Mode, budget: u64) {
    MODE.with(|c| c.set(m));
    CMPS.with(|c| c.set(0));
    BUDGET.with(|c| c.set(budget));
}
pub fn comparisons() -> u64 { CMPS.with(|c| c.get()) }

/// The hooked comparison of two keys.
pub fn hooked(a: i64, b: i64) -> Ordering {
    let n = CMPS.with(|c| { let n = c.get(); c.set(n + 1); n });
    if n >= BUDGET.with(|c| c.get()) { std::panic::panic_any(Injected) }
    match MODE.with(|c| c.get()) {
        Mode::Honest => a.cmp(&b),
        Mode::Reverse => b.cmp(&a),
        Mode::PanicAt(k) => if n == k { std::panic::panic_any(Injected) } else { a.cmp(&b) },
        Mode::Chaos(s) => match mix(s ^ mix(n)) % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater },
        Mode::Always(o) => o,
    }
}

/// Tracked element with a key; only the key takes part in comparisons.
pub struct Tk { pub key: i64, pub t: Tr }
impl Tk {
    pub fn new(key: i64, id: u64) -> Self { Tk { key, t: Tr::mk(id) } }
    pub fn id(&self) -> u64 { self.t.id() }
    fn k(&self) -> i64 { self.t.id(); self.key }
}
impl PartialEq for Tk { fn eq(&self, o: &Self) -> bool { hooked(self.k(), o.k()) == Ordering::Equal } }
impl Eq for Tk {}
impl PartialOrd for Tk { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(hooked(self.k(), o.k())) } }
impl Ord for Tk { fn cmp(&self, o: &Self) -> Ordering { hooked(self.k(), o.k()) } }

/// Keyed plain types for the algorithms: (key, tag), ordered by key only.
pub trait Keyed: Sized + Ord + 'static {
    const NAME: &'static str;
    /// keys representable: 0..KEYS
    const KEYS: u64;
    /// whether the tag is carried
    const TAGGED: bool;
    fn new(key: u64, tag: u64) -> Self;
    fn key(&self) -> u64;
    fn tag(&self) -> u64;
}
impl Keyed for u8 {
    const NAME: &'static str = "u8"; const KEYS: u64 = 256; const TAGGED: bool = false;
    fn new(key: u64, _: u64) -> Self { key as u8 }
    fn key(&self) -> u64 { *self as u64 }
    fn tag(&self) -> u64 { 0 }
}
impl Keyed for i32 {
    const NAME: &'static str = "i32"; const KEYS: u64 = 1 << 32; const TAGGED: bool = false;
    fn new(key: u64, _: u64) -> Self { (key as u32 ^ 0x8000_0000) as i32 }
    fn key(&self) -> u64 { (*self as u32 ^ 0x8000_0000) as u64 }
    fn tag(&self) -> u64 { 0 }
}
impl Keyed for u64 {
    const NAME: &'static str = "u64"; const KEYS: u64 = u64::MAX; const TAGGED: bool = false;
    fn new(key: u64, _: u64) -> Self { key }
    fn key(&self) -> u64 { *self }
    fn tag(&self) -> u64 { 0 }
}
macro_rules! keyed_ord { ([$($g:tt)*] $t:ty) => {
    impl<$($g)*> PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.key() == o.key() } }
    impl<$($g)*> Eq for $t {}
    impl<$($g)*> PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl<$($g)*> Ord for $t { fn cmp(&self, o: &Self) -> Ordering { self.key().cmp(&o.key()) } }
} }
/// 8-byte (key, tag)
#[derive(Copy, Clone)]
pub struct Kt(pub u32, pub u32);
impl Keyed for Kt {
    const NAME: &'static str = "(key,tag)"; const KEYS: u64 = 1 << 32; const TAGGED: bool = true;
    fn new(key: u64, tag: u64) -> Self { Kt(key as u32, tag as u32) }
    fn key(&self) -> u64 { self.0 as u64 }
    fn tag(&self) -> u64 { self.1 as u64 }
}
keyed_ord!([] Kt);
/// 3-byte element, alignment 1
#[derive(Copy, Clone)]
pub struct K3(u8, u8, u8);
impl Keyed for K3 {
    const NAME: &'static str = "3 bytes"; const KEYS: u64 = 256; const TAGGED: bool = true;
    fn new(key: u64, tag: u64) -> Self { K3(key as u8, tag as u8, (tag >> 8) as u8) }
    fn key(&self) -> u64 { self.0 as u64 }
    fn tag(&self) -> u64 { self.1 as u64 | (self.2 as u64) << 8 }
}
keyed_ord!([] K3);
/// 160-byte element
#[derive(Copy, Clone)]
pub struct KBig([u64; 20]);
impl Keyed for KBig {
    const NAME: &'static str = "160 bytes"; const KEYS: u64 = u64::MAX; const TAGGED: bool = true;
    fn new(key: u64, tag: u64) -> Self { let mut a = [tag; 20]; a[0] = key; a[19] = key; KBig(a) }
    fn key(&self) -> u64 { if self.0[0] != self.0[19] { soft_fail("torn element".to_string()) } self.0[0] }
    fn tag(&self) -> u64 { if self.0[1] != self.0[18] { soft_fail("torn element".to_string()) } self.0[1] }
}
keyed_ord!([] KBig);
/// 64-byte aligned element
#[derive(Copy, Clone)]
#[repr(align(64))]
pub struct KAl(u32, u32);
impl Keyed for KAl {
    const NAME: &'static str = "align 64"; const KEYS: u64 = 1 << 32; const TAGGED: bool = true;
    fn new(key: u64, tag: u64) -> Self { KAl(key as u32, tag as u32) }
    fn key(&self) -> u64 { if self as *const _ as usize % 64 != 0 { soft_fail("misaligned element".to_string()) } self.0 as u64 }
    fn tag(&self) -> u64 { self.1 as u64 }
}
keyed_ord!([] KAl);
/// heap-owning tracked element
pub struct KBox { b: Box<(u64, u64)>, t: Tr }
impl Keyed for KBox {
    const NAME: &'static str = "owned"; const KEYS: u64 = u64::MAX; const TAGGED: bool = true;
    fn new(key: u64, tag: u64) -> Self { KBox { b: Box::new((key, tag)), t: Tr::mk(tag) } }
    fn key(&self) -> u64 { self.t.id(); self.b.0 }
    fn tag(&self) -> u64 { self.t.id(); self.b.1 }
}
keyed_ord!([] KBox);
/// zero-sized element
impl Keyed for () {
    const NAME: &'static str = "zero-sized"; const KEYS: u64 = 1; const TAGGED: bool = false;
    fn new(_: u64, _: u64) -> Self {}
    fn key(&self) -> u64 { 0 }
    fn tag(&self) -> u64 { 0 }
}

/// `n` elements with the ids first, first+1, ... in a vector with more capacity than that, or not
pub fn roomy<T: Elem>(n: usize, kind: usize, first: u64) -> Vec<T> {
    let mut v = Vec::with_capacity(n + [5, 0, 1][(n + kind) % 3]);
    for i in 0..n as u64 { v.push(T::mk(first + i)) }
    v
}

// ---------------------------------------------------------------- guarded memory

/// `n` elements with `g` guard elements on both sides; the guards must never change.
pub struct Arena<T: Elem> { v: Vec<T>, g: usize, n: usize, salt: u64 }
const GUARD: u64 = 0xE0;
impl<T: Elem> Arena<T> {
    /// Elements get the ids first, first+1, ...
    pub fn new(n: usize, g: usize, first: u64) -> Self { Self::from_fn(n, g, |i| first + i as u64) }
    pub fn from_fn<F: FnMut(usize) -> u64>(n: usize, g: usize, mut f: F) -> Self {
        let salt = GUARD + n as u64 % 7;
        let mut v = Vec::with_capacity(n + 2 * g);
        for i in 0..g { v.push(T::mk(salt + i as u64)) }
        for i in 0..n { v.push(T::mk(f(i))) }
        for i in 0..g { v.push(T::mk(salt + 10 + i as u64)) }
        Arena { v, g, n, salt }
    }
    pub fn mid(&mut self) -> &mut [T] { let (g, n) = (self.g, self.n); &mut self.v[g..g + n] }
    pub fn mid_ref(&self) -> &[T] { &self.v[self.g..self.g + self.n] }
    pub fn ids(&self) -> Vec<u64> { self.mid_ref().iter().map(|x| x.id()).collect() }
    pub fn guards(&self, what: &str) {
        for i in 0..self.g {
            if self.v[i].id() != T::canon(self.salt + i as u64)
                || self.v[self.g + self.n + i].id() != T::canon(self.salt + 10 + i as u64) {
                soft_fail(format!("{}: memory outside the slice changed (guard {})", what, i));
            }
        }
    }
    /// Compare with the model (ids before canonicalisation) and the guards.
    pub fn expect(&self, what: &str, model: &[u64]) {
        self.guards(what);
        expect_ids(what, self.mid_ref(), model);
    }
}
pub fn ids<T: Elem>(v: &[T]) -> Vec<u64> { v.iter().map(|x| x.id()).collect() }
pub fn expect_ids<T: Elem>(what: &str, v: &[T], model: &[u64]) {
    if v.len() != model.len() { crate::fail(format!("{}: length {} instead of {}", what, v.len(), model.len())) }
    for (i, (x, m)) in v.iter().zip(model).enumerate() {
        let x = x.id();
        if x != T::canon(*m) {
            let got = ids(v);
            let want: Vec<u64> = model.iter().map(|m| T::canon(*m)).collect();
            crate::fail(format!("{}: element {} is {} instead of {}; got {:?}, expected {:?}", what, i, x, T::canon(*m), short(&got), short(&want)))
        }
    }
}
pub fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    if v.len() <= 24 { format!("{:?}", v) } else { format!("{:?}.. ({} elements)", &v[..24], v.len()) }
}
/// Does `p` (n elements of T) start at `base + i` elements?
pub fn at<T>(base: *const T, i: usize, p: *const T) -> bool {
    p as usize == base as usize + i * std::mem::size_of::<T>()
}

pub fn rand_keys(rng: &mut Rng, n: usize, keys: u64) -> Vec<u64> {
    let k = keys.min(1 << 30);
    let d = (match rng.below(6) { 0 => 1, 1 => 2, 2 => 3, 3 => (n as u64 / 2).max(1), 4 => n as u64 + 1, _ => k }).min(k).max(1);
    let mut v: Vec<u64> = (0..n).map(|_| rng.below(d as usize) as u64).collect();
    match rng.below(9) {
        0 => v.sort(),
        1 => { v.sort(); v.reverse() }
        2 => { v.sort(); for _ in 0..1 + n / 16 { if n > 1 { let (a, b) = (rng.below(n), rng.below(n)); v.swap(a, b) } } }
        3 => { let h = n / 2; v[..h].sort(); v[h..].sort(); v[h..].reverse() } // organ pipe
        4 => { let h = n / 2; v[..h].sort(); v[h..].sort() }
        5 => for (i, x) in v.iter_mut().enumerate() { *x = (i as u64 * 7919) % d } // sawtooth
        6 => { v.sort(); if n > 0 { let k = rng.below(n); v.rotate_left(k) } }
        _ => {}
    }
    v
}

/// 1040-byte element
#[derive(Clone, Copy)]
pub struct Wide([u64; 130]);
impl Elem for Wide {
    const NAME: &'static str = "1040 bytes";
    const IDS: u64 = u64::MAX;
    fn mk(id: u64) -> Self { let mut a = [!id; 130]; for i in 0..13 { a[i * 10] = id } a[129] = id; Wide(a) }
    fn id(&self) -> u64 {
        for i in 0..130 { if self.0[i] != if i % 10 == 0 || i == 129 { self.0[0] } else { !self.0[0] } { soft_fail("torn 1040-byte element".to_string()); break; } }
        self.0[0]
    }
}

/// Elements of any size: the identity in the first bytes, the others follow from it.
macro_rules! sized { ($($s:ident $u:ty),*) => { $(
    #[derive(Clone, Copy)]
    pub struct $s<const N: usize>([$u; N]);
    impl<const N: usize> Elem for $s<N> {
        const NAME: &'static str = concat!("[", stringify!($u), "; N]");
        const IDS: u64 = if N * std::mem::size_of::<$u>() >= 8 { u64::MAX } else { 1 << (8 * N * std::mem::size_of::<$u>()) };
        fn mk(id: u64) -> Self {
            let z = 8 * std::mem::size_of::<$u>();
            let mut a = [0; N];
            for i in 0..N { a[i] = (if i * z < 64 { id >> (i * z) } else { mix(Self::canon(id) ^ i as u64) }) as $u }
            $s(a)
        }
        fn id(&self) -> u64 {
            let z = 8 * std::mem::size_of::<$u>();
            let mut id = 0;
            for i in 0..N { if i * z < 64 { id |= (self.0[i] as u64) << (i * z) } else if self.0[i] != mix(id ^ i as u64) as $u { soft_fail(format!("torn element of {} bytes", std::mem::size_of::<Self>())); break } }
            id
        }
    }
)* } }
sized!(Bytes u8, Halves u16, Words u32, Quads u64);
/// $m!(...) with elements of two dozen more sizes and alignments
#[macro_export]
macro_rules! more_sizes { ($m:ident) => { $m!(Bytes<2>, Bytes<5>, Bytes<6>, Bytes<7>, Bytes<9>, Bytes<11>, Bytes<12>, Bytes<15>, Bytes<17>, Bytes<24>, Bytes<31>, Bytes<33>, Bytes<65>, Bytes<255>, Bytes<257>, Bytes<4096>,
    Halves<2>, Halves<5>, Halves<13>, Words<2>, Words<3>, Words<5>, Words<33>, Quads<3>, Quads<5>, Quads<9>); } }

// ---------------------------------------------------------------- more elements than 32 bits can count

/// Zeroed memory a little larger than 8 GiB (so that halves do not fit 32 bits either) of which only the pages written to exist; None where it cannot be had.
pub struct Giant { p: *mut u8, bytes: usize }
pub const GIANT: usize = (1 << 33) + 24_000;
impl Giant {
    #[cfg(not(miri))]
    pub fn new() -> Option<Giant> { Giant::sized(GIANT) }
    #[cfg(not(miri))]
    pub fn sized(bytes: usize) -> Option<Giant> {
        extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
        let p = unsafe { mmap(std::ptr::null_mut(), bytes, 3, 0x4022, -1, 0) }; // private, anonymous, no reservation
        if p as isize == -1 { crate::event("no giant mapping to be had"); return None }
        Some(Giant { p, bytes })
    }
    #[cfg(miri)]
    pub fn new() -> Option<Giant> { None }
    #[cfg(miri)]
    pub fn sized(_: usize) -> Option<Giant> { None }
    /// for types without padding for which all bit patterns are fine
    pub fn of<T: Copy>(&mut self) -> &mut [T] { unsafe { std::slice::from_raw_parts_mut(self.p as *mut T, self.bytes / std::mem::size_of::<T>()) } }
    pub fn at<T: Copy>(&mut self, i: usize) -> T { self.of::<T>()[i] }
}
impl Drop for Giant {
    fn drop(&mut self) {
        #[cfg(not(miri))] {
            extern "C" { fn munmap(a: *mut u8, l: usize) -> i32; }
            unsafe { munmap(self.p, self.bytes); }
        }
    }
}
/// positions in a container of length n that do not fit small integers, and others
pub fn giant_positions(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 255, 256, 65535, 65536, 65537, n / 3, n / 2, n / 2 + 1, n - 2, n - 1, n];
    for k in [31, 32, 33] { for d in 0..3 { v.push((1usize << k) + d - 1) } }
    v.push((1 << 32) + 4096); v.push((1 << 31) + 4096); v.push((1 << 33) + 4096);
    v.retain(|&p| p <= n);
    v.sort(); v.dedup();
    v
}
