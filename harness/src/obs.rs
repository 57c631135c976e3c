//! Observation of trusted particles: positions and the type-level proof marker,
//! read generically so that a changed return type is observed, not assumed.
use indexing::{Index, NonEmpty, Range, Unknown};

pub trait Kind { const NE: bool; }
impl Kind for NonEmpty { const NE: bool = true; }
impl Kind for Unknown { const NE: bool = false; }

/// (start, end, NonEmpty marker) of a range.
pub fn ro<'id, P: Kind>(r: &Range<'id, P>) -> (usize, usize, bool) { (r.start(), r.end(), P::NE) }
/// (start, end) of a range
pub fn se<'id, P>(r: &Range<'id, P>) -> (usize, usize) { (r.start(), r.end()) }
/// (position, NonEmpty marker) of an index.
pub fn io<'id, P: Kind>(i: &Index<'id, P>) -> (usize, bool) { (i.integer(), P::NE) }

/// Any index or range particle.
#[derive(Copy, Clone, Debug)]
pub enum Pt<'id> {
    I(Index<'id, NonEmpty>),
    E(Index<'id, Unknown>),
    N(Range<'id, NonEmpty>),
    R(Range<'id, Unknown>),
}

pub trait ToPt<'id> { fn pt(self) -> Pt<'id>; }
impl<'id> ToPt<'id> for Index<'id, NonEmpty> { fn pt(self) -> Pt<'id> { Pt::I(self) } }
impl<'id> ToPt<'id> for Index<'id, Unknown> { fn pt(self) -> Pt<'id> { Pt::E(self) } }
impl<'id> ToPt<'id> for Range<'id, NonEmpty> { fn pt(self) -> Pt<'id> { Pt::N(self) } }
impl<'id> ToPt<'id> for Range<'id, Unknown> { fn pt(self) -> Pt<'id> { Pt::R(self) } }

impl<'id> Pt<'id> {
    /// (kind, a, b) with kind 0: NonEmpty index, 1: edge index, 2: NonEmpty range, 3: range
    pub fn obs(&self) -> (u8, usize, usize) {
        match self {
            Pt::I(i) => (0, i.integer(), i.integer()),
            Pt::E(i) => (1, i.integer(), i.integer()),
            Pt::N(r) => (2, r.start(), r.end()),
            Pt::R(r) => (3, r.start(), r.end()),
        }
    }
    /// Is the particle valid for a container of length `len`?
    pub fn valid(&self, len: usize) -> bool {
        match *self {
            Pt::I(i) => i.integer() < len,
            Pt::E(i) => i.integer() <= len,
            Pt::N(r) => r.start() < r.end() && r.end() <= len,
            Pt::R(r) => r.start() <= r.end() && r.end() <= len,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Pt::I(i) => format!("Index<NonEmpty>({})", i.integer()),
            Pt::E(i) => format!("Index<Unknown>({})", i.integer()),
            Pt::N(r) => format!("Range<NonEmpty>({}..{})", r.start(), r.end()),
            Pt::R(r) => format!("Range<Unknown>({}..{})", r.start(), r.end()),
        }
    }
}

/// Integer arguments that matter for a container of length `len` and a position `pos`:
/// small values, around the position and the length, and values that overflow usize
/// or wrap around to a small position.
pub fn edge_args(len: usize, pos: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 8];
    for d in 0..3usize {
        for b in [len, pos, len.wrapping_sub(pos), len / 2, len.wrapping_mul(2)] {
            v.push(b.wrapping_add(d));
            v.push(b.wrapping_sub(d));
        }
        v.push(usize::MAX - d);
        v.push(usize::MAX / 2 - 1 + d);
        v.push((1usize << 31) - 1 + d);
        v.push((1usize << 32) - 1 + d);
        // pos + arg wraps around to d, and len + arg wraps to d
        v.push(0usize.wrapping_sub(pos).wrapping_add(d));
        v.push(0usize.wrapping_sub(len).wrapping_add(d));
        v.push((usize::MAX - len).wrapping_add(d).wrapping_sub(1));
        v.push((isize::MAX as usize - len.min(isize::MAX as usize)).wrapping_add(d));
        v.push((1usize << 63).wrapping_sub(pos).wrapping_add(d));
    }
    v.sort();
    v.dedup();
    v
}

pub fn rand_arg(rng: &mut crate::Rng, len: usize, pos: usize) -> usize {
    match rng.below(10) {
        0..=3 => rng.range(0, len.saturating_add(2)),
        4 => rng.below(4),
        5 => { let e = edge_args(len, pos); *rng.pick(&e) }
        6 => 0usize.wrapping_sub(pos).wrapping_add(rng.range(0, len)),
        7 => (1usize << rng.below(64)).wrapping_add(rng.below(3)).wrapping_sub(1),
        8 => rng.next() as usize,
        _ => usize::MAX - rng.below(len.max(1).min(1 << 40)),
    }
}

/// A slice of `n` zero-sized elements: a container of any length at no cost.
pub fn zsts(n: usize) -> &'static [()] {
    unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) }
}

pub fn huge_lens() -> Vec<usize> {
    let m = isize::MAX as usize;
    vec![255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
         (1 << 53) + 1, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, m / 3, m - 2, m - 1, m]
}

/// Lengths at which a size limit, a chunk size or a narrow integer would show, of containers with real elements.
/// Beyond every threshold below a million (optimised builds).
pub fn very_long_lens() -> Vec<usize> {
    if crate::is_miri() || cfg!(debug_assertions) { vec![] } else { vec![(1 << 18) + 5, (1 << 20) + 3] }
}

pub fn long_lens() -> Vec<usize> {
    if crate::is_miri() { vec![] } else { vec![300, 511, 514, 1025, 2050, 4099, 5003, 10_007, 32_770, 65_535, 65_536, 65_537, 70_001] }
}

/// Sizes exactly at, just below and just above the numbers at which code working in blocks changes its mind.
pub fn round_lens() -> Vec<usize> {
    if crate::is_miri() { return vec![] }
    let mut v = vec![100, 200, 500, 1000, 1500, 2000, 3000, 5000, 10_000];
    for j in 5..=14 { let p = 1 << j; v.extend([p - 1, p, p + 1, p + p / 2]); }
    v.extend([1 << 15, 1 << 16]);
    v.sort();
    v
}
