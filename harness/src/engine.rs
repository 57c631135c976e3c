//! Engine over the index API: every operation that derives particles, applied to arbitrary
//! operands. Results go to a sink, which is the monitor.
use crate::obs::*;
use crate::{rand_arg, Rng};
use indexing::container_traits::*;
use indexing::indexing::IntoCheckedRange;
use indexing::proof::Provable;
use indexing::{Container, Index, IndexingError, NonEmpty, Range, Unknown};

pub trait Sink<'id> {
    /// A particle produced by operation `op`.
    fn particle(&mut self, op: &'static str, p: Pt<'id>);
    /// Another observable outcome (flags, errors, lengths).
    fn value(&mut self, _op: &'static str, _v: u64) {}
}

fn put<'id, S: Sink<'id>, X: ToPt<'id>>(s: &mut S, op: &'static str, x: X) { s.particle(op, x.pt()) }
fn putr<'id, S: Sink<'id>, X: ToPt<'id>>(s: &mut S, op: &'static str, x: Result<X, IndexingError>) {
    s.value(op, x.is_ok() as u64);
    if let Ok(x) = x { s.particle(op, x.pt()) }
}

/// Number of operations of `apply`.
pub const NOPS: usize = 46;

macro_rules! on_range { ($p:expr, $r:ident => $e:expr) => { match $p { Pt::R($r) => { $e; true } Pt::N($r) => { $e; true } _ => false } } }
macro_rules! on_index { ($p:expr, $i:ident => $e:expr) => { match $p { Pt::I($i) => { $e; true } Pt::E($i) => { $e; true } _ => false } } }
macro_rules! on_ne { ($p:expr, $r:ident => $e:expr) => { if let Pt::N($r) = $p { $e; true } else { false } } }

fn iterate<'id, S: Sink<'id>, I>(s: &mut S, it: &mut I, bits: usize)
    where I: DoubleEndedIterator, I::Item: ToPt<'id>
{
    for k in 0..6 {
        let x = if bits >> k & 1 == 0 { it.next() } else { it.next_back() };
        s.value("iter.some", x.is_some() as u64);
        match x { Some(x) => put(s, "iter", x), None => break }
    }
}

fn fwd<'id, S: Sink<'id>>(s: &mut S, op: &'static str, ok: bool, i: Index<'id>) { s.value(op, ok as u64); put(s, op, i) }

/// Apply operation `op` (0..NOPS) to operands; false if the operands don't fit the operation.
/// `scan` enables operations that touch elements (linear time).
pub fn apply<'id, A, M, S>(op: usize, v: &Container<'id, A, M>, p: Pt<'id>, q: Pt<'id>, x: usize, y: usize, scan: bool, s: &mut S) -> bool
    where A: Contiguous, S: Sink<'id>
{
    match op {
        0 => { putr(s, "vet", v.vet(x)); true }
        1 => { putr(s, "vet_range", v.vet_range(x..y)); true }
        2 => { put(s, "range", v.range()); put(s, "empty_range", v.empty_range()); s.value("len", v.len() as u64); true }
        3 => on_index!(p, i => { let (a, b) = v.split_at(i); put(s, "split_at.0", a); put(s, "split_at.1", b) }),
        4 => if let Pt::I(i) = p { let (a, b) = v.split_after(i); put(s, "split_after.0", a); put(s, "split_after.1", b); true } else { false },
        5 => on_range!(p, r => { let (a, b) = v.split_around(r); put(s, "split_around.0", a); put(s, "split_around.1", b) }),
        6 => on_index!(p, i => put(s, "before", v.before(i))),
        7 => if let Pt::I(i) = p { put(s, "after", v.after(i)); put(s, "index.after", i.after()); true } else { false },
        8 => on_index!(p, i => { put(s, "range_of(i..)", v.range_of(i..)); put(s, "range_of(..i)", v.range_of(..i)) }),
        9 => { put(s, "range_of(..)", v.range_of::<Unknown, _>(..)); true }
        10 => if let Pt::I(mut i) = p { let ok = v.forward(&mut i); fwd(s, "forward", ok, i); true } else { false },
        11 => if let Pt::I(mut i) = p { let ok = v.forward_by(&mut i, x); fwd(s, "forward_by", ok, i); true } else { false },
        12 => if let Pt::I(mut i) = p { let ok = v.backward(&mut i); fwd(s, "backward", ok, i); true } else { false },
        13 => on_range!(p, r => put(s, "forward_range_by", v.forward_range_by(r, x))),
        14 => if !scan { false } else if let Pt::I(i) = p {
            let mut n = x % 7; put(s, "scan_from", v.scan_from(i, |_| { n = n.wrapping_sub(1); n != usize::MAX })); true } else { false },
        15 => if !scan { false } else if let Pt::I(i) = p {
            let mut n = x % 7; put(s, "scan_from_rev", v.scan_from_rev(i, |_| { n = n.wrapping_sub(1); n != usize::MAX })); true } else { false },
        16 => if !scan { false } else { on_range!(p, r => { let mut n = x % 7;
            let (a, b) = v.scan_range(r, |_| { n = n.wrapping_sub(1); n != usize::MAX });
            put(s, "scan_range.0", a); put(s, "scan_range.1", b) }) },
        17 => on_range!(p, r => putr(s, "nonempty", r.nonempty())),
        18 => on_range!(p, r => { let (a, b) = r.split_in_half(); put(s, "split_in_half.0", a); put(s, "split_in_half.1", b) }),
        19 => on_range!(p, r => { let (a, b, ok) = r.split_at(x); put(s, "range.split_at.0", a); put(s, "range.split_at.1", b); s.value("range.split_at", ok as u64) }),
        20 => on_range!(p, r => { let c = r.contains(x); s.value("contains", c.is_some() as u64); if let Some(c) = c { put(s, "contains", c) } }),
        21 => { let n = x; if n == 0 { false } else { on_range!(p, r => {
            let mut it = r.subdivide(n);
            for _ in 0..12 { let c = it.next(); s.value("subdivide", c.is_some() as u64); match c { Some(c) => put(s, "subdivide", c), None => break } } }) } }
        22 => match (p, q) {
            (Pt::R(a), Pt::R(b)) => { putr(s, "join.uu", a.join(b)); true }
            (Pt::R(a), Pt::N(b)) => { putr(s, "join.un", a.join(b)); true }
            (Pt::N(a), Pt::R(b)) => { putr(s, "join.nu", a.join(b)); true }
            (Pt::N(a), Pt::N(b)) => { putr(s, "join.nn", a.join(b)); true }
            _ => false },
        23 => match (p, q) {
            (Pt::R(a), Pt::R(b)) => { put(s, "join_cover.uu", a.join_cover(b)); true }
            (Pt::R(a), Pt::N(b)) => { put(s, "join_cover.un", a.join_cover(b)); true }
            (Pt::N(a), Pt::R(b)) => { put(s, "join_cover.nu", a.join_cover(b)); true }
            (Pt::N(a), Pt::N(b)) => { put(s, "join_cover.nn", a.join_cover(b)); true }
            _ => false },
        24 => match (p, q) {
            (Pt::R(a), Pt::R(b)) => { put(s, "join_cover_both.uu", a.join_cover_both(b)); true }
            (Pt::R(a), Pt::N(b)) => { put(s, "join_cover_both.un", a.join_cover_both(b)); true }
            (Pt::N(a), Pt::R(b)) => { put(s, "join_cover_both.nu", a.join_cover_both(b)); true }
            (Pt::N(a), Pt::N(b)) => { put(s, "join_cover_both.nn", a.join_cover_both(b)); true }
            _ => false },
        25 => on_range!(p, r => { let (a, b) = r.frontiers(); put(s, "frontiers.0", a); put(s, "frontiers.1", b) }),
        26 => if let Pt::I(mut i) = q { on_range!(p, r => { let ok = r.forward_by(&mut i, x); fwd(s, "range.forward_by", ok, i) }) } else { false },
        27 => match (p, q) {
            (Pt::R(a), Pt::R(b)) => { put(s, "range.forward_range_by", a.forward_range_by(b, x)); true }
            (Pt::R(a), Pt::N(b)) => { put(s, "range.forward_range_by", a.forward_range_by(b, x)); true }
            (Pt::N(a), Pt::R(b)) => { put(s, "range.forward_range_by", a.forward_range_by(b, x)); true }
            (Pt::N(a), Pt::N(b)) => { put(s, "range.forward_range_by", a.forward_range_by(b, x)); true }
            _ => false },
        28 => on_range!(p, r => { put(s, "no_proof", r.no_proof()); put(s, "Provable::no_proof", Provable::no_proof(r)) }),
        29 => on_index!(p, i => put(s, "index.no_proof", i.no_proof())),
        30 => match p {
            Pt::R(r) => { putr(s, "IntoCheckedRange", IntoCheckedRange::into(r)); true }
            Pt::N(r) => { putr(s, "IntoCheckedRange", IntoCheckedRange::into(r)); true }
            _ => false },
        31 => on_range!(p, r => put(s, "first", r.first())),
        32 => on_range!(p, r => put(s, "upper_middle", r.upper_middle())),
        33 => on_range!(p, r => put(s, "past_the_end", r.past_the_end())),
        34 => on_ne!(p, r => put(s, "lower_middle", r.lower_middle())),
        35 => on_ne!(p, r => put(s, "last", r.last())),
        36 => on_ne!(p, r => put(s, "tail", r.tail())),
        37 => on_ne!(p, r => put(s, "init", r.init())),
        38 => on_ne!(p, r => putr(s, "advance_", r.advance_())),
        39 => on_ne!(p, r => { let mut r = r; s.value("advance", r.advance() as u64); put(s, "advance", r) }),
        40 => on_ne!(p, r => { let mut r = r; s.value("advance_by", r.advance_by(x) as u64); put(s, "advance_by", r) }),
        41 => on_ne!(p, r => { let mut r = r; s.value("advance_back", r.advance_back() as u64); put(s, "advance_back", r) }),
        42 => on_range!(p, r => { let mut it = r.into_iter(); iterate(s, &mut it, x); put(s, "iter.into_range", it.into_range());
            let mut c = it; iterate(s, &mut c, y); put(s, "iter.into_range", c.into_range()); put(s, "iter.into_range", it.into_range()) }),
        43 => on_range!(p, r => { s.value("range.len", r.len() as u64); s.value("is_empty", r.is_empty() as u64);
            let a = r.as_range(); s.value("as_range", a.start as u64); s.value("as_range", a.end as u64) }),
        44 => match (p, q) {
            (Pt::R(a), Pt::N(b)) => { s.value("range.cmp", (a == b) as u64 | ((a < b) as u64) << 1 | ((a <= b) as u64) << 2); true }
            (Pt::R(a), Pt::R(b)) => { s.value("range.cmp", (a == b) as u64 | ((a < b) as u64) << 1 | ((a <= b) as u64) << 2); true }
            (Pt::I(a), Pt::E(b)) => { s.value("index.cmp", (a == b) as u64 | ((a < b) as u64) << 1 | ((a <= b) as u64) << 2); true }
            (Pt::I(a), Pt::I(b)) => { s.value("index.cmp", (a == b) as u64 | ((a < b) as u64) << 1 | ((a <= b) as u64) << 2); true }
            _ => false },
        45 => on_index!(p, i => s.value("integer", i.integer() as u64)),
        _ => unreachable!(),
    }
}

/// All particles of a container (for small lengths), built by vetting.
pub fn all_particles<'id, A, M>(v: &Container<'id, A, M>) -> Vec<Pt<'id>> where A: Trustworthy {
    let n = v.len();
    let mut out = Vec::new();
    for a in 0..=n {
        if let Ok(i) = v.vet(a) { out.push(Pt::I(i)); }
        for b in a..=n {
            if let Ok(r) = v.vet_range(a..b) {
                if a == b { out.push(Pt::E(r.first())); }
                out.push(Pt::R(r));
                if let Ok(r) = r.nonempty() { out.push(Pt::N(r)); }
            }
        }
    }
    out
}

/// Particles at interesting places of a container of any length.
pub fn edge_particles<'id, A, M>(v: &Container<'id, A, M>) -> Vec<Pt<'id>> where A: Trustworthy {
    let n = v.len();
    let mut pos = vec![0, 1, 2, 3, n / 3, n / 2, n / 2 + 1, n.wrapping_sub(2), n.wrapping_sub(1), n];
    pos.retain(|&p| p <= n);
    pos.sort();
    pos.dedup();
    let mut out = Vec::new();
    for &a in &pos {
        if let Ok(i) = v.vet(a) { out.push(Pt::I(i)); }
        for &b in &pos {
            if let Ok(r) = v.vet_range(a..b) {
                if a == b { out.push(Pt::E(r.first())); }
                out.push(Pt::R(r));
                if let Ok(r) = r.nonempty() { out.push(Pt::N(r)); }
            }
        }
    }
    out
}

/// Random history: a pool of particles; every step applies a random operation to pool members.
pub struct Pool<'id> { pub ps: Vec<Pt<'id>>, pub cap: usize }

impl<'id> Pool<'id> {
    pub fn new(cap: usize) -> Self { Pool { ps: Vec::new(), cap } }
    pub fn add(&mut self, rng: &mut Rng, p: Pt<'id>) {
        if self.ps.len() < self.cap { self.ps.push(p) } else { let k = rng.below(self.cap); self.ps[k] = p }
    }
    pub fn pick(&self, rng: &mut Rng) -> Pt<'id> { self.ps[rng.below(self.ps.len())] }
    pub fn index(&self, rng: &mut Rng) -> Option<Index<'id>> {
        for _ in 0..24 { if let Pt::I(i) = self.pick(rng) { return Some(i) } }
        None
    }
    pub fn edge(&self, rng: &mut Rng) -> Option<Index<'id, Unknown>> {
        for _ in 0..24 { match self.pick(rng) { Pt::E(i) => return Some(i), Pt::I(i) => return Some(i.no_proof()), _ => {} } }
        None
    }
    pub fn range(&self, rng: &mut Rng) -> Option<Range<'id>> {
        for _ in 0..24 { match self.pick(rng) { Pt::R(r) => return Some(r), Pt::N(r) => return Some(r.no_proof()), _ => {} } }
        None
    }
    pub fn ne_range(&self, rng: &mut Rng) -> Option<Range<'id, NonEmpty>> {
        for _ in 0..24 { if let Pt::N(r) = self.pick(rng) { return Some(r) } }
        None
    }
}

/// One random derivation step; returns the operation number.
pub fn step<'id, A, M, S>(rng: &mut Rng, v: &Container<'id, A, M>, pool: &Pool<'id>, scan: bool, s: &mut S) -> Option<usize>
    where A: Contiguous, S: Sink<'id>
{
    let op = rng.below(NOPS);
    for _ in 0..8 {
        let (p, q) = (pool.pick(rng), pool.pick(rng));
        let (_, pos, end) = p.obs();
        let x = match op {
            21 => match rng.below(4) { 0 => rng.range(1, 9), 1 => (end.wrapping_sub(pos)).max(1), _ => rand_arg(rng, end.wrapping_sub(pos), pos) },
            _ => rand_arg(rng, v.len(), pos),
        };
        let y = if rng.chance(1, 2) { rand_arg(rng, v.len(), x) } else { rng.range(0, v.len().saturating_add(1)) };
        if apply(op, v, p, q, x, y, scan, s) { return Some(op); }
    }
    None
}
