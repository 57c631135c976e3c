//! Iterators against a model: random sequences of all the methods of an iterator, whatever was taken from it before,
//! each compared with the same method of a standard iterator over what should remain.
use crate::*;
use std::fmt::Debug;

/// The model: nothing but steps (the standard iterators' specialisations do not always consume the same).
#[derive(Clone)]
pub struct Plain<M>(pub M);
impl<M: Iterator> Iterator for Plain<M> {
    type Item = M::Item;
    fn next(&mut self) -> Option<M::Item> { self.0.next() }
    fn count(self) -> usize { self.0.count() }
}
impl<M: DoubleEndedIterator> DoubleEndedIterator for Plain<M> {
    fn next_back(&mut self) -> Option<M::Item> { self.0.next_back() }
}

type Key<'a, X, K> = &'a dyn Fn(X) -> K;

/// A method that takes something from the front.
pub fn front<I: Iterator, M: Iterator<Item = K> + Clone, K: PartialEq + Debug>(w: &str, it: &mut I, m: &mut M, key: Key<I::Item, K>, op: usize, k: usize) {
    event("iterator methods compared");
    // (what a predicate is called with is checked by what remains, how often by the counters)
    macro_rules! count { ($e:expr) => { { let mut c = 0usize; let f = |_: ()| { c += 1; c > k }; let mut f = f; let g = $e(&mut f); (g, c) } } }
    match op % 15 {
        0 => check_eq!(it.next().map(key), m.next(), "{}: next", w),
        1 => check_eq!(it.nth(k).map(key), m.nth(k), "{}: nth({})", w, k),
        2 => { let (a, b) = (count!(|f: &mut dyn FnMut(()) -> bool| it.find(|_| f(())).map(key)), count!(|f: &mut dyn FnMut(()) -> bool| m.find(|_| f(())))); check_eq!(a, b, "{}: find, after {}", w, k) }
        3 => { let (a, b) = (count!(|f: &mut dyn FnMut(()) -> bool| it.position(|_| f(()))), count!(|f: &mut dyn FnMut(()) -> bool| m.position(|_| f(())))); check_eq!(a, b, "{}: position, after {}", w, k) }
        4 => { let (a, b) = (count!(|f: &mut dyn FnMut(()) -> bool| it.any(|_| f(()))), count!(|f: &mut dyn FnMut(()) -> bool| m.any(|_| f(())))); check_eq!(a, b, "{}: any, after {}", w, k) }
        5 => { let (a, b) = (count!(|f: &mut dyn FnMut(()) -> bool| it.all(|_| !f(()))), count!(|f: &mut dyn FnMut(()) -> bool| m.all(|_| !f(())))); check_eq!(a, b, "{}: all, after {}", w, k) }
        6 => {
            let a = it.try_fold(vec![], |mut v, x| { v.push(key(x)); if v.len() > k { Err(v) } else { Ok(v) } });
            let b = m.try_fold(vec![], |mut v, x| { v.push(x); if v.len() > k { Err(v) } else { Ok(v) } });
            check_eq!(a, b, "{}: try_fold, until {}", w, k);
        }
        7 => check_eq!(it.by_ref().take(k).map(key).collect::<Vec<_>>(), m.by_ref().take(k).collect::<Vec<_>>(), "{}: take({})", w, k),
        8 => { let (mut c, mut d) = (0, 0); check_eq!(it.find_map(|x| { c += 1; if c > k { Some(key(x)) } else { None } }), m.find_map(|x| { d += 1; if d > k { Some(x) } else { None } }), "{}: find_map, after {}", w, k); check_eq!(c, d, "{}: calls by find_map", w) }
        9 => { let (mut v, mut u) = (vec![], vec![]); let a = it.try_for_each(|x| { v.push(key(x)); if v.len() > k { Err(()) } else { Ok(()) } }); let b = m.try_for_each(|x| { u.push(x); if u.len() > k { Err(()) } else { Ok(()) } }); check_eq!((a, v), (b, u), "{}: try_for_each, until {}", w, k) }
        10 => { let (mut c, mut d) = (0, 0); check_eq!(it.by_ref().skip_while(|_| { c += 1; c <= k }).next().map(key), m.by_ref().skip_while(|_| { d += 1; d <= k }).next(), "{}: skip_while {}", w, k) }
        11 => check_eq!(it.by_ref().step_by(k % 5 + 1).take(3).map(key).collect::<Vec<_>>(), m.by_ref().step_by(k % 5 + 1).take(3).collect::<Vec<_>>(), "{}: step_by({})", w, k % 5 + 1),
        12 => check_eq!(it.by_ref().skip(k).take(2).map(key).collect::<Vec<_>>(), m.by_ref().skip(k).take(2).collect::<Vec<_>>(), "{}: skip({})", w, k),
        13 => check_eq!(it.by_ref().zip(0..k).map(|(x, _)| key(x)).collect::<Vec<_>>(), m.by_ref().zip(0..k).map(|(x, _)| x).collect::<Vec<_>>(), "{}: zip with {}", w, k),
        _ => check_eq!(it.by_ref().enumerate().nth(k).map(|(i, x)| (i, key(x))), m.by_ref().enumerate().nth(k), "{}: enumerate and nth({})", w, k),
    }
    let (lo, hi) = it.size_hint();
    let n = m.clone().count();
    check!(lo <= n && hi.map_or(true, |h| h >= n), "{}: size_hint {:?} with {} to come", w, (lo, hi), n);
}
/// A method that takes something from the back.
pub fn back<I: DoubleEndedIterator, M: DoubleEndedIterator<Item = K> + Clone, K: PartialEq + Debug>(w: &str, it: &mut I, m: &mut M, key: Key<I::Item, K>, op: usize, k: usize) {
    event("iterator methods compared");
    match op % 7 {
        0 => check_eq!(it.next_back().map(key), m.next_back(), "{}: next_back", w),
        1 => check_eq!(it.nth_back(k).map(key), m.nth_back(k), "{}: nth_back({})", w, k),
        2 => { let (mut c, mut d) = (0, 0); check_eq!(it.rfind(|_| { c += 1; c > k }).map(key), m.rfind(|_| { d += 1; d > k }), "{}: rfind, after {}", w, k); check_eq!(c, d, "{}: calls by rfind", w) }
        3 => {
            let a = it.try_rfold(vec![], |mut v, x| { v.push(key(x)); if v.len() > k { Err(v) } else { Ok(v) } });
            let b = m.try_rfold(vec![], |mut v, x| { v.push(x); if v.len() > k { Err(v) } else { Ok(v) } });
            check_eq!(a, b, "{}: try_rfold, until {}", w, k);
        }
        4 => check_eq!(it.by_ref().rev().take(k).map(key).collect::<Vec<_>>(), m.by_ref().rev().take(k).collect::<Vec<_>>(), "{}: rev and take({})", w, k),
        5 => check_eq!(it.by_ref().rev().nth(k).map(key), m.by_ref().rev().nth(k), "{}: rev and nth({})", w, k),
        _ => check_eq!(it.by_ref().rev().step_by(k % 5 + 1).take(3).map(key).collect::<Vec<_>>(), m.by_ref().rev().step_by(k % 5 + 1).take(3).collect::<Vec<_>>(), "{}: rev and step_by({})", w, k % 5 + 1),
    }
}
/// A method that uses up what remains.
pub fn finish<I: Iterator, M: Iterator<Item = K> + Clone, K: Ord + Copy + Debug>(w: &str, mut it: I, m: M, key: Key<I::Item, K>, op: usize, k: usize) {
    event("iterators used up");
    let all: Vec<K> = m.clone().collect();
    let v = |x: Vec<I::Item>| x.into_iter().map(|x| key(x)).collect::<Vec<_>>();
    match op % 18 {
        0 => check_eq!(it.count(), all.len(), "{}: count", w),
        1 => check_eq!(it.last().map(key), all.last().copied(), "{}: last", w),
        2 => check_eq!(it.fold(vec![], |mut v, x| { v.push(key(x)); v }), all, "{}: fold", w),
        3 => check_eq!(v(it.collect()), all, "{}: collect", w),
        4 => { let mut u = vec![]; it.for_each(|x| u.push(key(x))); check_eq!(u, all, "{}: for_each", w) }
        5 => { let mut u = vec![]; for x in it.by_ref() { u.push(key(x)) } check_eq!(u, all, "{}: for loop", w); for _ in 0..3 { check!(it.next().is_none(), "{}: next once exhausted", w) } }
        6 => check_eq!(v(it.skip(k).collect()), m.skip(k).collect::<Vec<_>>(), "{}: skip({})", w, k),
        7 => check_eq!(v(it.step_by(k % 7 + 1).collect()), m.step_by(k % 7 + 1).collect::<Vec<_>>(), "{}: step_by({})", w, k % 7 + 1),
        8 => { let (mut c, mut d) = (0, 0); let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| { c += 1; c % 3 == k % 3 }); let x: (Vec<K>, Vec<K>) = m.partition(|_| { d += 1; d % 3 == k % 3 }); check_eq!((v(a), v(b)), x, "{}: partition", w) }
        9 => check_eq!(it.reduce(|a, _| a).map(key), all.first().copied(), "{}: reduce", w),
        10 => check_eq!(it.reduce(|_, b| b).map(key), all.last().copied(), "{}: reduce", w),
        11 => { let r = it.map(key).max(); check_eq!(r, all.iter().copied().max(), "{}: max", w) }
        12 => { let r = it.map(key).min(); check_eq!(r, all.iter().copied().min(), "{}: min", w) }
        13 => check_eq!(it.map(key).enumerate().last(), all.iter().copied().enumerate().last(), "{}: enumerate and last", w),
        14 => check_eq!(it.map(key).filter(|_| true).count(), all.len(), "{}: filter and count", w),
        15 => { let mut it = it.fuse().peekable(); let mut u = vec![]; while let Some(_) = it.peek() { u.push(key(it.next().unwrap())) } check_eq!(u, all, "{}: peekable", w); check!(it.next().is_none(), "{}: fuse", w) }
        16 => check!(it.map(key).eq(m), "{}: eq", w),
        _ => check_eq!(it.map(key).chain(all.iter().copied()).count(), all.len() * 2, "{}: chain", w),
    }
}
/// A method that uses up what remains from the back.
pub fn finish_back<I: DoubleEndedIterator, M: DoubleEndedIterator<Item = K> + Clone, K: Ord + Copy + Debug>(w: &str, it: I, m: M, key: Key<I::Item, K>, op: usize, k: usize) {
    event("iterators used up");
    let mut all: Vec<K> = m.clone().collect();
    all.reverse();
    let v = |x: Vec<I::Item>| x.into_iter().map(|x| key(x)).collect::<Vec<_>>();
    match op % 8 {
        0 => check_eq!(v(it.rev().collect()), all, "{}: rev", w),
        1 => check_eq!(it.rfold(vec![], |mut v, x| { v.push(key(x)); v }), all, "{}: rfold", w),
        2 => check_eq!(it.rev().count(), all.len(), "{}: rev and count", w),
        3 => check_eq!(it.rev().last().map(key), all.last().copied(), "{}: rev and last", w),
        4 => check_eq!(v(it.rev().skip(k).collect()), m.rev().skip(k).collect::<Vec<_>>(), "{}: rev and skip({})", w, k),
        5 => check_eq!(v(it.rev().step_by(k % 7 + 1).collect()), m.rev().step_by(k % 7 + 1).collect::<Vec<_>>(), "{}: rev and step_by({})", w, k % 7 + 1),
        6 => check_eq!(it.map(key).chain(None).rev().collect::<Vec<_>>(), all, "{}: chain and rev", w),
        _ => { let mut it = it; let mut u = vec![]; while let Some(x) = it.next_back() { u.push(key(x)) } check_eq!(u, all, "{}: next_back", w); check!(it.next_back().is_none() && it.next().is_none(), "{}: once exhausted", w) }
    }
}
/// A random history of an iterator with two ends.
pub fn two_ended<I: DoubleEndedIterator + Clone, M: DoubleEndedIterator<Item = K> + Clone, K: Ord + Copy + Debug>(w: &str, mut it: I, m: M, key: Key<I::Item, K>, rng: &mut Rng, up_to: usize, few: bool, mut see: impl FnMut(&I, &M)) {
    let mut m = Plain(m);
    let most = |rng: &mut Rng| match rng.below(8) { 0 => 0, 1 => 1, 2..=5 => rng.below(up_to / 3 + 2), _ => rng.below(up_to + 3) };
    for _ in 0..rng.below(9) {
        let (op, k) = (rng.below(105), most(rng));
        if few { let k = k.min(5); if op % 3 == 0 { back(w, &mut it, &mut m, key, op, k) } else { front(w, &mut it, &mut m, key, op, k) } }
        else if op % 3 == 0 { back(w, &mut it, &mut m, key, op / 3, k) } else { front(w, &mut it, &mut m, key, op, k) }
        see(&it, &m.0);
        if rng.chance(1, 6) { it = it.clone() }
    }
    if few { return }
    let (op, k) = (rng.below(72), most(rng));
    if rng.chance(1, 3) { finish_back(w, it.clone(), m.clone(), key, op, k) }
    finish(w, it, m, key, op / 3, k);
}
/// A random history of an iterator with one end.
pub fn one_ended<I: Iterator + Clone, M: Iterator<Item = K> + Clone, K: Ord + Copy + Debug>(w: &str, mut it: I, m: M, key: Key<I::Item, K>, rng: &mut Rng, up_to: usize) {
    let mut m = Plain(m);
    let most = |rng: &mut Rng| match rng.below(8) { 0 => 0, 1 => 1, 2..=5 => rng.below(up_to / 3 + 2), _ => rng.below(up_to + 3) };
    for _ in 0..rng.below(9) {
        let (op, k) = (rng.below(105), most(rng));
        front(w, &mut it, &mut m, key, op, k);
        if rng.chance(1, 6) { it = it.clone() }
    }
    let (op, k) = (rng.below(72), most(rng));
    finish(w, it, m, key, op, k);
}
