//! Tables of the library's algorithms, so that every monitor sees all of them.
use indexing::algorithms::*;
#[cfg(feature = "ptr")]
use indexing::scope;
use std::cmp::Ordering;

pub type OrdSort<T> = (&'static str, fn(&mut [T]));
pub type BySort<T> = (&'static str, bool, fn(&mut [T], &mut dyn FnMut(&T, &T) -> bool));

pub fn ord_sorts<T: Ord>() -> Vec<OrdSort<T>> {
    vec![
        ("quicksort_range", quicksort_range::<T> as fn(&mut [T])),
        ("quicksort_bounds", quicksort_bounds::<T>),
        #[cfg(feature = "ptr")]
        ("quicksort_prange", quicksort_prange::<T>),
    ]
}

/// (name, documented as stable, function)
pub fn by_sorts<T>() -> Vec<BySort<T>> {
    vec![
        ("insertion_sort_indexes", true, (|v, f| insertion_sort_indexes(v, f)) as fn(&mut [T], &mut dyn FnMut(&T, &T) -> bool)),
        ("insertion_sort_ranges", true, |v, f| insertion_sort_ranges(v, f)),
        ("insertion_sort_rust", true, |v, f| insertion_sort_rust(v, f)),
        #[cfg(feature = "ptr")]
        ("insertion_sort_prange_lower", false, |v, f| insertion_sort_prange_lower(v, f)),
        #[cfg(feature = "ptr")]
        ("insertion_sort_pointerindex", true, |v, f| insertion_sort_pointerindex(v, f)),
    ]
}

pub type BinSearch<T> = (&'static str, fn(&[T], &mut dyn FnMut(&T) -> Ordering) -> Result<usize, usize>);
pub type LowerBy<T> = (&'static str, fn(&[T], &mut dyn FnMut(&T) -> bool) -> usize);
pub type LowerElt<T> = (&'static str, fn(&[T], &T) -> usize);

pub fn bin_searches<T>() -> Vec<BinSearch<T>> {
    vec![
        ("binary_search_by", (|v, f| binary_search_by(v, f)) as fn(&[T], &mut dyn FnMut(&T) -> Ordering) -> Result<usize, usize>),
        #[cfg(feature = "ptr")]
        ("binary_search_by_prange", |v, f| binary_search_by_prange(v, f)),
        #[cfg(feature = "ptr")]
        ("binary_search_by_pslice", |v, f| binary_search_by_pslice(v, f)),
        #[cfg(feature = "ptr")]
        ("binary_search_by_prange_", |v, f| scope(v, |v| match binary_search_by_prange_(v.pointer_range(), &v, f) {
            Ok(p) => Ok(v.distance_to(p)), Err(p) => Err(v.distance_to(p)) })),
        #[cfg(feature = "ptr")]
        ("binary_search_by_pslice_", |v, f| scope(v, |v| match binary_search_by_pslice_(v.pointer_slice(), &v, f) {
            Ok(p) => Ok(v.distance_to(p)), Err(p) => Err(v.distance_to(p)) })),
    ]
}
pub fn lower_bys<T>() -> Vec<LowerBy<T>> {
    vec![
        #[cfg(feature = "ptr")]
        ("lower_bound_pslice", (|v, f| lower_bound_pslice(v, f)) as fn(&[T], &mut dyn FnMut(&T) -> bool) -> usize),
        #[cfg(feature = "ptr")]
        ("lower_bound_pslice_", |v, f| scope(v, |v| v.distance_to(lower_bound_pslice_(v.pointer_slice(), &v, f)))),
        #[cfg(feature = "ptr")]
        ("lower_bound_prange_", |v, f| scope(v, |v| v.distance_to(lower_bound_prange_(v.pointer_range(), &v, f)))),
    ]
}
pub fn lower_elts<T: PartialOrd>() -> Vec<LowerElt<T>> {
    vec![
        ("lower_bound", lower_bound::<T> as fn(&[T], &T) -> usize),
        ("lower_bound_raw_ptr", lower_bound_raw_ptr::<T>),
        #[cfg(feature = "ptr")]
        ("lower_bound_prange", lower_bound_prange::<T>),
    ]
}
pub type Merge<T> = (&'static str, fn(&mut [T], usize, &mut [T]) -> Result<(), AlgorithmError>);
pub fn merges<T: Ord>() -> Vec<Merge<T>> {
    vec![("merge_internal_indices", merge_internal_indices::<T> as fn(&mut [T], usize, &mut [T]) -> Result<(), AlgorithmError>),
         ("merge_internal_ranges", merge_internal_ranges::<T>)]
}
