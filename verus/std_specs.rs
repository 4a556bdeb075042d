//@assume functions of the standard library that vstd gives no contract (Option::{and, or, xor, zip, filter, or_else, map_or, is_some_and, is_none_or, replace, copied}, mem::replace, cmp::{min, max}, abs_diff, div_ceil, overflowing_add, rem_euclid, is_power_of_two, rotate_left, rotate_right, then_some, overflowing_sub, wrapping_neg, Ordering::{is_lt, is_le, is_gt, is_ge, is_eq, is_ne, reverse, then, then_with}, slice swap) do what their documentation says; the code as it stands uses rotate_left and rotate_right of these, the others are there for later edits
pub assume_specification<T, U>[ Option::<T>::and::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == if a.is_some() { b } else { Option::<U>::None };
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == if a.is_some() { a } else { b };
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == if a.is_some() && b.is_none() { a } else if a.is_none() && b.is_some() { b } else { Option::<T>::None };
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or::<U, F> ](a: Option<T>, d: U, f: F) -> (r: U) requires a.is_some() ==> f.requires((a.unwrap(),)), ensures a.is_some() ==> f.ensures((a.unwrap(),), r), a.is_none() ==> r == d;
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](a: Option<T>, f: F) -> (r: bool) requires a.is_some() ==> f.requires((a.unwrap(),)), ensures a.is_some() ==> f.ensures((a.unwrap(),), r), a.is_none() ==> !r;
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](a: Option<T>, f: F) -> (r: bool) requires a.is_some() ==> f.requires((a.unwrap(),)), ensures a.is_some() ==> f.ensures((a.unwrap(),), r), a.is_none() ==> r;
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](a: Option<T>, f: F) -> (r: Option<T>) requires a.is_none() ==> f.requires(()), ensures a.is_some() ==> r == a, a.is_none() ==> f.ensures((), r);
pub assume_specification<T, P: FnOnce(&T) -> bool>[ Option::<T>::filter ](a: Option<T>, f: P) -> (r: Option<T>) requires a.is_some() ==> f.requires((&a.unwrap(),)), ensures a.is_none() ==> r.is_none(), a.is_some() ==> (r == a && f.ensures((&a.unwrap(),), true)) || (r.is_none() && f.ensures((&a.unwrap(),), false));
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T: Copy>[ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>) ensures a.is_some() ==> r == Some(*a.unwrap()), a.is_none() ==> r.is_none();
pub assume_specification<T>[ core::mem::replace ](a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b > 0, ensures r == (a + b - 1) / b as int;
pub assume_specification[ usize::overflowing_add ](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 as int == if a + b <= usize::MAX { a + b } else { a + b - usize::MAX - 1 }, r.1 == (a + b > usize::MAX);
pub assume_specification[ usize::rem_euclid ](a: usize, b: usize) -> (r: usize) requires b > 0, ensures r == a % b;
pub assume_specification[ u32::rem_euclid ](a: u32, b: u32) -> (r: u32) requires b > 0, ensures r == a % b;
pub assume_specification[ usize::is_power_of_two ](a: usize) -> (r: bool) ensures r == (a != 0 && a & ((a - 1) as usize) == 0);
pub assume_specification<T, U>[ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures a.is_some() && b.is_some() ==> r == Some((a.unwrap(), b.unwrap())), a.is_none() || b.is_none() ==> r.is_none();
pub assume_specification<T>[ bool::then_some ](b: bool, v: T) -> (r: Option<T>) ensures r == if b { Some(v) } else { Option::<T>::None };
pub assume_specification<T: Ord>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T) requires T::max.requires((a, b)), ensures T::max.ensures((a, b), r);
pub assume_specification<T: Ord>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T) requires T::min.requires((a, b)), ensures T::min.ensures((a, b), r);
pub assume_specification[ u32::rotate_right ](x: u32, n: u32) -> (r: u32) ensures 0 < n < 32 ==> r == ((x >> n) | (x << ((32 - n) as u32)));
pub assume_specification[ u32::rotate_left ](x: u32, n: u32) -> (r: u32) ensures 0 < n < 32 ==> r == ((x << n) | (x >> ((32 - n) as u32)));
pub assume_specification[ core::cmp::Ordering::is_lt ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Less);
pub assume_specification[ core::cmp::Ordering::is_le ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Greater);
pub assume_specification[ core::cmp::Ordering::is_gt ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Greater);
pub assume_specification[ core::cmp::Ordering::is_ge ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Less);
pub assume_specification[ core::cmp::Ordering::is_eq ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Equal);
pub assume_specification[ core::cmp::Ordering::is_ne ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Equal);
pub assume_specification[ core::cmp::Ordering::reverse ](o: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less });
pub assume_specification[ core::cmp::Ordering::then ](o: core::cmp::Ordering, p: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == if o == core::cmp::Ordering::Equal { p } else { o };
pub assume_specification<F: FnOnce() -> core::cmp::Ordering>[ core::cmp::Ordering::then_with::<F> ](o: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering) requires o == core::cmp::Ordering::Equal ==> f.requires(()), ensures o != core::cmp::Ordering::Equal ==> r == o, o == core::cmp::Ordering::Equal ==> f.ensures((), r);
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len(), ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification[ usize::overflowing_sub ](a: usize, b: usize) -> (r: (usize, bool)) ensures r.0 as int == if a >= b { a - b } else { a - b + usize::MAX + 1 }, r.1 == (a < b);
pub assume_specification[ usize::wrapping_neg ](a: usize) -> (r: usize) ensures r as int == if a == 0 { 0int } else { usize::MAX - a + 1 };
