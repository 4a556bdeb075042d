//! C09, C26: the bytewise order and the byte-slice operations, on byte strings of every length.
use crate::k::*;
use core::cmp::Ordering;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;

// memcmp behind its contract (C standard, 7.24.4.1): reads n bytes on both sides, the sign
// of its result is that of the first pair of bytes, taken as unsigned, that differ, and 0
// if there is none. The stand-in records the call and answers anything the contract allows
// on what the harness can see: nothing to compare gives 0, a difference in the first byte
// decides, everything else is unconstrained.
static mut CALLS: usize = 7_777_001;
static mut P1: *const u8 = 7_777_002 as *const u8;
static mut P2: *const u8 = 7_777_003 as *const u8;
static mut N: usize = 7_777_004;
static mut R: i32 = 7_777_005;
unsafe fn memcmp_contract(s1: *const i8, s2: *const i8, n: usize) -> i32 {
    let r: i32 = kani::any();
    if n == 0 {
        kani::assume(r == 0);
    } else {
        let (s1, s2) = (s1 as *const u8, s2 as *const u8);
        let (x, y) = (*s1, *s2);
        let _ = (*s1.add(n - 1), *s2.add(n - 1));
        if x != y {
            kani::assume((r > 0) == (x > y) && r != 0);
        }
    }
    CALLS += 1;
    P1 = s1 as *const u8;
    P2 = s2 as *const u8;
    N = n;
    R = r;
    r
}
fn start() {
    unsafe { CALLS = 0 };
}
fn sign(r: i32) -> Ordering {
    r.cmp(&0)
}
/// the order of a and b is the answer of memcmp over the common length, then the lengths
fn check_order(a: &[u8], b: &[u8], got: Option<Ordering>) {
    let min = if a.len() < b.len() { a.len() } else { b.len() };
    let lens = a.len().cmp(&b.len());
    assert!(got.is_some(), "a definite order");
    let got = got.unwrap();
    unsafe {
        if CALLS == 1 && N == min && P1 == a.as_ptr() && P2 == b.as_ptr() {
            assert!(got == if R == 0 { lens } else { sign(R) }, "order of the first differing byte, then of the lengths");
            kani::cover!(R == 0 && lens == Ordering::Less);
            kani::cover!(R != 0);
        } else if CALLS == 1 && N == min && P1 == b.as_ptr() && P2 == a.as_ptr() {
            assert!(got == if R == 0 { lens } else { sign(R).reverse() }, "order of the first differing byte, then of the lengths");
            kani::cover!(R != 0);
        } else if CALLS == 1 {
            assert!(N <= min, "compares within both strings");
        }
    }
    if min == 0 {
        assert!(got == lens, "a prefix is smaller");
    } else if a[0] != b[0] {
        assert!(got == a[0].cmp(&b[0]), "unsigned order of the first byte");
    }
}
fn check_eq(a: &[u8], b: &[u8], got: bool) {
    if a.len() != b.len() {
        assert!(!got, "different lengths are not equal");
        return;
    }
    unsafe {
        if CALLS == 1 && N == a.len() && (P1 == a.as_ptr() && P2 == b.as_ptr() || P1 == b.as_ptr() && P2 == a.as_ptr()) {
            assert!(got == (R == 0), "equal exactly when no byte differs");
            kani::cover!(R == 0);
            kani::cover!(R != 0);
        }
    }
    if a.len() == 0 {
        assert!(got, "empty strings are equal");
    } else if a[0] != b[0] {
        assert!(!got, "first byte differs");
    }
}

/// compare: any two byte strings of any length
#[kani::proof]
#[kani::stub(level_db_rust::util::comparator::memcmp, memcmp_contract)]
fn c09_p_compare() {
    let (a, b) = (any_vec(), any_vec());
    start();
    let got = BytewiseComparatorImpl::default().compare(&a, &b);
    check_order(&a, &b, got);
}
/// Slice < <= > >= and ==
#[kani::proof]
#[kani::stub(level_db_rust::util::slice::memcmp, memcmp_contract)]
fn c09_p_slice_order() {
    let (a, b) = (Slice::from_vec(any_vec()), Slice::from_vec(any_vec()));
    start();
    let got = a.partial_cmp(&b);
    check_order(a.as_ref(), b.as_ref(), got);
}
#[kani::proof]
#[kani::stub(level_db_rust::util::slice::memcmp, memcmp_contract)]
fn c09_p_slice_operators() {
    let (a, b) = (Slice::from_vec(any_vec()), Slice::from_vec(any_vec()));
    start();
    let which: u8 = kani::any();
    let min = if a.size() < b.size() { a.size() } else { b.size() };
    let (got, want): (bool, fn(Ordering) -> bool) = match which {
        0 => (a < b, Ordering::is_lt),
        1 => (a <= b, Ordering::is_le),
        2 => (a > b, Ordering::is_gt),
        _ => (a >= b, Ordering::is_ge),
    };
    unsafe {
        if CALLS == 1 && N == min && P1 == a.as_ref().as_ptr() && P2 == b.as_ref().as_ptr() {
            assert!(got == want(if R == 0 { a.size().cmp(&b.size()) } else { sign(R) }), "comparison operator");
            kani::cover!(R == 0);
        }
    }
    if min > 0 && a.as_ref()[0] != b.as_ref()[0] {
        assert!(got == want(a.as_ref()[0].cmp(&b.as_ref()[0])), "comparison operator on the first byte");
    }
}
#[kani::proof]
#[kani::stub(level_db_rust::util::slice::memcmp, memcmp_contract)]
fn c09_p_slice_eq() {
    let (a, b) = (Slice::from_vec(any_vec()), Slice::from_vec(any_vec()));
    start();
    let got = a == b;
    check_eq(a.as_ref(), b.as_ref(), got);
}
/// bounded: every pair of strings of up to 3 bytes, whatever way the code compares them
fn order_of(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] { return a[i].cmp(&b[i]); }
        i += 1;
    }
    a.len().cmp(&b.len())
}
fn vec3(a: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(3);
    let mut i = 0;
    while i < a.len() {
        v.push(a[i]);
        i += 1;
    }
    v
}
#[kani::proof]
#[kani::unwind(5)]
fn c09_b_short() {
    let x: [u8; 3] = kani::any();
    let y: [u8; 3] = kani::any();
    let (n, m): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= 3 && m <= 3);
    let (a, b) = (&x[..n], &y[..m]);
    let want = order_of(a, b);
    assert!(BytewiseComparatorImpl::default().compare(a, b) == Some(want), "compare");
    let (s, t) = (Slice::from_vec(vec3(a)), Slice::from_vec(vec3(b)));
    assert!(s.partial_cmp(&t) == Some(want), "partial_cmp");
    assert!((s == t) == (want == Ordering::Equal), "eq");
    kani::cover!(n == 3 && m == 3 && x[0] == y[0] && x[1] == y[1] && x[2] > y[2]);
}

// ---- C26
/// s holds exactly the bytes of v (checked at one arbitrary index)
fn same(s: &[u8], v: &[u8]) {
    assert!(s.len() == v.len(), "length");
    let i: usize = kani::any();
    if i < v.len() {
        assert!(s[i] == v[i], "byte");
    }
}
#[kani::proof]
fn c26_p_build() {
    let v = any_vec();
    let which: u8 = kani::any();
    let s = match which {
        0 => Slice::from_buf(&v),
        1 => {
            let w = v.clone();
            Slice::from_vec(w)
        }
        2 => Slice::from(unsafe { core::str::from_utf8_unchecked(&v) }),
        3 => Slice::from(unsafe { String::from_utf8_unchecked(v.clone()) }),
        _ => Slice::from_buf(&v).clone(),
    };
    assert!(s.size() == v.len() && s.empty() == (v.len() == 0), "size and emptiness");
    same(s.as_ref(), &v);
    same(&s, &v);
    assert!(Slice::default().size() == 0 && Slice::default().empty(), "the default is empty");
    kani::cover!(which == 0 && v.len() > 100);
    kani::cover!(which == 4 && v.len() == 0);
}
#[kani::proof]
fn c26_p_give_back() {
    let v = any_vec();
    let s = Slice::from_buf(&v);
    let which: u8 = kani::any();
    match which {
        0 => same(String::from(s).as_bytes(), &v),
        1 => same(&Vec::<u8>::from(s), &v),
        _ => {
            let c = s.borrow_data();
            same(c.as_bytes(), &v);
        }
    }
    kani::cover!(which == 0 && v.len() > 100);
    kani::cover!(which == 2 && v.len() > 100);
}
/// reads of one byte and of every kind of range inside the data
#[kani::proof]
fn c26_p_ranges() {
    let v = any_vec();
    let n = v.len();
    let s = Slice::from_vec(v);
    let base = s.as_ref().as_ptr();
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    kani::assume(a <= b && b <= n);
    let which: u8 = kani::any();
    let (r, at, len): (&[u8], usize, usize) = match which {
        0 => (&s[a..b], a, b - a),
        1 => (&s[a..], a, n - a),
        2 => (&s[..b], 0, b),
        _ => (s.as_sub_ref(a, b - a), a, b - a),
    };
    assert!(r.len() == len, "length of the range");
    assert!(r.as_ptr() as usize == base as usize + at, "the range is that part of the data");
    if a < n {
        assert!(s[a] == s.as_ref()[a], "byte at an index");
    }
    kani::cover!(which == 0 && a == n);
    kani::cover!(which == 3 && a < b);
}
/// writes through ranges reach exactly the range
#[kani::proof]
fn c26_p_ranges_mut() {
    let v = any_vec();
    let n = v.len();
    let mut s = Slice::from_vec(v);
    let base = s.as_ref().as_ptr() as usize;
    let (a, b, q): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(a <= b && b <= n);
    kani::assume(q < n);
    let was = s.as_ref()[q];
    let which: u8 = kani::any();
    let i: usize = kani::any();
    let w: u8 = kani::any();
    let (at, len) = match which { 0 => (a, b - a), 1 => (a, n - a), 2 => (0, b), _ => (0, n) };
    let r: &mut [u8] = match which { 0 => &mut s[a..b], 1 => &mut s[a..], 2 => &mut s[..b], _ => &mut s };
    assert!(r.len() == len && r.as_ptr() as usize == base + at, "the range is that part of the data");
    kani::assume(i < len);
    r[i] = w;
    assert!(s.size() == n, "length kept");
    assert!(s.as_ref()[q] == if q == at + i { w } else { was }, "only the byte written changes");
    kani::cover!(which == 0 && q == a + i);
    kani::cover!(which == 2 && q > b);
}
/// a request outside the data never returns (a return would trip the read through null)
fn must_not_return() {
    let p: *const u8 = core::ptr::null();
    unsafe { core::ptr::read_volatile(p) };
}
#[kani::proof]
#[kani::should_panic]
fn c26_p_out_of_range() {
    let mut s = Slice::from_vec(any_vec());
    let n = s.size();
    let (a, b): (usize, usize) = (kani::any(), kani::any());
    let which: u8 = kani::any();
    kani::cover!(which == 0 && a == n);
    kani::cover!(which == 8 && a > n);
    match which {
        0 => { kani::assume(a >= n); let _ = s[a]; }
        1 => { kani::assume(b > n || a > b); let _ = &s[a..b]; }
        2 => { kani::assume(a > n); let _ = &s[a..]; }
        3 => { kani::assume(b > n); let _ = &s[..b]; }
        4 => { kani::assume(b > n || a > b); let _ = &mut s[a..b]; }
        5 => { kani::assume(a > n); let _ = &mut s[a..]; }
        6 => { kani::assume(b > n); let _ = &mut s[..b]; }
        7 => { kani::assume(a > n || b > n - a); let _ = s.as_sub_ref(a, b); }
        _ => { kani::assume(a > n); let _ = s.remove_prefix(a); }
    }
    must_not_return();
}
#[kani::proof]
fn c26_p_remove_prefix() {
    let v = any_vec();
    let k: usize = kani::any();
    kani::assume(k <= v.len());
    let s = Slice::from_buf(&v);
    let r = s.remove_prefix(k);
    same(r.as_ref(), &v[k..]);
    same(s.as_ref(), &v);
    kani::cover!(k == v.len() && k > 0);
    kani::cover!(k == 0 && v.len() > 1);
}
#[kani::proof]
#[kani::stub(level_db_rust::util::slice::memcmp, memcmp_contract)]
fn c26_p_starts_with() {
    let (a, b) = (Slice::from_vec(any_vec()), Slice::from_vec(any_vec()));
    start();
    let got = a.starts_with(&b);
    let (x, y) = (a.as_ref(), b.as_ref());
    if y.len() > x.len() {
        assert!(!got, "a longer string is no prefix");
    } else if y.len() == 0 {
        assert!(got, "the empty string is a prefix");
    } else {
        unsafe {
            if CALLS == 1 && N == y.len() && P1 == x.as_ptr() && P2 == y.as_ptr() {
                assert!(got == (R == 0), "a prefix exactly when no byte differs");
                kani::cover!(R == 0);
                kani::cover!(R != 0);
            }
        }
        if x[0] != y[0] {
            assert!(!got, "first byte differs");
        }
    }
}
/// bounded: strings of up to 3 bytes, whatever way the code compares them
#[kani::proof]
#[kani::unwind(5)]
fn c26_b_starts_with() {
    let x: [u8; 3] = kani::any();
    let y: [u8; 3] = kani::any();
    let (n, m): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= 3 && m <= 3);
    let want = m <= n && order_of(&x[..m], &y[..m]) == Ordering::Equal;
    assert!(Slice::from_buf(&x[..n]).starts_with(&Slice::from_buf(&y[..m])) == want, "prefix test");
    kani::cover!(n == 3 && m == 2 && want);
}
#[kani::proof]
fn c26_p_merge() {
    let (a, b, j) = (any_vec(), any_vec(), any_vec());
    let with: bool = kani::any();
    let mut s = Slice::from_buf(&a);
    let joiner = if with { Some(unsafe { String::from_utf8_unchecked(j.clone()) }) } else { None };
    s.merge(Slice::from_buf(&b), joiner);
    let i: usize = kani::any();
    let r = s.as_ref();
    if b.len() == 0 {
        assert!(r.len() == a.len(), "joining an empty one changes nothing");
        if i < a.len() { assert!(r[i] == a[i], "joining an empty one changes nothing"); }
    } else {
        let m = if with { j.len() } else { 0 };
        assert!(r.len() == a.len() + m + b.len(), "length after joining");
        if i < r.len() {
            let want = if i < a.len() { a[i] } else if i < a.len() + m { j[i - a.len()] } else { b[i - a.len() - m] };
            assert!(r[i] == want, "bytes after joining");
        }
    }
    kani::cover!(with && b.len() > 1 && j.len() > 1 && a.len() > 1);
    kani::cover!(!with && b.len() > 1);
}
