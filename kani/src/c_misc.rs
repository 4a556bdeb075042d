//! C06, C22, C23, C24
use crate::k::*;
use level_db_rust::util::crc::CRC;
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};

// ---- C06: mask is the LevelDB mask, unmask inverts it; all 2^32 values, loop-free
#[kani::proof]
fn c06_p_mask() {
    let c: u32 = kani::any();
    let m = CRC::mask(c);
    assert!(m == c.rotate_right(15).wrapping_add(0xa282ead8), "mask");
    assert!(CRC::unmask(m) == c, "unmask after mask");
    kani::cover!(c > 0x8000_0000);
}
#[kani::proof]
fn c06_p_unmask() {
    let m: u32 = kani::any();
    let c = CRC::unmask(m);
    assert!(c == m.wrapping_sub(0xa282ead8).rotate_left(15), "unmask");
    assert!(CRC::mask(c) == m, "mask after unmask");
    kani::cover!(m < 0xa282ead8);
}
#[kani::proof]
fn c06_p_trait() {
    use level_db_rust::util::crc::ToMask;
    let c: u32 = kani::any();
    assert!(c.to_mask() == CRC::mask(c) && c.unmask() == CRC::unmask(c), "trait form");
    kani::cover!();
}

// ---- C24
const M: u32 = 2147483647;
fn any_state() -> u32 {
    let s: u32 = kani::any();
    kani::assume(s != 0);
    s
}
fn with_state(s: u32) -> Random {
    #[cfg(verif_inspect)]
    { Random::verif_with_state(s) }
    #[cfg(not(verif_inspect))]
    { Random::new(s) }
}
fn state(r: &Random) -> u32 {
    #[cfg(verif_inspect)]
    { r.verif_seed() }
    #[cfg(not(verif_inspect))]
    { let _ = r; 1 }
}
/// every seed gives a non-zero state, and 0 and 2^31-1 behave as 1
#[kani::proof]
fn c24_p_seed() {
    let s: u32 = kani::any();
    let mut r = Random::new(s);
    assert!(state(&r) != 0, "state after seeding is not zero");
    let mut one = Random::new(1);
    let a = r.next();
    if s == 0 || s == M { assert!(a == one.next(), "bad seeds behave as 1"); }
    assert!(a >= 1 && a <= M, "raw value in range");
    kani::cover!(s == 0);
    kani::cover!(s == M);
    kani::cover!(s > M);
}
/// inductive step: from every non-zero state, a draw is in range and leaves a non-zero state
#[kani::proof]
fn c24_p_next() {
    let s = any_state();
    let mut r = with_state(s);
    let a = r.next();
    assert!(a >= 1 && a <= M, "raw value in range");
    assert!(state(&r) != 0, "state stays non-zero");
    let b = r.next();
    assert!(b >= 1 && b <= M, "raw value in range");
    let mut r2 = with_state(s);
    assert!(r2.next() == a && r2.next() == b, "same state, same sequence");
    kani::cover!(a == 1);
}
#[kani::proof]
#[kani::solver(z3)]
fn c24_p_uniform() {
    let s = any_state();
    let n: u32 = kani::any();
    kani::assume(n >= 1);
    let (mut a, mut b, mut c) = (with_state(s), with_state(s), with_state(s));
    let raw = a.next();
    assert!(b.uniform(n) == raw % n, "uniform is the raw value modulo n");
    assert!(c.one_in(n) == (raw % n == 0), "one_in");
    assert!(state(&a) == state(&b) && state(&a) == state(&c), "one draw each");
    kani::cover!(raw % n == 0);
}
#[kani::proof]
fn c24_p_skewed() {
    let s = any_state();
    let m: u32 = kani::any();
    kani::assume(m <= 31);
    let mut a = with_state(s);
    let v = a.skewed(m);
    assert!((v as u64) < 1u64 << m, "skewed draw below 2^m");
    assert!(state(&a) != 0, "state stays non-zero");
    kani::cover!(m == 31);
    kani::cover!(m == 0);
}

// ---- C22
fn kind(i: i32) -> LevelError {
    match LevelError::try_from(i) { Ok(e) => e, Err(_) => panic!("no error kind for a code") }
}
#[kani::proof]
#[kani::stub(alloc::fmt::format, nofmt)]
fn c22_p_codes() {
    let i: i32 = kani::any();
    let r = LevelError::try_from(i);
    assert!(r.is_ok() == (0 <= i && i <= 7), "exactly the codes 0..7 are kinds");
    if let Ok(e) = r {
        assert!(e.get_value() == i, "code of the kind of a code");
        assert!(e.is_ok() == (i == 0) && e.is_not_found() == (i == 1) && e.is_corruption() == (i == 2) && e.is_not_supported_error() == (i == 3)
            && e.is_invalid_argument() == (i == 4) && e.is_io_error() == (i == 5) && e.is_repeated_record() == (i == 7), "exactly the predicate of the kind");
        kani::cover!(i == 6);
    }
    kani::cover!(i > 7);
    kani::cover!(i < 0);
}
#[kani::proof]
fn c22_p_kinds() {
    use LevelError::*;
    let all = [KOk.get_value(), KNotFound.get_value(), KCorruption.get_value(), KNotSupported.get_value(), KInvalidArgument.get_value(),
        KIOError.get_value(), KBadRecord.get_value(), KRepeatedRecord.get_value()];
    assert!(all == [0, 1, 2, 3, 4, 5, 6, 7], "codes of the kinds");
    kani::cover!();
}
fn preds(s: &Status, i: i32) -> bool {
    s.is_ok() == (i == 0) && s.is_not_found() == (i == 1) && s.is_corruption() == (i == 2) && s.is_not_supported_error() == (i == 3)
        && s.is_invalid_argument() == (i == 4) && s.is_io_error() == (i == 5)
}
/// message parts of every length and contents
#[kani::proof]
#[kani::stub(alloc::fmt::format, nofmt)]
fn c22_p_wrapper() {
    let i: i32 = kani::any();
    kani::assume(0 <= i && i <= 7);
    let a = any_vec();
    let n = a.len();
    let k: usize = kani::any();
    let ak = if k < n { a[k] } else { 0 };
    let s = Status::wrapper(kind(i), Slice::from_vec(a));
    assert!(preds(&s, i), "exactly the predicate of the kind");
    let m = s.into_msg();
    assert!(m.size() == if i == 0 { 0 } else { n }, "an ok status drops its message, others keep it");
    if k < m.size() { assert!((&*m)[k] == ak, "message bytes"); }
    kani::cover!(i == 0 && n > 0);
    kani::cover!(i == 7 && k < n);
}
fn two_parts(sel: i32) {
    let a = any_vec();
    let b = any_vec();
    let (n, l) = (a.len(), b.len());
    let k: usize = kani::any();
    let want_len = if l == 0 { n } else { n + 2 + l };
    kani::assume(k < want_len);
    let want = if k < n { a[k] } else if k == n { b':' } else if k == n + 1 { b' ' } else { b[k - n - 2] };
    let (a, b) = (Slice::from_vec(a), Slice::from_vec(b));
    let (i, s) = match sel {
        1 => (1, LevelError::not_found(a, b)),
        2 => (2, LevelError::corruption(a, b)),
        3 => (3, LevelError::not_supported(a, b)),
        4 => (4, LevelError::invalid_argument(a, b)),
        5 => (5, LevelError::io_error(a, b)),
        _ => {
            let i: i32 = kani::any();
            kani::assume(0 <= i && i <= 7);
            (i, Status::wrappers(kind(i), a, b))
        }
    };
    assert!(preds(&s, i), "exactly the predicate of the kind");
    let m = s.into_msg();
    assert!(m.size() == want_len, "joined length");
    assert!((&*m)[k] == want, "joined bytes");
    kani::cover!(l == 0);
    kani::cover!(k > n + 2);
}
macro_rules! two { ($($n:ident $i:expr;)*) => { $( #[kani::proof] #[kani::stub(alloc::fmt::format, nofmt)] #[kani::unwind(4)] fn $n() { two_parts($i) } )* } }
two! { c22_p_wrappers 0; c22_p_not_found 1; c22_p_corruption 2; c22_p_not_supported 3; c22_p_invalid_argument 4; c22_p_io_error 5; }
#[kani::proof]
fn c22_p_repeated() {
    let a = any_vec();
    let n = a.len();
    let k: usize = kani::any();
    kani::assume(k < n);
    let ak = a[k];
    let s = LevelError::repeated_record(Slice::from_vec(a));
    assert!(preds(&s, 7), "no other predicate holds");
    let e = Status::wrapper(LevelError::KRepeatedRecord, Slice::default()).get_error();
    assert!(e.is_repeated_record(), "repeated record");
    let m = s.into_msg();
    assert!(m.size() == n && (&*m)[k] == ak, "message kept");
    let o = LevelError::ok();
    assert!(preds(&o, 0) && o.into_msg().size() == 0, "ok status");
    let d = Status::default();
    assert!(preds(&d, 0) && d.into_msg().size() == 0, "default status");
    kani::cover!();
}

// ---- C23
#[cfg(verif_inspect)]
mod hist {
    use super::*;
    const N: usize = Histogram::VERIF_BUCKETS;
    fn any_hist() -> Histogram {
        Histogram::verif_from_parts(kani::any(), kani::any())
    }
    #[kani::proof]
    #[kani::unwind(156)]
    fn c23_p_clear() {
        let mut a = any_hist();
        a.clear();
        let e = Histogram::default();
        let j: usize = kani::any();
        kani::assume(j < N);
        assert!(a.verif_summary() == e.verif_summary() && a.verif_bucket(j) == 0.0 && e.verif_bucket(j) == 0.0, "clear gives the empty histogram");
        let s = e.verif_summary();
        assert!(s[1] == 0.0 && s[2] == 0.0 && s[3] == 0.0 && s[4] == 0.0 && s[0] == Histogram::verif_limit(N - 1), "empty histogram");
        kani::cover!();
    }
    /// LevelDB's bucket limits are increasing, so the buckets partition the values
    #[kani::proof]
    #[kani::unwind(156)]
    fn c23_p_limits() {
        let j: usize = kani::any();
        kani::assume(j < N - 1);
        assert!(Histogram::verif_limit(j) < Histogram::verif_limit(j + 1), "limits increase");
        kani::cover!();
    }
}
