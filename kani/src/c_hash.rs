//! C05, C07, C08: the typed entry points hand exactly their bytes to the core functions
//! (whose contracts the Verus units prove), and the bloom filter's probe count.
use crate::k::*;
use level_db_rust::util::crc::{AsCrc, CRC};
use level_db_rust::util::filter_policy::{AsBloomHash, FromPolicy};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::slice::Slice;

/// what the core function was called with, at one arbitrary byte index
struct Rec { at: usize, result: u32, seed: u32, len: usize, byte: u8, calls: u32 }
/// (the unusual initial values keep Kani from sharing the object with a constant)
static mut R: Rec = Rec { at: 0x5bd1_e995_1234_5678, result: 0x9e37_79b9, seed: 0x85eb_ca6b, len: 0x27d4_eb2f_1656_67c5, byte: 0xa7, calls: 0x7fed_7fed };
fn rec(seed: u32, data: &[u8]) -> u32 {
    unsafe {
        R.seed = seed;
        R.len = data.len();
        if R.at < data.len() { R.byte = data[R.at]; }
        R.calls += 1;
        R.result
    }
}
fn rec_crc(crc: u32, data: &[u8]) -> u32 { rec(crc, data) }
fn rec_hash(data: &[u8], seed: u32) -> u32 { rec(seed, data) }
fn arm() -> u32 {
    unsafe { R.at = kani::any(); R.result = kani::any(); R.calls = 0; R.result }
}
/// the core was called once, with `seed` and the `n` bytes whose byte R.at is `b`
fn called(seed: u32, n: usize, b: u8) {
    unsafe {
        assert!(R.calls == 1, "one call of the core function");
        assert!(R.seed == seed, "seed handed on");
        assert!(R.len == n, "length handed on");
        if R.at < n { assert!(R.byte == b, "bytes handed on"); }
        kani::cover!(R.at < n && R.at > 0);
    }
}
fn at(v: &[u8]) -> u8 { unsafe { if R.at < v.len() { v[R.at] } else { 0 } } }
fn string(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }

/// Every kind of byte container, any contents and length, with and without an explicit
/// seed: one call of the core function with exactly the seed and bytes, and its result.
macro_rules! typed { ($($name:ident: $target:path, $rec:ident, $default:expr, |$v:ident, $s:ident, $with:ident| $got:expr;)*) => { $(
    #[kani::proof]
    #[kani::stub($target, $rec)]
    fn $name() {
        let r = arm();
        let $s: u32 = kani::any();
        let $v = any_vec();
        let (n, b) = ($v.len(), at(&$v));
        let $with: bool = kani::any();
        let got = $got;
        assert!(got == r, "result of the core function");
        called(if $with { $s } else { $default }, n, b);
    }
)* } }
typed! {
    c05_p_vec: CRC::extend, rec_crc, 0, |v, s, w| if w { v.as_crc_extend(s) } else { v.as_crc() };
    c05_p_sliceref: CRC::extend, rec_crc, 0, |v, s, w| { let x: &[u8] = &v; if w { (&x).as_crc_extend(s) } else { (&x).as_crc() } };
    c05_p_buf: CRC::extend, rec_crc, 0, |v, s, w| { let x: &[u8] = &v; if w { <[u8] as AsCrc>::as_crc_extend(x, s) } else { <[u8] as AsCrc>::as_crc(x) } };
    c05_p_string: CRC::extend, rec_crc, 0, |v, s, w| { let x = string(v); if w { x.as_crc_extend(s) } else { x.as_crc() } };
    c05_p_str: CRC::extend, rec_crc, 0, |v, s, w| { let x = string(v); let y: &str = &x; if w { (&y).as_crc_extend(s) } else { (&y).as_crc() } };
    c05_p_slice: CRC::extend, rec_crc, 0, |v, s, w| { let x = Slice::from_vec(v); if w { x.as_crc_extend(s) } else { x.as_crc() } };
    c05_p_value: CRC::extend, rec_crc, 0, |v, s, w| if w { CRC::extend(s, &v) } else { CRC::value(&v) };
    c07_p_vec: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| if w { v.to_hash_with_seed(s) } else { v.to_hash() };
    c07_p_sliceref: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| { let x: &[u8] = &v; if w { (&x).to_hash_with_seed(s) } else { (&x).to_hash() } };
    c07_p_string: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| { let x = string(v); if w { x.to_hash_with_seed(s) } else { x.to_hash() } };
    c07_p_str: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| { let x = string(v); let y: &str = &x; if w { (&y).to_hash_with_seed(s) } else { (&y).to_hash() } };
    c07_p_slice: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| { let x = Slice::from_vec(v); if w { x.to_hash_with_seed(s) } else { x.to_hash() } };
    c08_p_bloom_hash: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| { let x = Slice::from_vec(v); if w { x.to_hash_with_seed(s) } else { x.bloom_hash() } };
    c08_p_bloom_fn: Hash::hash_code, rec_hash, 0xbc9f1d34, |v, s, w| { let x = Slice::from_vec(v); if w { x.to_hash_with_seed(s) } else { BloomFilterPolicy::bloom_hash(&x) } };
}
/// Probe count for every setting.
#[kani::proof]
fn c08_p_probes() {
    let b: usize = kani::any();
    kani::assume(b <= 1 << 16);
    let p = BloomFilterPolicy::new_with_bits_per_key(b);
    assert!(p.from_bits_per_key() == b, "bits per key kept");
    let k = (69 * b + 50) / 100;
    assert!(p.from_k() == if k < 1 { 1 } else if k > 30 { 30 } else { k }, "probe count");
    kani::cover!(p.from_k() == 17);
}
#[kani::proof]
fn c08_p_probes_large() {
    let b: usize = kani::any();
    kani::assume(b > 1 << 16);
    let p = BloomFilterPolicy::new_with_bits_per_key(b);
    assert!(p.from_bits_per_key() == b && p.from_k() == 30, "probe count");
    let q = BloomFilterPolicy::new();
    assert!(q.from_bits_per_key() == 10 && q.from_k() == 7, "default setting");
    kani::cover!();
}
