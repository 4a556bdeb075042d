use vstd::prelude::*;
macro_rules! assert_eq { ($a:expr, $b:expr) => { () } }
verus! {
//@include std_specs.rs
//@assume String and Slice are byte strings: len, as_bytes, to_vec, from_buf and into keep the bytes (the Slice half is proved on the real code by the Kani harnesses of C26; String::as_bytes and from_utf8_unchecked are the standard library's)

/// a byte string, as String and Slice hold it
pub struct Bytes { v: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_buf(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(b: Vec<u8>) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

use core::cmp::min;

/// unsigned lexicographic order
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { lt(a.drop_first(), b.drop_first()) }
}
pub open spec fn common(a: Seq<u8>, b: Seq<u8>, n: int) -> bool {
    0 <= n && n <= a.len() && n <= b.len() && forall|i: int| 0 <= i < n ==> a[i] == b[i]
}
/// the order is decided at the first difference
pub proof fn lt_at(a: Seq<u8>, b: Seq<u8>, n: int)
    requires common(a, b, n), n < a.len() && n < b.len() ==> a[n] != b[n]
    ensures n < a.len() && n < b.len() ==> lt(a, b) == (a[n] < b[n]), n == a.len() ==> lt(a, b) == (n < b.len()), n == b.len() ==> !lt(a, b)
    decreases n
{
    if n > 0 {
        let x = a.drop_first(); let y = b.drop_first();
        assert forall|i: int| 0 <= i < n - 1 implies x[i] == y[i] by { assert(a[i + 1] == b[i + 1]); };
        lt_at(x, y, n - 1);
    }
}

/// what the separator must be
pub open spec fn sep(s: Seq<u8>, l: Seq<u8>, n: int) -> Seq<u8> {
    if n >= s.len() || n >= l.len() || s[n] == 0xff || s[n] + 1 >= l[n] { s } else { s.subrange(0, n).push((s[n] + 1) as u8) }
}
pub open spec fn is_diff(s: Seq<u8>, l: Seq<u8>, n: int) -> bool {
    common(s, l, n) && (n < s.len() && n < l.len() ==> s[n] != l[n]) && (n == s.len() || n == l.len() || s[n] != l[n])
}
/// start <= separator < limit whenever start < limit, and it is no longer than start
pub proof fn sep_between(s: Seq<u8>, l: Seq<u8>, n: int)
    requires is_diff(s, l, n)
    ensures !lt(sep(s, l, n), s), sep(s, l, n).len() <= s.len(), lt(s, l) ==> lt(sep(s, l, n), l)
{
    lt_at(s, l, n);
    let r = sep(s, l, n);
    if r != s {
        lt_at(r, s, n);
        lt_at(r, l, n);
    } else {
        lt_at(s, s, s.len() as int);
    }
}
pub open spec fn succ(k: Seq<u8>, n: int) -> Seq<u8> { if n >= k.len() { k } else { k.subrange(0, n).push((k[n] + 1) as u8) } }
pub open spec fn is_first_low(k: Seq<u8>, n: int) -> bool { 0 <= n <= k.len() && (forall|i: int| 0 <= i < n ==> k[i] == 0xff) && (n < k.len() ==> k[n] != 0xff) }
pub proof fn succ_above(k: Seq<u8>, n: int)
    requires is_first_low(k, n)
    ensures !lt(succ(k, n), k), succ(k, n).len() <= k.len()
{
    if n < k.len() { lt_at(succ(k, n), k, n); } else { lt_at(k, k, k.len() as int); }
}

pub struct BytewiseComparatorImpl {}
impl BytewiseComparatorImpl {
//@fn src/util/comparator.rs | impl Comparator for BytewiseComparatorImpl | find_shortest_separator
//@ret res
//@subst /&String/ => &Bytes -- byte strings
//@subst /&Slice/ => &Bytes -- byte strings
//@subst /\bString\b/ => Bytes -- byte strings
//@subst? /\bSlice::/ => Bytes:: -- byte strings
//@spec
    ensures
        exists|n: int| is_diff(start@, limit@, n) && res@ == sep(start@, limit@, n)
//@loop 0
        invariant
            min_length == if start@.len() <= limit@.len() { start@.len() } else { limit@.len() },
            start_char_vec@ =~= start@, limit_char_vec@ =~= limit@, diff_index <= min_length, common(start@, limit@, diff_index as int),
        ensures is_diff(start@, limit@, diff_index as int)
        decreases min_length - diff_index
//@at after loop 0
        let ghost d0 = diff_index as int;
        proof { assert(is_diff(start@, limit@, d0)); }
//@end
//@fn src/util/comparator.rs | impl Comparator for BytewiseComparatorImpl | find_short_successor
//@ret res
//@subst /&String/ => &Bytes -- byte strings
//@subst /\bString\b/ => Bytes -- byte strings
//@subst? /\bSlice::/ => Bytes:: -- byte strings
//@spec
    ensures
        exists|n: int| is_first_low(key@, n) && res@ == succ(key@, n)
//@loop 0
        invariant key_len == key@.len(), key_char_vec@ =~= key@, forall|j: int| 0 <= j < i ==> key@[j] == 0xff
//@at loop 0 start
        proof { if key@[i as int] != 0xff { assert(is_first_low(key@, i as int)); } }
//@at after loop 0
        proof { assert(is_first_low(key@, key_len as int)); }
//@end
}
} // verus!
fn main() {}
