use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@include std_specs.rs
//@assume memcmp is the C standard's: the sign of the first differing byte among the first n, as unsigned bytes; it may read n bytes of both strings
//@assume Slice::size is the length of the bytes (C26)
global size_of usize == 8;

/// bytewise order from position i on
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>, i: int) -> Ordering decreases a.len() - i
{
    if i < 0 || i >= a.len() && i >= b.len() { Ordering::Equal }
    else if i >= a.len() { Ordering::Less }
    else if i >= b.len() { Ordering::Greater }
    else if a[i] < b[i] { Ordering::Less }
    else if a[i] > b[i] { Ordering::Greater }
    else { lex(a, b, i + 1) }
}
pub open spec fn order(a: Seq<u8>, b: Seq<u8>) -> Ordering { lex(a, b, 0) }
pub open spec fn len_order(m: int, n: int) -> Ordering { if m < n { Ordering::Less } else if m > n { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn agree(a: Seq<u8>, b: Seq<u8>, n: int) -> bool { forall|k: int| 0 <= k < n ==> a[k] == b[k] }

/// strings that agree up to k: the order is that from k on
pub proof fn skip(a: Seq<u8>, b: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k <= a.len(), k <= b.len(), agree(a, b, k)
    ensures lex(a, b, i) == lex(a, b, k)
    decreases k - i
{
    if i < k { assert(a[i] == b[i]); skip(a, b, i + 1, k); }
}
/// the first byte that differs decides
pub proof fn decides(a: Seq<u8>, b: Seq<u8>)
    ensures
        forall|k: int| 0 <= k < a.len() && k < b.len() && #[trigger] agree(a, b, k) && a[k] != b[k] ==> order(a, b) == if a[k] < b[k] { Ordering::Less } else { Ordering::Greater },
        forall|k: int| 0 <= k && (k == a.len() || k == b.len()) && k <= a.len() && k <= b.len() && #[trigger] agree(a, b, k) ==> order(a, b) == len_order(a.len() as int, b.len() as int),
{
    assert forall|k: int| 0 <= k < a.len() && k < b.len() && #[trigger] agree(a, b, k) && a[k] != b[k] implies order(a, b) == if a[k] < b[k] { Ordering::Less } else { Ordering::Greater } by { skip(a, b, 0, k); }
    assert forall|k: int| 0 <= k && (k == a.len() || k == b.len()) && k <= a.len() && k <= b.len() && #[trigger] agree(a, b, k) implies order(a, b) == len_order(a.len() as int, b.len() as int) by { skip(a, b, 0, k); }
}
/// the order is total: exactly one of less, equal (the same string), greater, and it turns around with its arguments
pub proof fn c09_total(a: Seq<u8>, b: Seq<u8>)
    ensures
        order(a, b) == Ordering::Equal <==> a == b,
        order(a, b) == Ordering::Less <==> order(b, a) == Ordering::Greater,
        order(a, b) == Ordering::Greater <==> order(b, a) == Ordering::Less,
{
    first(a, b, 0);
    let k = diff(a, b, 0);
    assert(agree(b, a, k));
    decides(a, b);
    decides(b, a);
    if k == a.len() && k == b.len() { assert(a =~= b); }
}
/// position of the first difference, or the shorter length
pub open spec fn diff(a: Seq<u8>, b: Seq<u8>, i: int) -> int decreases a.len() - i {
    if i < 0 || i >= a.len() || i >= b.len() || a[i] != b[i] { i } else { diff(a, b, i + 1) }
}
pub proof fn first(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), agree(a, b, i)
    ensures ({ let k = diff(a, b, i); i <= k <= a.len() && k <= b.len() && agree(a, b, k) && (k < a.len() && k < b.len() ==> a[k] != b[k]) })
    decreases a.len() - i
{
    if i < a.len() && i < b.len() && a[i] == b[i] { first(a, b, i + 1); }
}
pub proof fn c09_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires order(a, b) == Ordering::Less, order(b, c) == Ordering::Less
    ensures order(a, c) == Ordering::Less
{
    first(a, b, 0);
    first(b, c, 0);
    let (i, j) = (diff(a, b, 0), diff(b, c, 0));
    decides(a, b);
    decides(b, c);
    decides(a, c);
    let k = if i < j { i } else { j };
    assert forall|x: int| 0 <= x < k implies a[x] == c[x] by { assert(a[x] == b[x]); assert(b[x] == c[x]); }
    assert(agree(a, c, k));
    if i < j { assert(b[i] == c[i]); } else if j < i { assert(a[j] == b[j]); }
}
/// a prefix is not greater
pub proof fn c09_prefix(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= b.len(), agree(a, b, a.len() as int)
    ensures order(a, b) == if a.len() == b.len() { Ordering::Equal } else { Ordering::Less }
{
    decides(a, b);
}

#[verifier::external_body]
pub fn memcmp_of(a: &[u8], b: &[u8], n: usize) -> (r: i32)
    requires n <= a@.len(), n <= b@.len()
    ensures
        r == 0 <==> agree(a@, b@, n as int),
        r != 0 ==> exists|k: int| 0 <= k < n && #[trigger] agree(a@, b@, k) && (if r < 0 { a@[k] < b@[k] } else { a@[k] > b@[k] }),
{ unimplemented!() }
pub struct BytewiseComparatorImpl {}
//@struct src/util/slice.rs | Slice
impl Slice {
    pub open spec fn view(&self) -> Seq<u8> { self.data@ }
//@fn src/util/slice.rs | impl Slice | size
//@ret r
//@spec
    ensures r == self@.len()
//@end
//@fn src/util/slice.rs | impl Slice | empty
//@ret r
//@spec
    ensures r == (self@.len() == 0)
//@end
//@fn src/util/slice.rs | impl Slice | starts_with
//@ret r
//@subst? /memcmp\(\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,/ => memcmp_of(\1.as_slice(), \2.as_slice(), -- the strings instead of pointers to them
//@spec
    ensures r == (other@.len() <= self@.len() && agree(self@, other@, other@.len() as int))
//@end
//@fn src/util/slice.rs | impl PartialEq for Slice | eq
//@ret r
//@subst? /memcmp\(\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,/ => memcmp_of(\1.as_slice(), \2.as_slice(), -- the strings instead of pointers to them
//@spec
    ensures r == (self@ == other@)
//@at start
        proof { if self@.len() == other@.len() && agree(self@, other@, self@.len() as int) { assert(self@ =~= other@); } }
//@end
//@fn src/util/slice.rs | impl PartialOrd for Slice | partial_cmp
//@ret r
//@subst? /memcmp\(\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,/ => memcmp_of(\1.as_slice(), \2.as_slice(), -- the strings instead of pointers to them
//@spec
    ensures r == Some(order(self@, other@))
//@at start
        proof { decides(self@, other@); }
//@end
}
impl BytewiseComparatorImpl {
//@fn src/util/comparator.rs | impl Comparator for BytewiseComparatorImpl | compare
//@ret r
//@subst? /memcmp\(\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,\s*([\w.&*]+?)\.as_ptr\(\) as \*const i8,/ => memcmp_of(\1, \2, -- the strings instead of pointers to them
//@spec
    ensures r == Some(order(a@, b@))
//@at start
        proof { decides(a@, b@); }
//@end
}
} // verus!
fn main() {}
