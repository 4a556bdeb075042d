use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
//@include std_specs.rs
//@assume comparison of floats: a > b is b < a, and a >= b is b <= a; a bucket limit is at or below a number exactly when it is not above it (values that are not NaN)
//@assume floating point addition, multiplication and comparison are the relations of vstd (what IEEE 754 gives for them is not modelled; which of two values is smaller and what a sum is, is the hardware's answer)
//@assume floating point operations never trap (add_req and mul_req hold)
global size_of usize == 8;
//@const src/util/histogram.rs | K_NUM_BUCKETS
/// the real table; its values are checked by the Kani harness c23_p_limits
pub struct Limits;
use ax::{limit, number};
#[verifier::external_body]
pub fn limit_at(i: usize) -> (r: f64) requires i < 154 ensures r == limit(i as int) { unimplemented!() }
mod ax {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
pub uninterp spec fn limit(i: int) -> f64;
/// a number (not NaN): every other number is at or below it or above it
pub uninterp spec fn number(v: f64) -> bool;
#[verifier::external_body]
pub broadcast proof fn turned_gt(a: f64, b: f64, r: bool) ensures #[trigger] gt_ensures(a, b, r) == lt_ensures(b, a, r) {}
#[verifier::external_body]
pub broadcast proof fn turned_lt(a: f64, b: f64, r: bool) ensures #[trigger] lt_ensures(a, b, r) == gt_ensures(b, a, r) {}
#[verifier::external_body]
pub broadcast proof fn turned_ge(a: f64, b: f64, r: bool) ensures #[trigger] ge_ensures(a, b, r) == le_ensures(b, a, r) {}
#[verifier::external_body]
pub broadcast proof fn turned_le(a: f64, b: f64, r: bool) ensures #[trigger] le_ensures(a, b, r) == ge_ensures(b, a, r) {}
#[verifier::external_body]
pub broadcast proof fn above(j: int, v: f64, r: bool) requires number(v) ensures #[trigger] gt_ensures(limit(j), v, r) == le_ensures(limit(j), v, !r) {}
#[verifier::external_body]
pub broadcast proof fn add_total(a: f64, b: f64) ensures #[trigger] a.add_req(b) {}
#[verifier::external_body]
pub broadcast proof fn mul_total(a: f64, b: f64) ensures #[trigger] a.mul_req(b) {}
}
broadcast use {ax::add_total, ax::mul_total, ax::turned_gt, ax::turned_lt, ax::turned_ge, ax::turned_le, ax::above};
//@struct src/util/histogram.rs | Histogram

/// the bucket of a value: the first whose limit is not at or below it, the last if there is none
pub open spec fn bucket_of(v: f64, i: int) -> bool {
    0 <= i < 154 && (forall|j: int| 0 <= j < i ==> le_ensures(#[trigger] limit(j), v, true)) && (i < 153 ==> le_ensures(limit(i), v, false))
}
pub open spec fn min_of(a: f64, v: f64, r: f64) -> bool { (gt_ensures(a, v, true) && r == v) || (gt_ensures(a, v, false) && r == a) }
pub open spec fn max_of(a: f64, v: f64, r: f64) -> bool { (lt_ensures(a, v, true) && r == v) || (lt_ensures(a, v, false) && r == a) }
/// h with the value v added is r
pub open spec fn added(h: Histogram, v: f64, r: Histogram) -> bool {
    &&& min_of(h.min, v, r.min)
    &&& max_of(h.max, v, r.max)
    &&& add_ensures(h.num, 1.0f64, r.num)
    &&& add_ensures(h.sum, v, r.sum)
    &&& exists|q: f64| #[trigger] mul_ensures(v, v, q) && add_ensures(h.sum_squares, q, r.sum_squares)
    &&& exists|i: int| #[trigger] bucket_of(v, i) && add_ensures(h.buckets@[i], 1.0f64, r.buckets@[i]) && forall|j: int| 0 <= j < 154 && j != i ==> r.buckets@[j] == h.buckets@[j]
}
pub open spec fn merged(h: Histogram, o: Histogram, r: Histogram) -> bool {
    &&& min_of(h.min, o.min, r.min)
    &&& max_of(h.max, o.max, r.max)
    &&& add_ensures(h.num, o.num, r.num)
    &&& add_ensures(h.sum, o.sum, r.sum)
    &&& add_ensures(h.sum_squares, o.sum_squares, r.sum_squares)
    &&& forall|j: int| 0 <= j < 154 ==> #[trigger] add_ensures(h.buckets@[j], o.buckets@[j], r.buckets@[j])
}
pub open spec fn empty(r: Histogram) -> bool {
    r.min == limit(153) && r.max == 0.0f64 && r.num == 0.0f64 && r.sum == 0.0f64 && r.sum_squares == 0.0f64 && forall|j: int| 0 <= j < 154 ==> r.buckets@[j] == 0.0f64
}

impl Histogram {
//@fn src/util/histogram.rs | impl Histogram | clear
//@subst? /K_BUCKET_LIMIT\[([^\[\]]+)\]/ => limit_at(\1) -- the table read through a contract
//@spec
    ensures empty(*final(self))
//@loop 0
        invariant self.min == limit(153), self.max == 0.0f64, self.num == 0.0f64, self.sum == 0.0f64, self.sum_squares == 0.0f64,
            forall|j: int| 0 <= j < i ==> self.buckets@[j] == 0.0f64,
//@end
//@fn src/util/histogram.rs | impl Histogram | add
//@subst? /K_BUCKET_LIMIT\[([^\[\]]+)\]/ => limit_at(\1) -- the table read through a contract
//@subst? /(self\.\w+(?:\[\w+\])?) \+= ([^;]+);/ => \1 = \1 + (\2); -- the same addition spelled out
//@spec
    requires number(value)
    ensures added(*old(self), value, *final(self))
//@at start
        let ghost h0 = *self;
//@loop 0
        invariant index < 154, number(value), forall|j: int| 0 <= j < index ==> le_ensures(#[trigger] limit(j), value, true),
        ensures bucket_of(value, index as int),
        decreases 154 - index,
//@at end
        proof {
            let s = *self;
            assert(bucket_of(value, index as int));
            assert(min_of(h0.min, value, s.min));
            assert(max_of(h0.max, value, s.max));
            assert(add_ensures(h0.num, 1.0f64, s.num));
            assert(add_ensures(h0.sum, value, s.sum));
            assert(exists|q: f64| #[trigger] mul_ensures(value, value, q));
            assert(exists|q: f64| #[trigger] mul_ensures(value, value, q) && add_ensures(h0.sum_squares, q, s.sum_squares));
            assert(add_ensures(h0.buckets@[index as int], 1.0f64, s.buckets@[index as int]));
        }
//@end
//@fn src/util/histogram.rs | impl Histogram | merge
//@subst? /(self\.\w+(?:\[\w+\])?) \+= ([^;]+);/ => \1 = \1 + (\2); -- the same addition spelled out
//@spec
    ensures merged(*old(self), *other, *final(self))
//@at start
        let ghost h0 = *self;
//@at before loop 0
        let ghost hb = *self;
//@loop 0
        invariant self.min == hb.min, self.max == hb.max, self.num == hb.num, self.sum == hb.sum, self.sum_squares == hb.sum_squares,
            forall|j: int| 0 <= j < i ==> #[trigger] add_ensures(h0.buckets@[j], other.buckets@[j], self.buckets@[j]),
            forall|j: int| i <= j < 154 ==> self.buckets@[j] == h0.buckets@[j],
//@end
}
} // verus!
fn main() {}
