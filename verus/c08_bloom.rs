use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume Slice is a byte string: size, to_vec and from_buf keep the bytes (proved on the real code by the Kani harnesses of C26)
//@assume Slice::bloom_hash is the LevelDB hash of the bytes with the default seed (hash_code: unit c07_hash; the delegation: Kani c07_p_types and c08_p_bloom_hash)
//@assume capacity * bits_per_key <= 2^60 (the multiplication and the rounding up do not overflow)
global size_of usize == 8;

pub struct Slice { v: Vec<u8> }
pub uninterp spec fn bloom_hash_of(d: Seq<u8>) -> u32;
impl Slice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_buf(b: &[u8]) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(b: Vec<u8>) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn bloom_hash(&self) -> (r: u32) ensures r == bloom_hash_of(self@) { unimplemented!() }
}

/// the j-th probe of a key: double hashing
pub open spec fn probe(h: u32, j: nat) -> u32 decreases j {
    if j == 0 { h } else { probe(h, (j - 1) as nat).wrapping_add((h >> 17u32) | (h << 15u32)) }
}
pub open spec fn bit(d: Seq<u8>, p: int) -> bool { (d[p / 8] >> ((p % 8) as u8)) & 1u8 == 1u8 }
/// one of the first j probes of key h hits position p of a table of `bits` bits
pub open spec fn hits(h: u32, j: int, bits: int, p: int) -> bool { exists|x: nat| x < j && (#[trigger] probe(h, x)) as int % bits == p }
pub open spec fn nbytes(n: int, bpk: int) -> int { ((if n * bpk < 64 { 64 } else { n * bpk }) + 7) / 8 }
/// position p is a probe of one of the first n keys
pub open spec fn some_key(hs: Seq<u32>, n: int, k: int, bits: int, p: int) -> bool { exists|i: int| 0 <= i < n && hits(#[trigger] hs[i], k, bits, p) }
/// LevelDB's filter
pub open spec fn is_filter(f: Seq<u8>, hs: Seq<u32>, n: int, bpk: int, k: int) -> bool {
    let nb = nbytes(n, bpk);
    f.len() == nb + 1 && f[nb] == k && forall|p: int| 0 <= p < nb * 8 ==> (#[trigger] bit(f, p) <==> some_key(hs, hs.len() as int, k, nb * 8, p))
}
pub open spec fn matches(f: Seq<u8>, h: u32) -> bool {
    if f.len() < 2 { false } else if f[f.len() - 1] > 30 { true } else {
        forall|j: nat| j < f[f.len() - 1] ==> bit(f, (#[trigger] probe(h, j)) as int % ((f.len() - 1) * 8))
    }
}
/// no key of the list is missed
pub proof fn no_miss(f: Seq<u8>, hs: Seq<u32>, n: int, bpk: int, k: int, i: int)
    requires is_filter(f, hs, n, bpk, k), 1 <= k <= 30, 0 <= i < hs.len(), n >= 0, bpk >= 0
    ensures matches(f, hs[i])
{
    let nb = nbytes(n, bpk);
    assert(n * bpk >= 0) by (nonlinear_arith) requires n >= 0, bpk >= 0;
    assert(nb >= 8);
    assert forall|j: nat| j < f[f.len() - 1] implies bit(f, (#[trigger] probe(hs[i], j)) as int % ((f.len() - 1) * 8)) by {
        let p = probe(hs[i], j) as int % (nb * 8);
        assert(0 <= p < nb * 8);
        assert(hits(hs[i], k, nb * 8, p));
        assert(some_key(hs, hs.len() as int, k, nb * 8, p));
        assert(bit(f, p));
    }
}
pub proof fn or_bit(b: u8, m: u8, q: u8)
    requires m < 8, q < 8
    ensures ((b | (1u8 << m)) >> q) & 1u8 == 1u8 <==> ((b >> q) & 1u8 == 1u8 || q == m)
{
    assert(m < 8 && q < 8 ==> (((b | (1u8 << m)) >> q) & 1u8 == 1u8 <==> ((b >> q) & 1u8 == 1u8 || q == m))) by (bit_vector);
}
pub proof fn and_bit(b: u8, m: u8)
    requires m < 8
    ensures (b & (1u8 << m)) == 0 <==> !((b >> m) & 1u8 == 1u8)
{
    assert(m < 8 ==> ((b & (1u8 << m)) == 0 <==> !((b >> m) & 1u8 == 1u8))) by (bit_vector);
}
pub proof fn zero_bit(q: u8) ensures (0u8 >> q) & 1u8 == 0u8 { assert((0u8 >> q) & 1u8 == 0u8) by (bit_vector); }
pub proof fn set_bit(d: Seq<u8>, e: Seq<u8>, pos: int, v: u8)
    requires 0 <= pos, pos / 8 < d.len(), v == 1u8 << ((pos % 8) as u8), e == d.update(pos / 8, d[pos / 8] | v)
    ensures forall|p: int| 0 <= p && p / 8 < d.len() ==> (#[trigger] bit(e, p) <==> (bit(d, p) || p == pos))
{
    assert forall|p: int| 0 <= p && p / 8 < d.len() implies (#[trigger] bit(e, p) <==> (bit(d, p) || p == pos)) by {
        or_bit(d[pos / 8], (pos % 8) as u8, (p % 8) as u8);
    }
}

pub proof fn hits_next(h: u32, j: nat, bits: int)
    requires bits > 0
    ensures forall|p: int| hits(h, j as int + 1, bits, p) <==> (#[trigger] hits(h, j as int, bits, p) || p == probe(h, j) as int % bits)
{
    assert forall|p: int| hits(h, j as int + 1, bits, p) <==> (#[trigger] hits(h, j as int, bits, p) || p == probe(h, j) as int % bits) by {
        if hits(h, j as int, bits, p) {
            let x = choose|x: nat| x < j && (#[trigger] probe(h, x)) as int % bits == p;
            assert(probe(h, x) as int % bits == p);
        }
        if p == probe(h, j) as int % bits { assert(probe(h, j) as int % bits == p); }
        if hits(h, j as int + 1, bits, p) {
            let x = choose|x: nat| x < j + 1 && (#[trigger] probe(h, x)) as int % bits == p;
            if x < j { assert(probe(h, x) as int % bits == p); }
        }
    }
}

pub struct BloomFilterPolicy { pub bits_per_key: usize, pub k: usize }
impl BloomFilterPolicy {
//@fn src/util/filter_policy_bloom.rs | impl FilterPolicy for BloomFilterPolicy | create_filter
//@ret res
//@spec
    requires keys@.len() * self.bits_per_key <= 0x1000_0000_0000_0000, 1 <= self.k <= 30
    ensures is_filter(res@, Seq::new(keys@.len(), |i: int| bloom_hash_of(keys@[i]@)), keys@.len() as int, self.bits_per_key as int, self.k as int)
//@end
//@fn src/util/filter_policy_bloom.rs | impl FilterPolicy for BloomFilterPolicy | create_filter_with_len
//@ret res
//@subst? /for (\w+) in (?:&?([\w.]+)\.iter\(\)|&([\w.]+)) \{/ => for i in 0..\2\3.len() { let \1 = &\2\3[i]; -- the loop over a vector by its index
//@subst? /\.wrapping_shl\(((?:[^()]|\([^()]*\))*)\)/ => << (\1) -- a shift by less than the width, as the operator demands
//@subst? /dst_chars\[bitpos \/ 8\] \|= val;/ => let old_byte = dst_chars[bitpos / 8]; dst_chars.set(bitpos / 8, old_byte | val); -- the same store spelled out
//@spec
    requires capacity * self.bits_per_key <= 0x1000_0000_0000_0000, 1 <= self.k <= 30
    ensures is_filter(res@, Seq::new(keys@.len(), |i: int| bloom_hash_of(keys@[i]@)), capacity as int, self.bits_per_key as int, self.k as int)
//@at before loop 0
        let ghost hs = Seq::new(keys@.len(), |i: int| bloom_hash_of(keys@[i]@));
        proof {
            assert forall|p: int| 0 <= p < bits implies !bit(dst_chars@, p) by { zero_bit((p % 8) as u8); }
        }
//@loop 0
        invariant
            hs == Seq::new(keys@.len(), |i: int| bloom_hash_of(keys@[i]@)), 1 <= self.k <= 30,
            bytes == nbytes(n as int, self.bits_per_key as int), bits == bytes * 8, bytes <= 0x2000_0000_0000_0000, bytes >= 8,
            dst_chars@.len() == bytes + 1, dst_chars@[bytes as int] == self.k,
            forall|p: int| 0 <= p < bits ==> (#[trigger] bit(dst_chars@, p) <==> some_key(hs, i as int, self.k as int, bits as int, p)),
//@at before loop 1
            let ghost h0 = h;
//@loop 1
        invariant
            hs == Seq::new(keys@.len(), |i: int| bloom_hash_of(keys@[i]@)), 1 <= self.k <= 30, 0 <= i < keys@.len(), h0 == hs[i as int],
            bytes == nbytes(n as int, self.bits_per_key as int), bits == bytes * 8, bytes <= 0x2000_0000_0000_0000, bytes >= 8,
            dst_chars@.len() == bytes + 1, dst_chars@[bytes as int] == self.k,
            delta == (h0 >> 17u32) | (h0 << 15u32), h == probe(h0, j as nat),
            forall|p: int| 0 <= p < bits ==> (#[trigger] bit(dst_chars@, p) <==> (some_key(hs, i as int, self.k as int, bits as int, p) || hits(h0, j as int, bits as int, p))),
//@at loop 1 start
                let ghost d0 = dst_chars@;
                let ghost hj = h;
//@at loop 1 end
                proof {
                    let pos = hj as int % bits as int;
                    set_bit(d0, dst_chars@, pos, 1u8 << ((pos % 8) as u8));
                    hits_next(h0, j as nat, bits as int);
                }
//@at loop 0 end
            proof {
                assert forall|p: int| 0 <= p < bits implies (some_key(hs, i + 1, self.k as int, bits as int, p) <==> (some_key(hs, i as int, self.k as int, bits as int, p) || hits(h0, self.k as int, bits as int, p))) by {
                    if hits(h0, self.k as int, bits as int, p) { assert(hits(hs[i as int], self.k as int, bits as int, p)); }
                }
            }
//@end
//@fn src/util/filter_policy_bloom.rs | impl FilterPolicy for BloomFilterPolicy | key_may_match
//@ret res
//@spec
    requires bloom_filter@.len() < 0x1000_0000_0000_0000
    ensures res == matches(bloom_filter@, bloom_hash_of(key@))
//@at before loop 0
        let ghost h0 = h;
//@loop 0
        invariant
            len == bloom_filter@.len(), len >= 2, bits == (len - 1) * 8, bloom_filter_array@ == bloom_filter@, k == bloom_filter@[len - 1], k <= 30,
            len < 0x1000_0000_0000_0000, h0 == bloom_hash_of(key@),
            delta == (h0 >> 17u32) | (h0 << 15u32), h == probe(h0, j as nat),
            forall|x: nat| x < j ==> bit(bloom_filter@, (#[trigger] probe(h0, x)) as int % bits as int),
//@at loop 0 start
            proof {
                let pos = h as int % bits as int;
                and_bit(bloom_filter@[pos / 8], (pos % 8) as u8);
                assert(0 <= pos < bits);
                assert(probe(h0, j as nat) == h);
                assert(bit(bloom_filter@, probe(h0, j as nat) as int % bits as int) == bit(bloom_filter@, pos));
                if matches(bloom_filter@, h0) { assert(bit(bloom_filter@, probe(h0, j as nat) as int % ((bloom_filter@.len() - 1) * 8))); }
            }
//@end
}
} // verus!
fn main() {}
