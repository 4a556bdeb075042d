use vstd::prelude::*;
macro_rules! println { ($($t:tt)*) => { () } }
verus! {
//@include std_specs.rs
//@assume Decoder::{with_buf,can_get,uncheck_get_fixed32}: contracts proved on the real code by the Kani harnesses of C01/C03
//@assume hash_code: data.len() * 0xc6a4a793 fits in usize (the multiplication in the code is not wrapping), i.e. data shorter than 2^32 bytes

global size_of usize == 8;

pub open spec fn le32(d: Seq<u8>, i: int) -> u32 {
    (d[i] as u32) | ((d[i + 1] as u32) << 8u32) | ((d[i + 2] as u32) << 16u32) | ((d[i + 3] as u32) << 24u32)
}
pub open spec fn add32(a: u32, b: u32) -> u32 { a.wrapping_add(b) }
pub open spec fn mul32(a: u32, b: u32) -> u32 { a.wrapping_mul(b) }

/// LevelDB's Hash after n whole words
pub open spec fn words(d: Seq<u8>, seed: u32, n: nat) -> u32 decreases n {
    if n == 0 { seed ^ mul32((d.len() % 0x1_0000_0000) as u32, 0xc6a4a793u32) }
    else {
        let h = mul32(add32(words(d, seed, (n - 1) as nat), le32(d, 4 * (n - 1))), 0xc6a4a793u32);
        h ^ (h >> 16u32)
    }
}
pub open spec fn last(h: u32, b: u8) -> u32 {
    let x = mul32(add32(h, b as u32), 0xc6a4a793u32);
    x ^ (x >> 24u32)
}
pub open spec fn tail2(h: u32, b0: u8, b1: u8) -> u32 { last(add32(h, (b1 as u32) << 8u32), b0) }
pub open spec fn tail3(h: u32, b0: u8, b1: u8, b2: u8) -> u32 { tail2(add32(h, (b2 as u32) << 16u32), b0, b1) }

/// LevelDB's Hash(data, n, seed)
pub open spec fn leveldb_hash(d: Seq<u8>, seed: u32) -> u32 {
    let n = d.len() / 4;
    let h = words(d, seed, n);
    let p = 4 * n as int;
    if d.len() % 4 == 0 { h } else if d.len() % 4 == 1 { last(h, d[p]) } else if d.len() % 4 == 2 { tail2(h, d[p], d[p + 1]) } else { tail3(h, d[p], d[p + 1], d[p + 2]) }
}

pub struct Decoder<'a> { data: &'a [u8], offset: usize }
impl<'a> Decoder<'a> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn with_buf(data: &'a [u8]) -> (r: Decoder<'a>) ensures r.bytes() == data@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn can_get(&self) -> (r: bool) ensures r == (self.pos() < self.bytes().len()) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_get_fixed32(&mut self) -> (r: u32)
        requires old(self).pos() + 4 <= old(self).bytes().len()
        ensures r == le32(old(self).bytes(), old(self).pos() as int), final(self).bytes() == old(self).bytes(), final(self).pos() == old(self).pos() + 4 { unimplemented!() }
}

pub proof fn trunc(v: u64) ensures v as u32 == v % 0x1_0000_0000u64 { assert(v as u32 == v % 0x1_0000_0000u64) by (bit_vector); }

pub struct Hash {}
impl Hash {
//@fn src/util/hash.rs | impl Hash | hash_code
//@ret res
//@subst? /\.mul\(((?:[^()]|\([^()]*\))*)\)/ => * (\1) -- Mul::mul on usize is the operator
//@subst? /\.bitxor\(((?:[^()]|\([^()]*\))*)\)/ => ^ (\1) -- BitXor::bitxor on u32 is the operator
//@subst? /\.wrapping_shr\(((?:[^()]|\([^()]*\))*)\)/ => >> (\1) -- a shift by less than 32, as the operator demands
//@subst? /\.wrapping_shl\(((?:[^()]|\([^()]*\))*)\)/ => << (\1) -- a shift by less than 32, as the operator demands
//@spec
    requires data@.len() < 0x1_0000_0000
    ensures res == leveldb_hash(data@, seed)
//@at before loop 0
        proof {
            trunc((limit * murmur_hash) as u64);
        }
//@at loop 0 start
        let ghost k0 = position as int / 4;
        proof { assert(position == 4 * k0); }
//@loop 0
        invariant
            limit == data@.len(), decoder.bytes() == data@, decoder.pos() == position, position % 4 == 0, position <= limit,
            murmur_hash == 0xc6a4a793u32, h == words(data@, seed, (position / 4) as nat), limit < 0x1_0000_0000,
        ensures position + 4 > limit
        decreases limit - position
//@at loop 0 end
        proof { assert(position / 4 == k0 + 1); }
//@at before loop 1
        let ghost h0 = h;
        let ghost p0 = position;
        proof {
            assert(position / 4 == limit / 4) by (nonlinear_arith) requires position % 4 == 0, position <= limit, position + 4 > limit;
        }
//@loop 1
        invariant
            limit == data@.len(), position == p0, p0 % 4 == 0, p0 <= limit, p0 + 4 > limit, murmur_hash == 0xc6a4a793u32, r == 24u32,
            limit < 0x1_0000_0000,
            p0 / 4 == limit / 4, 
            mark <= limit - p0,
            (limit - p0 - mark) == 0 ==> h == leveldb_hash(data@, seed),
            (limit - p0 - mark) == 1 ==> last(h, data@[p0 as int]) == leveldb_hash(data@, seed),
            (limit - p0 - mark) == 2 ==> tail2(h, data@[p0 as int], data@[p0 + 1]) == leveldb_hash(data@, seed),
            (limit - p0 - mark) == 3 ==> tail3(h, data@[p0 as int], data@[p0 + 1], data@[p0 + 2]) == leveldb_hash(data@, seed),
        decreases limit - p0 - mark
//@end
}
} // verus!
fn main() {}
