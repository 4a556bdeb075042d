use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume a slice is at most isize::MAX bytes long (a guarantee of the language)
//@assume Decoder::with_buf(..).uncheck_get_fixed32 reads little-endian 32-bit words one after another: proved on the real code by the Kani harnesses of C01/C03
//@assume nothing about where the data lies in memory (any alignment offset is covered)
global size_of usize == 8;
//@include crc_common.rs
//@const src/util/crc.rs | K_CRC32_XOR
//@const src/util/crc.rs | K_BYTE_EXTENSION_TABLE
//@const src/util/crc.rs | K_STRIDE_EXTENSION_TABLE0
//@const src/util/crc.rs | K_STRIDE_EXTENSION_TABLE1
//@const src/util/crc.rs | K_STRIDE_EXTENSION_TABLE2
//@const src/util/crc.rs | K_STRIDE_EXTENSION_TABLE3

/// the register after n zero bytes
pub open spec fn adv(x: u32, n: nat) -> u32 decreases n { if n == 0 { x } else { crc_step(adv(x, (n - 1) as nat), 0) } }
pub open spec fn tables_upto(n: int) -> bool decreases n {
    n <= 0 || (tables_upto(n - 1)
        && K_BYTE_EXTENSION_TABLE@[n - 1] == crc_step((n - 1) as u32, 0)
        && K_STRIDE_EXTENSION_TABLE3@[n - 1] == adv((n - 1) as u32, 16)
        && K_STRIDE_EXTENSION_TABLE2@[n - 1] == adv(((n - 1) as u32) << 8u32, 16)
        && K_STRIDE_EXTENSION_TABLE1@[n - 1] == adv(((n - 1) as u32) << 16u32, 16)
        && K_STRIDE_EXTENSION_TABLE0@[n - 1] == adv(((n - 1) as u32) << 24u32, 16))
}
pub proof fn tables_right()
    ensures tables_upto(256)
{
    assert(tables_upto(256)) by (compute_only);
}
pub proof fn table_at(i: u32)
    requires i < 256
    ensures K_BYTE_EXTENSION_TABLE@[i as int] == crc_step(i, 0), K_STRIDE_EXTENSION_TABLE3@[i as int] == adv(i, 16), K_STRIDE_EXTENSION_TABLE2@[i as int] == adv(i << 8u32, 16),
        K_STRIDE_EXTENSION_TABLE1@[i as int] == adv(i << 16u32, 16), K_STRIDE_EXTENSION_TABLE0@[i as int] == adv(i << 24u32, 16)
{
    tables_right();
    table_from(256, i as int);
}
pub proof fn table_from(n: int, i: int)
    requires tables_upto(n), 0 <= i < n
    ensures tables_upto(i + 1)
    decreases n
{
    if i < n - 1 { table_from(n - 1, i); }
}
// ---------------------------------------------------------------- the register is linear
pub proof fn bit_linear(x: u32, y: u32)
    ensures crc_bit(x ^ y) == crc_bit(x) ^ crc_bit(y)
{
    assert((if (x ^ y) & 1 == 1 { ((x ^ y) >> 1u32) ^ 0x82f63b78u32 } else { (x ^ y) >> 1u32 })
        == (if x & 1 == 1 { (x >> 1u32) ^ 0x82f63b78u32 } else { x >> 1u32 }) ^ (if y & 1 == 1 { (y >> 1u32) ^ 0x82f63b78u32 } else { y >> 1u32 })) by (bit_vector);
}
pub proof fn step_linear(x: u32, y: u32)
    ensures crc_step(x ^ y, 0) == crc_step(x, 0) ^ crc_step(y, 0)
{
    assert((x ^ y) ^ 0u32 == x ^ y && x ^ 0u32 == x && y ^ 0u32 == y) by (bit_vector);
    let (x1, y1) = (crc_bit(x), crc_bit(y)); bit_linear(x, y);
    let (x2, y2) = (crc_bit(x1), crc_bit(y1)); bit_linear(x1, y1);
    let (x3, y3) = (crc_bit(x2), crc_bit(y2)); bit_linear(x2, y2);
    let (x4, y4) = (crc_bit(x3), crc_bit(y3)); bit_linear(x3, y3);
    let (x5, y5) = (crc_bit(x4), crc_bit(y4)); bit_linear(x4, y4);
    let (x6, y6) = (crc_bit(x5), crc_bit(y5)); bit_linear(x5, y5);
    let (x7, y7) = (crc_bit(x6), crc_bit(y6)); bit_linear(x6, y6);
    bit_linear(x7, y7);
}
pub proof fn adv_linear(x: u32, y: u32, n: nat)
    ensures adv(x ^ y, n) == adv(x, n) ^ adv(y, n)
    decreases n
{
    if n > 0 { adv_linear(x, y, (n - 1) as nat); step_linear(adv(x, (n - 1) as nat), adv(y, (n - 1) as nat)); }
}
pub proof fn adv_add(x: u32, m: nat, n: nat)
    ensures adv(adv(x, m), n) == adv(x, m + n)
    decreases n
{
    if n > 0 { adv_add(x, m, (n - 1) as nat); }
}
/// bytes above the lowest just move down
pub proof fn step_shift(x: u32)
    requires x & 0xff == 0
    ensures crc_step(x, 0) == x >> 8u32
{
    assert(x ^ (0u8 as u32) == x) by (bit_vector);
    let x1 = crc_bit(x); assert(x1 == x >> 1u32) by { assert(x & 0xff == 0 ==> x & 1 == 0) by (bit_vector); }
    let x2 = crc_bit(x1); assert(x2 == x >> 2u32) by { assert(x & 0xff == 0 ==> (x >> 1u32) & 1 == 0 && (x >> 1u32) >> 1u32 == x >> 2u32) by (bit_vector); }
    let x3 = crc_bit(x2); assert(x3 == x >> 3u32) by { assert(x & 0xff == 0 ==> (x >> 2u32) & 1 == 0 && (x >> 2u32) >> 1u32 == x >> 3u32) by (bit_vector); }
    let x4 = crc_bit(x3); assert(x4 == x >> 4u32) by { assert(x & 0xff == 0 ==> (x >> 3u32) & 1 == 0 && (x >> 3u32) >> 1u32 == x >> 4u32) by (bit_vector); }
    let x5 = crc_bit(x4); assert(x5 == x >> 5u32) by { assert(x & 0xff == 0 ==> (x >> 4u32) & 1 == 0 && (x >> 4u32) >> 1u32 == x >> 5u32) by (bit_vector); }
    let x6 = crc_bit(x5); assert(x6 == x >> 6u32) by { assert(x & 0xff == 0 ==> (x >> 5u32) & 1 == 0 && (x >> 5u32) >> 1u32 == x >> 6u32) by (bit_vector); }
    let x7 = crc_bit(x6); assert(x7 == x >> 7u32) by { assert(x & 0xff == 0 ==> (x >> 6u32) & 1 == 0 && (x >> 6u32) >> 1u32 == x >> 7u32) by (bit_vector); }
    assert(x & 0xff == 0 ==> (x >> 7u32) & 1 == 0 && (x >> 7u32) >> 1u32 == x >> 8u32) by (bit_vector);
}
/// one table step
pub proof fn step_table(x: u32)
    ensures crc_step(x, 0) == K_BYTE_EXTENSION_TABLE@[(x & 0xff) as int] ^ (x >> 8u32), x & 0xff < 256
{
    assert(x & 0xff < 256 && x == (x & 0xff) ^ (x & 0xffffff00) && (x & 0xffffff00) & 0xff == 0 && (x & 0xffffff00) >> 8u32 == x >> 8u32) by (bit_vector);
    table_at(x & 0xff);
    step_linear(x & 0xff, x & 0xffffff00);
    step_shift(x & 0xffffff00);
}
/// a byte of input
pub proof fn byte_step(l: u32, b: u8)
    ensures crc_step(l, b) == K_BYTE_EXTENSION_TABLE@[((l & 0xff) ^ (b as u32)) as int] ^ (l >> 8u32), (l & 0xff) ^ (b as u32) < 256
{
    let x = l ^ (b as u32);
    assert((l ^ (b as u32)) & 0xff == (l & 0xff) ^ (b as u32) && (l ^ (b as u32)) >> 8u32 == l >> 8u32 && (l & 0xff) ^ (b as u32) < 256) by (bit_vector);
    assert(x ^ (0u8 as u32) == x) by (bit_vector);
    step_table(x);
}
/// one stride: four tables are 16 zero bytes
pub open spec fn stride(c: u32) -> u32 {
    K_STRIDE_EXTENSION_TABLE3@[(c as u8) as int] ^ K_STRIDE_EXTENSION_TABLE2@[((c >> 8u32) as u8) as int]
        ^ K_STRIDE_EXTENSION_TABLE1@[((c >> 16u32) as u8) as int] ^ K_STRIDE_EXTENSION_TABLE0@[((c >> 24u32) as u8) as int]
}
pub open spec fn word_stride(w: u32, c: u32) -> u32 {
    w ^ K_STRIDE_EXTENSION_TABLE3@[(c as u8) as int] ^ K_STRIDE_EXTENSION_TABLE2@[((c >> 8u32) as u8) as int]
        ^ K_STRIDE_EXTENSION_TABLE1@[((c >> 16u32) as u8) as int] ^ K_STRIDE_EXTENSION_TABLE0@[((c >> 24u32) as u8) as int]
}
pub proof fn stride_is(c: u32)
    ensures stride(c) == adv(c, 16)
{
    let (b0, b1, b2, b3) = ((c as u8) as u32, ((c >> 8u32) as u8) as u32, ((c >> 16u32) as u8) as u32, ((c >> 24u32) as u8) as u32);
    table_at(b0); table_at(b1); table_at(b2); table_at(b3);
    let (x1, x2, x3) = (b1 << 8u32, b2 << 16u32, b3 << 24u32);
    assert(c == b0 ^ x1 ^ x2 ^ x3) by (bit_vector)
        requires b0 == (c as u8) as u32, x1 == (((c >> 8u32) as u8) as u32) << 8u32, x2 == (((c >> 16u32) as u8) as u32) << 16u32, x3 == (((c >> 24u32) as u8) as u32) << 24u32;
    adv_linear(b0, x1, 16);
    adv_linear(b0 ^ x1, x2, 16);
    adv_linear(b0 ^ x1 ^ x2, x3, 16);
}
pub open spec fn le32(b: Seq<u8>) -> u32 { (b[0] as u32) | ((b[1] as u32) << 8u32) | ((b[2] as u32) << 16u32) | ((b[3] as u32) << 24u32) }
/// a little-endian word of input
pub proof fn word_step(l: u32, b: Seq<u8>)
    requires b.len() == 4
    ensures crc_state(l, b) == adv(l ^ le32(b), 4)
{
    let (a0, a1, a2, a3) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    let (x1, x2, x3) = (a1 << 8u32, a2 << 16u32, a3 << 24u32);
    // the register after each byte
    let s1 = crc_step(l, b[0]);
    let s2 = crc_step(s1, b[1]);
    let s3 = crc_step(s2, b[2]);
    let s4 = crc_step(s3, b[3]);
    assert(crc_state(l, b) == s4) by {
        assert(b.drop_last().drop_last().drop_last().drop_last() =~= seq![]);
        reveal_with_fuel(crc_state, 6);
    }
    assert forall|x: u32| #[trigger] (x ^ 0u32) == x by { assert(x ^ 0u32 == x) by (bit_vector); }
    reveal_with_fuel(adv, 6);
    // a byte k places up comes down after k steps
    assert(crc_step(x1, 0) == a1) by { assert((a1 << 8u32) & 0xff == 0 && (a1 < 256 ==> (a1 << 8u32) >> 8u32 == a1)) by (bit_vector); step_shift(x1); }
    assert(adv(x2, 2) == a2) by {
        assert((a2 << 16u32) & 0xff == 0 && (a2 << 16u32) >> 8u32 == a2 << 8u32 && (a2 << 8u32) & 0xff == 0 && (a2 < 256 ==> (a2 << 8u32) >> 8u32 == a2)) by (bit_vector)
            requires a2 < 256;
        step_shift(x2); step_shift(a2 << 8u32);
    }
    assert(adv(x3, 3) == a3) by {
        assert((a3 << 24u32) & 0xff == 0 && (a3 << 24u32) >> 8u32 == a3 << 16u32 && (a3 << 16u32) & 0xff == 0 && (a3 << 16u32) >> 8u32 == a3 << 8u32 && (a3 << 8u32) & 0xff == 0 && (a3 << 8u32) >> 8u32 == a3) by (bit_vector)
            requires a3 < 256;
        step_shift(x3); step_shift(a3 << 16u32); step_shift(a3 << 8u32);
    }
    let y0 = l ^ a0;
    assert(s1 == adv(y0, 1));
    adv_linear(y0, x1, 1);
    assert(s2 == adv(y0 ^ x1, 2));
    adv_linear(y0 ^ x1, x2, 2);
    assert(s3 == adv(y0 ^ x1 ^ x2, 3));
    adv_linear(y0 ^ x1 ^ x2, x3, 3);
    assert(s4 == adv(y0 ^ x1 ^ x2 ^ x3, 4));
    assert(l ^ a0 ^ x1 ^ x2 ^ x3 == l ^ (a0 | x1 | x2 | x3)) by (bit_vector)
        requires a0 < 256, a1 < 256, a2 < 256, a3 < 256, x1 == a1 << 8u32, x2 == a2 << 16u32, x3 == a3 << 24u32;
}
pub proof fn state_append(s: u32, x: Seq<u8>, y: Seq<u8>)
    ensures crc_state(s, x + y) == crc_state(crc_state(s, x), y)
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); } else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        state_append(s, x, y.drop_last());
    }
}
/// the four partial results together
#[verifier::opaque]
pub open spec fn comb(a: u32, b: u32, c: u32, d: u32) -> u32 { adv(d ^ adv(c ^ adv(b ^ adv(a, 4), 4), 4), 4) }
pub proof fn swap(x: u32, y: u32)
    ensures x ^ y == y ^ x
{
    assert(x ^ y == y ^ x) by (bit_vector);
}
pub proof fn comb_is(a: u32, b: u32, c: u32, d: u32)
    ensures comb(a, b, c, d) == adv(adv(adv(adv(a, 4) ^ b, 4) ^ c, 4) ^ d, 4)
{
    reveal(comb);
    let x = adv(a, 4); swap(x, b);
    let y = adv(x ^ b, 4); swap(y, c);
    let z = adv(y ^ c, 4); swap(z, d);
}
/// one more word of input in the oldest partial result
pub proof fn comb_step(a: u32, b: u32, c: u32, d: u32, w: u32)
    ensures comb(b, c, d, w ^ adv(a, 16)) == adv(comb(a, b, c, d) ^ w, 4)
{
    comb_is(a, b, c, d);
    comb_is(b, c, d, w ^ adv(a, 16));
    let z = adv(adv(b, 4) ^ c, 4) ^ d;
    let x = adv(adv(adv(b, 4) ^ c, 4) ^ d, 4);
    // comb(a, b, c, d) == adv(a, 16) ^ x
    adv_linear(adv(a, 4), b, 4);
    adv_add(a, 4, 4);
    let u = adv(b, 4) ^ c;
    assert((adv(a, 8) ^ adv(b, 4)) ^ c == adv(a, 8) ^ (adv(b, 4) ^ c)) by { let (p, q, r) = (adv(a, 8), adv(b, 4), c); assert((p ^ q) ^ r == p ^ (q ^ r)) by (bit_vector); }
    adv_linear(adv(a, 8), u, 4);
    adv_add(a, 8, 4);
    assert((adv(a, 12) ^ adv(u, 4)) ^ d == adv(a, 12) ^ z) by { let (p, q, r) = (adv(a, 12), adv(u, 4), d); assert((p ^ q) ^ r == p ^ (q ^ r)) by (bit_vector); }
    adv_linear(adv(a, 12), z, 4);
    adv_add(a, 12, 4);
    assert(comb(a, b, c, d) == adv(a, 16) ^ x);
    assert(x ^ (w ^ adv(a, 16)) == (adv(a, 16) ^ x) ^ w) by { let p = adv(a, 16); assert(x ^ (w ^ p) == (p ^ x) ^ w) by (bit_vector); }
}
/// reading the word at position s
pub proof fn word_at(i: u32, d: Seq<u8>, s: int)
    requires 0 <= s, s + 4 <= d.len()
    ensures crc_state(i, d.subrange(0, s + 4)) == adv(crc_state(i, d.subrange(0, s)) ^ le32(d.subrange(s, s + 4)), 4)
{
    assert(d.subrange(0, s + 4) =~= d.subrange(0, s) + d.subrange(s, s + 4));
    state_append(i, d.subrange(0, s), d.subrange(s, s + 4));
    word_step(crc_state(i, d.subrange(0, s)), d.subrange(s, s + 4));
}
/// a stride step on the partial results
pub proof fn stride_at(i: u32, d: Seq<u8>, s: int, a: u32, b: u32, c: u32, e: u32)
    requires 0 <= s, s + 4 <= d.len(), crc_state(i, d.subrange(0, s)) == comb(a, b, c, e)
    ensures crc_state(i, d.subrange(0, s + 4)) == comb(b, c, e, word_stride(le32(d.subrange(s, s + 4)), a))
{
    let (w, t3, t2, t1, t0) = (le32(d.subrange(s, s + 4)), K_STRIDE_EXTENSION_TABLE3@[(a as u8) as int], K_STRIDE_EXTENSION_TABLE2@[((a >> 8u32) as u8) as int],
        K_STRIDE_EXTENSION_TABLE1@[((a >> 16u32) as u8) as int], K_STRIDE_EXTENSION_TABLE0@[((a >> 24u32) as u8) as int]);
    assert(w ^ t3 ^ t2 ^ t1 ^ t0 == w ^ (t3 ^ t2 ^ t1 ^ t0)) by (bit_vector);
    word_at(i, d, s);
    stride_is(a);
    comb_step(a, b, c, e, le32(d.subrange(s, s + 4)));
}
/// the bytes the decoder hands out are those of the data
pub proof fn rests(d: Seq<u8>, s: int)
    requires 0 <= s, s + 4 <= d.len()
    ensures d.subrange(s, d.len() as int).subrange(0, 4) == d.subrange(s, s + 4), d.subrange(s, d.len() as int).subrange(4, d.len() - s) == d.subrange(s + 4, d.len() as int)
{
    assert(d.subrange(s, d.len() as int).subrange(0, 4) =~= d.subrange(s, s + 4));
    assert(d.subrange(s, d.len() as int).subrange(4, d.len() - s) =~= d.subrange(s + 4, d.len() as int));
}
/// a table step on a word of state, as the code writes it
pub proof fn step_table_u8(x: u32)
    ensures crc_step(x, 0) == (x >> 8u32) ^ K_BYTE_EXTENSION_TABLE@[(x as u8) as int]
{
    step_table(x);
    assert(x & 0xff == (x as u8) as u32) by (bit_vector);
    let (t, y) = (K_BYTE_EXTENSION_TABLE@[(x as u8) as int], x >> 8u32);
    assert(t ^ y == y ^ t) by (bit_vector);
}
pub proof fn one_byte(i: u32, d: Seq<u8>, s: int)
    requires 0 <= s < d.len()
    ensures crc_state(i, d.subrange(0, s + 1)) == crc_step(crc_state(i, d.subrange(0, s)), d[s])
{
    assert(d.subrange(0, s + 1).drop_last() =~= d.subrange(0, s));
    assert(d.subrange(0, s + 1).last() == d[s]);
}
pub proof fn first_16(i: u32, d: Seq<u8>, s: int)
    requires 0 <= s, s + 16 <= d.len()
    ensures crc_state(i, d.subrange(0, s + 16)) == comb(le32(d.subrange(s, s + 4)) ^ crc_state(i, d.subrange(0, s)), le32(d.subrange(s + 4, s + 8)), le32(d.subrange(s + 8, s + 12)), le32(d.subrange(s + 12, s + 16)))
{
    comb_is(le32(d.subrange(s, s + 4)) ^ crc_state(i, d.subrange(0, s)), le32(d.subrange(s + 4, s + 8)), le32(d.subrange(s + 8, s + 12)), le32(d.subrange(s + 12, s + 16)));
    word_at(i, d, s); word_at(i, d, s + 4); word_at(i, d, s + 8); word_at(i, d, s + 12);
    let (x, y) = (le32(d.subrange(s, s + 4)), crc_state(i, d.subrange(0, s)));
    assert(x ^ y == y ^ x) by (bit_vector);
}
/// CRC-32C of a concatenation
pub proof fn extends(p: Seq<u8>, d: Seq<u8>)
    ensures crc_of(p + d) == !crc_state(!crc_of(p), d)
{
    reveal(crc_of);
    state_append(0xffffffffu32, p, d);
    let x = crc_state(0xffffffffu32, p);
    assert(!(!x) == x) by (bit_vector);
}
pub proof fn nothing()
    ensures crc_of(seq![]) == 0
{
    reveal(crc_of);
    assert(!0xffffffffu32 == 0) by (bit_vector);
}

pub struct Decoder<'a> { b: &'a [u8] }
impl<'a> Decoder<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn with_buf(b: &'a [u8]) -> (r: Decoder<'a>) ensures r.rest() == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn uncheck_get_fixed32(&mut self) -> (r: u32)
        requires old(self).rest().len() >= 4
        ensures r == le32(old(self).rest().subrange(0, 4)), final(self).rest() == old(self).rest().subrange(4, old(self).rest().len() as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn any_offset(d: &[u8]) -> usize { unimplemented!() }
#[verifier::external_body]
pub fn tail(d: &[u8], s: usize) -> (r: &[u8]) requires s <= d@.len() ensures r@ == d@.subrange(s as int, d@.len() as int) { unimplemented!() }
pub struct CRC {}
impl CRC {
//@fn src/util/crc.rs | impl CRC | extend
//@ret res
//@expand src/util/crc.rs | step16
//@expand src/util/crc.rs | step4
//@expand src/util/crc.rs | stepw
//@expand src/util/crc.rs | step1
//@subst /ptr_align_by4_offset\(data\.as_ptr\(\)\)/ => any_offset(data) -- any number: the result may not depend on where the data lies
//@subst? /&data\[s\.\.\]/ => tail(data, s) -- the rest of the data, behind the contract of slice indexing
//@subst? /for _ in 0\.\.4/ => for i_ in 0..4 -- the counter gets a name for the invariant
//@subst? /(?<=[;{}\n])\s*\((\w+), (\w+), (\w+), (\w+)\) = (\([^()]*\));/ => let t_ = \5; \1 = t_.0; \2 = t_.1; \3 = t_.2; \4 = t_.3; -- destructuring assignment written out
//@spec
    requires data@.len() <= 0x7fff_ffff_ffff_ffff
    ensures res == !crc_state(!init_crc, data@)
//@at start
        hide(K_BYTE_EXTENSION_TABLE); hide(K_STRIDE_EXTENSION_TABLE0); hide(K_STRIDE_EXTENSION_TABLE1); hide(K_STRIDE_EXTENSION_TABLE2); hide(K_STRIDE_EXTENSION_TABLE3);
        let ghost i = !init_crc;
        let ghost d = data@;
        proof {
            assert(init_crc ^ 0xffffffff == !init_crc && 0xffffffff ^ init_crc == !init_crc) by (bit_vector);
            assert(d.subrange(0, 0) =~= seq![]);
            assert(d.subrange(0, d.len() as int) =~= d);
        }
//@loop 0
        invariant s <= x <= n, n == d.len(), n <= 0x7fff_ffff_ffff_ffff, d == data@, l == crc_state(i, d.subrange(0, s as int))
        decreases x - s
//@at loop 0 start
            proof { one_byte(i, d, s as int); byte_step(l, data@[s as int]); }
//@at before /let mut crc0 =/
            let ghost s0 = s as int;
            proof { rests(d, s0); rests(d, s0 + 4); rests(d, s0 + 8); rests(d, s0 + 12); first_16(i, d, s0); }
//@loop 1
        invariant s <= n, n == d.len(), n <= 0x7fff_ffff_ffff_ffff, d == data@, crc_state(i, d.subrange(0, s as int)) == comb(crc0, crc1, crc2, crc3), decoder.rest() == d.subrange(s as int, n as int)
        decreases n - s
//@at loop 1 start
            proof {
                let t = s as int;
                rests(d, t); rests(d, t + 4); rests(d, t + 8); rests(d, t + 12);
                let n0 = word_stride(le32(d.subrange(t, t + 4)), crc0);
                let n1 = word_stride(le32(d.subrange(t + 4, t + 8)), crc1);
                let n2 = word_stride(le32(d.subrange(t + 8, t + 12)), crc2);
                stride_at(i, d, t, crc0, crc1, crc2, crc3);
                stride_at(i, d, t + 4, crc1, crc2, crc3, n0);
                stride_at(i, d, t + 8, crc2, crc3, n0, n1);
                stride_at(i, d, t + 12, crc3, n0, n1, n2);
            }
//@loop 2
        invariant s <= n, n == d.len(), n <= 0x7fff_ffff_ffff_ffff, d == data@, crc_state(i, d.subrange(0, s as int)) == comb(crc0, crc1, crc2, crc3), decoder.rest() == d.subrange(s as int, n as int)
        decreases n - s
//@at loop 2 start
            proof { rests(d, s as int); stride_at(i, d, s as int, crc0, crc1, crc2, crc3); }
//@at after loop 2
            proof {
                reveal(comb);
                assert(crc0 ^ 0u32 == crc0) by (bit_vector);
            }
//@at before loop 3
        let ghost g0 = crc0;
//@loop 3
        invariant crc0 == adv(g0, i_ as nat)
//@at loop 3 start
            proof { step_table_u8(crc0); }
//@at before loop 4
        let ghost g1 = crc1;
//@loop 4
        invariant crc1 == adv(g1, i_ as nat)
//@at loop 4 start
            proof { step_table_u8(crc1); }
//@at before loop 5
        let ghost g2 = crc2;
//@loop 5
        invariant crc2 == adv(g2, i_ as nat)
//@at loop 5 start
            proof { step_table_u8(crc2); }
//@at before loop 6
        let ghost g3 = crc3;
//@loop 6
        invariant crc3 == adv(g3, i_ as nat)
//@at loop 6 start
            proof { step_table_u8(crc3); }
//@loop 7
        invariant s <= n <= n, n == d.len(), n <= 0x7fff_ffff_ffff_ffff, d == data@, l == crc_state(i, d.subrange(0, s as int))
        decreases n - s
//@at loop 7 start
            proof { one_byte(i, d, s as int); byte_step(l, data@[s as int]); }
//@at after loop 7
        proof { assert(l ^ 0xffffffff == !l) by (bit_vector); }
//@end
}
} // verus!
fn main() {}
