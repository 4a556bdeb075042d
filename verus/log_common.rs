global size_of usize == 8;
//@const src/db/log_writer.rs | K_ZERO_TYPE
//@const src/db/log_writer.rs | K_FULL_TYPE
//@const src/db/log_writer.rs | K_FIRST_TYPE
//@const src/db/log_writer.rs | K_MIDDLE_TYPE
//@const src/db/log_writer.rs | K_LAST_TYPE
//@const src/db/log_writer.rs | K_MAX_RECORD_TYPE
//@const src/db/log_writer.rs | K_BLOCK_SIZE
//@const src/db/log_writer.rs | K_HEADER_SIZE

//@include crc_common.rs
/// the LevelDB mask (C06)
pub open spec fn mask_of(c: u32) -> u32 { ((c >> 15u32) | (c << 17u32)).wrapping_add(0xa282ead8u32) }
pub open spec fn byte_of(v: u32, i: int) -> u8 {
    if i == 0 { (v & 0xff) as u8 } else if i == 1 { ((v >> 8u32) & 0xff) as u8 } else if i == 2 { ((v >> 16u32) & 0xff) as u8 } else { ((v >> 24u32) & 0xff) as u8 }
}
pub open spec fn le32_bytes(v: u32) -> Seq<u8> { seq![byte_of(v, 0), byte_of(v, 1), byte_of(v, 2), byte_of(v, 3)] }

pub struct CRC {}
impl CRC {
    #[verifier::external_body]
    pub fn extend(init: u32, d: &[u8]) -> (r: u32) ensures init == 0 ==> r == crc_of(d@), forall|p: Seq<u8>| init == #[trigger] crc_of(p) ==> r == crc_of(p + d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn value(d: &[u8]) -> (r: u32) ensures r == crc_of(d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn mask(c: u32) -> (r: u32) ensures r == mask_of(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn unmask(m: u32) -> (r: u32) ensures mask_of(r) == m, forall|c: u32| #[trigger] mask_of(c) == m ==> c == r { unimplemented!() }
}
/// the checksums of typed data, behind their contract (C05)
pub trait AsCrc {
    spec fn crc_bytes(&self) -> Seq<u8>;
    fn as_crc(&self) -> (r: u32) ensures r == crc_of(self.crc_bytes());
    fn as_crc_extend(&self, crc: u32) -> (r: u32) ensures forall|p: Seq<u8>| crc == #[trigger] crc_of(p) ==> r == crc_of(p + self.crc_bytes());
}
impl AsCrc for [u8] {
    open spec fn crc_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_crc(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn as_crc_extend(&self, crc: u32) -> (r: u32) { unimplemented!() }
}
impl<const N: usize> AsCrc for [u8; N] {
    open spec fn crc_bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_crc(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    fn as_crc_extend(&self, crc: u32) -> (r: u32) { unimplemented!() }
}

/// one fragment of the LevelDB log format
#[verifier::opaque]
pub open spec fn fragment(t: u8, d: Seq<u8>) -> Seq<u8> {
    le32_bytes(mask_of(crc_of(seq![t] + d))) + seq![(d.len() % 256) as u8, (d.len() / 256) as u8, t] + d
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// padding before the next fragment when `off` bytes of the block are used
pub open spec fn pad(off: int) -> Seq<u8> { if 32768 - off < 7 { zeros(32768 - off) } else { zeros(0) } }
pub open spec fn start_of(off: int) -> int { if 32768 - off < 7 { 0 } else { off } }
/// length of the next fragment's payload
pub open spec fn take(off: int, n: int) -> int { if n < 32768 - start_of(off) - 7 { n } else { 32768 - start_of(off) - 7 } }
pub open spec fn kind(begin: bool, end: bool) -> u8 { if begin && end { 1u8 } else if begin { 2u8 } else if end { 4u8 } else { 3u8 } }
/// LevelDB's encoding of record d when `off` bytes of the current block are used
#[verifier::opaque]
pub open spec fn encoded(off: int, d: Seq<u8>, begin: bool) -> Seq<u8>
    decreases d.len(), 32768 - off
{
    if off < 0 || off > 32768 { seq![] } else {
        let n = take(off, d.len() as int);
        let end = n == d.len();
        let f = pad(off) + fragment(kind(begin, end), d.subrange(0, n));
        if end { f } else { f + encoded(start_of(off) + 7 + n, d.subrange(n, d.len() as int), false) }
    }
}
/// bytes used in the block after the record
#[verifier::opaque]
pub open spec fn offset_after(off: int, d: Seq<u8>) -> int
    decreases d.len(), 32768 - off
{
    if off < 0 || off > 32768 { 0 } else {
        let n = take(off, d.len() as int);
        if n == d.len() { start_of(off) + 7 + n } else { offset_after(start_of(off) + 7 + n, d.subrange(n, d.len() as int)) }
    }
}
/// the bytes of a whole log
pub open spec fn log_of(off: int, rs: Seq<Seq<u8>>) -> Seq<u8> decreases rs.len() {
    if rs.len() == 0 { seq![] } else { encoded(off, rs[0], true) + log_of(offset_after(off, rs[0]), rs.drop_first()) }
}

/// one step of the encoding
pub proof fn unfold(off: int, d: Seq<u8>, begin: bool)
    requires 0 <= off <= 32768
    ensures
        0 <= take(off, d.len() as int) <= d.len(),
        7 <= start_of(off) + 7 + take(off, d.len() as int) <= 32768,
        take(off, d.len() as int) < d.len() ==> start_of(off) + 7 + take(off, d.len() as int) == 32768,
        take(off, d.len() as int) == 0 && d.len() > 0 ==> start_of(off) == 32761 && off == 32761,
        encoded(off, d, begin) == ({
            let n = take(off, d.len() as int);
            let f = pad(off) + fragment(kind(begin, n == d.len()), d.subrange(0, n));
            if n == d.len() { f } else { f + encoded(start_of(off) + 7 + n, d.subrange(n, d.len() as int), false) }
        }),
        offset_after(off, d) == ({
            let n = take(off, d.len() as int);
            if n == d.len() { start_of(off) + 7 + n } else { offset_after(start_of(off) + 7 + n, d.subrange(n, d.len() as int)) }
        }),
{
    reveal_with_fuel(encoded, 2);
    reveal_with_fuel(offset_after, 2);
}
