global size_of usize == 8;
pub struct Status { s: u8 }
pub type Result<T> = core::result::Result<T, Status>;
impl Status { pub uninterp spec fn invalid(&self) -> bool; }
/// an invalid-argument error (which one: C22); its message is not under contract
#[verifier::external_body]
pub fn invalid_argument() -> (r: Status) ensures r.invalid() { unimplemented!() }
pub struct Slice { v: Vec<u8> }
impl Slice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
/// spec: number of bytes of the shortest base-128 form
pub open spec fn vlen(x: u64) -> int {
    if x < 0x80 { 1 } else if x < 0x4000 { 2 } else if x < 0x20_0000 { 3 } else if x < 0x1000_0000 { 4 } else if x < 0x8_0000_0000 { 5 }
    else if x < 0x400_0000_0000 { 6 } else if x < 0x2_0000_0000_0000 { 7 } else if x < 0x100_0000_0000_0000 { 8 } else if x < 0x8000_0000_0000_0000 { 9 } else { 10 }
}
/// the 7-bit groups of x from the low end, all but the last flagged
pub open spec fn varint(x: u64) -> Seq<u8> decreases x {
    if x < 128 { seq![x as u8] } else { seq![(x % 128 + 128) as u8] + varint(x / 128) }
}
/// the low n bytes of x, lowest first
pub open spec fn fixed(x: u64, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { seq![(x % 256) as u8] + fixed(x / 256, (n - 1) as nat) } }
pub proof fn varint_len(x: u64)
    ensures varint(x).len() == vlen(x), 1 <= vlen(x) <= 10, x < 0x1_0000_0000 ==> vlen(x) <= 5
    decreases x
{
    if x >= 128 { varint_len(x / 128); }
}
pub proof fn fixed_len(x: u64, n: nat)
    ensures fixed(x, n).len() == n
    decreases n
{
    if n > 0 { fixed_len(x / 256, (n - 1) as nat); }
}
/// b with w written at position p: grown when needed, every other byte kept
pub open spec fn written(b: Seq<u8>, p: int, w: Seq<u8>) -> Seq<u8> {
    b.subrange(0, p) + w + (if p + w.len() < b.len() { b.subrange(p + w.len(), b.len() as int) } else { seq![] })
}
/// number of bytes a varint read at position p looks at: up to the first unflagged byte, the end, or max bytes
pub open spec fn scan(b: Seq<u8>, p: int, max: int) -> int decreases max {
    if max <= 0 || p < 0 || p >= b.len() { 0 } else if b[p] < 128 { 1 } else { 1 + scan(b, p + 1, max - 1) }
}
/// the varint at position p is complete
pub open spec fn complete(b: Seq<u8>, p: int, max: int) -> bool { scan(b, p, max) > 0 && 0 <= p && p + scan(b, p, max) <= b.len() && b[p + scan(b, p, max) - 1] < 128 }
/// value of the n bytes of a varint
pub open spec fn groups(b: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { 0 } else { b[p] as int % 128 + 128 * groups(b, p + 1, n - 1) } }
/// value of n little-endian bytes
pub open spec fn little(b: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { 0 } else { b[p] as int + 256 * little(b, p + 1, n - 1) } }
