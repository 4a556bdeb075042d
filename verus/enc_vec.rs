//@assume a vector growing beyond isize::MAX bytes aborts (standard library)
//@assume the checked Encoder operations on a vector write their bytes at the position and move it, growing the vector when needed: proved in unit c02_encoder over the Kani-proved unchecked writes
/// the Encoder on a vector, behind its contract
pub struct Encoder<'a> { pub v: &'a mut Vec<u8>, pub off: usize }
impl<'a> Encoder<'a> {
    pub open spec fn at(&self) -> int { self.off as int }
    /// f is self after w was written at the position
    #[verifier::prophetic]
    pub open spec fn wrote(&self, f: &Self, w: Seq<u8>) -> bool {
        (*f.v)@ == written((*self.v)@, self.off as int, w) && f.off == self.off + w.len() && (*f.v)@.len() <= isize::MAX && *final(f.v) == *final(self.v)
    }
    pub open spec fn can(&self, n: int) -> bool { self.off <= (*self.v)@.len() }
    #[verifier::external_body]
    pub fn with_vec(v: &'a mut Vec<u8>) -> (r: Encoder<'a>) ensures (*r.v)@ == old(v)@, r.off == 0, *final(r.v) == *final(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_fixed32(&mut self, value: u32) -> (r: Result<()>)
        requires old(self).can(4) ensures r is Ok, old(self).wrote(final(self), fixed(value as u64, 4)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_fixed64(&mut self, value: u64) -> (r: Result<()>)
        requires old(self).can(8) ensures r is Ok, old(self).wrote(final(self), fixed(value, 8)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_varint32(&mut self, value: u32) -> (r: Result<()>)
        requires old(self).can(vlen(value as u64)) ensures r is Ok, old(self).wrote(final(self), varint(value as u64)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_varint64(&mut self, value: u64) -> (r: Result<()>)
        requires old(self).can(vlen(value)) ensures r is Ok, old(self).wrote(final(self), varint(value)) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_length_prefixed_slice(&mut self, value: &Slice) -> (r: Result<()>)
        requires value@.len() < 0x1_0000_0000, old(self).can(vlen(value@.len() as u64) + value@.len()) ensures r is Ok, old(self).wrote(final(self), varint(value@.len() as u64) + value@) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_fixed64(&mut self, value: u64)
        requires old(self).can(8) ensures old(self).wrote(final(self), fixed(value, 8)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_varint32(&mut self, value: u32)
        requires old(self).can(vlen(value as u64)) ensures old(self).wrote(final(self), varint(value as u64)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_buf(&mut self, b: &[u8])
        requires old(self).can(b@.len() as int) ensures old(self).wrote(final(self), b@) { unimplemented!() }
}
pub mod append {
use super::*;
/// writing at the end appends
pub broadcast proof fn append_at_end(b: Seq<u8>, p: int, w: Seq<u8>)
    requires p == b.len()
    ensures #[trigger] written(b, p, w) == b + w
{ assert(written(b, p, w) =~= b + w); }
pub broadcast proof fn lengths(x: u64, n: nat) ensures #[trigger] fixed(x, n).len() == n { fixed_len(x, n); }
}
