//@assume the unchecked Encoder operations on a byte buffer with enough room write their bytes at the position and move it: proved in unit c02_encoder over the Kani-proved unchecked writes
/// the Encoder on a buffer of fixed length, behind its contract
pub struct Encoder<'a> { pub v: &'a mut Vec<u8>, pub off: usize }
impl<'a> Encoder<'a> {
    #[verifier::prophetic]
    pub open spec fn wrote(&self, f: &Self, w: Seq<u8>) -> bool {
        (*f.v)@ == written((*self.v)@, self.off as int, w) && f.off == self.off + w.len() && *final(f.v) == *final(self.v)
    }
    pub open spec fn can(&self, n: int) -> bool { self.off + n <= (*self.v)@.len() }
    #[verifier::external_body]
    pub fn with_buf(v: &'a mut Vec<u8>) -> (r: Encoder<'a>) ensures (*r.v)@ == old(v)@, r.off == 0, *final(r.v) == *final(v) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_fixed64(&mut self, value: u64)
        requires old(self).can(8) ensures old(self).wrote(final(self), fixed(value, 8)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_fixed32(&mut self, value: u32)
        requires old(self).can(4) ensures old(self).wrote(final(self), fixed(value as u64, 4)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_varint32(&mut self, value: u32)
        requires old(self).can(vlen(value as u64)) ensures old(self).wrote(final(self), varint(value as u64)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_varint64(&mut self, value: u64)
        requires old(self).can(vlen(value)) ensures old(self).wrote(final(self), varint(value)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn uncheck_put_buf(&mut self, b: &[u8])
        requires old(self).can(b@.len() as int) ensures old(self).wrote(final(self), b@) { unimplemented!() }
}
