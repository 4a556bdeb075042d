use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume the unchecked encoders (uncheck_encode_fixed32/64, uncheck_encode_varint32/64, uncheck_write_buf) write exactly their bytes at the position, growing a vector when needed: proved on the real code for every container kind by the Kani harnesses u_p_*
//@assume Encoder::len is the container's length: Kani c02_p_len
//@assume varint_length is the length of the shortest form: Kani c01_p_varint_length
//@assume positions and lengths are at most isize::MAX (address space; a vector larger than that cannot be allocated)
//@include coding_common.rs
pub struct MutEncodeData<'a> { d: core::marker::PhantomData<&'a mut u8> }
impl<'a> MutEncodeData<'a> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn grows(&self) -> bool;
}
pub open spec fn room(d: &MutEncodeData, p: int, n: int) -> bool { 0 <= p <= d.bytes().len() && (d.grows() || p + n <= d.bytes().len()) && p + n <= isize::MAX }
pub open spec fn wrote(o: &MutEncodeData, n: &MutEncodeData, p: int, w: Seq<u8>) -> bool { n.bytes() == written(o.bytes(), p, w) && n.grows() == o.grows() }
#[verifier::external_body]
pub fn uncheck_encode_fixed32(data: &mut MutEncodeData, offset: usize, value: u32)
    requires room(old(data), offset as int, 4)
    ensures wrote(old(data), final(data), offset as int, fixed(value as u64, 4)) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_encode_fixed64(data: &mut MutEncodeData, offset: usize, value: u64)
    requires room(old(data), offset as int, 8)
    ensures wrote(old(data), final(data), offset as int, fixed(value, 8)) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_encode_varint32(data: &mut MutEncodeData, offset: usize, value: u32) -> (r: usize)
    requires room(old(data), offset as int, vlen(value as u64))
    ensures wrote(old(data), final(data), offset as int, varint(value as u64)), r == offset + vlen(value as u64) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_encode_varint64(data: &mut MutEncodeData, offset: usize, value: u64) -> (r: usize)
    requires room(old(data), offset as int, vlen(value))
    ensures wrote(old(data), final(data), offset as int, varint(value)), r == offset + vlen(value) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_write_buf(data: &mut MutEncodeData, offset: usize, buf: &[u8])
    requires room(old(data), offset as int, buf@.len() as int)
    ensures wrote(old(data), final(data), offset as int, buf@) { unimplemented!() }
#[verifier::external_body]
pub fn is_vector(d: &MutEncodeData) -> (r: bool) ensures r == d.grows() { unimplemented!() }
#[verifier::external_body]
pub fn varint_length(value: u64) -> (r: usize) ensures r == vlen(value) { unimplemented!() }
/// what std guarantees of every byte slice
#[verifier::external_body]
pub proof fn slice_fits(b: &[u8]) ensures b@.len() <= isize::MAX {}

//@struct src/util/coding.rs | Encoder
impl<'a> Encoder<'a> {
    pub open spec fn wf(&self) -> bool { self.offset <= self.data.bytes().len() <= isize::MAX }
    pub open spec fn fits(&self, n: int) -> bool { self.data.grows() || self.offset + n <= self.data.bytes().len() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.data.bytes().len() { unimplemented!() }
    /// after writing w at the position
    pub open spec fn did(&self, f: &Self, w: Seq<u8>) -> bool { f.offset == self.offset + w.len() && wrote(&self.data, &f.data, self.offset as int, w) && f.wf() }
    pub open spec fn put(&self, f: &Self, r: Result<()>, w: Seq<u8>) -> bool {
        if self.fits(w.len() as int) { r is Ok && self.did(f, w) }
        else { r is Err && (r->Err_0).invalid() && f.offset == self.offset && f.data.bytes() == self.data.bytes() && f.data.grows() == self.data.grows() }
    }
//@fn src/util/coding.rs | macro put_fixed | put_fixed32
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + 4 <= isize::MAX
    ensures old(self).put(final(self), res, fixed(value as u64, 4))
//@at start
        proof { fixed_len(value as u64, 4); }
//@end
//@fn src/util/coding.rs | macro put_varint | put_varint32
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + vlen(value as u64) <= isize::MAX
    ensures old(self).put(final(self), res, varint(value as u64))
//@at start
        proof { varint_len(value as u64); }
//@end
//@fn src/util/coding.rs | macro put_fixed | uncheck_put_fixed32
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + 4 <= isize::MAX, old(self).fits(4)
    ensures old(self).did(final(self), fixed(value as u64, 4))
//@at start
        proof { fixed_len(value as u64, 4); }
//@end
//@fn src/util/coding.rs | macro put_varint | uncheck_put_varint32
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + vlen(value as u64) <= isize::MAX, old(self).fits(vlen(value as u64))
    ensures old(self).did(final(self), varint(value as u64))
//@at start
        proof { varint_len(value as u64); }
//@end
//@fn src/util/coding.rs | macro put_fixed | put_fixed64
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + 8 <= isize::MAX
    ensures old(self).put(final(self), res, fixed(value as u64, 8))
//@at start
        proof { fixed_len(value as u64, 8); }
//@end
//@fn src/util/coding.rs | macro put_varint | put_varint64
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + vlen(value as u64) <= isize::MAX
    ensures old(self).put(final(self), res, varint(value as u64))
//@at start
        proof { varint_len(value as u64); }
//@end
//@fn src/util/coding.rs | macro put_fixed | uncheck_put_fixed64
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + 8 <= isize::MAX, old(self).fits(8)
    ensures old(self).did(final(self), fixed(value as u64, 8))
//@at start
        proof { fixed_len(value as u64, 8); }
//@end
//@fn src/util/coding.rs | macro put_varint | uncheck_put_varint64
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + vlen(value as u64) <= isize::MAX, old(self).fits(vlen(value as u64))
    ensures old(self).did(final(self), varint(value as u64))
//@at start
        proof { varint_len(value as u64); }
//@end
//@fn src/util/coding.rs | impl<'a> Encoder<'a> | put_buf
//@ret res
//@expand src/util/coding.rs | check_length
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /if let (?:MutEncodeData::)?MutVector\((?:_|\.\.)\) = &?self\.data \{/ => if is_vector(&self.data) { -- test of the container kind, behind its contract
//@subst? /match &?self\.data \{\s*(?:MutEncodeData::)?MutVector\((?:_|\.\.)\) =>/ => match is_vector(&self.data) { true => -- test of the container kind, behind its contract
//@subst? /matches!\(&?self\.data, (?:MutEncodeData::)?MutVector\((?:_|\.\.)\)\)/ => is_vector(&self.data) -- test of the container kind, behind its contract
//@spec
    requires old(self).wf(), old(self).offset + buf@.len() <= isize::MAX
    ensures old(self).put(final(self), res, buf@)
//@end
//@fn src/util/coding.rs | impl<'a> Encoder<'a> | uncheck_put_buf
//@spec
    requires old(self).wf(), old(self).offset + buf@.len() <= isize::MAX, old(self).fits(buf@.len() as int)
    ensures old(self).did(final(self), buf@)
//@end
//@fn src/util/coding.rs | impl<'a> Encoder<'a> | uncheck_put_length_prefixed_slice
//@subst? /put_buf\(slice\)/ => put_buf(slice.bytes()) -- deref of Slice to its bytes (C26)
//@spec
    requires old(self).wf(), old(self).offset + 5 + slice@.len() <= isize::MAX, slice@.len() <= 0xffff_ffff, old(self).fits(vlen(slice@.len() as u64) + slice@.len())
    ensures old(self).did(final(self), varint(slice@.len() as u64) + slice@)
//@at start
        proof { varint_len(slice@.len() as u64); two_writes(old(self).data.bytes(), old(self).offset as int, varint(slice@.len() as u64), slice@); }
//@end
//@fn src/util/coding.rs | impl<'a> Encoder<'a> | put_length_prefixed_slice
//@ret res
//@subst? /put_buf\(slice\)/ => put_buf(slice.bytes()) -- deref of Slice to its bytes (C26)
//@spec
    requires old(self).wf(), old(self).offset + 10 + slice@.len() <= isize::MAX, slice@.len() <= 0xffff_ffff
    ensures
        old(self).fits(vlen(slice@.len() as u64) + slice@.len()) <==> res is Ok,
        res is Ok ==> old(self).did(final(self), varint(slice@.len() as u64) + slice@),
        res is Err ==> (res->Err_0).invalid() && final(self).wf() && final(self).data.grows() == old(self).data.grows() && final(self).data.bytes().len() == old(self).data.bytes().len(),
//@at start
        proof { varint_len(slice@.len() as u64); two_writes(old(self).data.bytes(), old(self).offset as int, varint(slice@.len() as u64), slice@); }
//@end
}
/// two writes in a row are one write of both
pub proof fn two_writes(b: Seq<u8>, p: int, w: Seq<u8>, x: Seq<u8>)
    requires 0 <= p <= b.len()
    ensures written(written(b, p, w), p + w.len(), x) == written(b, p, w + x), written(b, p, w).len() == (if p + w.len() > b.len() { p + w.len() } else { b.len() as int })
{
    assert(written(written(b, p, w), p + w.len(), x) =~= written(b, p, w + x));
}
/// C01, C04: what was written at p is what lies there, whatever is written behind it
pub proof fn stays(b: Seq<u8>, p: int, w: Seq<u8>, x: Seq<u8>)
    requires 0 <= p <= b.len()
    ensures written(b, p, w).subrange(p, p + w.len()) == w, written(written(b, p, w), p + w.len(), x).subrange(p, p + w.len()) == w,
        written(b, p, w).subrange(0, p) == b.subrange(0, p),
        forall|k: int| p + w.len() <= k < b.len() ==> written(b, p, w)[k] == b[k],
{
    assert(written(b, p, w).subrange(p, p + w.len()) =~= w);
    assert(written(written(b, p, w), p + w.len(), x).subrange(p, p + w.len()) =~= w);
    assert(written(b, p, w).subrange(0, p) =~= b.subrange(0, p));
}
} // verus!
fn main() {}
