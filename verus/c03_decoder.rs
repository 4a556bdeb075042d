use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume the unchecked decoders (uncheck_decode_fixed32/64, uncheck_decode_varint32/64, uncheck_read_buf) read exactly their bytes: proved on the real code for every container kind by the Kani harnesses s_p_*
//@assume a decoder's limit is its input's length (with_vec, with_buf, with_slice): Kani s_p_* (limit asserted there)
//@include coding_common.rs
pub struct EncodeData<'a> { d: core::marker::PhantomData<&'a u8> }
impl<'a> EncodeData<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
impl Slice {
    #[verifier::external_body]
    pub fn of(b: u8) -> Slice { unimplemented!() }
}
#[verifier::external_body]
pub fn uncheck_decode_fixed32(data: &EncodeData, offset: usize) -> (r: u32)
    requires offset + 4 <= data.bytes().len()
    ensures r == little(data.bytes(), offset as int, 4) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_decode_fixed64(data: &EncodeData, offset: usize) -> (r: u64)
    requires offset + 8 <= data.bytes().len()
    ensures r == little(data.bytes(), offset as int, 8) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_decode_varint32(data: &EncodeData, offset: usize, limit: usize) -> (r: (u32, usize))
    requires offset <= limit, limit == data.bytes().len()
    ensures
        r.1 == offset + scan(data.bytes(), offset as int, 5),
        complete(data.bytes(), offset as int, 5) && groups(data.bytes(), offset as int, scan(data.bytes(), offset as int, 5)) < 0x1_0000_0000
            ==> r.0 == groups(data.bytes(), offset as int, scan(data.bytes(), offset as int, 5)) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_decode_varint64(data: &EncodeData, offset: usize, limit: usize) -> (r: (u64, usize))
    requires offset <= limit, limit == data.bytes().len()
    ensures
        r.1 == offset + scan(data.bytes(), offset as int, 10),
        complete(data.bytes(), offset as int, 10) && groups(data.bytes(), offset as int, scan(data.bytes(), offset as int, 10)) < 0x1_0000_0000_0000_0000
            ==> r.0 == groups(data.bytes(), offset as int, scan(data.bytes(), offset as int, 10)) { unimplemented!() }
#[verifier::external_body]
pub fn uncheck_read_buf(data: &EncodeData, offset: usize, len: usize) -> (r: Slice)
    requires offset + len <= data.bytes().len()
    ensures r@ == data.bytes().subrange(offset as int, offset + len) { unimplemented!() }
/// one byte of the input, read through its pointer: it must lie inside
#[verifier::external_body]
pub fn byte_at(data: &EncodeData, i: usize) -> (r: u8)
    requires i < data.bytes().len()
    ensures r == data.bytes()[i as int] { unimplemented!() }
proof fn flag(b: u8) ensures (b & 128 != 0) <==> b >= 128 { assert((b & 128u8 != 0) <==> b >= 128u8) by (bit_vector); }
pub proof fn flags() ensures forall|b: u8| ((#[trigger] (b & 128u8)) != 0) <==> b >= 128 {
    assert forall|b: u8| ((#[trigger] (b & 128u8)) != 0) <==> b >= 128 by { flag(b); }
}

//@struct src/util/coding.rs | Decoder
impl<'a> Decoder<'a> {
    pub open spec fn wf(&self) -> bool { self.offset <= self.limit && self.limit == self.data.bytes().len() && self.limit <= isize::MAX }
    pub open spec fn bytes(&self) -> Seq<u8> { self.data.bytes() }
    /// what every operation leaves alone
    pub open spec fn same(&self, o: &Self) -> bool { self.data == o.data && self.limit == o.limit && self.wf() }
    pub open spec fn kept(&self, o: &Self, r: Result<()>) -> bool { r is Err && r->Err_0.invalid() && self.offset == o.offset }
//@fn src/util/coding.rs | macro get_fixed | get_fixed32
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        old(self).offset + 4 <= old(self).limit ==> res is Ok && res->Ok_0 == little(old(self).bytes(), old(self).offset as int, 4) && final(self).offset == old(self).offset + 4,
        old(self).offset + 4 > old(self).limit ==> res is Err && res->Err_0.invalid() && final(self).offset == old(self).offset,
//@end
//@fn src/util/coding.rs | macro get_fixed | uncheck_get_fixed32
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@spec
    requires old(self).wf(), old(self).offset + 4 <= old(self).limit
    ensures final(self).same(old(self)), res == little(old(self).bytes(), old(self).offset as int, 4), final(self).offset == old(self).offset + 4
//@end
//@fn src/util/coding.rs | macro get_varint | get_varint32
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@subst? /ptr::read\(get_ptr!\((\w+)\)\.add\(((?:[^()]|\([^()]*\))*)\)\)/ => byte_at(\1, \2) -- one byte read through the container's pointer, behind its contract: the index must lie inside
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        complete(old(self).bytes(), old(self).offset as int, 5) ==> res is Ok && final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5),
        complete(old(self).bytes(), old(self).offset as int, 5) && groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)) < 0x1_0000_0000 ==> res->Ok_0 == groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)),
        !complete(old(self).bytes(), old(self).offset as int, 5) ==> res is Err && res->Err_0.invalid() && final(self).offset == old(self).offset,
//@at start
        proof { scan_bound(old(self).bytes(), old(self).offset as int, 5); flags(); }
//@end
//@fn src/util/coding.rs | macro get_varint | uncheck_get_varint32
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)), final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5),
        complete(old(self).bytes(), old(self).offset as int, 5) && groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)) < 0x1_0000_0000 ==> res == groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)),
//@at start
        proof { scan_bound(old(self).bytes(), old(self).offset as int, 5); }
//@end
//@fn src/util/coding.rs | macro get_fixed | get_fixed64
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        old(self).offset + 8 <= old(self).limit ==> res is Ok && res->Ok_0 == little(old(self).bytes(), old(self).offset as int, 8) && final(self).offset == old(self).offset + 8,
        old(self).offset + 8 > old(self).limit ==> res is Err && res->Err_0.invalid() && final(self).offset == old(self).offset,
//@end
//@fn src/util/coding.rs | macro get_fixed | uncheck_get_fixed64
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@spec
    requires old(self).wf(), old(self).offset + 8 <= old(self).limit
    ensures final(self).same(old(self)), res == little(old(self).bytes(), old(self).offset as int, 8), final(self).offset == old(self).offset + 8
//@end
//@fn src/util/coding.rs | macro get_varint | get_varint64
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@subst? /ptr::read\(get_ptr!\((\w+)\)\.add\(((?:[^()]|\([^()]*\))*)\)\)/ => byte_at(\1, \2) -- one byte read through the container's pointer, behind its contract: the index must lie inside
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        complete(old(self).bytes(), old(self).offset as int, 10) ==> res is Ok && final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 10),
        complete(old(self).bytes(), old(self).offset as int, 10) && groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 10)) < 0x1_0000_0000_0000_0000 ==> res->Ok_0 == groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 10)),
        !complete(old(self).bytes(), old(self).offset as int, 10) ==> res is Err && res->Err_0.invalid() && final(self).offset == old(self).offset,
//@at start
        proof { scan_bound(old(self).bytes(), old(self).offset as int, 10); flags(); }
//@end
//@fn src/util/coding.rs | macro get_varint | uncheck_get_varint64
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)), final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 10),
        complete(old(self).bytes(), old(self).offset as int, 10) && groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 10)) < 0x1_0000_0000_0000_0000 ==> res == groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 10)),
//@at start
        proof { scan_bound(old(self).bytes(), old(self).offset as int, 10); }
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | uncheck_get_buf
//@ret res
//@spec
    requires old(self).wf(), old(self).offset + len <= old(self).limit
    ensures final(self).same(old(self)), final(self).offset == old(self).offset + len, res@ == old(self).bytes().subrange(old(self).offset as int, old(self).offset + len)
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | get_buf
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        old(self).offset + len <= old(self).limit ==> res is Ok && final(self).offset == old(self).offset + len && res->Ok_0@ == old(self).bytes().subrange(old(self).offset as int, old(self).offset + len),
        old(self).offset + len > old(self).limit ==> res is Err && res->Err_0.invalid() && final(self).offset == old(self).offset,
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | uncheck_skip
//@ret res
//@spec
    requires old(self).wf(), old(self).offset + skip <= old(self).limit
    ensures final(self).same(old(self)), final(self).offset == old(self).offset + skip, res == final(self).offset
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | skip
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        old(self).offset + skip <= old(self).limit ==> res is Ok && final(self).offset == old(self).offset + skip && res->Ok_0 == final(self).offset,
        old(self).offset + skip > old(self).limit ==> res is Err && res->Err_0.invalid() && final(self).offset == old(self).offset,
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | can_get
//@ret res
//@spec
    ensures res == (self.offset < self.limit)
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | uncheck_get_length_prefixed_slice
//@ret res
//@spec
    requires old(self).wf(), complete(old(self).bytes(), old(self).offset as int, 5), groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)) < 0x1_0000_0000, old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5) + groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)) <= old(self).limit
    ensures final(self).same(old(self)), final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5) + groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)),
        res@ == old(self).bytes().subrange(old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5), old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5) + groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)))
//@at start
        proof { groups_bound(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)); }
//@end
//@fn src/util/coding.rs | impl<'a> Decoder<'a> | get_length_prefixed_slice
//@ret res
//@expand src/util/coding.rs | check_length
//@expand src/util/coding.rs | type_capacity
//@subst? /return Err\(LevelError::invalid_argument\(.*?\)\);/ => return Err(invalid_argument()); -- error value; its message is not under contract
//@subst? /([\w.]+|\([^()]*\))\.checked_add\(((?:[^()]|\([^()]*\))*)\)\.map_or\((\w+), \|(\w+)\| ([^{]*?)\) \{/ => (match \1.checked_add(\2) { None => \3, Some(\4) => \5 }) { -- Option::map_or written as its match
//@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        res is Err ==> res->Err_0.invalid() && (final(self).offset == old(self).offset || (complete(old(self).bytes(), old(self).offset as int, 5) && final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5))),
        // a value is made of bytes inside the input only
        res is Ok ==> complete(old(self).bytes(), old(self).offset as int, 5) && final(self).offset == old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5) + res->Ok_0@.len() && final(self).offset <= old(self).limit
            && res->Ok_0@ == old(self).bytes().subrange(old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5), final(self).offset as int),
        !complete(old(self).bytes(), old(self).offset as int, 5) ==> res is Err && final(self).offset == old(self).offset,
        complete(old(self).bytes(), old(self).offset as int, 5) && groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)) < 0x1_0000_0000 ==> (res is Ok <==> old(self).offset + scan(old(self).bytes(), old(self).offset as int, 5) + groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)) <= old(self).limit) && (res is Ok ==> res->Ok_0@.len() == groups(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5))),
//@at start
        proof { scan_bound(old(self).bytes(), old(self).offset as int, 5); groups_bound(old(self).bytes(), old(self).offset as int, scan(old(self).bytes(), old(self).offset as int, 5)); }
//@end
}
pub proof fn scan_bound(b: Seq<u8>, p: int, max: int)
    requires 0 <= p, max >= 0
    ensures 0 <= scan(b, p, max) <= max, p <= b.len() ==> p + scan(b, p, max) <= b.len(), p < b.len() && max > 0 ==> scan(b, p, max) > 0,
        // either terminated, at the end, or max bytes
        scan(b, p, max) > 0 && b[p + scan(b, p, max) - 1] >= 128 ==> scan(b, p, max) == max || p + scan(b, p, max) == b.len(),
        forall|j: int| p <= j < p + scan(b, p, max) - 1 ==> b[j] >= 128,
    decreases max
{
    if max > 0 && p < b.len() && b[p] >= 128 {
        scan_bound(b, p + 1, max - 1);
    }
}
pub proof fn groups_bound(b: Seq<u8>, p: int, n: int)
    ensures groups(b, p, n) >= 0
    decreases n
{
    if n > 0 { groups_bound(b, p + 1, n - 1); }
}
} // verus!
fn main() {}
