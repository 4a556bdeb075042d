use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume Slice is a byte string: size, as_ref, from_vec, from_buf and clone keep the bytes (C26)
//@assume user keys are shorter than 2^32 - 8 bytes (the length prefix is 32-bit)
//@include coding_common.rs
//@include enc_vec.rs
impl Slice {
    #[verifier::external_body]
    pub fn from_vec(b: Vec<u8>) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_buf(b: &[u8]) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Slice) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn varint_length(value: u64) -> (r: usize) ensures r == vlen(value) { unimplemented!() }
#[verifier::external_body]
pub fn panic_here() requires false { unimplemented!() }
#[verifier::external_body]
pub fn rest(b: &[u8], a: usize) -> (r: &[u8]) requires a <= b@.len() ensures r@ == b@.subrange(a as int, b@.len() as int) { unimplemented!() }

//@struct src/db/db_format.rs | ValueType
use ValueType::*;
//@const src/db/db_format.rs | K_MAX_SEQUENCE_NUMBER | value
//@struct src/db/db_format.rs | LookupKey
pub open spec fn code(t: ValueType) -> int { match t { ValueType::KTypeDeletion => 0, ValueType::KTypeValue => 1 } }
/// varint(n + 8), the key, sequence * 256 + 1 in eight little-endian bytes
pub open spec fn lookup_key(k: Seq<u8>, seq: int) -> Seq<u8> { varint((k.len() + 8) as u64) + k + fixed((seq * 256 + 1) as u64, 8) }

proof fn packing(s: usize, v: usize)
    requires s <= 0xff_ffff_ffff_ffff, v <= 1
    ensures ((s << 8) | v) == s * 256 + v
{
    assert(((s << 8usize) | v) == s * 256 + v) by (bit_vector) requires s <= 0xff_ffff_ffff_ffff, v <= 1;
}
proof fn limits() ensures (1usize << 56usize) == 0x100_0000_0000_0000usize { assert((1usize << 56usize) == 0x100_0000_0000_0000usize) by (bit_vector); }

impl ValueType {
//@fn src/db/db_format.rs | impl ValueType | get_value
//@ret res
//@spec
    ensures res == code(*self)
//@end
//@fn src/db/db_format.rs | impl TryFrom<i32> for ValueType | try_from
//@sig fn try_from(value: i32) -> (res: core::result::Result<Self, ()>) -- the error's text is not under contract
//@subst? /Err\(String::from\(.*?\)\)\)/ => Err(()) -- the error's text is not under contract
//@subst? /Err\(format!\((?:[^()]|\([^()]*\))*\)(?:\.into\(\))?\)/ => Err(()) -- the error's text is not under contract
//@spec
    ensures value == 0 ==> res == Ok::<ValueType, ()>(ValueType::KTypeDeletion), value == 1 ==> res == Ok::<ValueType, ()>(ValueType::KTypeValue), value != 0 && value != 1 ==> res is Err
//@end
}
//@fn src/db/db_format.rs | - | pack_sequence_and_type
//@ret res
//@subst? /debug_assert!\((.*?)\);/ => if !(\1) { panic_here(); } -- the assertion as the panic it is
//@spec
    requires seq_no <= 0xff_ffff_ffff_ffff
    ensures res == seq_no * 256 + code(v_type)
//@at start
        proof { limits(); packing(seq_no, if code(v_type) == 0 { 0usize } else { 1usize }); }
//@end
impl LookupKey {
    pub open spec fn is(&self, k: Seq<u8>, seq: int) -> bool { self.data@ == lookup_key(k, seq) && self.user_key_start == vlen((k.len() + 8) as u64) }
//@fn src/db/db_format.rs | impl LookupKey | new
//@ret res
//@spec
    requires user_key@.len() < 0xffff_fff8, sequence <= 0xff_ffff_ffff_ffff
    ensures res.is(user_key@, sequence as int)
//@at start
        broadcast use append::append_at_end;
        proof { varint_len((user_key@.len() + 8) as u64); fixed_len((sequence * 256 + 1) as u64, 8); }
//@end
//@fn src/db/db_format.rs | impl LookupKey | mem_table_key
//@ret res
//@spec
    ensures res@ == self.data@
//@end
//@fn src/db/db_format.rs | impl LookupKey | internal_key
//@ret res
//@subst? /&buf\[self\.user_key_start\.\.\]/ => rest(buf, self.user_key_start) -- the range behind its contract
//@subst? /internal_key_buf\.clone\(\)/ => internal_key_buf -- a copy of a reference
//@spec
    requires exists|k: Seq<u8>, seq: int| #[trigger] self.is(k, seq) && k.len() < 0xffff_fff8
    ensures forall|k: Seq<u8>, seq: int| #[trigger] self.is(k, seq) && k.len() < 0xffff_fff8 ==> res@ == k + fixed((seq * 256 + 1) as u64, 8)
//@at start
        proof {
            assert forall|k: Seq<u8>, seq: int| #[trigger] self.is(k, seq) && k.len() < 0xffff_fff8 implies
                self.user_key_start <= self.data@.len() && self.data@.subrange(self.user_key_start as int, self.data@.len() as int) == k + fixed((seq * 256 + 1) as u64, 8) by {
                varint_len((k.len() + 8) as u64);
                assert(self.data@.subrange(self.user_key_start as int, self.data@.len() as int) =~= k + fixed((seq * 256 + 1) as u64, 8));
            }
        }
//@end
}
} // verus!
fn main() {}
