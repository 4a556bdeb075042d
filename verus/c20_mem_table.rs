use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume keys and values are shorter than 2^32 - 8 bytes (the length prefixes are 32-bit)
//@assume AsRef<[u8]> gives the same bytes each time
//@assume UnsafeSlice::new_with_arena copies the bytes (C27); SkipList::insert adds the key to the set (C15)
//@include coding_common.rs
//@include enc_buf.rs
#[verifier::external_body]
pub fn varint_length(value: u64) -> (r: usize) ensures r == vlen(value) { unimplemented!() }
#[verifier::external_body]
pub proof fn slice_fits(b: &[u8]) ensures b@.len() <= isize::MAX {}
//@struct src/db/db_format.rs | ValueType
use ValueType::*;
pub open spec fn code(t: ValueType) -> int { match t { ValueType::KTypeDeletion => 0, ValueType::KTypeValue => 1 } }
impl ValueType {
//@fn src/db/db_format.rs | impl ValueType | get_value
//@ret res
//@spec
    ensures res == code(*self)
//@end
}
/// anything that is bytes
pub struct Bytes { v: Vec<u8> }
impl Bytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
pub struct ArenaRef { a: u8 }
impl ArenaRef {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ArenaRef) { unimplemented!() }
}
pub struct UnsafeSlice { p: u8 }
impl UnsafeSlice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_with_arena(data: Vec<u8>, arena: ArenaRef) -> (r: Result<UnsafeSlice>) ensures r is Ok ==> (r->Ok_0)@ == data@ { unimplemented!() }
}
pub struct SkipList { p: u8 }
impl SkipList {
    pub uninterp spec fn entries(&self) -> Set<Seq<u8>>;
    #[verifier::external_body]
    pub fn insert(&mut self, key: UnsafeSlice) -> (r: Result<()>) ensures r is Ok ==> final(self).entries() == old(self).entries().insert(key@), r is Err ==> final(self).entries() == old(self).entries() { unimplemented!() }
}
pub struct MemTable { pub list: SkipList, pub arena: ArenaRef }
/// length-prefixed internal key, length-prefixed value
pub open spec fn entry(seq: int, t: ValueType, k: Seq<u8>, v: Seq<u8>) -> Seq<u8> {
    varint((k.len() + 8) as u64) + k + fixed((seq * 256 + code(t)) as u64, 8) + varint(v.len() as u64) + v
}
proof fn packing(s: usize, v: usize)
    requires s <= 0xff_ffff_ffff_ffff, v <= 1
    ensures ((s << 8) | v) == s * 256 + v
{
    assert(((s << 8usize) | v) == s * 256 + v) by (bit_vector) requires s <= 0xff_ffff_ffff_ffff, v <= 1;
}
/// what a buffer holds after its first p bytes were written as d
pub open spec fn so_far(b: Seq<u8>, d: Seq<u8>, n: int) -> bool { d.len() <= b.len() && b.len() == n && b.subrange(0, d.len() as int) == d }
pub mod ax { use super::*;
pub broadcast proof fn next_write(b: Seq<u8>, p: int, w: Seq<u8>)
    requires 0 <= p, p + w.len() <= b.len()
    ensures (#[trigger] written(b, p, w)).len() == b.len(), written(b, p, w).subrange(0, p + w.len()) == b.subrange(0, p) + w
{ assert(written(b, p, w).subrange(0, p + w.len()) =~= b.subrange(0, p) + w); }
}
impl MemTable {
//@fn src/db/mem_table.rs | impl<Cmp: Comparator> MemTable<Cmp> | add
//@sig fn add(&mut self, seq_no: usize, v_type: ValueType, key: &Bytes, value: &Bytes) -> (res: Result<()>) -- key and value as the bytes AsRef gives
//@subst? /UnsafeSlice::new_with_arena\(buf, self\.arena\.clone\(\)\)\?/ => match UnsafeSlice::new_with_arena(buf, self.arena.clone()) { Ok(s) => s, Err(e) => return Err(e) } -- the ? operator spelled out
//@spec
    requires seq_no <= 0xff_ffff_ffff_ffff, key@.len() < 0xffff_fff8, value@.len() < 0xffff_ffff
    ensures
        res is Ok ==> final(self).list.entries() == old(self).list.entries().insert(entry(seq_no as int, v_type, key@, value@)),
        res is Err ==> final(self).list.entries() == old(self).list.entries(),
//@at start
        broadcast use ax::next_write;
        let ghost e = entry(seq_no as int, v_type, key@, value@);
        proof {
            packing(seq_no, if code(v_type) == 0 { 0usize } else { 1usize });
            varint_len((key@.len() + 8) as u64); varint_len(value@.len() as u64); fixed_len((seq_no * 256 + code(v_type)) as u64, 8);
        }
//@at before /self\.list\.insert\(/
        proof { assert(buf@ =~= buf@.subrange(0, buf@.len() as int)); assert(buf@ =~= e); }
//@end
}
} // verus!
fn main() {}
