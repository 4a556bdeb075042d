use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume Write::write_all appends exactly the bytes when it succeeds and flush adds none; when they fail nothing is known of the file (standard library contract of the file)
//@assume CRC::extend continues a CRC-32C and CRC::mask is the LevelDB mask: C05, C06
//@assume Encoder::with_buf(..).put_fixed32 writes the little-endian bytes at the front: proved on the real code by the Kani harnesses of C01/C02
//@assume Slice::{len,as_sub_ref} are those of the byte string: C26
//@include log_common.rs

pub struct Status {}
pub type Result<T> = core::result::Result<T, Status>;
pub struct File { f: u8 }
impl File {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).content() == old(self).content() + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>) ensures r is Ok ==> final(self).content() == old(self).content() { unimplemented!() }
}
pub struct Slice { v: Vec<u8> }
impl Slice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_sub_ref(&self, start: usize, len: usize) -> (r: &[u8])
        requires start + len <= self@.len()
        ensures r@ == self@.subrange(start as int, start + len) { unimplemented!() }
}
#[verifier::external_body]
pub fn put_fixed32_front(h: &mut [u8; 7], v: u32) -> (r: Result<()>)
    ensures r is Ok, final(h)@ == le32_bytes(v) + old(h)@.subrange(4, 7) { unimplemented!() }
#[verifier::external_body]
pub fn prefix_of(a: &[u8; 6], n: usize) -> (r: &[u8])
    requires n <= 6
    ensures r@ == a@.subrange(0, n as int) { unimplemented!() }
//@const src/db/log_writer.rs | K_EMPTY_BYTES
pub proof fn padding(n: int)
    requires 0 <= n <= 6
    ensures K_EMPTY_BYTES@.subrange(0, n) == zeros(n)
{
    assert(K_EMPTY_BYTES@.subrange(0, n) =~= zeros(n));
}

//@struct src/db/log_writer.rs | LogWriter
//@subst /Box<dyn Write>/ => File -- the file behind its write contract

impl LogWriter {
    pub open spec fn wf(&self) -> bool {
        self.block_offset <= 32768 && forall|t: int| 0 <= t <= 4 ==> #[trigger] self.type_crc@[t] == crc_of(seq![t as u8])
    }
//@fn src/db/log_writer.rs | impl LogWriter | new
//@ret res
//@subst /Box<dyn Write>/ => File -- the file behind its write contract
//@spec
    ensures res.wf(), res.block_offset == 0, res.file_writer.content() == file_writer.content()
//@end
//@fn src/db/log_writer.rs | impl LogWriter | add_record
//@ret res
//@subst? /assert!\((.*?)\);/ => assert(\1); -- run-time assertion becomes an obligation
//@subst? /&K_EMPTY_BYTES\[0\.\.left_over\]/ => prefix_of(&K_EMPTY_BYTES, left_over) -- the prefix of that length of the constant, behind the contract of slice indexing
//@spec
    requires old(self).wf()
    ensures final(self).wf(), res is Ok ==> final(self).file_writer.content() == old(self).file_writer.content() + encoded(old(self).block_offset as int, slice@, true)
        && final(self).block_offset == offset_after(old(self).block_offset as int, slice@)
//@at before loop 0
        let ghost off0 = self.block_offset as int;
        let ghost c0 = self.file_writer.content();
        proof { assert(slice@.subrange(0, slice@.len() as int) =~= slice@); }
//@guard 0 begin || left > 0
//@loop 0
        invariant
            self.wf(), off0 == old(self).block_offset, c0 == old(self).file_writer.content(), 0 <= off0 <= 32768,
            left + start_idx == slice@.len(), slice@.len() <= usize::MAX,
            begin ==> left == slice@.len(),
            slice@.subrange(0, slice@.len() as int) == slice@,
            (begin || left > 0) ==> c0 + encoded(off0, slice@, true) == self.file_writer.content() + encoded(self.block_offset as int, slice@.subrange(start_idx as int, slice@.len() as int), begin),
            (begin || left > 0) ==> offset_after(off0, slice@) == offset_after(self.block_offset as int, slice@.subrange(start_idx as int, slice@.len() as int)),
            (!begin && left == 0) ==> c0 + encoded(off0, slice@, true) == self.file_writer.content() && offset_after(off0, slice@) == self.block_offset,
        ensures !begin && left == 0
        decreases left, (if begin { 1int } else { 0int }), 32768 - self.block_offset
//@at loop 0 start
            let ghost cb = self.file_writer.content();
            let ghost ob = self.block_offset as int;
            let ghost rest = slice@.subrange(start_idx as int, slice@.len() as int);
            let ghost bb = begin;
            proof { if 0 < 32768 - ob < 7 { padding(32768 - ob); } }
//@at loop 0 exits
            proof {
                unfold(ob, rest, bb);
                let n = take(ob, rest.len() as int);
                assert(fragment_length == n);
                assert(slice@.subrange(start_idx - n, start_idx as int) =~= rest.subrange(0, n));
                assert(slice@.subrange(start_idx as int, slice@.len() as int) =~= rest.subrange(n, rest.len() as int));
                let f = fragment(kind(bb, end), rest.subrange(0, n));
                assert(self.file_writer.content() =~= cb + (pad(ob) + f));
                let tail = encoded(self.block_offset as int, rest.subrange(n, rest.len() as int), false);
                assert(cb + ((pad(ob) + f) + tail) =~= (cb + (pad(ob) + f)) + tail);
            }
//@end
//@fn src/db/log_writer.rs | impl LogWriter | emit_physical_record
//@ret res
//@subst? /Encoder::with_buf\(&mut header\)\.put_fixed32\((\w+)\)/ => put_fixed32_front(&mut header, \1) -- encoder over the header array, behind its contract
//@subst? /header\.as_ref\(\)/ => header.as_slice() -- the same bytes
//@spec
    requires old(self).wf(), record_type <= 4, old(self).block_offset + 7 + data@.len() <= 32768
    ensures final(self).wf(), res is Ok ==> final(self).file_writer.content() == old(self).file_writer.content() + fragment(record_type, data@)
        && final(self).block_offset == old(self).block_offset + 7 + data@.len()
//@at before /self\.file_writer\.write_all\(header/
        proof {
            let n = data@.len() as usize;
            assert((n & 0xff) as u8 == n % 256 && n >> 8 == n / 256) by (bit_vector);
            reveal(fragment);
            assert(header@ =~= le32_bytes(mask_of(crc_of(seq![record_type] + data@))) + seq![(data@.len() % 256) as u8, (data@.len() / 256) as u8, record_type]);
        }
//@at end
//@end
}
//@fn src/db/log_writer.rs | - | init_type_crc
//@sig fn init_type_crc(type_crc: &mut [u32; 5]) -- the slice parameter is the five-element table it is called with
//@subst? /0\.\.=K_MAX_RECORD_TYPE/ => 0..K_MAX_RECORD_TYPE + 1 -- the same range
//@spec
    ensures forall|t: int| 0 <= t <= 4 ==> #[trigger] final(type_crc)@[t] == crc_of(seq![t as u8])
//@loop 0
        invariant forall|t: int| 0 <= t < i ==> #[trigger] type_crc@[t] == crc_of(seq![t as u8])
//@at loop 0 end
        proof { assert forall|a: [u8; 1]| #![trigger a@] a@ =~= seq![a[0]] by {}; }
//@end

/// the written log: adding records one after another appends exactly log_of
pub proof fn log_grows(off: int, rs: Seq<Seq<u8>>, d: Seq<u8>)
    requires 0 <= off <= 32768
    ensures log_of(off, rs.push(d)) == log_of(off, rs) + encoded(fold_off(off, rs), d, true), fold_off(off, rs.push(d)) == offset_after(fold_off(off, rs), d)
    decreases rs.len()
{
    if rs.len() == 0 {
        assert(rs.push(d).drop_first() =~= rs);
        assert(log_of(offset_after(off, d), rs) =~= seq![]);
        assert(log_of(off, rs.push(d)) =~= encoded(off, d, true));
        assert(fold_off(offset_after(off, d), rs.push(d).drop_first()) == offset_after(off, d));
    } else {
        assert(rs.push(d).drop_first() =~= rs.drop_first().push(d));
        off_range(off, rs[0]);
        log_grows(offset_after(off, rs[0]), rs.drop_first(), d);
        assert(log_of(off, rs.push(d)) =~= log_of(off, rs) + encoded(fold_off(off, rs), d, true));
    }
}
pub open spec fn fold_off(off: int, rs: Seq<Seq<u8>>) -> int decreases rs.len() {
    if rs.len() == 0 { off } else { fold_off(offset_after(off, rs[0]), rs.drop_first()) }
}
pub proof fn off_range(off: int, d: Seq<u8>)
    requires 0 <= off <= 32768
    ensures 7 <= offset_after(off, d) <= 32768
    decreases d.len(), 32768 - off
{
    unfold(off, d, true);
    let n = take(off, d.len() as int);
    if n != d.len() { off_range(start_of(off) + 7 + n, d.subrange(n, d.len() as int)); }
}
/// no fragment crosses a block boundary: the offset in the block tracks the file length
pub proof fn tracks_blocks(off: int, d: Seq<u8>, begin: bool)
    requires 0 <= off <= 32768
    ensures (off + encoded(off, d, begin).len()) % 32768 == offset_after(off, d) % 32768
    decreases d.len(), 32768 - off
{
    unfold(off, d, begin);
    reveal(fragment);
    let n = take(off, d.len() as int);
    if n != d.len() { tracks_blocks(start_of(off) + 7 + n, d.subrange(n, d.len() as int), false); }
}
} // verus!
fn main() {}
