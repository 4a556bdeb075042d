use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume Read::read on the log file: when it succeeds it fills a prefix of the buffer with the next bytes of the file, and reports 0 only for an empty buffer or at the end of the file; it may fail, and then nothing is known of the buffer and of the place in the file (standard library contract of the file)
//@assume Seek::seek to an absolute position succeeds and sets it
//@assume as_crc and CRC::extend are CRC-32C and CRC::mask the LevelDB mask, CRC::unmask its inverse: C05, C06
//@assume Decoder::with_buf(..).get_fixed32 reads the little-endian bytes at the front: proved on the real code by the Kani harnesses of C01/C03
//@assume Slice::from_buf and from_vec keep the bytes: C26
//@include log_common.rs
//@include log_parse.rs

pub struct Status {}
pub type Result<T> = core::result::Result<T, Status>;
#[verifier::external_body]
pub fn corruption() -> (r: Status) { unimplemented!() }
pub struct File { f: u8 }
impl File {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    /// an operation on the file has failed
    pub uninterp spec fn failed(&self) -> bool;
    #[verifier::external_body]
    pub fn seek_start(&mut self, p: u64) ensures final(self).content() == old(self).content(), final(self).pos() == p, final(self).failed() == old(self).failed() { unimplemented!() }
}
#[verifier::external_body]
pub fn read_into(f: &mut File, b: &mut [u8; 32768], at: usize) -> (r: Result<usize>)
    requires at <= 32768
    ensures
        r is Ok ==> ({
            let n = r->Ok_0 as int;
            let (c, p) = (old(f).content(), old(f).pos());
            &&& final(f).content() == c && final(f).failed() == old(f).failed() && final(f).pos() == p + n
            &&& n <= 32768 - at && (n > 0 ==> p + n <= c.len())
            &&& (n == 0 ==> at == 32768 || p >= c.len())
            &&& final(b)@.subrange(0, at as int) == old(b)@.subrange(0, at as int)
            &&& n > 0 ==> final(b)@.subrange(at as int, at + n) == c.subrange(p, p + n)
        }),
        r is Err ==> final(f).failed() && final(f).content() == old(f).content(),
{ unimplemented!() }
pub struct Slice { v: Vec<u8> }
impl Slice {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_buf(b: &[u8]) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(b: Vec<u8>) -> (r: Slice) ensures r@ == b@ { unimplemented!() }
}
#[verifier::external_body]
pub fn bytes_of(b: &[u8; 32768], from: usize, to: usize) -> (r: &[u8])
    requires from <= to <= 32768
    ensures r@ == b@.subrange(from as int, to as int) { unimplemented!() }
#[verifier::external_body]
pub fn write_vec(t: &mut Option<Vec<u8>>, d: &[u8]) -> (r: Result<usize>)
    requires *old(t) is Some
    ensures r is Ok, *final(t) is Some, (*final(t))->0@ == (*old(t))->0@ + d@ { unimplemented!() }
pub struct Decoder<'a> { b: &'a [u8] }
impl<'a> Decoder<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn with_buf(b: &'a [u8]) -> (r: Decoder<'a>) ensures r.rest() == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_fixed32(&mut self) -> (r: Result<u32>) ensures old(self).rest().len() >= 4 ==> r is Ok && le32_bytes(r->Ok_0) == old(self).rest().subrange(0, 4), old(self).rest().len() == 4 ==> le32_bytes(r->Ok_0) == old(self).rest() { unimplemented!() }
}
pub open spec fn frags(t: Option<Vec<u8>>) -> Option<Seq<u8>> { match t { Some(v) => Some(v@), None => None } }
/// a 32-bit value is determined by its bytes
pub proof fn le32_unique()
    ensures forall|x: u32, y: u32| #![trigger le32_bytes(x), le32_bytes(y)] le32_bytes(x) == le32_bytes(y) <==> x == y
{
  assert forall|x: u32, y: u32| #![trigger le32_bytes(x), le32_bytes(y)] le32_bytes(x) == le32_bytes(y) <==> x == y by {
    if le32_bytes(x) == le32_bytes(y) {
        assert(le32_bytes(x)[0] == le32_bytes(y)[0] && le32_bytes(x)[1] == le32_bytes(y)[1] && le32_bytes(x)[2] == le32_bytes(y)[2] && le32_bytes(x)[3] == le32_bytes(y)[3]);
        assert(x == y) by (bit_vector)
            requires (x & 0xff) as u8 == (y & 0xff) as u8, ((x >> 8u32) & 0xff) as u8 == ((y >> 8u32) & 0xff) as u8,
                ((x >> 16u32) & 0xff) as u8 == ((y >> 16u32) & 0xff) as u8, ((x >> 24u32) & 0xff) as u8 == ((y >> 24u32) & 0xff) as u8;
    }
  }
}

//@struct src/db/log_reader.rs | LogReader
//@subst /Box<dyn SeekableReader>/ => File -- the file behind its read contract

impl LogReader {
    pub open spec fn base(&self) -> int { self.file_reader.pos() - self.buf_len }
    /// position in the file where reading goes on
    pub open spec fn abs(&self) -> int { self.base() + self.buf_read_idx }
    pub open spec fn c(&self) -> Seq<u8> { self.file_reader.content() }
    pub open spec fn wf(&self) -> bool {
        &&& self.buf_read_idx <= self.buf_len <= 32768
        &&& self.base() >= 0 && self.base() % 32768 == 0
        &&& self.buf_len > 0 ==> self.file_reader.pos() <= self.c().len() && self.buf@.subrange(0, self.buf_len as int) == self.c().subrange(self.base(), self.file_reader.pos())
        &&& self.eof ==> self.file_reader.pos() >= self.c().len() && self.buf_len < 32768
        &&& !self.eof ==> self.buf_len == 32768 || self.buf_len == 0
    }
    /// a read of the file has failed: nothing of it is kept and the log counts as ended
    pub open spec fn dead(&self) -> bool { self.file_reader.failed() && self.eof && self.buf_len == 0 && self.buf_read_idx == 0 }
    /// bytes of the buffer are bytes of the file
    pub proof fn same(&self, i: int, j: int)
        requires self.wf(), 0 <= i <= j <= self.buf_len, self.buf_len > 0
        ensures self.buf@.subrange(i, j) == self.c().subrange(self.base() + i, self.base() + j), i < j ==> self.buf@[i] == self.c()[self.base() + i]
    {
        let b = self.buf@.subrange(0, self.buf_len as int);
        assert forall|k: int| 0 <= k < self.buf_len implies self.buf@[k] == #[trigger] self.c()[self.base() + k] by {
            assert(b[k] == self.c().subrange(self.base(), self.file_reader.pos())[k]);
        }
        assert forall|k: int| 0 <= k < j - i implies self.buf@.subrange(i, j)[k] == self.c().subrange(self.base() + i, self.base() + j)[k] by {
            assert(self.buf@[i + k] == self.c()[self.base() + (i + k)]);
        }
        assert(self.buf@.subrange(i, j) =~= self.c().subrange(self.base() + i, self.base() + j));
        if i < j { assert(self.buf@[i] == self.c()[self.base() + i]); }
    }
    pub proof fn ends(&self)
        requires self.wf()
        ensures
            self.abs() <= self.c().len() || self.buf_len == 0,
            self.buf_read_idx < self.buf_len ==> block_end(self.c(), self.abs()) == self.base() + self.buf_len && (self.eof <==> block_end(self.c(), self.abs()) != next_block(self.abs())),
            self.eof && self.buf_read_idx == self.buf_len ==> block_end(self.c(), self.abs()) <= self.abs() && block_end(self.c(), self.abs()) != next_block(self.abs()),
    {
        let b = self.base();
        assert(b == (b / 32768) * 32768);
        if self.buf_read_idx < 32768 { assert((b + self.buf_read_idx) / 32768 == b / 32768); }
    }
//@fn src/db/log_reader.rs | impl LogReader | new
//@ret res
//@subst /Box<dyn SeekableReader>/ => File -- the file behind its read contract
//@subst /file_reader\.seek\(Start\((\w+) as u64\)\)\.expect\("[^"]*"\)/ => file_reader.seek_start(\1 as u64) -- seeking behind its contract
//@spec
    requires !file_reader.failed(), initial_offset <= 0x7fff_ffff_ffff_ffff
    ensures res.wf(), res.checksum == checksum, res.c() == file_reader.content(), !res.file_reader.failed(),
        initial_offset == 0 ==> res.abs() == 0
//@at start
        assert(initial_offset % 32768 <= initial_offset);
        assert((initial_offset - initial_offset % 32768) % 32768 == 0 && (initial_offset - initial_offset % 32768 + 32768) % 32768 == 0);
//@end
//@fn src/db/log_reader.rs | impl LogReader | read_next
//@ret res
//@subst /Status::wrapper\(LevelError::KCorruption,[^;]*?\.into\(\)\)/ => corruption() -- error value; its message is not under contract
//@subst? /\btmp\.as_mut\(\)\.unwrap\(\)\.write\((\w+)\)/ => write_vec(&mut tmp, \1) -- appending to the vector, behind the contract of Write for Vec
//@subst? /&self\.buf\[([^\[\]]+?)\.\.([^\[\]]+?)\]/ => bytes_of(&self.buf, \1, \2) -- slice of the buffer, behind the contract of slice indexing
//@spec
    requires old(self).dead() || old(self).wf() && !old(self).file_reader.failed()
    ensures
      old(self).dead() ==> res is Ok && res->Ok_0 is None && final(self).dead(),
      !old(self).dead() && final(self).file_reader.failed() ==> res is Err && final(self).dead(),
      !old(self).dead() && !final(self).file_reader.failed() ==> ({
        &&& final(self).wf() && final(self).c() == old(self).c() && final(self).checksum == old(self).checksum
        &&& match parse(old(self).c(), old(self).checksum, old(self).abs(), None) {
            Out::End(p) => res is Ok && res->Ok_0 is None && final(self).abs() == p,
            Out::Rec(d, p) => res is Ok && res->Ok_0 is Some && (res->Ok_0)->0@ == d && final(self).abs() == p,
            Out::Err(p) => res is Err && final(self).abs() == p,
        }
    })
//@at before loop 0
        let ghost c = self.c();
        let ghost check = self.checksum;
        let ghost a0 = self.abs();
//@loop 0
            invariant
                old(self).dead() ==> self.dead(),
                !old(self).dead() ==> self.wf() && !self.file_reader.failed() && self.c() == c && self.checksum == check
                    && parse(c, check, a0, None) == parse(c, check, self.abs(), frags(tmp)),
                c == old(self).c(), check == old(self).checksum, a0 == old(self).abs(),
            decreases (if self.abs() < c.len() { c.len() - self.abs() } else { 0 }), (if self.eof { 0int } else if self.buf_read_idx + 7 > self.buf_len { 1 } else { 0 })
//@at loop 0 start
            let ghost a = self.abs();
            let ghost acc: Option<Seq<u8>> = frags(tmp);
            proof { if !old(self).dead() {
                parse_is(c, check, a, acc);
                self.ends();
                if self.buf_read_idx + 7 <= self.buf_len {
                    self.same(self.buf_read_idx + 4, self.buf_read_idx + 5);
                    self.same(self.buf_read_idx + 5, self.buf_read_idx + 6);
                    self.same(self.buf_read_idx + 6, self.buf_read_idx + 7);
                    let h = self.buf@[self.buf_read_idx + 5];
                    assert((h as usize) << 8 == 256 * (h as usize)) by (bit_vector);
                    assert(forall|l: u8, h: u8| (#[trigger] (l as usize | ((h as usize) << 8))) == l as usize + 256 * (h as usize)) by (bit_vector);
                    let n = c[a + 4] as int + 256 * (c[a + 5] as int);
                    if self.buf_read_idx + 7 + n <= self.buf_len { self.same(self.buf_read_idx + 7, self.buf_read_idx + 7 + n); }
                }
            } }
//@end
//@fn src/db/log_reader.rs | impl LogReader | read_buf
//@ret res
//@subst /self\.file_reader\.read\(&mut self\.buf\[self\.buf_len\.\.\]\)/ => read_into(&mut self.file_reader, &mut self.buf, self.buf_len) -- reading into the rest of the buffer, behind the contract of Read
//@subst? /(?:Status|LevelError)::from\((\w+)\)|\b(e|err|error)\.into\(\)/ => \1\2 -- the error in the form of a status
//@spec
    requires old(self).wf(), !old(self).file_reader.failed(), !old(self).eof
    ensures final(self).file_reader.failed() ==> final(self).dead(), !final(self).file_reader.failed() ==> res is Ok && final(self).wf() && final(self).c() == old(self).c() && final(self).checksum == old(self).checksum
        && final(self).buf_read_idx == 0 && final(self).base() == old(self).file_reader.pos()
        && (final(self).eof || final(self).buf_len == 32768), res is Err <==> final(self).file_reader.failed()
//@loop 0
            invariant
                self.buf_len <= 32768, self.buf_read_idx == 0, !self.file_reader.failed(), self.eof ==> self.file_reader.pos() >= self.c().len() && self.buf_len < 32768,
                self.c() == old(self).c(), self.checksum == old(self).checksum, self.base() == old(self).file_reader.pos(), self.base() >= 0, self.base() % 32768 == 0,
                self.buf_len > 0 ==> self.file_reader.pos() <= self.c().len() && self.buf@.subrange(0, self.buf_len as int) == self.c().subrange(self.base(), self.file_reader.pos()),
            ensures self.eof || self.buf_len == 32768
            decreases 32768 - self.buf_len
//@at loop 0 start
            let ghost s = *self;
//@at loop 0 end
            proof {
                assert(self.buf@.subrange(0, self.buf_len as int) =~= self.buf@.subrange(0, s.buf_len as int) + self.buf@.subrange(s.buf_len as int, self.buf_len as int));
                assert(s.buf@.subrange(0, s.buf_len as int) == self.buf@.subrange(0, s.buf_len as int));
                assert(self.c().subrange(self.base(), self.file_reader.pos()) =~= self.c().subrange(s.base(), s.file_reader.pos()) + self.c().subrange(s.file_reader.pos(), self.file_reader.pos()));
                if s.buf_len == 0 { assert(self.c().subrange(s.base(), s.file_reader.pos()) =~= seq![]); }
            }
//@end
//@fn src/db/log_reader.rs | impl LogReader | check_crc
//@ret res
//@subst? /&self\.buf\[\(([^\[\]]+?)\)\.\.\(([^\[\]]+?)\)\]/ => bytes_of(&self.buf, \1, \2) -- slice of the buffer, behind the contract of slice indexing
//@subst /Status::wrapper\(LevelError::KCorruption,[^;]*?\.into\(\)\)/ => corruption() -- error value; its message is not under contract
//@spec
    requires self.wf(), self.buf_read_idx >= 7, self.buf_read_idx + data_len <= self.buf_len
    ensures res is Ok <==> (!self.checksum || crc_good(self.c(), self.abs() - 7, data_len as int))
//@at start
        proof {
            le32_unique();
            self.same(self.buf_read_idx - 7, self.buf_read_idx - 3);
            self.same(self.buf_read_idx - 1, self.buf_read_idx + data_len);
        }
//@end
}
} // verus!
fn main() {}
