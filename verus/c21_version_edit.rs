use vstd::prelude::*;
verus! {
//@include std_specs.rs
//@assume the conversions String from Slice and Slice from &String keep the bytes (C26)
//@assume InternalKey::as_slice is the key's bytes
//@include coding_common.rs
//@include enc_vec.rs
/// String, by its bytes
pub struct Text { v: Vec<u8> }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub fn text_of(s: Slice) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn slice_of(s: &Text) -> (r: Slice) ensures r@ == s@ { unimplemented!() }
pub struct InternalKey { rep_: Slice }
impl InternalKey {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &Slice) ensures r@ == self@ { unimplemented!() }
}
//@struct src/db/file_meta_data.rs | FileMetaData
impl FileMetaData {
//@fn src/db/file_meta_data.rs | impl FileMetaData | new
//@ret res
//@spec
    ensures res.number == number, res.file_size == file_size, res.smallest == smallest, res.largest == largest, res.refs == refs, res.allowed_seeks == allowed_seeks
//@end
//@fn src/db/file_meta_data.rs | impl FileMetaData | new_with_number_file_size_internal_key
//@ret res
//@spec
    ensures res.number == number, res.file_size == file_size, res.smallest == smallest, res.largest == largest
//@at start
        proof { assert((1i32 << 30) == 0x4000_0000i32) by (bit_vector); }
//@end
//@fn src/db/file_meta_data.rs | impl FileMetaData | get_number
//@ret res
//@spec
    ensures res == self.number
//@end
//@fn src/db/file_meta_data.rs | impl FileMetaData | get_file_size
//@ret res
//@spec
    ensures res == self.file_size
//@end
//@fn src/db/file_meta_data.rs | impl FileMetaData | get_smallest
//@ret res
//@spec
    ensures *res == self.smallest
//@end
//@fn src/db/file_meta_data.rs | impl FileMetaData | get_largest
//@ret res
//@spec
    ensures *res == self.largest
//@end
}
//@struct src/db/version_edit.rs | Tag
/// the tag of a code
pub open spec fn tag_of(v: int) -> Option<Tag> {
    if v == 1 { Some(Tag::k_comparator) } else if v == 2 { Some(Tag::kLogNumber) } else if v == 3 { Some(Tag::kNextFileNumber) } else if v == 4 { Some(Tag::kLastSequence) }
    else if v == 5 { Some(Tag::kCompactPointer) } else if v == 6 { Some(Tag::kDeletedFile) } else if v == 7 { Some(Tag::kNewFile) } else if v == 9 { Some(Tag::kPrevLogNumber) } else { None }
}
impl Tag {
//@fn src/db/version_edit.rs | impl Tag | get_value
//@ret res
//@spec
    ensures tag_of(res as int) == Some(*self), 1 <= res <= 9
//@end
//@fn src/db/version_edit.rs | impl Tag | from_value
//@ret res
//@spec
    ensures res == tag_of(val as int)
//@end
}
//@struct src/db/version_edit.rs | VersionEdit
//@subst /\bString\b/ => Text -- the string by its bytes

/// LevelDB's encoding, field by field, each appended to what is there
pub open spec fn tag(b: Seq<u8>, t: u64) -> Seq<u8> { b + varint(t) }
pub open spec fn prefixed(s: Seq<u8>) -> Seq<u8> { varint(s.len() as u64) + s }
pub open spec fn number(b: Seq<u8>, has: bool, t: u64, n: u64) -> Seq<u8> { if has { b + varint(t) + varint(n) } else { b } }
pub open spec fn pointers(b: Seq<u8>, l: Seq<(u32, InternalKey)>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { b } else { pointers(b, l.drop_last()) + varint(5) + varint(l.last().0 as u64) + prefixed(l.last().1@) }
}
pub open spec fn deleted(b: Seq<u8>, l: Seq<(u32, u64)>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { b } else { deleted(b, l.drop_last()) + varint(6) + varint(l.last().0 as u64) + varint(l.last().1) }
}
pub open spec fn created(b: Seq<u8>, l: Seq<(u32, FileMetaData)>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { b } else {
        created(b, l.drop_last()) + varint(7) + varint(l.last().0 as u64) + varint(l.last().1.number) + varint(l.last().1.file_size)
            + prefixed(l.last().1.smallest@) + prefixed(l.last().1.largest@)
    }
}
pub open spec fn header(e: VersionEdit) -> Seq<u8> {
    let b0 = if e.has_comparator_ { seq![] + varint(1) + prefixed(e.comparator_@) } else { seq![] };
    let b1 = number(b0, e.has_log_number_, 2, e.log_number_);
    let b2 = number(b1, e.has_prev_log_number_, 9, e.prev_log_number_);
    let b3 = number(b2, e.has_next_file_number_, 3, e.next_file_number_);
    number(b3, e.has_last_sequence_, 4, e.last_sequence_)
}
pub open spec fn encoding(e: VersionEdit) -> Seq<u8> {
    created(deleted(pointers(header(e), e.compact_pointers_@), e.deleted_files_@), e.new_files_@)
}
pub open spec fn short(k: InternalKey) -> bool { k@.len() < 0x1_0000_0000 }

impl VersionEdit {
    pub open spec fn blank(&self) -> bool {
        !self.has_comparator_ && !self.has_log_number_ && !self.has_prev_log_number_ && !self.has_next_file_number_ && !self.has_last_sequence_
        && self.deleted_files_@.len() == 0 && self.new_files_@.len() == 0
    }
    /// only the lengths a 32-bit prefix can hold
    pub open spec fn encodable(&self) -> bool {
        self.comparator_@.len() < 0x1_0000_0000
        && (forall|i: int| 0 <= i < self.compact_pointers_@.len() ==> short((#[trigger] self.compact_pointers_@[i]).1))
        && (forall|i: int| 0 <= i < self.new_files_@.len() ==> short((#[trigger] self.new_files_@[i]).1.smallest) && short(self.new_files_@[i].1.largest))
    }
//@fn src/db/version_edit.rs | impl VersionEdit | new
//@ret res
//@subst? /String::new\(\)/ => Text::new() -- the string by its bytes
//@spec
    ensures res.blank(), res.compact_pointers_@.len() == 0
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | new_with_log_number
//@ret res
//@spec
    ensures res.has_log_number_ && res.log_number_ == log_number, (VersionEdit { has_log_number_: false, ..res }).blank(), res.compact_pointers_@.len() == 0
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | new_with_prev_log_number
//@ret res
//@spec
    ensures res.has_prev_log_number_ && res.prev_log_number_ == prev_log_number, (VersionEdit { has_prev_log_number_: false, ..res }).blank(), res.compact_pointers_@.len() == 0
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | clear
//@spec
    ensures final(self).blank(), final(self).compact_pointers_@ == old(self).compact_pointers_@
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | set_comparator_name
//@subst? /name\.into\(\)/ => text_of(name) -- the conversion behind its contract
//@spec
    ensures final(self).comparator_@ == name@, *final(self) == (VersionEdit { has_comparator_: true, comparator_: final(self).comparator_, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | set_log_number
//@spec
    ensures *final(self) == (VersionEdit { has_log_number_: true, log_number_: num, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | set_prev_log_number
//@spec
    ensures *final(self) == (VersionEdit { has_prev_log_number_: true, prev_log_number_: num, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | set_next_file
//@spec
    ensures *final(self) == (VersionEdit { has_next_file_number_: true, next_file_number_: num, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | set_last_sequence
//@spec
    ensures *final(self) == (VersionEdit { has_last_sequence_: true, last_sequence_: seq, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | set_compact_pointer
//@spec
    ensures final(self).compact_pointers_@ == old(self).compact_pointers_@.push((level, key)), *final(self) == (VersionEdit { compact_pointers_: final(self).compact_pointers_, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | add_file
//@spec
    ensures
        ({ let l = final(self).new_files_@; let o = old(self).new_files_@;
           l.len() == o.len() + 1 && l.drop_last() == o && l.last().0 == level && l.last().1.number == file && l.last().1.file_size == file_size
           && l.last().1.smallest == smallest && l.last().1.largest == largest }),
        *final(self) == (VersionEdit { new_files_: final(self).new_files_, ..*old(self) })
//@at end
        proof { assert(self.new_files_@.drop_last() =~= old(self).new_files_@); }
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | delete_file
//@spec
    ensures final(self).deleted_files_@ == old(self).deleted_files_@.push((level, file)), *final(self) == (VersionEdit { deleted_files_: final(self).deleted_files_, ..*old(self) })
//@end
//@fn src/db/version_edit.rs | impl VersionEdit | encode_to
//@ret res
//@subst? /Slice::from\(&self\.comparator_\)/ => slice_of(&self.comparator_) -- the conversion behind its contract
//@subst? /for (\([^()]*\)|\w+) in (?:&(self\.\w+)|(self\.\w+)\.iter\(\)) \{/ => for i in 0..\2\3.len() { let \1 = &\2\3[i]; -- the same elements in the same order
//@subst? /for \((\w+), (\([^()]*\)|\w+)\) in (self\.\w+)\.iter\(\)\.enumerate\(\) \{/ => for i in 0..\3.len() { let \1 = i; let \2 = &\3[i]; -- the same elements in the same order
//@subst? /for (?!i\b)(\w+) in 0\.\.(self\.\w+)\.len\(\) \{/ => for i in 0..\2.len() { let \1 = i; -- the same numbers
//@spec
    requires self.encodable(), old(target)@.len() == 0
    ensures res is Ok, final(target)@ == encoding(*self)
//@at start
        broadcast use append::append_at_end;
        let ghost e0: Seq<u8> = Seq::empty();
        proof { assert(old(target)@ =~= e0); }
//@at before loop 0
        let ghost fv = *final(encoder.v);
        proof { assert((*encoder.v)@ == header(*self)); assert(self.compact_pointers_@.take(0) =~= Seq::empty()); }
//@loop 0
        invariant
            self.encodable(), encoder.off == (*encoder.v)@.len(), *final(encoder.v) == fv,
            (*encoder.v)@ == pointers(header(*self), self.compact_pointers_@.take(i as int)),
//@at loop 0 start
            broadcast use append::append_at_end;
            proof { let l = self.compact_pointers_@; assert(l.take(i + 1).drop_last() =~= l.take(i as int)); assert(l.take(i + 1).last() == l[i as int]); assert(short(l[i as int].1)); }
//@at before loop 1
        let ghost b1 = pointers(header(*self), self.compact_pointers_@);
        proof { assert(self.compact_pointers_@.take(self.compact_pointers_@.len() as int) =~= self.compact_pointers_@); assert(self.deleted_files_@.take(0) =~= Seq::empty()); }
//@loop 1
        invariant
            self.encodable(), encoder.off == (*encoder.v)@.len(), *final(encoder.v) == fv,
            (*encoder.v)@ == deleted(b1, self.deleted_files_@.take(i as int)),
//@at loop 1 start
            broadcast use append::append_at_end;
            proof { let l = self.deleted_files_@; assert(l.take(i + 1).drop_last() =~= l.take(i as int)); assert(l.take(i + 1).last() == l[i as int]); }
//@at before loop 2
        let ghost b2 = deleted(b1, self.deleted_files_@);
        proof { assert(self.deleted_files_@.take(self.deleted_files_@.len() as int) =~= self.deleted_files_@); assert(self.new_files_@.take(0) =~= Seq::empty()); }
//@loop 2
        invariant
            self.encodable(), encoder.off == (*encoder.v)@.len(), *final(encoder.v) == fv,
            (*encoder.v)@ == created(b2, self.new_files_@.take(i as int)),
//@at loop 2 start
            broadcast use append::append_at_end;
            proof { let l = self.new_files_@; assert(l.take(i + 1).drop_last() =~= l.take(i as int)); assert(l.take(i + 1).last() == l[i as int]); assert(short(l[i as int].1.smallest) && short(l[i as int].1.largest)); }
//@at after loop 2
        proof { assert(self.new_files_@.take(self.new_files_@.len() as int) =~= self.new_files_@); }
//@end
}
} // verus!
fn main() {}
