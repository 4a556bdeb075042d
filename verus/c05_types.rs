use vstd::prelude::*;
use std::mem::size_of;
use std::slice as stds;
verus! {
//@include std_specs.rs
//@assume core::slice::from_raw_parts(p, n) on a pointer to a value's bytes is the first n of them; a slice of T occupies size_of::<T>() * len bytes, at most isize::MAX, and a slice of u8 is its own bytes
//@assume Slice::{to_vec, as_ref} and String/str::as_bytes give the value's bytes (Slice is a Vec<u8>; C26)
//@assume CRC::extend by its contract, proved in unit c05_crc

global size_of usize == 8;

/// extending checksum c by the bytes d
pub uninterp spec fn crc_extend(c: u32, d: Seq<u8>) -> u32;

/// the UTF-8 form of a text
pub uninterp spec fn text_bytes(s: Seq<char>) -> Seq<u8>;

/// the memory behind a slice, and how much of it there is
pub uninterp spec fn raw_bytes<T>(s: Seq<T>) -> Seq<u8>;
pub axiom fn raw_u8(s: Seq<u8>) ensures raw_bytes(s) == s;
#[verifier::external_body]
pub struct Mem { p: *const u8 }
impl Mem { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn mem_of<T>(s: &[T]) -> (r: Mem)
    ensures r.bytes() == raw_bytes(s@), r.bytes().len() == vstd::layout::size_of::<T>() * s@.len(), r.bytes().len() <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub unsafe fn raw_parts<'a>(p: Mem, n: usize) -> (r: &'a [u8])
    requires n <= p.bytes().len()
    ensures r@ == p.bytes().subrange(0, n as int) { unimplemented!() }

pub struct CRC {}
impl CRC {
    #[verifier::external_body]
    pub fn extend(crc: u32, data: &[u8]) -> (r: u32) ensures r == crc_extend(crc, data@) { unimplemented!() }
//@fn src/util/crc.rs | impl CRC | value
//@ret r
//@spec
    ensures r == crc_extend(0, data@)
//@end
}
#[verifier::external_body]
pub struct Slice { data: Vec<u8> }
impl Slice {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == text_bytes(s@) { unimplemented!() }

pub trait AsCrc {
    spec fn cb(&self) -> Seq<u8>;
    /// the default method of the trait, one copy for every implementor
//@fn src/util/crc.rs | trait AsCrc | as_crc
//@trait
//@ret r
//@spec
        ensures r == crc_extend(0, self.cb())
//@end
    fn as_crc_extend(&self, crc: u32) -> (r: u32)
        ensures r == crc_extend(crc, self.cb());
}
impl<T: Sized> AsCrc for &[T] {
    open spec fn cb(&self) -> Seq<u8> { raw_bytes(self@) }
//@fn src/util/crc.rs | impl<T: Sized> AsCrc for &[T] | as_crc_extend
//@trait
//@subst /self\.as_ptr\(\)( as \*const \w+)*/ => mem_of(*self) -- the address of the elements, as the bytes found there
//@subst /slice::from_raw_parts\(/ => raw_parts( -- the standard function behind its contract
//@at start
        proof { assert(raw_bytes(self@).subrange(0, raw_bytes(self@).len() as int) =~= raw_bytes(self@)); }
//@end
}
impl AsCrc for [u8] {
    open spec fn cb(&self) -> Seq<u8> { self@ }
//@fn src/util/crc.rs | impl AsCrc for [u8] | as_crc_extend
//@trait
//@end
}
impl AsCrc for &str {
    open spec fn cb(&self) -> Seq<u8> { text_bytes(self@) }
//@fn src/util/crc.rs | impl AsCrc for &str | as_crc_extend
//@trait
//@subst? /self\.as_bytes\(\)/ => str_bytes(self) -- the standard function behind its contract
//@end
}
impl AsCrc for Slice {
    open spec fn cb(&self) -> Seq<u8> { self.bytes() }
//@fn src/util/crc.rs | impl AsCrc for Slice | as_crc_extend
//@trait
//@subst? /&\*\*self/ => self.deref() -- deref of the slice, behind its contract
//@end
}
impl<T: Sized> AsCrc for Vec<T> {
    open spec fn cb(&self) -> Seq<u8> { raw_bytes(self@) }
//@fn src/util/crc.rs | impl<T: Sized> AsCrc for Vec<T> | as_crc_extend
//@trait
//@end
}
impl AsCrc for String {
    open spec fn cb(&self) -> Seq<u8> { text_bytes(self@) }
//@fn src/util/crc.rs | impl AsCrc for String | as_crc_extend
//@trait
//@subst? /self\.as_bytes\(\)/ => str_bytes(self.as_str()) -- the standard function behind its contract
//@end
}
} // verus!
fn main() {}
