use vstd::prelude::*;
use std::mem::size_of;
use std::slice as stds;
verus! {
//@include std_specs.rs
//@assume core::slice::from_raw_parts(p, n) on a pointer to a value's bytes is the first n of them; a slice of T occupies size_of::<T>() * len bytes, at most isize::MAX, and a slice of u8 is its own bytes
//@assume Slice::{to_vec, as_ref} and String/str::as_bytes give the value's bytes (Slice is a Vec<u8>; C26)
//@assume Hash::hash_code by its contract, proved in unit c07_hash

global size_of usize == 8;

pub uninterp spec fn leveldb_hash(d: Seq<u8>, seed: u32) -> u32;

//@const src/util/const.rs | HASH_DEFAULT_SEED

/// the UTF-8 form of a text
pub uninterp spec fn text_bytes(s: Seq<char>) -> Seq<u8>;

/// the memory behind a slice, and how much of it there is
pub uninterp spec fn raw_bytes<T>(s: Seq<T>) -> Seq<u8>;
pub axiom fn raw_u8(s: Seq<u8>) ensures raw_bytes(s) == s;
#[verifier::external_body]
pub struct Mem { p: *const u8 }
impl Mem { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn mem_of<T>(s: &[T]) -> (r: Mem)
    ensures r.bytes() == raw_bytes(s@), r.bytes().len() == vstd::layout::size_of::<T>() * s@.len(), r.bytes().len() <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub unsafe fn raw_parts<'a>(p: Mem, n: usize) -> (r: &'a [u8])
    requires n <= p.bytes().len()
    ensures r@ == p.bytes().subrange(0, n as int) { unimplemented!() }

pub struct Hash {}
impl Hash {
    #[verifier::external_body]
    pub fn hash_code(data: &[u8], seed: u32) -> (r: u32) requires data@.len() < 0x1_0000_0000 ensures r == leveldb_hash(data@, seed) { unimplemented!() }
}
#[verifier::external_body]
pub struct Slice { data: Vec<u8> }
impl Slice {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: &[u8]) ensures r@ == text_bytes(s@) { unimplemented!() }

pub trait ToHash {
    spec fn hb(&self) -> Seq<u8>;
    fn to_hash(&self) -> (r: u32)
        requires self.hb().len() < 0x1_0000_0000
        ensures r == leveldb_hash(self.hb(), 0xbc9f1d34u32);
    fn to_hash_with_seed(&self, seed: u32) -> (r: u32)
        requires self.hb().len() < 0x1_0000_0000
        ensures r == leveldb_hash(self.hb(), seed);
}

impl<T: Sized> ToHash for Vec<T> {
    open spec fn hb(&self) -> Seq<u8> { raw_bytes(self@) }
//@fn src/util/hash.rs | impl<T: Sized> ToHash for Vec<T> | to_hash
//@trait
//@end
//@fn src/util/hash.rs | impl<T: Sized> ToHash for Vec<T> | to_hash_with_seed
//@trait
//@end
}
impl<T: Sized> ToHash for &[T] {
    open spec fn hb(&self) -> Seq<u8> { raw_bytes(self@) }
//@fn src/util/hash.rs | impl<T: Sized> ToHash for &[T] | to_hash
//@trait
//@end
//@fn src/util/hash.rs | impl<T: Sized> ToHash for &[T] | to_hash_with_seed
//@trait
//@subst /self\.as_ptr\(\)( as \*const \w+)*/ => mem_of(*self) -- the address of the elements, as the bytes found there
//@subst /stds::from_raw_parts\(/ => raw_parts( -- the standard function behind its contract
//@at start
        proof { assert(raw_bytes(self@).subrange(0, raw_bytes(self@).len() as int) =~= raw_bytes(self@)); }
//@end
}
impl ToHash for &str {
    open spec fn hb(&self) -> Seq<u8> { text_bytes(self@) }
//@fn src/util/hash.rs | impl ToHash for &str | to_hash
//@trait
//@end
//@fn src/util/hash.rs | impl ToHash for &str | to_hash_with_seed
//@trait
//@subst? /self\.as_bytes\(\)/ => str_bytes(self) -- the standard function behind its contract
//@end
}
impl ToHash for Slice {
    open spec fn hb(&self) -> Seq<u8> { self.bytes() }
//@fn src/util/hash.rs | impl ToHash for Slice | to_hash
//@trait
//@end
//@fn src/util/hash.rs | impl ToHash for Slice | to_hash_with_seed
//@trait
//@end
}
impl ToHash for String {
    open spec fn hb(&self) -> Seq<u8> { text_bytes(self@) }
//@fn src/util/hash.rs | impl ToHash for String | to_hash
//@trait
//@end
//@fn src/util/hash.rs | impl ToHash for String | to_hash_with_seed
//@trait
//@subst? /self\.as_bytes\(\)/ => str_bytes(self.as_str()) -- the standard function behind its contract
//@end
}

/// the hash that bloom filters use
pub struct BloomFilterPolicy {}
impl BloomFilterPolicy {
//@fn src/util/filter_policy_bloom.rs | impl<'a> BloomFilterPolicy | bloom_hash
//@ret r
//@spec
    requires key.bytes().len() < 0x1_0000_0000
    ensures r == leveldb_hash(key.bytes(), 0xbc9f1d34u32)
//@end
}
impl Slice {
//@fn src/util/filter_policy.rs | impl AsBloomHash for Slice | bloom_hash
//@ret r
//@spec
    requires self.bytes().len() < 0x1_0000_0000
    ensures r == leveldb_hash(self.bytes(), 0xbc9f1d34u32)
//@end
}
} // verus!
fn main() {}
