//! C11, C27: the arena and the slices it backs.
use crate::k::*;
use level_db_rust::util::arena::{Arena, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use std::sync::{Arc, Mutex};

fn disjoint(p: usize, n: usize, q: usize, m: usize) -> bool {
    n == 0 || m == 0 || p + n <= q || q + m <= p
}

/// One request, of any size, from every state an arena can be in. What the code
/// reads of the state is the free part of the current block: none, or any 0..=4096
/// bytes of a block of 4096 (other blocks are only listed, for the release). Two requests
/// (n1 <= 1024, then n2 in what is left) reach every such state; the last assertions of
/// each step say that a request leaves such a state again, so the steps are an induction
/// over histories of any length.
#[cfg(verif_inspect)]
mod step {
    use super::*;
    pub struct St {
        pub a: Arena,
        pub one: bool,
        pub ptr: usize,
        pub rem: usize,
        pub count: usize,
        pub usage: usize,
        /// an earlier region and a byte of it
        pub old: *mut u8,
        pub old_n: usize,
        pub at: usize,
        pub w: u8,
    }
    pub fn state(one: bool) -> St {
        let mut a = Arena::default();
        let (n1, n2): (usize, usize) = (kani::any(), kani::any());
        let (mut old, mut old_n) = (core::ptr::null_mut::<u8>(), 0usize);
        let two: bool = kani::any();
        kani::assume(one || !two);
        if one {
            kani::assume(n1 <= 1024);
            let r = a.allocate(n1);
            assert!(r.len() == n1, "length");
            old = r.as_mut_ptr();
            old_n = n1;
            if two {
                kani::assume(n2 <= 4096 - n1);
                let r = a.allocate(n2);
                assert!(r.len() == n2, "length");
                if kani::any() {
                    old = r.as_mut_ptr();
                    old_n = n2;
                }
            }
        }
        let (ptr, rem) = a.verif_bump();
        assert!(ptr.is_some() == one, "a current block once there was a small request");
        assert!(rem == if one { 4096 - n1 - if two { n2 } else { 0 } } else { 0 }, "what is left of the current block");
        let (count, usage) = (a.verif_block_count(), a.memory_usage());
        assert!(count == one as usize, "blocks taken");
        assert!(usage == if one { 4096 } else { 0 }, "memory usage is the sum of the blocks");
        let at: usize = kani::any();
        let w: u8 = kani::any();
        if old_n > 0 {
            kani::assume(at < old_n);
            unsafe { *old.add(at) = w };
        }
        St { a, one, ptr: ptr.map_or(0, |p| p as usize), rem, count, usage, old, old_n, at, w }
    }
    /// the request; one arbitrary byte of its region is written
    pub fn request(s: &mut St, n: usize, align: usize) -> usize {
        let p = {
            let r = s.a.allocate_align(n, align);
            assert!(r.len() == n, "a region of the requested length");
            if n > 0 {
                let i: usize = kani::any();
                kani::assume(i < n);
                r[i] = !s.w;
            }
            r.as_mut_ptr() as usize
        };
        if s.old_n > 0 {
            assert!(unsafe { *s.old.add(s.at) } == s.w, "earlier regions keep their contents");
            assert!(disjoint(p, n, s.old as usize, s.old_n), "regions do not overlap");
        }
        p
    }
    pub fn any_align() -> usize {
        let k: u32 = kani::any();
        kani::assume(k <= 12);
        1usize << k
    }
}
/// the request fits in what is left of the current block
#[cfg(verif_inspect)]
#[kani::proof]
#[kani::unwind(2)]
fn c11_p_step_fits() {
    let mut s = step::state(true);
    let n: usize = kani::any();
    kani::assume(n <= s.rem);
    let p = step::request(&mut s, n, 1);
    let (q, rem) = s.a.verif_bump();
    let q = q.unwrap() as usize;
    assert!(s.a.verif_block_count() == s.count && s.a.memory_usage() == s.usage, "no new block for what fits");
    assert!(p >= s.ptr && p + n <= s.ptr + s.rem, "inside the free part of the current block");
    assert!(rem == s.rem - n, "what is left");
    assert!(q >= s.ptr && q + rem <= s.ptr + s.rem, "the free part stays inside the block");
    assert!(disjoint(q, rem, p, n), "the region is no longer free");
    kani::cover!(n == s.rem && n > 0);
    kani::cover!(n == 0 && s.rem == 0);
    core::mem::forget(s);
}
/// it does not fit, or there is no block yet, and is at most 1024 bytes
#[cfg(verif_inspect)]
#[kani::proof]
#[kani::unwind(2)]
fn c11_p_step_new_block() {
    let one: bool = kani::any();
    let mut s = step::state(one);
    let n: usize = kani::any();
    kani::assume(n <= 1024 && (!one || n > s.rem));
    let align = step::any_align();
    let p = step::request(&mut s, n, align);
    let (q, rem) = s.a.verif_bump();
    assert!(q.is_some(), "a current block");
    let q = q.unwrap() as usize;
    assert!(s.a.verif_block_count() == s.count + 1, "one new block");
    let (b, size, al) = s.a.verif_block(s.count);
    let b = b as usize;
    assert!(size == 4096 && s.a.memory_usage() == s.usage + 4096, "a block of 4096 bytes, and accounted");
    assert!(al % align == 0 && (p - b) % align == 0, "aligned as requested");
    assert!(p >= b && p + n <= b + 4096, "inside the new block");
    assert!(rem == 4096 - n && q >= b && q + rem <= b + 4096, "the rest of the block is free");
    assert!(disjoint(q, rem, p, n), "the region is not free");
    kani::cover!(n == 1024 && one);
    kani::cover!(n == 0 && !one);
    core::mem::forget(s);
}
/// it does not fit, or there is no block yet, and is more than 1024 bytes
#[cfg(verif_inspect)]
#[kani::proof]
#[kani::unwind(2)]
fn c11_p_step_own_block() {
    let one: bool = kani::any();
    let mut s = step::state(one);
    let n: usize = kani::any();
    kani::assume(n > 1024 && n <= MAXN && (!one || n > s.rem));
    let align = step::any_align();
    let p = step::request(&mut s, n, align);
    let (q, rem) = s.a.verif_bump();
    assert!(s.a.verif_block_count() == s.count + 1, "one new block");
    let (b, size, al) = s.a.verif_block(s.count);
    assert!(size == n && s.a.memory_usage() == s.usage + n, "a block of exactly its own size, and accounted");
    assert!(al % align == 0 && p == b as usize, "the block, aligned as requested, is the region");
    assert!(q.map_or(0, |p| p as usize) == s.ptr && rem == s.rem, "the current block stays in use");
    kani::cover!(n == 1025 && one);
    kani::cover!(n > 4096 && !one);
    core::mem::forget(s);
}

/// what a user sees of it, without looking inside: three requests of any sizes
/// (bounded: three), and the release of all blocks
#[kani::proof]
#[kani::unwind(5)]
fn c11_b_three_requests() {
    let mut a = Arena::default();
    let n: [usize; 3] = kani::any();
    kani::assume(n[0] <= MAXN && n[1] <= MAXN && n[2] <= MAXN);
    let (mut usage, mut left, mut block) = (0usize, 0usize, false);
    let mut p = [0usize; 3];
    let mut k = 0;
    while k < 3 {
        let r = a.allocate(n[k]);
        assert!(r.len() == n[k], "length");
        p[k] = r.as_ptr() as usize;
        if n[k] > 0 {
            r[n[k] - 1] = k as u8;
            r[0] = k as u8;
        }
        if block && n[k] <= left {
            left -= n[k];
        } else if n[k] <= 1024 {
            usage += 4096;
            left = 4096 - n[k];
            block = true;
        } else {
            usage += n[k];
        }
        assert!(a.memory_usage() == usage, "memory usage");
        k += 1;
    }
    assert!(disjoint(p[0], n[0], p[1], n[1]) && disjoint(p[0], n[0], p[2], n[2]) && disjoint(p[1], n[1], p[2], n[2]), "regions do not overlap");
    k = 0;
    while k < 3 {
        if n[k] > 0 {
            assert!(unsafe { *(p[k] as *const u8) } == k as u8, "contents kept");
        }
        k += 1;
    }
    drop(a);
    kani::cover!(n[0] == 4096 && n[1] == 1 && n[2] == 4095);
}

// ---- C27
// The arena behind its contract (C11): a region of the length asked for, which overlaps
// nothing and keeps its contents.
static mut ASKED: usize = 7_778_001;
fn allocate_contract<'a>(_a: &'a mut Arena, bytes: usize) -> &'a mut [u8] {
    unsafe { ASKED = bytes };
    let mut v = core::mem::ManuallyDrop::new(vec_of(bytes));
    unsafe { core::slice::from_raw_parts_mut(v.as_mut_ptr(), bytes) }
}
fn arena() -> ArenaRef {
    Arc::new(Mutex::new(Arena::default()))
}
/// a slice of any bytes holds them
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(level_db_rust::util::arena::Arena::allocate, allocate_contract)]
fn c27_p_create() {
    let ar = arena();
    let v = any_vec();
    let u = UnsafeSlice::new_with_arena(&v[..], ar.clone());
    assert!(u.is_ok(), "created");
    let u = u.unwrap();
    assert!(u.len() == v.len() && u.as_ref().len() == v.len(), "length");
    assert!(unsafe { ASKED } == v.len(), "takes as many bytes of the arena");
    let i: usize = kani::any();
    if i < v.len() {
        assert!(u.as_ref()[i] == v[i], "byte");
        assert!(u.as_str().len() == v.len() && u.as_str().as_bytes()[i] == v[i], "as text");
    }
    assert!(v.len() == 0 || u.as_ref().as_ptr() != v.as_ptr(), "a copy");
    kani::cover!(v.len() > 5000);
    kani::cover!(v.len() == 0);
    core::mem::forget(ar);
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(level_db_rust::util::arena::Arena::allocate, allocate_contract)]
fn c27_p_from_text() {
    let ar = arena();
    let v = any_vec();
    let t = unsafe { core::str::from_utf8_unchecked(&v) };
    let string: bool = kani::any();
    let u = if string { unsafe { String::from_utf8_unchecked(v.clone()) }.try_into_unsafe_slice(ar.clone()) } else { t.try_into_unsafe_slice(ar.clone()) };
    let u = u.unwrap();
    assert!(u.len() == v.len(), "length");
    let i: usize = kani::any();
    if i < v.len() {
        assert!(u.as_ref()[i] == v[i], "byte");
    }
    kani::cover!(v.len() > 5000 && string);
    core::mem::forget(ar);
}
/// a slice over the given bytes
fn over(v: &[u8]) -> UnsafeSlice {
    let ar = arena();
    let u = UnsafeSlice::new_with_arena(v, ar.clone()).unwrap();
    core::mem::forget(ar);
    u
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(level_db_rust::util::arena::Arena::allocate, allocate_contract)]
fn c27_p_sub_slice() {
    let u = over(&any_vec());
    let (a, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(a <= u.len() && n <= u.len() - a);
    let s = unsafe { u.sub_slice(a, n) };
    assert!(s.len() == n && s.as_ref().len() == n, "length");
    assert!(s.as_ref().as_ptr() as usize == u.as_ref().as_ptr() as usize + a, "that part of the data");
    kani::cover!(a == u.len() && n == 0 && a > 0);
    kani::cover!(n > 5000);
}
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(level_db_rust::util::arena::Arena::allocate, allocate_contract)]
fn c27_p_to_slice() {
    let u = over(&any_vec());
    let c = u.to_slice();
    assert!(c.size() == u.len(), "length of the copy");
    let i: usize = kani::any();
    if i < u.len() {
        assert!(c.as_ref()[i] == u.as_ref()[i], "byte of the copy");
    }
    assert!(u.len() == 0 || c.as_ref().as_ptr() != u.as_ref().as_ptr(), "a copy");
    kani::cover!(u.len() > 5000);
}
/// Slice::copy_with_arena: an equal slice, of its own memory
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(level_db_rust::util::arena::Arena::allocate, allocate_contract)]
fn c27_p_copy_with_arena() {
    use level_db_rust::util::arena::ArenaAllocLike;
    let ar = arena();
    let s = Slice::from_vec(any_vec());
    let c = s.copy_with_arena(ar.clone());
    assert!(c.size() == s.size(), "length of the copy");
    let i: usize = kani::any();
    if i < s.size() {
        assert!(c.as_ref()[i] == s.as_ref()[i], "byte of the copy");
    }
    assert!(s.size() == 0 || c.as_ref().as_ptr() != s.as_ref().as_ptr(), "a copy");
    kani::cover!(s.size() > 5000);
    core::mem::forget(ar);
}
fn must_not_return() {
    let p: *const u8 = core::ptr::null();
    unsafe { core::ptr::read_volatile(p) };
}
#[kani::proof]
#[kani::should_panic]
#[kani::unwind(2)]
#[kani::stub(level_db_rust::util::arena::Arena::allocate, allocate_contract)]
fn c27_p_out_of_range() {
    let u = over(&any_vec());
    let (a, n): (usize, usize) = (kani::any(), kani::any());
    kani::assume(a > u.len() || n > u.len() - a);
    kani::cover!(a == u.len() && n == 1);
    let _ = unsafe { u.sub_slice(a, n) };
    must_not_return();
}
