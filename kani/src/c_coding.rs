//! C01 - C04: contracts of Encoder and Decoder for containers of every length,
//! every position, every value; frame stated at one arbitrary index `k`.
use crate::k::*;
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::Result;

#[derive(Clone, Copy, PartialEq)]
enum K { Vec, Buf, Slice }

fn enc_at<'a>(e: Encoder<'a>, off: usize) -> Encoder<'a> {
    #[cfg(verif_inspect)]
    { e.verif_at(off) }
    #[cfg(not(verif_inspect))]
    { let mut e = e; let keep = vec_of(off); unsafe { e.uncheck_put_buf(&keep) }; e }
}
fn dec_at<'a>(d: Decoder<'a>, off: usize) -> Decoder<'a> {
    #[cfg(verif_inspect)]
    { d.verif_at(off) }
    #[cfg(not(verif_inspect))]
    { let mut d = d; unsafe { d.uncheck_skip(off); } d }
}
/// spec: number of bytes of the shortest base-128 form
fn vlen(x: u64) -> usize {
    if x < 1 << 7 { 1 } else if x < 1 << 14 { 2 } else if x < 1 << 21 { 3 } else if x < 1 << 28 { 4 } else if x < 1 << 35 { 5 }
    else if x < 1 << 42 { 6 } else if x < 1 << 49 { 7 } else if x < 1 << 56 { 8 } else if x < 1 << 63 { 9 } else { 10 }
}
/// spec: byte i of that form
fn vbyte(x: u64, i: usize) -> u8 {
    let g = match i {
        0 => x, 1 => x >> 7, 2 => x >> 14, 3 => x >> 21, 4 => x >> 28,
        5 => x >> 35, 6 => x >> 42, 7 => x >> 49, 8 => x >> 56, _ => x >> 63,
    };
    let more = match i {
        0 => x >> 7, 1 => x >> 14, 2 => x >> 21, 3 => x >> 28, 4 => x >> 35,
        5 => x >> 42, 6 => x >> 49, 7 => x >> 56, 8 => x >> 63, _ => 0,
    };
    (g & 0x7f) as u8 | if more != 0 { 0x80 } else { 0 }
}

/// Contract of one write of `len` bytes `byte(i)` through `op`, on a container of kind `kind`.
fn write_contract(kind: K, checked: bool, len: usize, op: impl Fn(&mut Encoder) -> Result<()>, byte: impl Fn(usize) -> u8) {
    let v = any_vec_spare(kind == K::Vec);
    let n = v.len();
    let off: usize = kani::any();
    kani::assume(off <= n);
    let fits = kind == K::Vec || n - off >= len;
    if !checked { kani::assume(fits); }
    let k: usize = kani::any();
    let before = if k < n { v[k] } else { 0 };
    let (ok, inv, noff, nlen, after);
    match kind {
        K::Vec => {
            let mut v = v;
            { let mut e = enc_at(Encoder::with_vec(&mut v), off);
            let r = op(&mut e);
            noff = e.offset();
            ok = r.is_ok();
            inv = match &r { Ok(_) => true, Err(s) => s.is_invalid_argument() };
            core::mem::forget(r); }
            nlen = v.len();
            after = if k < v.len() { v[k] } else { 0 };
        }
        K::Buf => {
            let mut v = v;
            { let mut e = enc_at(Encoder::with_buf(&mut v), off);
            let r = op(&mut e);
            noff = e.offset();
            ok = r.is_ok();
            inv = match &r { Ok(_) => true, Err(s) => s.is_invalid_argument() };
            core::mem::forget(r); }
            nlen = v.len();
            after = if k < v.len() { v[k] } else { 0 };
        }
        K::Slice => {
            let mut s = Slice::from_vec(v);
            { let mut e = enc_at(Encoder::with_slice(&mut s), off);
            let r = op(&mut e);
            noff = e.offset();
            ok = r.is_ok();
            inv = match &r { Ok(_) => true, Err(s) => s.is_invalid_argument() };
            core::mem::forget(r); }
            nlen = s.size();
            after = if k < nlen { (&*s)[k] } else { 0 };
        }
    }
    assert!(inv, "a refused write is an invalid-argument error");
    assert!(ok == fits, "a write is accepted exactly when it fits");
    if ok {
        assert!(noff == off + len, "the position advances by the bytes written");
        let end = if off + len > n && kind == K::Vec { off + len } else { n };
        assert!(nlen == end, "container length after the write");
        if k < nlen {
            if k >= off && k < off + len {
                assert!(after == byte(k - off), "bytes written");
            } else {
                assert!(after == before, "bytes outside the written range are kept");
            }
        }
    } else {
        assert!(noff == off, "a refused write keeps the position");
        assert!(nlen == n, "a refused write keeps the length");
        assert!(after == before, "a refused write keeps every byte");
    }
    kani::cover!(ok && k >= off && k < off + len);
    kani::cover!(ok && k < off && k < n);
    if checked && kind != K::Vec { kani::cover!(!ok); }
}


macro_rules! h { ($($name:ident = $body:expr;)*) => { $(
    #[kani::proof]
    #[kani::stub(alloc::fmt::format, nofmt)]
    #[kani::unwind(12)]
    fn $name() { $body }
)* } }
macro_rules! writes { ($($kind:ident: $f32w:ident $f32u:ident $f64w:ident $f64u:ident $v32w:ident $v32u:ident $v64w:ident $v64u:ident $rw:ident $ru:ident;)*) => { h! { $(
    $f32w = { let x: u32 = kani::any(); write_contract(K::$kind, true, 4, |e| e.put_fixed32(x), |i| (x >> (8 * i)) as u8) };
    $f32u = { let x: u32 = kani::any(); write_contract(K::$kind, false, 4, |e| { unsafe { e.uncheck_put_fixed32(x) }; Ok(()) }, |i| (x >> (8 * i)) as u8) };
    $f64w = { let x: u64 = kani::any(); write_contract(K::$kind, true, 8, |e| e.put_fixed64(x), |i| (x >> (8 * i)) as u8) };
    $f64u = { let x: u64 = kani::any(); write_contract(K::$kind, false, 8, |e| { unsafe { e.uncheck_put_fixed64(x) }; Ok(()) }, |i| (x >> (8 * i)) as u8) };
    $v32w = { let x: u32 = kani::any(); write_contract(K::$kind, true, vlen(x as u64), |e| e.put_varint32(x), |i| vbyte(x as u64, i)) };
    $v32u = { let x: u32 = kani::any(); write_contract(K::$kind, false, vlen(x as u64), |e| { unsafe { e.uncheck_put_varint32(x) }; Ok(()) }, |i| vbyte(x as u64, i)) };
    $v64w = { let x: u64 = kani::any(); write_contract(K::$kind, true, vlen(x), |e| e.put_varint64(x), |i| vbyte(x, i)) };
    $v64u = { let x: u64 = kani::any(); write_contract(K::$kind, false, vlen(x), |e| { unsafe { e.uncheck_put_varint64(x) }; Ok(()) }, |i| vbyte(x, i)) };
    $rw = { let src = any_vec(); let s = &src; write_contract(K::$kind, true, s.len(), |e| e.put_buf(s), |i| s[i]) };
    $ru = { let src = any_vec(); let s = &src; write_contract(K::$kind, false, s.len(), |e| { unsafe { e.uncheck_put_buf(s) }; Ok(()) }, |i| s[i]) };
)* } } }
writes! {
    Vec: w_p_fixed32_vec u_p_fixed32_vec w_p_fixed64_vec u_p_fixed64_vec w_p_varint32_vec u_p_varint32_vec w_p_varint64_vec u_p_varint64_vec w_p_raw_vec u_p_raw_vec;
    Buf: w_p_fixed32_buf u_p_fixed32_buf w_p_fixed64_buf u_p_fixed64_buf w_p_varint32_buf u_p_varint32_buf w_p_varint64_buf u_p_varint64_buf w_p_raw_buf u_p_raw_buf;
    Slice: w_p_fixed32_slice u_p_fixed32_slice w_p_fixed64_slice u_p_fixed64_slice w_p_varint32_slice u_p_varint32_slice w_p_varint64_slice u_p_varint64_slice w_p_raw_slice u_p_raw_slice;
}

/// Contract of one read through `op` at any position of any byte string held in a
/// container of kind `kind`; `expect` is the outcome the bytes call for.
fn read_contract<T>(kind: K, op: impl Fn(&mut Decoder) -> Result<T>, win: usize, expect: impl Fn(&Win) -> Option<usize>, value: impl Fn(&Win, &[u8], usize, T)) {
    let v = any_vec();
    let n = v.len();
    let off: usize = kani::any();
    kani::assume(off <= n);
    let snap = Win::of(&v, off, win);
    let want = expect(&snap);
    let (got, noff, limit);
    let s;
    let w;
    let bytes: &[u8];
    match kind {
        K::Vec => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_vec(&w), off); got = op(&mut d); noff = d.offset(); limit = d.limit(); }
        K::Buf => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_buf(&w), off); got = op(&mut d); noff = d.offset(); limit = d.limit(); }
        K::Slice => { w = Vec::new(); s = Slice::from_vec(v); bytes = &s; let mut d = dec_at(Decoder::with_slice(&s), off); got = op(&mut d); noff = d.offset(); limit = d.limit(); }
    }
    assert!(limit == n, "the limit is the input's length");
    assert!(got.is_ok() == want.is_some(), "a read fails exactly when it must");
    match got {
        Ok(x) => {
            assert!(noff == off + want.unwrap(), "the position advances by the bytes consumed");
            value(&snap, bytes, off, x);
        }
        Err(e) => {
            assert!(e.is_invalid_argument(), "a failed read is an invalid-argument error");
            assert!(noff == off, "a failed read keeps the position");
            core::mem::forget(e);
        }
    }
    kani::cover!(want.is_some());
    kani::cover!(want.is_none());
}
/// the first bytes from the read position on, taken before the call
struct Win { b: [u8; 10], rest: usize }
impl Win {
    fn of(v: &[u8], off: usize, w: usize) -> Win {
        let rest = v.len() - off;
        let mut b = [0u8; 10];
        let mut i = 0;
        while i < w { if i < rest { b[i] = v[off + i]; } i += 1; }
        Win { b, rest }
    }
    /// spec: a fixed-width read of w bytes
    fn fixed(&self, w: usize) -> u64 {
        let mut x = 0u64;
        let mut i = 0;
        while i < w { x |= (self.b[i] as u64) << (8 * i); i += 1; }
        x
    }
    fn need(&self, w: usize) -> Option<usize> { if self.rest >= w { Some(w) } else { None } }
    /// spec: length of the varint, if it ends within the input and within `max` bytes
    fn varint(&self, max: usize) -> Option<usize> {
        let mut i = 0;
        while i < max {
            if self.rest <= i { return None; }
            if self.b[i] < 0x80 { return Some(i + 1); }
            i += 1;
        }
        None
    }
    /// spec: value of the varint of `len` bytes
    fn val(&self, len: usize) -> u64 {
        let mut x = 0u64;
        let mut i = 0;
        while i < 10 { if i < len { x |= ((self.b[i] & 0x7f) as u64) << (7 * i); } i += 1; }
        x
    }
}
macro_rules! reads { ($($kind:ident: $f32:ident $f64:ident $v32:ident $v64:ident $raw:ident $skip:ident;)*) => { h! { $(
    $f32 = read_contract(K::$kind, |d| d.get_fixed32(), 4, |w| w.need(4), |w, _, _, x| assert!(x as u64 == w.fixed(4), "value of the bytes"));
    $f64 = read_contract(K::$kind, |d| d.get_fixed64(), 8, |w| w.need(8), |w, _, _, x| assert!(x == w.fixed(8), "value of the bytes"));
    $v32 = read_contract(K::$kind, |d| d.get_varint32(), 5, |w| w.varint(5), |w, _, _, x| {
        let l = w.varint(5).unwrap();
        if l < 5 || w.b[4] < 16 { assert!(x as u64 == w.val(l), "value of the bytes"); }
    });
    $v64 = read_contract(K::$kind, |d| d.get_varint64(), 10, |w| w.varint(10), |w, _, _, x| {
        let l = w.varint(10).unwrap();
        if l < 10 || w.b[9] < 2 { assert!(x == w.val(l), "value of the bytes"); }
    });
    $raw = { let len: usize = kani::any(); read_contract(K::$kind, |d| d.get_buf(len), 0, |w| w.need(len), |_, b, o, x| {
        assert!(x.size() == len, "length read");
        let k: usize = kani::any();
        if k < len { assert!((&*x)[k] == b[o + k], "bytes read"); }
    }) };
    $skip = { let len: usize = kani::any(); read_contract(K::$kind, |d| d.skip(len), 0, |w| w.need(len), |_, _, o, x| assert!(x == o + len, "skip returns the new position")) };
)* } } }
reads! {
    Vec: r_p_fixed32_vec r_p_fixed64_vec r_p_varint32_vec r_p_varint64_vec r_p_raw_vec r_p_skip_vec;
    Buf: r_p_fixed32_buf r_p_fixed64_buf r_p_varint32_buf r_p_varint64_buf r_p_raw_buf r_p_skip_buf;
    Slice: r_p_fixed32_slice r_p_fixed64_slice r_p_varint32_slice r_p_varint64_slice r_p_raw_slice r_p_skip_slice;
}
/// Unchecked reads: where enough bytes remain, and for varints (`max` > 0) on any
/// input: an unterminated one is scanned up to the end or to `max` bytes.
fn uread_contract<T>(kind: K, op: impl Fn(&mut Decoder) -> T, win: usize, max: usize, expect: impl Fn(&Win) -> Option<usize>, value: impl Fn(&Win, &[u8], usize, T)) {
    let v = any_vec();
    let n = v.len();
    let off: usize = kani::any();
    kani::assume(off <= n);
    let snap = Win::of(&v, off, win);
    let want = expect(&snap);
    if max == 0 { kani::assume(want.is_some()); }
    let (got, noff);
    let s;
    let w;
    let bytes: &[u8];
    match kind {
        K::Vec => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_vec(&w), off); got = op(&mut d); noff = d.offset(); }
        K::Buf => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_buf(&w), off); got = op(&mut d); noff = d.offset(); }
        K::Slice => { w = Vec::new(); s = Slice::from_vec(v); bytes = &s; let mut d = dec_at(Decoder::with_slice(&s), off); got = op(&mut d); noff = d.offset(); }
    }
    match want {
        Some(l) => {
            assert!(noff == off + l, "the position advances by the bytes consumed");
            value(&snap, bytes, off, got);
        }
        None => assert!(noff == off + if n - off < max { n - off } else { max }, "an unterminated varint is scanned to its end"),
    }
    kani::cover!(want.is_some());
}
macro_rules! ureads { ($($kind:ident: $f32:ident $f64:ident $v32:ident $v64:ident $raw:ident $skip:ident;)*) => { h! { $(
    $f32 = uread_contract(K::$kind, |d| unsafe { d.uncheck_get_fixed32() }, 4, 0, |w| w.need(4), |w, _, _, x| assert!(x as u64 == w.fixed(4), "value of the bytes"));
    $f64 = uread_contract(K::$kind, |d| unsafe { d.uncheck_get_fixed64() }, 8, 0, |w| w.need(8), |w, _, _, x| assert!(x == w.fixed(8), "value of the bytes"));
    $v32 = uread_contract(K::$kind, |d| unsafe { d.uncheck_get_varint32() }, 5, 5, |w| w.varint(5), |w, _, _, x| {
        let l = w.varint(5).unwrap();
        if l < 5 || w.b[4] < 16 { assert!(x as u64 == w.val(l), "value of the bytes"); }
    });
    $v64 = uread_contract(K::$kind, |d| unsafe { d.uncheck_get_varint64() }, 10, 10, |w| w.varint(10), |w, _, _, x| {
        let l = w.varint(10).unwrap();
        if l < 10 || w.b[9] < 2 { assert!(x == w.val(l), "value of the bytes"); }
    });
    $raw = { let len: usize = kani::any(); uread_contract(K::$kind, |d| unsafe { d.uncheck_get_buf(len) }, 0, 0, |w| w.need(len), |_, b, o, x| {
        assert!(x.size() == len, "length read");
        let k: usize = kani::any();
        if k < len { assert!((&*x)[k] == b[o + k], "bytes read"); }
    }) };
    $skip = { let len: usize = kani::any(); uread_contract(K::$kind, |d| unsafe { d.uncheck_skip(len) }, 0, 0, |w| w.need(len), |_, _, o, x| assert!(x == o + len, "skip returns the new position")) };
)* } } }
ureads! {
    Vec: s_p_fixed32_vec s_p_fixed64_vec s_p_varint32_vec s_p_varint64_vec s_p_raw_vec s_p_skip_vec;
    Buf: s_p_fixed32_buf s_p_fixed64_buf s_p_varint32_buf s_p_varint64_buf s_p_raw_buf s_p_skip_buf;
    Slice: s_p_fixed32_slice s_p_fixed64_slice s_p_varint32_slice s_p_varint64_slice s_p_raw_slice s_p_skip_slice;
}

/// Spec lemma behind C01's round trip: the value and the length that `Win::varint`
/// and `Win::val` give to the shortest form of any x are its length and x; the
/// same for fixed forms. With the write and read contracts above this is the round trip.
fn len_contract(kind: K) {
    let mut v = any_vec_spare(kind == K::Vec);
    let n = v.len();
    match kind {
        K::Vec => { let e = Encoder::with_vec(&mut v); assert!(e.len() == n && e.offset() == 0, "length of the container"); let d = e.create_decoder(); assert!(d.limit() == n && d.offset() == 0 && d.can_get() == (n > 0), "limit"); }
        K::Buf => { let e = Encoder::with_buf(&mut v); assert!(e.len() == n && e.offset() == 0, "length of the container"); let d = e.create_decoder(); assert!(d.limit() == n && d.offset() == 0, "limit"); }
        K::Slice => { let mut s = Slice::from_vec(v); let e = Encoder::with_slice(&mut s); assert!(e.len() == n && e.offset() == 0, "length of the container"); let d = e.create_decoder(); assert!(d.limit() == n && d.offset() == 0, "limit"); }
    }
    kani::cover!(n > 5);
}
h! {
    c02_p_len_vec = len_contract(K::Vec);
    c02_p_len_buf = len_contract(K::Buf);
    c02_p_len_slice = len_contract(K::Slice);
}
h! {
    c01_p_varint_length = { let x: u64 = kani::any(); assert!(varint_length(x) == vlen(x), "varint length"); kani::cover!(vlen(x) == 10); };
    c01_p_lemma = {
        let x: u64 = kani::any();
        let mut b = [0u8; 10];
        let mut i = 0;
        while i < 10 { b[i] = vbyte(x, i); i += 1; }
        let w = Win { b, rest: kani::any() };
        kani::assume(w.rest >= vlen(x));
        let l = w.varint(10);
        assert!(l == Some(vlen(x)), "varint length lemma");
        assert!(w.val(vlen(x)) == x, "varint value lemma");
        if x >> 32 == 0 { assert!(w.varint(5) == l && b[4] < 16, "32-bit varint lemma"); }
        let f = Win { b: [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8, 0, 0], rest: 10 };
        assert!(f.fixed(8) == x && f.fixed(4) == x & 0xffff_ffff, "fixed lemma");
        assert!(b[9] < 2, "no overflow lemma");
        kani::cover!(x >> 63 == 1);
    };
}

/// C04 / C02: length-prefixed strings.
fn lps_write(kind: K, checked: bool) {
    let src = any_vec();
    kani::assume(src.len() <= u32::MAX as usize);
    let pre = vlen(src.len() as u64);
    let sl = Slice::from_vec(src);
    let v = any_vec_spare(kind == K::Vec);
    let n = v.len();
    let off: usize = kani::any();
    kani::assume(off <= n);
    let fits_prefix = kind == K::Vec || n - off >= pre;
    let fits = kind == K::Vec || n - off >= pre + sl.size();
    if !checked { kani::assume(fits); }
    let k: usize = kani::any();
    let before = if k < n { v[k] } else { 0 };
    let (ok, noff, nlen, after);
    let op = |e: &mut Encoder| if checked { match e.put_length_prefixed_slice(&sl) { Ok(_) => true, Err(s) => { assert!(s.is_invalid_argument(), "a refused write is an invalid-argument error"); core::mem::forget(s); false } } } else { unsafe { e.uncheck_put_length_prefixed_slice(&sl) }; true };
    match kind {
        K::Vec => { let mut v = v; { let mut e = enc_at(Encoder::with_vec(&mut v), off); ok = op(&mut e); noff = e.offset(); }
            nlen = v.len(); after = if k < nlen { v[k] } else { 0 }; }
        K::Buf => { let mut v = v; { let mut e = enc_at(Encoder::with_buf(&mut v), off); ok = op(&mut e); noff = e.offset(); }
            nlen = v.len(); after = if k < nlen { v[k] } else { 0 }; }
        K::Slice => { let mut s = Slice::from_vec(v); { let mut e = enc_at(Encoder::with_slice(&mut s), off); ok = op(&mut e); noff = e.offset(); }
            nlen = s.size(); after = if k < nlen { (&*s)[k] } else { 0 }; }
    }
    assert!(ok == fits, "accepted exactly when prefix and bytes fit");
    if ok {
        assert!(noff == off + pre + sl.size(), "position after prefix and bytes");
        assert!(nlen == if noff > n && kind == K::Vec { noff } else { n }, "container length");
        if k < nlen {
            if k < off || k >= noff { assert!(after == before, "bytes outside are kept"); }
            else if k < off + pre { assert!(after == vbyte(sl.size() as u64, k - off), "prefix is the varint of the length"); }
            else { assert!(after == (&*sl)[k - off - pre], "bytes of the string"); }
        }
    }
    kani::cover!(ok && k >= off + pre && k < noff);
    kani::cover!(ok && pre == 5);
    if checked && kind != K::Vec { kani::cover!(!ok); }
}
fn lps_read(kind: K) {
    let v = any_vec();
    let n = v.len();
    let off: usize = kani::any();
    kani::assume(off <= n);
    let w5 = Win::of(&v, off, 5);
    let pre = w5.varint(5);
    let size = match pre { Some(p) if p < 5 || w5.b[4] < 16 => Some(w5.val(p) as usize), _ => None };
    let (got, noff);
    let s;
    let w;
    let bytes: &[u8];
    match kind {
        K::Vec => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_vec(&w), off); got = d.get_length_prefixed_slice(); noff = d.offset(); }
        K::Buf => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_buf(&w), off); got = d.get_length_prefixed_slice(); noff = d.offset(); }
        K::Slice => { w = Vec::new(); s = Slice::from_vec(v); bytes = &s; let mut d = dec_at(Decoder::with_slice(&s), off); got = d.get_length_prefixed_slice(); noff = d.offset(); }
    }
    match got {
        Ok(x) => {
            assert!(pre.is_some(), "no value without a terminated prefix");
            let p = pre.unwrap();
            assert!(noff <= n && noff == off + p + x.size(), "position after prefix and bytes, within the input");
            if let Some(z) = size { assert!(x.size() == z, "length is the prefix's"); }
            let k: usize = kani::any();
            if k < x.size() { assert!((&*x)[k] == bytes[off + p + k], "bytes read"); }
            kani::cover!(x.size() > 300);
            kani::cover!(x.size() == 0);
        }
        Err(e) => {
            if let Some(z) = size { assert!(n - off - pre.unwrap() < z, "refused only when bytes are missing"); }
            assert!(noff == off || (pre.is_some() && noff == off + pre.unwrap()), "at most the prefix is consumed");
            core::mem::forget(e);
            kani::cover!(size.is_some());
            kani::cover!(pre.is_none());
        }
    }
}
fn lps_uread(kind: K) {
    let v = any_vec();
    let n = v.len();
    let off: usize = kani::any();
    kani::assume(off <= n);
    let w5 = Win::of(&v, off, 5);
    let pre = w5.varint(5);
    kani::assume(pre.is_some());
    let p = pre.unwrap();
    kani::assume(p < 5 || w5.b[4] < 16);
    let size = w5.val(p) as usize;
    kani::assume(n - off - p >= size);
    let (x, noff);
    let s;
    let w;
    let bytes: &[u8];
    match kind {
        K::Vec => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_vec(&w), off); x = unsafe { d.uncheck_get_length_prefixed_slice() }; noff = d.offset(); }
        K::Buf => { w = v; s = Slice::default(); bytes = &w; let mut d = dec_at(Decoder::with_buf(&w), off); x = unsafe { d.uncheck_get_length_prefixed_slice() }; noff = d.offset(); }
        K::Slice => { w = Vec::new(); s = Slice::from_vec(v); bytes = &s; let mut d = dec_at(Decoder::with_slice(&s), off); x = unsafe { d.uncheck_get_length_prefixed_slice() }; noff = d.offset(); }
    }
    assert!(noff == off + p + size && x.size() == size, "length and position");
    let k: usize = kani::any();
    if k < size { assert!((&*x)[k] == bytes[off + p + k], "bytes read"); }
    kani::cover!(size > 300);
}
h! {
    lw_p_vec = lps_write(K::Vec, true);
    lw_p_buf = lps_write(K::Buf, true);
    lw_p_slice = lps_write(K::Slice, true);
    lu_p_vec = lps_write(K::Vec, false);
    lu_p_buf = lps_write(K::Buf, false);
    lu_p_slice = lps_write(K::Slice, false);
    lr_p_vec = lps_read(K::Vec);
    lr_p_buf = lps_read(K::Buf);
    lr_p_slice = lps_read(K::Slice);
    ls_p_vec = lps_uread(K::Vec);
    ls_p_buf = lps_uread(K::Buf);
    ls_p_slice = lps_uread(K::Slice);
}
