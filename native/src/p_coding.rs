use crate::ctx::*;
use crate::spec;
use crate::{want, want_eq};
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::slice::Slice;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Vec, Buf, Slice }
pub const KINDS: [Kind; 3] = [Kind::Vec, Kind::Buf, Kind::Slice];

#[derive(Clone, Debug)]
pub enum Put { F32(u32), F64(u64), V32(u32), V64(u64), Raw(Vec<u8>), Lps(Vec<u8>) }

impl Put {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Put::F32(v) => spec::fixed32(*v),
            Put::F64(v) => spec::fixed64(*v),
            Put::V32(v) => spec::varint(*v as u64),
            Put::V64(v) => spec::varint(*v),
            Put::Raw(b) => b.clone(),
            Put::Lps(b) => spec::lps(b),
        }
    }
    fn show(&self) -> String {
        match self {
            Put::Raw(b) => format!("raw({})", hex(b)),
            Put::Lps(b) => format!("length-prefixed({})", hex(b)),
            o => format!("{:?}", o),
        }
    }
}

fn with_encoder<R>(kind: Kind, data: &mut Vec<u8>, f: impl FnOnce(&mut Encoder) -> R) -> R {
    match kind {
        Kind::Vec => f(&mut Encoder::with_vec(data)),
        Kind::Buf => f(&mut Encoder::with_buf(data.as_mut_slice())),
        Kind::Slice => {
            let mut s = Slice::from_vec(std::mem::take(data));
            let r = f(&mut Encoder::with_slice(&mut s));
            *data = s.into();
            r
        }
    }
}
fn with_decoder<R>(kind: Kind, data: &[u8], f: impl FnOnce(&mut Decoder) -> R) -> R {
    match kind {
        Kind::Vec => { let v = data.to_vec(); f(&mut Decoder::with_vec(&v)) }
        Kind::Buf => { let v = data.to_vec(); f(&mut Decoder::with_buf(&v)) }
        Kind::Slice => { let s = Slice::from_buf(data); f(&mut Decoder::with_slice(&s)) }
    }
}
fn do_put(e: &mut Encoder, p: &Put, checked: bool) -> Result<(), bool> {
    let r = if checked {
        match p {
            Put::F32(v) => e.put_fixed32(*v),
            Put::F64(v) => e.put_fixed64(*v),
            Put::V32(v) => e.put_varint32(*v),
            Put::V64(v) => e.put_varint64(*v),
            Put::Raw(b) => e.put_buf(b),
            Put::Lps(b) => e.put_length_prefixed_slice(&Slice::from_buf(b)),
        }
    } else {
        unsafe {
            match p {
                Put::F32(v) => e.uncheck_put_fixed32(*v),
                Put::F64(v) => e.uncheck_put_fixed64(*v),
                Put::V32(v) => e.uncheck_put_varint32(*v),
                Put::V64(v) => e.uncheck_put_varint64(*v),
                Put::Raw(b) => e.uncheck_put_buf(b),
                Put::Lps(b) => e.uncheck_put_length_prefixed_slice(&Slice::from_buf(b)),
            }
        }
        Ok(())
    };
    r.map_err(|s| s.is_invalid_argument())
}
/// reads one field of the same kind back; None on error
fn do_get(d: &mut Decoder, p: &Put, checked: bool) -> Option<Put> {
    if checked {
        Some(match p {
            Put::F32(_) => Put::F32(d.get_fixed32().ok()?),
            Put::F64(_) => Put::F64(d.get_fixed64().ok()?),
            Put::V32(_) => Put::V32(d.get_varint32().ok()?),
            Put::V64(_) => Put::V64(d.get_varint64().ok()?),
            Put::Raw(b) => Put::Raw(d.get_buf(b.len()).ok()?.into()),
            Put::Lps(_) => Put::Lps(d.get_length_prefixed_slice().ok()?.into()),
        })
    } else {
        unsafe {
            Some(match p {
                Put::F32(_) => Put::F32(d.uncheck_get_fixed32()),
                Put::F64(_) => Put::F64(d.uncheck_get_fixed64()),
                Put::V32(_) => Put::V32(d.uncheck_get_varint32()),
                Put::V64(_) => Put::V64(d.uncheck_get_varint64()),
                Put::Raw(b) => Put::Raw(d.uncheck_get_buf(b.len()).into()),
                Put::Lps(_) => Put::Lps(d.uncheck_get_length_prefixed_slice().into()),
            })
        }
    }
}
fn same(a: &Put, b: &Put) -> bool {
    match (a, b) {
        (Put::F32(x), Put::F32(y)) | (Put::V32(x), Put::V32(y)) => x == y,
        (Put::F64(x), Put::F64(y)) | (Put::V64(x), Put::V64(y)) => x == y,
        (Put::Raw(x), Put::Raw(y)) | (Put::Lps(x), Put::Lps(y)) => x == y,
        _ => false,
    }
}

pub fn values64() -> Vec<u64> {
    let mut v = vec![0u64, 1, 0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, u64::MAX, 0x8080_8080_8080_8080, 0x7f7f_7f7f_7f7f_7f7f];
    for b in 0..64 {
        let p = 1u64 << b;
        v.extend([p, p - 1, p + 1, p | 0x55, !p]);
        if b % 8 == 0 { v.push(0xa7u64 << b); v.push(0x80u64 << b); }
    }
    v.sort(); v.dedup();
    v
}

/// one write and read-back at position `pos` of a container of length `len`
fn c01_one(kind: Kind, len: usize, pos: usize, p: &Put, checked: bool) -> V {
    let bytes = p.bytes();
    let pat: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
    let mut data = pat.clone();
    let (off0, off1) = with_encoder(kind, &mut data, |e| {
        e.put_buf(&pat[..pos]).map_err(|_| ()).expect("prefix refused");
        let a = e.offset();
        do_put(e, p, checked).expect("write refused although it fits");
        (a, e.offset())
    });
    want_eq!(off0, pos, "position before the write");
    want_eq!(off1, pos + bytes.len(), "position after the write");
    want!(data.len() >= pos + bytes.len(), "container too short after the write: {}", data.len());
    want!(data[pos..pos + bytes.len()] == bytes[..], "bytes at {}: got {}, want {}", pos, hex(&data[pos..pos + bytes.len()]), hex(&bytes));
    let (got, off) = with_decoder(kind, &data, |d| {
        d.skip(pos).map_err(|_| ()).expect("skip refused");
        (do_get(d, p, checked), d.offset())
    });
    want!(got.as_ref().map_or(false, |g| same(g, p)), "decoded {:?}", got);
    want_eq!(off, pos + bytes.len(), "position after the read");
    V::Ok
}

pub fn c01(c: &mut Ctx) {
    c.family("varint_length");
    for v in values64() {
        c.case(|| format!("value {}", v), || { want_eq!(varint_length(v), spec::varint(v).len(), "varint length"); V::Ok });
    }
    c.family("boundary values");
    for v in values64() {
        for p in [Put::F32(v as u32), Put::F64(v), Put::V32(v as u32), Put::V64(v)] {
            for kind in KINDS {
                for checked in [true, false] {
                    for pos in [0usize, 1, 2, 3, 5, 8, 13] {
                        let n = p.bytes().len();
                        c.case(|| format!("{:?} at {} in {:?}, checked={}", p, pos, kind, checked),
                            || c01_one(kind, pos + n, pos, &p, checked));
                    }
                }
            }
        }
    }
    c.family("random values and positions");
    for _ in 0..c.n(20000, 400000) {
        let v = c.rng.value64();
        let p = match c.rng.below(4) { 0 => Put::F32(v as u32), 1 => Put::F64(v), 2 => Put::V32(v as u32), _ => Put::V64(v) };
        let kind = *c.rng.pick(&KINDS);
        let pos = if c.rng.below(40) == 0 { c.rng.below(70000) } else { c.rng.below(40) };
        let slack = c.rng.below(12);
        let checked = c.rng.below(2) == 0;
        let n = p.bytes().len();
        c.case(|| format!("{:?} at {} in {:?} of length {}, checked={}", p, pos, kind, pos + n + slack, checked),
            || c01_one(kind, pos + n + slack, pos, &p, checked));
    }
    c.family("growing vector");
    for v in values64() {
        for p in [Put::F32(v as u32), Put::F64(v), Put::V32(v as u32), Put::V64(v)] {
            for pos in [0usize, 1, 7, 8] {
                c.case(|| format!("{:?} appended at {}", p, pos), || c01_one(Kind::Vec, pos, pos, &p, true));
                c.case(|| format!("{:?} appended at {} unchecked", p, pos), || c01_one(Kind::Vec, pos, pos, &p, false));
            }
        }
    }
}

fn c02_one(kind: Kind, len: usize, pos: usize, p: &Put) -> V {
    let bytes = p.bytes();
    let pat: Vec<u8> = (0..len).map(|i| (i * 29 + 3) as u8 ^ 0x5a).collect();
    let mut data = pat.clone();
    let (off0, r, off1, elen) = with_encoder(kind, &mut data, |e| {
        e.put_buf(&pat[..pos]).map_err(|_| ()).expect("prefix refused");
        let a = e.offset();
        let r = do_put(e, p, true);
        (a, r, e.offset(), e.len())
    });
    want_eq!(off0, pos, "position before the write");
    want_eq!(elen, data.len(), "reported container length");
    let fits = kind == Kind::Vec || pos + bytes.len() <= len;
    if fits {
        want!(r.is_ok(), "refused although it fits");
        want_eq!(off1, pos + bytes.len(), "position");
        let mut w = pat.clone();
        if w.len() < pos + bytes.len() { w.resize(pos + bytes.len(), 0); }
        w[pos..pos + bytes.len()].copy_from_slice(&bytes);
        want!(data == w, "container: got {}, want {}", hex(&data), hex(&w));
    } else {
        want!(r.is_err(), "accepted although {} bytes remain for {}", len - pos, bytes.len());
        want!(r == Err(true), "refused, but not as an invalid argument");
        want_eq!(off1, pos, "position after the refusal");
        want!(data == pat, "container changed by a refused write: got {}, want {}", hex(&data), hex(&pat));
    }
    V::Ok
}

pub fn c02(c: &mut Ctx) {
    c.family("every length, position and operation, small");
    let vals = [0u64, 1, 127, 128, 300, 16383, 16384, 1 << 21, 1 << 28, (1 << 35) - 1, 1 << 35, 1 << 42, 1 << 49, 1 << 56, 1 << 63, u64::MAX];
    for kind in KINDS {
        for len in 0..=13usize {
            for pos in 0..=len {
                let mut ops = vec![Put::F32(0xdead_beef), Put::F64(0x0102_0304_0506_0708)];
                for v in vals { ops.push(Put::V64(v)); ops.push(Put::V32(v as u32)); }
                for n in 0..=(len + 2) { ops.push(Put::Raw((0..n).map(|i| 200 + i as u8).collect())); }
                for p in ops {
                    c.case(|| format!("{} at {} in {:?} of length {}", p.show(), pos, kind, len), || c02_one(kind, len, pos, &p));
                }
            }
        }
    }
    c.family("random lengths and operation sequences");
    for _ in 0..c.n(15000, 200000) {
        let kind = *c.rng.pick(&KINDS);
        let len = if c.rng.below(30) == 0 { c.rng.below(5000) } else { c.rng.below(64) };
        let nops = 1 + c.rng.below(10);
        let mut ops = vec![];
        for _ in 0..nops {
            let v = c.rng.value64();
            ops.push(match c.rng.below(5) {
                0 => Put::F32(v as u32), 1 => Put::F64(v), 2 => Put::V32(v as u32), 3 => Put::V64(v),
                _ => { let n = c.rng.below(len + 4); Put::Raw(c.rng.bytes(n)) }
            });
        }
        let pat = c.rng.bytes(len);
        c.case(|| format!("{:?} of length {}: {}", kind, len, ops.iter().map(|p| p.show()).collect::<Vec<_>>().join(", ")), || {
            let mut model = pat.clone();
            let mut pos = 0usize;
            let mut data = pat.clone();
            let bad = with_encoder(kind, &mut data, |e| {
                for p in &ops {
                    let b = p.bytes();
                    let r = do_put(e, p, true);
                    if kind == Kind::Vec || pos + b.len() <= model.len() {
                        if r.is_err() { return Some(format!("{} refused at {}", p.show(), pos)); }
                        if model.len() < pos + b.len() { model.resize(pos + b.len(), 0); }
                        model[pos..pos + b.len()].copy_from_slice(&b);
                        pos += b.len();
                    } else if r != Err(true) {
                        return Some(format!("{} at {} of {}: got {:?}", p.show(), pos, model.len(), r));
                    }
                    if e.offset() != pos { return Some(format!("after {}: position {} want {}", p.show(), e.offset(), pos)); }
                    if e.len() != model.len() { return Some(format!("after {}: length {} want {}", p.show(), e.len(), model.len())); }
                }
                None
            });
            if let Some(m) = bad { return V::Fail(m); }
            want!(data == model, "container: got {}, want {}", hex(&data), hex(&model));
            V::Ok
        });
    }
    c.family("long histories");
    for (kind, len) in [(Kind::Vec, 0usize), (Kind::Vec, 70000), (Kind::Buf, 140000), (Kind::Slice, 140000)] {
        let big = c.rng.bytes(66000);
        let vals: Vec<u64> = (0..12000).map(|_| c.rng.value64()).collect();
        c.case(|| format!("12000 writes into {:?} of length {}, one of 66000 bytes among them", kind, len), || {
            let mut model: Vec<u8> = vec![0x5a; len];
            let mut data = model.clone();
            let mut pos = 0usize;
            let bad = with_encoder(kind, &mut data, |e| {
                for (i, v) in vals.iter().enumerate() {
                    let p = match i % 6 { 0 => Put::F32(*v as u32), 1 => Put::F64(*v), 2 => Put::V32(*v as u32), 3 => Put::V64(*v), 4 if i == 4 + 6 * 50 => Put::Raw(big.clone()), _ => Put::Raw(spec::varint(*v)) };
                    let b = p.bytes();
                    let r = do_put(e, &p, true);
                    if kind == Kind::Vec || pos + b.len() <= model.len() {
                        if r.is_err() { return Some(format!("write {} refused at {}", i, pos)); }
                        if model.len() < pos + b.len() { model.resize(pos + b.len(), 0); }
                        model[pos..pos + b.len()].copy_from_slice(&b);
                        pos += b.len();
                    } else if r != Err(true) { return Some(format!("write {} at {} of {}: got {:?}", i, pos, model.len(), r)); }
                    if e.offset() != pos || e.len() != model.len() { return Some(format!("position {} of {} after write {}, want {} of {}", e.offset(), e.len(), i, pos, model.len())); }
                }
                None
            });
            if let Some(m) = bad { return V::Fail(m); }
            let d = data.iter().zip(&model).position(|(x, y)| x != y);
            want!(data.len() == model.len() && d.is_none(), "container differs first at byte {:?}", d);
            V::Ok
        });
    }
}

#[derive(Clone, Debug)]
enum Get { F32, F64, V32, V64, Raw(usize), Lps, Skip(usize) }

/// the statement's model of one checked read: Ok((value bytes or number, new position)) or Err
fn model_get(data: &[u8], pos: usize, g: &Get) -> (Option<(Vec<u8>, usize)>, usize) {
    let rest = &data[pos..];
    let fixed = |n: usize| if rest.len() >= n { (Some((rest[..n].to_vec(), pos + n)), pos) } else { (None, pos) };
    match g {
        Get::F32 => fixed(4),
        Get::F64 => fixed(8),
        Get::Raw(n) => fixed(*n),
        Get::Skip(n) => if rest.len() >= *n { (Some((vec![], pos + n)), pos) } else { (None, pos) },
        Get::V32 => match spec::unvarint(rest, 5) { Some((v, n)) => (Some((spec::fixed32(v as u32), pos + n)), pos), None => (None, pos) },
        Get::V64 => match spec::unvarint(rest, 10) { Some((v, n)) => (Some((spec::fixed64(v as u64), pos + n)), pos), None => (None, pos) },
        Get::Lps => match spec::unvarint(rest, 5) {
            None => (None, pos),
            Some((v, n)) => {
                let l = v as u32 as usize;
                if rest.len() - n >= l { (Some((rest[n..n + l].to_vec(), pos + n + l)), pos) } else { (None, pos + n) }
            }
        },
    }
}
fn real_get(d: &mut Decoder, g: &Get) -> Option<Vec<u8>> {
    Some(match g {
        Get::F32 => spec::fixed32(d.get_fixed32().ok()?),
        Get::F64 => spec::fixed64(d.get_fixed64().ok()?),
        Get::V32 => spec::fixed32(d.get_varint32().ok()?),
        Get::V64 => spec::fixed64(d.get_varint64().ok()?),
        Get::Raw(n) => d.get_buf(*n).ok()?.into(),
        Get::Lps => d.get_length_prefixed_slice().ok()?.into(),
        Get::Skip(n) => { d.skip(*n).ok()?; vec![] }
    })
}
fn c03_run(kind: Kind, data: &[u8], start: usize, gets: &[Get]) -> V {
    with_decoder(kind, data, |d| {
        let mut pos = start;
        if d.skip(start).is_err() { return V::Fail("skip to a position inside the input refused".into()); }
        want_eq!(d.limit(), data.len(), "limit");
        for g in gets {
            let got = real_get(d, g);
            let (want, errpos) = model_get(data, pos, g);
            match (got, want) {
                (Some(b), Some((w, np))) => {
                    want!(b == w, "{:?} at {}: got {}, want {}", g, pos, hex(&b), hex(&w));
                    want_eq!(d.offset(), np, "position after a read");
                    pos = np;
                }
                (None, None) => {
                    // a failed length-prefixed read may or may not have consumed its prefix
                    want!(d.offset() == pos || d.offset() == errpos, "position after a failed {:?}: got {}, want {}", g, d.offset(), pos);
                    pos = d.offset();
                }
                (Some(b), None) => return V::Fail(format!("{:?} at {} of {} accepted: {}", g, pos, data.len(), hex(&b))),
                (None, Some((w, _))) => return V::Fail(format!("{:?} at {} of {} refused, want {}", g, pos, data.len(), hex(&w))),
            }
            want_eq!(d.can_get(), pos < data.len(), "can_get");
        }
        V::Ok
    })
}
pub fn c03(c: &mut Ctx) {
    c.family("every start in short structured inputs");
    let mut inputs: Vec<Vec<u8>> = vec![vec![]];
    for n in 1..=13usize {
        inputs.push(vec![0xff; n]);
        inputs.push(vec![0x80; n]);
        inputs.push(vec![0x7f; n]);
        inputs.push(vec![0; n]);
        let mut a = vec![0xff; n]; a[n - 1] = 1; inputs.push(a);
        let mut a = vec![0x80; n]; a[n - 1] = 0x7f; inputs.push(a);
        let mut a = vec![3u8; n]; a[0] = n as u8; inputs.push(a);
        let mut a = vec![3u8; n]; a[0] = (n - 1) as u8; inputs.push(a);
        inputs.push((0..n).map(|i| i as u8).collect());
    }
    inputs.push(vec![0xff, 0xff, 0xff, 0xff, 0x0f, 1, 2, 3]);
    inputs.push(vec![0xff, 0xff, 0xff, 0xff, 0x7f, 1, 2, 3]);
    for d in &inputs {
        for start in 0..=d.len() {
            let rem = d.len() - start;
            let mut gs = vec![Get::F32, Get::F64, Get::V32, Get::V64, Get::Lps];
            for n in 0..=(rem + 2) { gs.push(Get::Raw(n)); gs.push(Get::Skip(n)); }
            for n in [usize::MAX, usize::MAX - 1, usize::MAX - start, (usize::MAX - start).wrapping_add(1), isize::MAX as usize, 1 << 32] { if n > rem { gs.push(Get::Raw(n)); gs.push(Get::Skip(n)); } }
            for g in gs {
                for kind in KINDS {
                    c.case(|| format!("{:?} at {} of {} ({:?})", g, start, hex(d), kind), || c03_run(kind, d, start, &[g.clone(), Get::V64, Get::Raw(1)]));
                }
            }
        }
    }
    c.family("random inputs and read sequences");
    for _ in 0..c.n(60000, 1000000) {
        let n = if c.rng.below(20) == 0 { c.rng.below(600) } else { c.rng.below(24) };
        let d = c.rng.nasty(n);
        let start = c.rng.below(n + 1);
        let kind = *c.rng.pick(&KINDS);
        let gs: Vec<Get> = (0..1 + c.rng.below(6)).map(|_| match c.rng.below(8) {
            0 => Get::F32, 1 => Get::F64, 2 => Get::V32, 3 => Get::V64, 4 => Get::Lps,
            5 => Get::Raw(c.rng.below(n + 3)), 6 => Get::Skip(c.rng.below(n + 3)),
            _ => Get::Raw(usize::MAX - c.rng.below(9)),
        }).collect();
        c.case(|| format!("{:?} from {} of {} ({:?})", gs, start, hex(&d), kind), || c03_run(kind, &d, start, &gs));
    }
    c.family("long inputs");
    for i in 0..c.n(24, 200) {
        let n = [300usize, 5000, 65535, 65536, 70000, 140000][i % 6];
        let mut d = c.rng.nasty(n);
        let p = c.rng.below(n - 40);
        let l = *c.rng.pick(&[0usize, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 70001]);
        let pre = spec::varint(l as u64);
        d[p..p + pre.len()].copy_from_slice(&pre);
        let kind = *c.rng.pick(&KINDS);
        let gs: Vec<Get> = vec![Get::Lps, Get::V64, Get::F32, Get::Raw(*c.rng.pick(&[255usize, 256, 65535, 65536, 66000])), Get::F64, Get::V32, Get::Skip(n), Get::Skip(9), Get::Lps];
        c.case(|| format!("{:?} from {} of {} bytes ({:?})", gs, p, n, kind), || c03_run(kind, &d, p, &gs));
    }
}

fn c04_one(kind: Kind, fields: &[Put], checked: bool) -> V {
    let want: Vec<u8> = fields.iter().flat_map(|f| f.bytes()).collect();
    let mut data = if kind == Kind::Vec { vec![] } else { vec![0xa5; want.len()] };
    let bad = with_encoder(kind, &mut data, |e| {
        for f in fields { if do_put(e, f, checked).is_err() { return Some(f.show()); } }
        None
    });
    if let Some(f) = bad { return V::Fail(format!("write of {} refused", f)); }
    want!(data == want, "encoded: got {}, want {}", hex(&data), hex(&want));
    with_decoder(kind, &data, |d| {
        for f in fields {
            match do_get(d, f, checked) {
                Some(g) if same(&g, f) => {}
                other => return V::Fail(format!("read back {:?} for {}", other.map(|o| o.show()), f.show())),
            }
        }
        want!(!d.can_get(), "{} bytes left over", data.len() - d.offset());
        want_eq!(d.offset(), data.len(), "final position");
        V::Ok
    })
}
pub fn c04(c: &mut Ctx) {
    c.family("length-prefixed strings of boundary lengths");
    for n in [0usize, 1, 2, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 70000] {
        for kind in KINDS {
            for checked in [true, false] {
                let b = c.rng.bytes(n);
                c.case(|| format!("length-prefixed string of {} bytes in {:?}, checked={}", n, kind, checked),
                    || c04_one(kind, &[Put::V32(7), Put::Lps(b.clone()), Put::F32(9)], checked));
            }
        }
    }
    c.family("random field sequences");
    for _ in 0..c.n(12000, 200000) {
        let m = c.rng.below(12);
        let fields: Vec<Put> = (0..m).map(|_| {
            let v = c.rng.value64();
            match c.rng.below(6) {
                0 => Put::F32(v as u32), 1 => Put::F64(v), 2 => Put::V32(v as u32), 3 => Put::V64(v),
                4 => { let n = c.rng.below(12); Put::Raw(c.rng.nasty(n)) }
                _ => { let n = if c.rng.below(8) == 0 { 120 + c.rng.below(20) } else { c.rng.below(12) }; Put::Lps(c.rng.nasty(n)) }
            }
        }).collect();
        let kind = *c.rng.pick(&KINDS);
        let checked = c.rng.below(2) == 0;
        c.case(|| format!("{:?}, checked={}: {}", kind, checked, fields.iter().map(|f| f.show()).collect::<Vec<_>>().join(", ")),
            || c04_one(kind, &fields, checked));
    }
    c.family("decoder made from an encoder");
    for _ in 0..c.n(300, 3000) {
        let v = c.rng.value64();
        let n = c.rng.below(10);
        let b = c.rng.nasty(n);
        c.case(|| format!("{} and {}", v, hex(&b)), || {
            let mut data = vec![];
            let mut e = Encoder::with_vec(&mut data);
            want!(e.put_varint64(v).is_ok() && e.put_length_prefixed_slice(&Slice::from_buf(&b)).is_ok(), "refused");
            let mut d = e.create_decoder();
            want_eq!(d.get_varint64().ok(), Some(v), "first field");
            let s: Option<Vec<u8>> = d.get_length_prefixed_slice().ok().map(|s| s.into());
            want_eq!(s, Some(b.clone()), "second field");
            want!(!d.can_get(), "left over");
            V::Ok
        });
    }
    c.family("long strings and many fields");
    for (i, n) in [65535usize, 65536, (1 << 21) - 1, 1 << 21, (1 << 21) + 5].into_iter().enumerate() {
        let kind = KINDS[i % KINDS.len()];
        let b = c.rng.bytes(n);
        for checked in [true, false] {
            c.case(|| format!("length-prefixed string of {} bytes in {:?}, checked={}", n, kind, checked), || c04_one(kind, &[Put::V64(300), Put::Lps(b.clone()), Put::F32(9), Put::Lps(b[..200].to_vec())], checked));
        }
    }
    for kind in KINDS {
        let fields: Vec<Put> = (0..6000usize).map(|i| { let v = c.rng.value64(); match i % 6 { 0 => Put::F32(v as u32), 1 => Put::F64(v), 2 => Put::V32(v as u32), 3 => Put::V64(v), 4 => { let n = c.rng.below(30); Put::Raw(c.rng.nasty(n)) } _ => { let n = c.rng.below(300); Put::Lps(c.rng.nasty(n)) } } }).collect();
        c.case(|| format!("6000 fields in {:?}", kind), || c04_one(kind, &fields, true));
    }
}
