use crate::ctx::*;
use crate::spec;
use crate::{want, want_eq};
use level_db_rust::db::db_format::{pack_sequence_and_type, InternalKey, LookupKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::version_edit::{Tag, VersionEdit};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use std::sync::Arc;

const MAX_SEQ: u64 = (1 << 56) - 1;
fn seq(c: &mut Ctx) -> u64 { c.rng.value64() & MAX_SEQ }
fn vt(t: u64) -> ValueType { if t == 0 { ValueType::KTypeDeletion } else { ValueType::KTypeValue } }
const KEY_LENS: [usize; 18] = [0, 1, 2, 7, 8, 100, 118, 119, 120, 121, 127, 128, 129, 1000, 16375, 16376, 16377, 70000];

pub fn c19(c: &mut Ctx) {
    c.family("packing");
    for i in 0..c.n(5000, 100000) {
        let s = match i { 0 => 0, 1 => MAX_SEQ, 2..=57 => (1u64 << (i - 2)) & MAX_SEQ, _ => seq(c) };
        c.case(|| format!("sequence {:#x}", s), || {
            for t in 0..2u64 {
                want_eq!(vt(t).get_value() as u64, t, "type code");
                want_eq!(pack_sequence_and_type(s as usize, vt(t)), s * 256 + t, "packed with type {}", t);
            }
            V::Ok
        });
    }
    c.family("type codes");
    for v in (-300i32..=300).chain([i32::MIN, i32::MAX, 256, 257]) {
        c.case(|| format!("code {}", v), || {
            match ValueType::try_from(v) {
                Ok(t) => { want!(v == 0 || v == 1, "code {} is accepted", v); want_eq!(t.get_value() as i32, v, "code"); }
                Err(_) => want!(v != 0 && v != 1, "code {} is refused", v),
            }
            V::Ok
        });
    }
    c.family("lookup keys");
    let n = c.n(2000, 30000);
    for i in 0..n + KEY_LENS.len() {
        let len = if i < KEY_LENS.len() { KEY_LENS[i] } else if c.rng.below(10) == 0 { *c.rng.pick(&KEY_LENS) } else { c.rng.below(300) };
        let k = c.rng.nasty(len);
        let s = seq(c);
        c.case(|| format!("sequence {:#x}, key {}", s, hex(&k)), || {
            let l = LookupKey::new(Slice::from_buf(&k), s as usize);
            let mut internal = k.clone();
            internal.extend(spec::fixed64(s * 256 + 1));
            let mut all = spec::varint(k.len() as u64 + 8);
            all.extend_from_slice(&internal);
            want!(l.mem_table_key().as_ref() == &all[..], "memtable key: got {}, want {}", hex(l.mem_table_key().as_ref()), hex(&all));
            want!(l.internal_key().as_ref() == &internal[..], "internal key: got {}, want {}", hex(l.internal_key().as_ref()), hex(&internal));
            want!(l.mem_table_key().as_ref() == &all[..], "memtable key asked for again");
            V::Ok
        });
    }
}

fn entry(s: u64, t: u64, k: &[u8], v: &[u8]) -> Vec<u8> {
    let mut e = spec::varint(k.len() as u64 + 8);
    e.extend_from_slice(k);
    e.extend(spec::fixed64(s * 256 + t));
    e.extend(spec::lps(v));
    e
}
fn c20_history(adds: &[(u64, u64, Vec<u8>, Vec<u8>)]) -> V {
    let mut m = MemTable::create(Arc::new(BytewiseComparatorImpl::default()));
    let mut want_e: Vec<Vec<u8>> = vec![];
    for (i, (s, t, k, v)) in adds.iter().enumerate() {
        let e = entry(*s, *t, k, v);
        let ty = if *t == 0 { ValueType::KTypeDeletion } else { ValueType::KTypeValue };
        let r = if i % 2 == 0 { m.add(*s as usize, ty, &Slice::from_buf(k), &Slice::from_buf(v)) } else { m.add(*s as usize, ty, &k.as_slice(), &v.as_slice()) };
        want!(r.is_ok(), "addition {} failed", i);
        if let Err(p) = want_e.binary_search(&e) { want_e.insert(p, e); }
        want!(m.approximate_memory_usage() > 0, "memory usage is zero");
        #[cfg(verif_inspect)]
        {
            want_eq!(m.verif_list().len(), want_e.len(), "entries after addition {}", i);
            if adds.len() < 20 || i % 16 == 0 || i + 1 == adds.len() {
                let got: Vec<Vec<u8>> = m.verif_list().iter().map(|u| u.as_ref().to_vec()).collect();
                want!(got == want_e, "entries after addition {}: got {:?}, want {:?}", i, got.iter().map(|e| hex(e)).collect::<Vec<_>>(), want_e.iter().map(|e| hex(e)).collect::<Vec<_>>());
            }
        }
    }
    V::Ok
}
pub fn c20(c: &mut Ctx) {
    c.family("key and value lengths");
    for &kl in &KEY_LENS { for &vl in &[0usize, 1, 127, 128, 16383, 16384] {
        let (k, v, s) = (c.rng.nasty(kl), c.rng.nasty(vl), seq(c));
        let t = c.rng.next() & 1;
        c.case(|| format!("sequence {:#x}, type {}, key of {} bytes {}, value of {} bytes {}", s, t, kl, hex(&k), vl, hex(&v)), || c20_history(&[(s, t, k.clone(), v.clone()), (s, 1 - t, k.clone(), v.clone()), (s, t, v.clone(), k.clone())]));
    } }
    c.family("sequence numbers");
    for b in 0..56 {
        for s in [1u64 << b, (1u64 << b) - 1, MAX_SEQ >> b] {
            c.case(|| format!("sequence {:#x}", s), || c20_history(&[(s, 0, b"k".to_vec(), b"v".to_vec()), (s, 1, b"k".to_vec(), b"".to_vec())]));
        }
    }
    c.family("random histories");
    for _ in 0..c.n(300, 5000) {
        let n = 1 + c.rng.below(50);
        let a: Vec<(u64, u64, Vec<u8>, Vec<u8>)> = (0..n).map(|_| {
            let kl = if c.rng.below(15) == 0 { *c.rng.pick(&KEY_LENS) } else { c.rng.below(8) };
            let vl = if c.rng.below(15) == 0 { c.rng.below(3000) } else { c.rng.below(20) };
            (seq(c) % 50, c.rng.next() & 1, c.rng.nasty(kl), c.rng.nasty(vl))
        }).collect();
        c.case(|| format!("additions {:?}", a.iter().map(|x| format!("{}:{}:{}={}", x.0, x.1, hex(&x.2), hex(&x.3))).collect::<Vec<_>>()), || c20_history(&a));
    }
    c.family("long histories");
    let a: Vec<(u64, u64, Vec<u8>, Vec<u8>)> = (0..1500).map(|_| { let kl = c.rng.below(9); let vl = c.rng.below(60); (seq(c) % 5000, c.rng.next() & 1, c.rng.nasty(kl), c.rng.nasty(vl)) }).collect();
    c.case(|| "1500 additions".into(), || c20_history(&a));
}

#[derive(Clone, Debug)]
enum E { Cmp(String), Log(u64), Prev(u64), Next(u64), Last(u64), Ptr(u32, Vec<u8>), Del(u32, u64), New(u32, u64, u64, Vec<u8>, Vec<u8>), Clear }
#[cfg(verif_inspect)]
fn ikey(b: &[u8]) -> InternalKey { InternalKey::verif_from_slice(Slice::from_buf(b)) }
#[cfg(not(verif_inspect))]
fn ikey(_: &[u8]) -> InternalKey { InternalKey::default() }
fn kb(b: &[u8]) -> Vec<u8> { if cfg!(verif_inspect) { b.to_vec() } else { vec![] } }

#[derive(Default)]
struct Ed { cmp: Option<String>, log: Option<u64>, prev: Option<u64>, next: Option<u64>, last: Option<u64>, ptr: Vec<(u32, Vec<u8>)>, del: Vec<(u32, u64)>, new: Vec<(u32, u64, u64, Vec<u8>, Vec<u8>)> }
impl Ed {
    fn apply(&mut self, e: &E) {
        match e.clone() {
            E::Cmp(s) => self.cmp = Some(s), E::Log(n) => self.log = Some(n), E::Prev(n) => self.prev = Some(n), E::Next(n) => self.next = Some(n), E::Last(n) => self.last = Some(n),
            E::Ptr(l, k) => self.ptr.push((l, kb(&k))), E::Del(l, n) => self.del.push((l, n)), E::New(l, n, z, a, b) => self.new.push((l, n, z, kb(&a), kb(&b))),
            E::Clear => { let p = std::mem::take(&mut self.ptr); *self = Ed { ptr: p, ..Ed::default() } }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        let v = |o: &mut Vec<u8>, x: u64| o.extend(spec::varint(x));
        if let Some(s) = &self.cmp { v(&mut o, 1); o.extend(spec::lps(s.as_bytes())); }
        if let Some(n) = self.log { v(&mut o, 2); v(&mut o, n); }
        if let Some(n) = self.prev { v(&mut o, 9); v(&mut o, n); }
        if let Some(n) = self.next { v(&mut o, 3); v(&mut o, n); }
        if let Some(n) = self.last { v(&mut o, 4); v(&mut o, n); }
        for (l, k) in &self.ptr { v(&mut o, 5); v(&mut o, *l as u64); o.extend(spec::lps(k)); }
        for (l, n) in &self.del { v(&mut o, 6); v(&mut o, *l as u64); v(&mut o, *n); }
        for (l, n, z, a, b) in &self.new { v(&mut o, 7); v(&mut o, *l as u64); v(&mut o, *n); v(&mut o, *z); o.extend(spec::lps(a)); o.extend(spec::lps(b)); }
        o
    }
}
fn c21_history(ops: &[E]) -> V {
    let mut e = VersionEdit::new();
    let mut m = Ed::default();
    let check = |e: &VersionEdit, m: &Ed, n: usize| -> V {
        let mut got = vec![];
        want!(e.encode_to(&mut got).is_ok(), "encoding failed after step {}", n);
        let w = m.bytes();
        want!(got == w, "after step {}: got {}, want {}", n, hex(&got), hex(&w));
        let mut again = vec![];
        want!(e.encode_to(&mut again).is_ok() && again == w, "encoding again gives something else");
        V::Ok
    };
    if let V::Fail(x) = check(&e, &m, 0) { return V::Fail(x); }
    for (n, op) in ops.iter().enumerate() {
        match op.clone() {
            E::Cmp(s) => e.set_comparator_name(Slice::from(s.as_str())),
            E::Log(n) => e.set_log_number(n), E::Prev(n) => e.set_prev_log_number(n), E::Next(n) => e.set_next_file(n), E::Last(n) => e.set_last_sequence(n),
            E::Ptr(l, k) => e.set_compact_pointer(l, ikey(&k)), E::Del(l, n) => e.delete_file(l, n),
            E::New(l, n, z, a, b) => e.add_file(l, n, z, ikey(&a), ikey(&b)),
            E::Clear => e.clear(),
        }
        m.apply(op);
        if let V::Fail(x) = check(&e, &m, n + 1) { return V::Fail(x); }
    }
    V::Ok
}
pub fn c21(c: &mut Ctx) {
    c.family("tags");
    for t in (0..=300u32).chain([u32::MAX, 0x8000_0001]) {
        c.case(|| format!("code {}", t), || {
            match Tag::from_value(t) { Some(x) => { want!((1..=9).contains(&t) && t != 8, "code {} is a tag", t); want_eq!(x.get_value() as u32, t, "code of the tag"); } None => want!(!((1..=9).contains(&t) && t != 8), "code {} is no tag", t) }
            V::Ok
        });
    }
    c.case(|| "tag names".into(), || {
        let v = [Tag::k_comparator, Tag::kLogNumber, Tag::kNextFileNumber, Tag::kLastSequence, Tag::kCompactPointer, Tag::kDeletedFile, Tag::kNewFile, Tag::kPrevLogNumber].map(|t| t.get_value());
        want_eq!(v, [1, 2, 3, 4, 5, 6, 7, 9], "codes");
        V::Ok
    });
    c.family("constructors");
    for i in 0..64u32 {
        let n = 1u64 << i;
        c.case(|| format!("number {}", n), || {
            let mut a = vec![]; let mut b = vec![];
            want!(VersionEdit::new_with_log_number(n).encode_to(&mut a).is_ok() && VersionEdit::new_with_prev_log_number(n).encode_to(&mut b).is_ok(), "encoding failed");
            let mut w = vec![2]; w.extend(spec::varint(n)); want_eq!(a, w, "log number");
            let mut w = vec![9]; w.extend(spec::varint(n)); want_eq!(b, w, "previous log number");
            V::Ok
        });
    }
    c.family("single fields");
    for i in 0..c.n(300, 5000) {
        let n = if i < 64 { 1u64 << i } else { c.rng.value64() };
        let l = c.rng.value64() as u32;
        let kl = match c.rng.below(5) { 0 => *c.rng.pick(&KEY_LENS), _ => c.rng.below(20) };
        let (k, k2) = (c.rng.nasty(kl), c.rng.nasty(5));
        let z = c.rng.value64();
        let name: String = k.iter().map(|b| (b & 127) as char).collect();
        let ops = match i % 8 { 0 => E::Cmp(name), 1 => E::Log(n), 2 => E::Prev(n), 3 => E::Next(n), 4 => E::Last(n), 5 => E::Ptr(l, k), 6 => E::Del(l, n), _ => E::New(l, n, z, k, k2) };
        c.case(|| clip(&format!("{:?}", ops), 400), || c21_history(&[ops.clone()]));
    }
    c.family("random histories");
    for _ in 0..c.n(800, 20000) {
        let n = c.rng.below(25);
        let ops: Vec<E> = (0..n).map(|_| {
            let x = c.rng.value64(); let l = c.rng.value64() as u32; let kl = c.rng.below(12);
            let k = c.rng.nasty(kl); let kl = c.rng.below(12); let k2 = c.rng.nasty(kl);
            match c.rng.below(10) { 0 => E::Cmp(format!("cmp-{}", x)), 1 => E::Log(x), 2 => E::Prev(x), 3 => E::Next(x), 4 => E::Last(x), 5 => E::Ptr(l, k), 6 => E::Del(l, x), 7 | 8 => E::New(l, x, c.rng.value64(), k, k2), _ => E::Clear }
        }).collect();
        c.case(|| clip(&format!("{:?}", ops), 1500), || c21_history(&ops));
    }
    c.family("long histories");
    for n in [130usize, 300, 700] {
        let ops: Vec<E> = (0..n).map(|_| { let x = c.rng.value64(); let l = c.rng.value64() as u32; let kl = c.rng.below(12); let k = c.rng.nasty(kl); let k2 = c.rng.nasty(3);
            match c.rng.below(3) { 0 => E::Ptr(l, k), 1 => E::Del(l, x), _ => E::New(l, x, c.rng.value64(), k, k2) } }).collect();
        c.case(|| format!("{} pointers, deletions and new files: {}", n, clip(&format!("{:?}", ops), 300)), || c21_history(&ops));
    }
    for n in [16383usize, 16384, 65535, 65536, 70000] {
        let (k, k2) = (c.rng.nasty(n), c.rng.nasty(n + 1));
        let name: String = k.iter().map(|b| (b & 127) as char).collect();
        c.case(|| format!("keys and a name of {} bytes", n), || c21_history(&[E::Cmp(name.clone()), E::Ptr(3, k.clone()), E::New(2, 1, 2, k.clone(), k2.clone())]));
    }
}
