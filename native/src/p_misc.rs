use crate::ctx::*;
use crate::spec;
use crate::{want, want_eq};
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use std::sync::Arc;

fn errs() -> Vec<LevelError> { use LevelError::*; vec![KOk, KNotFound, KCorruption, KNotSupported, KInvalidArgument, KIOError, KBadRecord, KRepeatedRecord] }
const PREFIX: [&str; 8] = ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "wal bad record", "repeated record"];
fn err(i: usize) -> LevelError { errs().into_iter().nth(i).unwrap() }
fn check_status(s: Status, i: usize, msg: &str) -> V {
    let p = [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()];
    for (j, x) in p.iter().enumerate() { want_eq!(*x, i == j, "predicate {} on kind {}", j, i); }
    want!(s.get_msg() == msg, "message: got {:?}, want {:?}", s.get_msg(), msg);
    let w = if i == 0 { "OK".to_string() } else { format!("{}{}", PREFIX[i], msg) };
    let r = s.to_string();
    want!(r == w, "rendering: got {:?}, want {:?}", r, w);
    V::Ok
}
fn joined(a: &str, b: &str) -> String { if b.is_empty() { a.to_string() } else { format!("{}: {}", a, b) } }
fn c22_messages(a: &str, b: &str) -> V {
    for i in 0..8 {
        let one = if i == 0 { "" } else { a };
        for s in [Status::wrapper(err(i), a.into()), Status::wrapper_str(err(i), a)] {
            if let V::Fail(m) = check_status(s, i, one) { return V::Fail(format!("kind {}, single message: {}", i, m)); }
        }
        if let V::Fail(m) = check_status(Status::wrappers(err(i), a.into(), b.into()), i, &joined(a, b)) { return V::Fail(format!("kind {}, two parts: {}", i, m)); }
        want_eq!(Status::wrapper(err(i), a.into()).get_error().get_value(), i as i32, "kind of a status");
        let m: Slice = Status::wrappers(err(i), a.into(), b.into()).into_msg();
        want!(m.as_ref() == joined(a, b).as_bytes(), "into_msg");
    }
    let made = [
        (1, LevelError::not_found(a.into(), b.into())), (2, LevelError::corruption(a.into(), b.into())), (2, LevelError::corruption_string(a, b)),
        (3, LevelError::not_supported(a.into(), b.into())), (4, LevelError::invalid_argument(a.into(), b.into())), (5, LevelError::io_error(a.into(), b.into())),
    ];
    for (n, (i, s)) in made.into_iter().enumerate() {
        if let V::Fail(m) = check_status(s, i, &joined(a, b)) { return V::Fail(format!("constructor {}: {}", n, m)); }
    }
    if let V::Fail(m) = check_status(LevelError::repeated_record(a.into()), 7, a) { return V::Fail(format!("repeated_record: {}", m)); }
    let io = std::io::Error::new(std::io::ErrorKind::Other, a.to_string());
    if let V::Fail(m) = check_status(Status::from(io), 5, a) { return V::Fail(format!("from an io error: {}", m)); }
    V::Ok
}
pub fn c22(c: &mut Ctx) {
    c.family("codes");
    for v in (-70000i32..=70000).step_by(c.n(7, 1)).chain(-20..=20).chain((0..32).flat_map(|b| (0..9).map(move |k| (1i32 << b).wrapping_add(k)))).chain([i32::MIN, i32::MAX, i32::MIN + 3]) {
        c.case(|| format!("code {}", v), || {
            match LevelError::try_from(v) {
                Ok(e) => { want!((0..8).contains(&v), "code {} is accepted", v); want_eq!(e.get_value(), v, "code"); }
                Err(_) => want!(!(0..8).contains(&v), "code {} is refused", v),
            }
            V::Ok
        });
    }
    c.family("kinds");
    for i in 0..8usize {
        c.case(|| format!("kind {}", i), || {
            let e = err(i);
            want_eq!(e.get_value(), i as i32, "code");
            let p = [e.is_ok(), e.is_not_found(), e.is_corruption(), e.is_not_supported_error(), e.is_invalid_argument(), e.is_io_error(), false, e.is_repeated_record()];
            for j in 0..8 { if j != 6 { want_eq!(p[j], i == j, "predicate {}", j); } }
            let b = match LevelError::try_from(i as i32) { Ok(b) => b, Err(_) => return V::Fail("refused".into()) };
            want_eq!(std::mem::discriminant(&b), std::mem::discriminant(&e), "kind of code {}", i);
            V::Ok
        });
    }
    c.case(|| "default and ok".into(), || {
        if let V::Fail(m) = check_status(Status::default(), 0, "") { return V::Fail(m); }
        want!(LevelError::default().is_ok(), "default error kind");
        check_status(LevelError::ok(), 0, "")
    });
    c.family("messages");
    let fixed = ["", "a", ": ", "IO error", "\u{0}", "中文", "a: b", "x\n"];
    for a in fixed { for b in fixed { c.case(|| format!("{:?} and {:?}", a, b), || c22_messages(a, b)); } }
    for _ in 0..c.n(500, 8000) {
        let (n, m) = (c.rng.below(60), c.rng.below(30));
        let a = String::from_utf8_lossy(&c.rng.nasty(n)).into_owned();
        let b = String::from_utf8_lossy(&c.rng.nasty(m)).into_owned();
        c.case(|| format!("{:?} and {:?}", a, b), || c22_messages(&a, &b));
    }
}

#[cfg(verif_inspect)]
fn c23_check(h: &Histogram, vals: &[f64]) -> V {
    let lim = spec::histogram_limits();
    let n = lim.len();
    let mut b = vec![0f64; n];
    let (mut min, mut max, mut sum, mut sq) = (1e200f64, 0f64, 0f64, 0f64);
    for v in vals {
        let i = lim.iter().take(n - 1).position(|l| v < l).unwrap_or(n - 1);
        b[i] += 1.0;
        if *v < min { min = *v } if *v > max { max = *v }
        sum += v; sq += v * v;
    }
    want_eq!(Histogram::VERIF_BUCKETS, n, "number of buckets");
    want_eq!(h.verif_summary(), [min, max, vals.len() as f64, sum, sq], "minimum, maximum, count, sum, sum of squares");
    for i in 0..n { want!(h.verif_bucket(i) == b[i], "bucket {} (below {}): got {}, want {}", i, lim[i], h.verif_bucket(i), b[i]); }
    V::Ok
}
/// without inspection: count, minimum, maximum and bucket counts as rendered
#[cfg(not(verif_inspect))]
fn c23_check(h: &Histogram, vals: &[f64]) -> V {
    if vals.is_empty() { return V::Ok; }
    let t = format!("{}", h);
    want!(t.starts_with(&format!("Count: {:.0} ", vals.len())), "count in {}", t);
    let (mut min, mut max) = (1e200f64, 0f64);
    for v in vals { min = min.min(*v); max = max.max(*v); }
    want!(t.contains(&format!("Min: {:.4} ", min)) && t.contains(&format!("Max: {:.4} ", max)), "minimum and maximum in {}", t);
    let lim = spec::histogram_limits();
    let n = lim.len();
    for i in 0..n {
        let k = vals.iter().filter(|v| lim.iter().take(n - 1).position(|l| *v < l).unwrap_or(n - 1) == i).count();
        let row = format!("[ {:>7.0}, {:>7.0} ) {:>7.0} ", if i == 0 { 0.0 } else { lim[i - 1] }, lim[i], k as f64);
        if k > 0 { want!(t.contains(&row), "row {:?} in {}", row, t); }
    }
    V::Ok
}
pub fn c23(c: &mut Ctx) {
    c.family("every bucket limit");
    let mut vals = vec![0.0f64, 0.5, 0.999, f64::MIN_POSITIVE, 1e199, 1e200, 2e200, 9.5e9, 1e10];
    for l in spec::histogram_limits() { let b = l.to_bits(); vals.extend([l, f64::from_bits(b - 1), f64::from_bits(b + 1), l + 0.5]); }
    for v in vals.clone() {
        c.case(|| format!("value {:e}", v), || {
            let mut h = Histogram::default();
            if let V::Fail(m) = c23_check(&h, &[]) { return V::Fail(format!("empty: {}", m)); }
            h.add(v);
            if let V::Fail(m) = c23_check(&h, &[v]) { return V::Fail(m); }
            h.clear();
            c23_check(&h, &[])
        });
    }
    c.family("merging two histograms of few values");
    let big = [0.0f64, 0.5, 1.0, 999.0, 8.999e9, 9e9, 9e9 + 1.0, 1e12, 1e100, 1e199, 1e200, 2e200];
    for a in vals.iter().step_by(7).chain(big.iter()) {
        for b in big.iter() {
            c.case(|| format!("{:e} merged with {:e}", a, b), || {
                for (x, y) in [(vec![*a], vec![*b]), (vec![*a], vec![]), (vec![], vec![*b]), (vec![*b], vec![*a])] {
                    let (mut h, mut o) = (Histogram::default(), Histogram::default());
                    for v in &x { h.add(*v); }
                    for v in &y { o.add(*v); }
                    h.merge(&o);
                    let all: Vec<f64> = x.iter().chain(y.iter()).cloned().collect();
                    if let V::Fail(m) = c23_check(&h, &all) { return V::Fail(format!("{:?} + {:?}: {}", x, y, m)); }
                    if let V::Fail(m) = c23_check(&o, &y) { return V::Fail(format!("merged-in histogram {:?}: {}", y, m)); }
                    h.clear();
                    if let V::Fail(m) = c23_check(&h, &[]) { return V::Fail(format!("cleared: {}", m)); }
                }
                V::Ok
            });
        }
    }
    c.family("histories with merges and clears");
    for _ in 0..c.n(1500, 30000) {
        let k = c.rng.below(30);
        // integers below 2^22, so that all sums are exact in any order
        let ops: Vec<(usize, u64)> = (0..k).map(|_| { let b = c.rng.below(23); (c.rng.below(14), if b == 0 { 0 } else { c.rng.next() >> (64 - b) }) }).collect();
        c.case(|| format!("{:?} (0..=8 add to 1st, 9,10 add to 2nd, 11 merge 2nd into 1st, 12 merge 1st into 2nd, 13 clear 1st)", ops), || {
            let mut h = [Histogram::default(), Histogram::default()];
            let mut m: [Vec<f64>; 2] = [vec![], vec![]];
            for (n, (o, v)) in ops.iter().enumerate() {
                match o {
                    0..=8 => { h[0].add(*v as f64); m[0].push(*v as f64); }
                    9 | 10 => { h[1].add(*v as f64); m[1].push(*v as f64); }
                    11 => { let (a, b) = h.split_at_mut(1); a[0].merge(&b[0]); let x = m[1].clone(); m[0].extend(x); }
                    12 if m[1].len() < 200 => { let (a, b) = h.split_at_mut(1); b[0].merge(&a[0]); let x = m[0].clone(); m[1].extend(x); }
                    12 => {}
                    _ => { h[0].clear(); m[0].clear(); }
                }
                if m[0].len() > 3000 { h[0].clear(); m[0].clear(); }
                for i in 0..2 { if let V::Fail(e) = c23_check(&h[i], &m[i]) { return V::Fail(format!("after step {}, histogram {}: {}", n, i, e)); } }
            }
            V::Ok
        });
    }
}

const M: u32 = 0x7fff_ffff;
fn c24_seed(s: u32, draws: usize) -> V {
    let mut r = Random::new(s);
    let mut q = Random::new(if s == 0 || s == M { 1 } else { s });
    for i in 0..draws {
        let x = r.next();
        want!(x >= 1 && x <= M, "draw {} from seed {} is {}", i, s, x);
        want_eq!(q.next(), x, "draw {} from an equal seed", i);
    }
    V::Ok
}
pub fn c24(c: &mut Ctx) {
    c.family("special seeds");
    let mut seeds: Vec<u32> = vec![0, 1, M, M - 1, M.wrapping_add(1), M + 2, u32::MAX, u32::MAX - 1, 301, 0xdeadbeef];
    for b in 0..32 { seeds.extend([1u32 << b, (1u32 << b).wrapping_sub(1), (1u32 << b).wrapping_add(1)]); }
    // states whose product has all low 31 bits zero or all ones
    let inv = { let mut x: u32 = 1; for _ in 0..6 { x = x.wrapping_mul(2u32.wrapping_sub(16807u32.wrapping_mul(x))); } x };
    for p in [0x8000_0000u32, M, u32::MAX, 1, 2, 0x8000_0001, 0xffff_fffe] { seeds.push(p.wrapping_mul(inv)); }
    for s in seeds.clone() { c.case(|| format!("seed {}", s), || c24_seed(s, 2000)); }
    c.family("random seeds");
    for _ in 0..c.n(2000, 50000) { let s = c.rng.next() as u32; c.case(|| format!("seed {}", s), || c24_seed(s, 200)); }
    c.family("one draw from strided seeds");
    let step = c.n(1009, 1) as u64;
    let mut x = 0u64;
    while x < 1 << 32 {
        let from = x;
        let n = 1u64 << 18;
        c.case(|| format!("seeds {}.. in steps of {}", from, step), || {
            let mut s = from;
            let mut k = 0;
            while k < n && s < 1 << 32 {
                let v = Random::new(s as u32).next();
                want!(v >= 1 && v <= M, "first draw from seed {} is {}", s, v);
                s += step; k += 1;
            }
            V::Ok
        });
        x += n * step;
    }
    c.family("derived draws");
    for i in 0..c.n(3000, 60000) {
        let s = if i < seeds.len() { seeds[i] } else { c.rng.next() as u32 };
        let n = match c.rng.below(6) { 0 => 1, 1 => u32::MAX, 2 => M, 3 => 2, _ => 1 + (c.rng.next() as u32 >> (1 + c.rng.below(31))) };
        c.case(|| format!("seed {}, n {}", s, n), || {
            let (mut r, mut q) = (Random::new(s), Random::new(s));
            for _ in 0..5 {
                let x = q.next();
                want_eq!(r.uniform(n), x % n, "uniform draw after raw value {}", x);
                let x = q.next();
                want_eq!(r.one_in(n), x % n == 0, "one-in-{} draw after raw value {}", n, x);
                let x = q.next();
                want_eq!(r.next_bool(), x % 2 == 0, "bool draw");
            }
            for m in 0..=31u32 {
                for _ in 0..3 { let v = r.skewed(m); want!((v as u64) < 1u64 << m, "skewed draw with {} is {}", m, v); }
            }
            V::Ok
        });
    }
    c.family("every value at every skew");
    c.case(|| "skewed draws reach all bit lengths".into(), || {
        let mut r = Random::new(17);
        let mut seen = [false; 33];
        for _ in 0..200000 { let v = r.skewed(31); seen[(32 - v.leading_zeros()) as usize] = true; }
        want!(seen[..=20].iter().all(|x| *x), "bit lengths never drawn");
        V::Ok
    });
}

/// a policy whose filter tells exactly which keys it was made of
struct Recorder;
impl FilterPolicy for Recorder {
    fn name(&self) -> String { "recorder".into() }
    fn create_filter(&self, keys: Vec<&Slice>) -> Slice { self.create_filter_with_len(keys.len(), keys) }
    fn create_filter_with_len(&self, _: usize, keys: Vec<&Slice>) -> Slice { Slice::from_vec(record(&keys.iter().map(|k| k.as_ref().to_vec()).collect::<Vec<_>>())) }
    fn key_may_match(&self, _: &Slice, _: &Slice) -> bool { true }
}
fn record(keys: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![0xaa, keys.len() as u8]; for k in keys { o.push(k.len() as u8); o.extend_from_slice(k); } o }

fn filter_block(blocks: &[(u64, Vec<Vec<u8>>)], make: &dyn Fn(&[Vec<u8>]) -> Vec<u8>) -> Vec<u8> {
    let mut body = vec![];
    let mut offs: Vec<usize> = vec![];
    if let Some(last) = blocks.last() {
        let end = last.0 / 2048;
        for g in 0..=end {
            let keys: Vec<Vec<u8>> = blocks.iter().filter(|b| b.0 / 2048 == g).flat_map(|b| b.1.clone()).collect();
            if g == end && keys.is_empty() { break; }
            offs.push(body.len());
            if !keys.is_empty() { body.extend(make(&keys)); }
        }
    }
    let at = body.len();
    for o in offs { body.extend(spec::fixed32(o as u32)); }
    body.extend(spec::fixed32(at as u32));
    body.push(11);
    body
}
fn c25_one(blocks: &[(u64, Vec<Vec<u8>>)], bloom: bool, text: bool) -> V {
    let policy: Box<dyn FilterPolicy> = if bloom { Box::new(BloomFilterPolicy::new_with_bits_per_key(10)) } else { Box::new(Recorder) };
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(policy));
    for (off, keys) in blocks {
        b.start_block(*off);
        for k in keys { if text { b.add_key_from_str(std::str::from_utf8(k).unwrap()) } else { b.add_key(&Slice::from_buf(k)) } }
    }
    let got = match b.finish() { Ok(s) => s, Err(_) => return V::Fail("finish failed".into()) };
    let w = if bloom { filter_block(blocks, &|k| spec::bloom(k, k.len(), 10)) } else { filter_block(blocks, &|k| record(k)) };
    want!(got.as_ref() == &w[..], "filter block: got {}, want {}", hex(got.as_ref()), hex(&w));
    V::Ok
}
pub fn c25(c: &mut Ctx) {
    let show = |b: &[(u64, Vec<Vec<u8>>)]| clip(&b.iter().map(|x| format!("{}:{:?}", x.0, x.1.iter().map(|k| hex(k)).collect::<Vec<_>>())).collect::<Vec<_>>().join(" "), 1500);
    c.family("no block");
    for bloom in [false, true] { c.case(|| "finish without a block".into(), || c25_one(&[], bloom, false)); }
    c.family("two blocks around range limits");
    for a in [0u64, 1, 2046, 2047, 2048, 2049, 4095, 4096, 10000, 65536] {
        for d in [0u64, 1, 2046, 2047, 2048, 2049, 4095, 4096, 9000, 100000] {
            for (ka, kb) in [(0usize, 0usize), (1, 0), (0, 1), (2, 3)] {
                let blocks: Vec<(u64, Vec<Vec<u8>>)> = vec![(a, (0..ka).map(|i| vec![b'a' + i as u8; i + 1]).collect()), (a + d, (0..kb).map(|i| vec![0xff; i]).collect())];
                c.case(|| show(&blocks), || c25_one(&blocks, false, false));
            }
        }
    }
    c.family("random sequences");
    for i in 0..c.n(1500, 30000) {
        let n = 1 + c.rng.below(12);
        let mut off = if c.rng.below(3) == 0 { c.rng.below(9000) as u64 } else { 0 };
        let text = i % 4 == 0;
        let blocks: Vec<(u64, Vec<Vec<u8>>)> = (0..n).map(|_| {
            off += match c.rng.below(6) { 0 => 0, 1 => 2048 * c.rng.below(4) as u64, 2 => c.rng.below(30000) as u64, _ => c.rng.below(2500) as u64 };
            let k = c.rng.below(5);
            (off, (0..k).map(|_| { let l = c.rng.below(8); let k = c.rng.nasty(l); if text { k.iter().map(|b| b & 127).collect() } else { k } }).collect())
        }).collect();
        c.case(|| show(&blocks), || c25_one(&blocks, i % 2 == 0, text));
    }
    c.family("many keys and far blocks");
    c.case(|| "300 keys in one range, then a block 4 MB away".into(), || {
        c25_one(&[(5, (0..300).map(|i| format!("key{}", i).into_bytes()).collect()), (4 << 20, vec![b"z".to_vec()])], true, false)
    });
    c.family("long sequences");
    for (i, per) in [1usize, 1, 2, 0, 3].into_iter().enumerate() {
        for n in [130usize, 300, 700] {
            let blocks: Vec<(u64, Vec<Vec<u8>>)> = (0..n).map(|b| (2048 * b as u64 + if i == 1 { 77 } else { 0 }, (0..if per == 0 { b % 3 } else { per }).map(|k| vec![b as u8, (b >> 8) as u8, k as u8]).collect())).collect();
            c.case(|| format!("{} ranges of {} keys", n, if per == 0 { "0 to 2".into() } else { per.to_string() }), || c25_one(&blocks, i % 2 == 0, false));
        }
    }
    let blocks: Vec<(u64, Vec<Vec<u8>>)> = (0..40u64).map(|b| (2048 * b, (0..3000usize).map(|k| format!("{}-{}", b, k).into_bytes()).collect())).collect();
    c.case(|| "40 ranges of 3000 keys".into(), || c25_one(&blocks, true, false));
    let long: Vec<u8> = c.rng.bytes(70000);
    c.case(|| "keys of 70000 bytes".into(), || c25_one(&[(0, vec![long.clone(), b"a".to_vec()]), (5000, vec![long[1..].to_vec()])], true, false));
}

fn c26_pair(a: &[u8], b: &[u8], joiner: Option<String>) -> V {
    let s = Slice::from_buf(a);
    let t = Slice::from_buf(b);
    want_eq!(s.starts_with(&t), a.starts_with(b), "starts_with");
    want!(s.as_ref() == a && t.as_ref() == b, "starts_with changed an operand");
    let mut m = s.clone();
    m.merge(t.clone(), joiner.clone());
    let mut w = a.to_vec();
    if !b.is_empty() { if let Some(j) = &joiner { w.extend_from_slice(j.as_bytes()); } w.extend_from_slice(b); }
    want!(m.as_ref() == &w[..], "joined: got {}, want {}", hex(m.as_ref()), hex(&w));
    want!(s.as_ref() == a, "joining changed another slice");
    V::Ok
}
fn c26_one(a: &[u8]) -> V {
    let n = a.len();
    let s = Slice::from_buf(a);
    want!(s.as_ref() == a, "from_buf");
    want!(Slice::from_vec(a.to_vec()).as_ref() == a, "from_vec");
    want!(s.clone().as_ref() == a, "clone");
    let v: Vec<u8> = s.clone().into();
    want!(v == a, "into a vector");
    want_eq!(s.size(), n, "size");
    want_eq!(s.empty(), n == 0, "empty");
    if let Ok(t) = std::str::from_utf8(a) {
        want!(Slice::from(t).as_ref() == a && Slice::from(t.to_string()).as_ref() == a && Slice::from(&t.to_string()).as_ref() == a, "from text");
        want!(s.as_str() == t, "as_str");
        want!(String::from(s.clone()) == t, "into text");
        want!(format!("{}", s) == t, "rendering");
    }
    for i in 0..n { want_eq!(s[i], a[i], "index {}", i); }
    for i in [n, n + 1, usize::MAX] { want!(panics(|| s[i]), "index {} of {} is not refused", i, n); }
    let points: Vec<usize> = if n <= 12 { (0..=n + 2).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1, n + 2] };
    for &i in &points {
        if i <= n {
            want!(s.remove_prefix(i).as_ref() == &a[i..], "remove_prefix({})", i);
            want!(s[i..] == a[i..], "range {}..", i);
            want!(s[..i] == a[..i], "range ..{}", i);
            let mut m = s.clone();
            for x in m[i..].iter_mut() { *x = !*x; }
            want!(m.as_ref()[..i] == a[..i] && m.as_ref()[i..].iter().zip(&a[i..]).all(|(x, y)| *x == !*y) && m.size() == n, "writing through {}..", i);
            let mut m = s.clone();
            for x in m[..i].iter_mut() { *x = !*x; }
            want!(m.as_ref()[i..] == a[i..] && m.as_ref()[..i].iter().zip(&a[..i]).all(|(x, y)| *x == !*y) && m.size() == n, "writing through ..{}", i);
        } else {
            want!(panics(|| s.remove_prefix(i)), "remove_prefix({}) of {} is not refused", i, n);
            want!(panics(|| s[i..].len()), "range {}.. of {} is not refused", i, n);
            want!(panics(|| s[..i].len()), "range ..{} of {} is not refused", i, n);
            let mut m = s.clone();
            want!(panics(|| m[i..].len() + { 0 } + m[i..].iter_mut().count()), "write range {}.. of {} is not refused", i, n);
            want!(panics(|| m[..i].iter_mut().count()), "write range ..{} of {} is not refused", i, n);
        }
        for &j in &points {
            let ok = i <= j && j <= n;
            if ok {
                want!(s[i..j] == a[i..j], "range {}..{}", i, j);
                want!(s.as_sub_ref(i, j - i) == &a[i..j], "as_sub_ref({}, {})", i, j - i);
                let mut m = s.clone();
                for x in m[i..j].iter_mut() { *x = x.wrapping_add(1); }
                for k in 0..n { want!(m[k] == if k >= i && k < j { a[k].wrapping_add(1) } else { a[k] }, "byte {} after writing through {}..{}", k, i, j); }
                want_eq!(m.size(), n, "size after writing");
            } else {
                want!(panics(|| s[i..j].len()), "range {}..{} of {} is not refused", i, j, n);
                let mut m = s.clone();
                want!(panics(|| m[i..j].iter_mut().count()), "write range {}..{} of {} is not refused", i, j, n);
            }
            if i.checked_add(j).map_or(true, |e| e > n) { want!(panics(|| s.as_sub_ref(i, j).len()), "as_sub_ref({}, {}) of {} is not refused", i, j, n); }
        }
    }
    want!(panics(|| s.as_sub_ref(1, usize::MAX).len()), "as_sub_ref(1, max) is not refused");
    want!(s.as_ref() == a, "the slice changed");
    want!(s.remove_prefix(0).as_ref() == a, "remove_prefix(0)");
    V::Ok
}
pub fn c26(c: &mut Ctx) {
    c.family("constructors");
    c.case(|| "default".into(), || { let s = Slice::default(); want!(s.size() == 0 && s.empty() && s.as_ref().is_empty(), "default slice"); V::Ok });
    c.family("operations on one slice");
    for i in 0..c.n(250, 4000) {
        let n = if i < 14 { i } else if c.rng.below(6) == 0 { c.rng.below(600) } else { c.rng.below(12) };
        let a = if i % 3 == 0 { c.rng.bytes(n).iter().map(|b| b & 127).collect() } else { c.rng.nasty(n) };
        c.case(|| hex(&a), || c26_one(&a));
    }
    c.family("prefixes and joins");
    let small: Vec<Vec<u8>> = { let mut v: Vec<Vec<u8>> = vec![vec![]]; for x in [0u8, 0x61, 0xff] { v.push(vec![x]); for y in [0u8, 0x61, 0xff] { v.push(vec![x, y]); } } v };
    for a in &small { for b in &small { for j in [None, Some("".to_string()), Some(": ".to_string())] {
        c.case(|| format!("{} and {} with {:?}", hex(a), hex(b), j), || c26_pair(a, b, j.clone()));
    } } }
    for _ in 0..c.n(4000, 60000) {
        let n = c.rng.below(40);
        let a = c.rng.nasty(n);
        let mut b = if c.rng.below(2) == 0 { let k = c.rng.below(n + 1); a[..k].to_vec() } else { let k = c.rng.below(20); c.rng.nasty(k) };
        if c.rng.below(4) == 0 && !b.is_empty() { let i = c.rng.below(b.len()); b[i] ^= 1 << c.rng.below(8); }
        if c.rng.below(6) == 0 { b.push(1); }
        let j = match c.rng.below(3) { 0 => None, 1 => Some(String::new()), _ => Some(", 中".to_string()) };
        c.case(|| format!("{} and {} with {:?}", hex(&a), hex(&b), j), || c26_pair(&a, &b, j.clone()));
    }
    c.family("long slices");
    for n in [255usize, 256, 257, 65535, 65536, 70000] {
        let a: Vec<u8> = (0..n).map(|i| (i % 127) as u8).collect();
        c.case(|| format!("{} bytes", n), || c26_one(&a));
        let b = { let mut b = a.clone(); b[n - 1] ^= 1; b };
        for (x, y) in [(&a[..], &a[..n - 1]), (&a[..], &b[..]), (&a[..n - 1], &a[..]), (&a[..], &a[..])] {
            c.case(|| format!("prefix and join, {} and {} bytes", x.len(), y.len()), || c26_pair(x, y, Some(", ".into())));
        }
    }
    for n in [256usize, 512, 65536, 1 << 17, 1 << 20, 1 << 24] {
        let a: Vec<u8> = (0..n + 3).map(|i| (i % 127) as u8).collect();
        let b = { let mut b = a.clone(); b[n + 2] ^= 1; b };
        for (x, y) in [(&a[..], &a[..3]), (&a[..n], &a[..0]), (&a[..3], &a[..]), (&a[..], &b[..]), (&a[..], &a[..])] {
            c.case(|| format!("prefix and join, {} and {} bytes", x.len(), y.len()), || c26_pair(x, y, None));
        }
    }
}
