use crate::ctx::*;
use crate::spec;
use crate::{want, want_eq};
use level_db_rust::traits::filter_policy_trait::FilterPolicy;
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::filter_policy::{AsBloomHash, FromPolicy};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::slice::Slice;

/// calls f with the same bytes at address = a (mod 16)
pub fn at_alignment<R>(b: &[u8], a: usize, f: impl FnOnce(&[u8]) -> R) -> R {
    let mut v = vec![0x3cu8; b.len() + 32];
    let base = v.as_ptr() as usize;
    let off = (16 - base % 16) % 16 + a;
    v[off..off + b.len()].copy_from_slice(b);
    f(&v[off..off + b.len()])
}

pub fn c05(c: &mut Ctx) {
    c.family("every length and alignment");
    for n in 0..=c.n(200, 600) {
        let d = c.rng.bytes(n);
        let init = if n % 3 == 0 { 0 } else { c.rng.next() as u32 };
        for a in 0..8usize {
            c.case(|| format!("{} bytes at address {} mod 16, extending {:#x}: {}", n, a, init, hex(&d)), || {
                let w = spec::crc32c(init, &d);
                want_eq!(at_alignment(&d, a, |b| CRC::extend(init, b)), w, "extend");
                let w = spec::crc32c(0, &d);
                want_eq!(at_alignment(&d, a, |b| CRC::value(b)), w, "value");
                V::Ok
            });
        }
    }
    c.family("every single byte set");
    for n in [1usize, 3, 4, 15, 16, 17, 20, 31, 32, 33, 36, 40, 48, 51, 64, 67] {
        for i in 0..n {
            let a = i % 4;
            c.case(|| format!("{} bytes, byte {} takes every value, address {} mod 16", n, i, a), || {
                for x in 0..=255u8 {
                    let mut d = vec![0u8; n];
                    d[i] = x;
                    want_eq!(at_alignment(&d, a, |b| CRC::value(b)), spec::crc32c(0, &d), "value for byte {:#x}", x);
                }
                V::Ok
            });
        }
    }
    c.family("splits");
    for _ in 0..c.n(3000, 60000) {
        let n = c.rng.below(150);
        let d = c.rng.nasty(n);
        let s = c.rng.below(n + 1);
        let init = if c.rng.below(2) == 0 { 0 } else { c.rng.next() as u32 };
        let a = c.rng.below(8);
        c.case(|| format!("{} split at {} at address {} mod 16, extending {:#x}", hex(&d), s, a, init), || {
            let two = at_alignment(&d, a, |b| CRC::extend(CRC::extend(init, &b[..s]), &b[s..]));
            want_eq!(two, spec::crc32c(init, &d), "extend of the second part");
            V::Ok
        });
    }
    c.family("long data");
    for n in [1000usize, 4095, 4096, 4097, 32768, 65537, 200000] {
        for a in 0..4usize {
            let d = c.rng.bytes(n);
            c.case(|| format!("{} bytes at address {} mod 16", n, a), || {
                want_eq!(at_alignment(&d, a, |b| CRC::value(b)), spec::crc32c(0, &d), "value");
                V::Ok
            });
        }
    }
    let d = c.rng.bytes((1 << 22) + 5);
    c.case(|| format!("{} bytes at address 3 mod 16", d.len()), || {
        want_eq!(at_alignment(&d, 3, |b| CRC::value(b)), spec::crc32c(0, &d), "value");
        V::Ok
    });
    c.family("checksum of every input type");
    for _ in 0..c.n(300, 5000) {
        let n = c.rng.below(80);
        let d: Vec<u8> = c.rng.bytes(n).iter().map(|b| b & 0x7f).collect();
        let init = c.rng.next() as u32;
        c.case(|| hex(&d), || {
            let s = String::from_utf8(d.clone()).unwrap();
            let w0 = spec::crc32c(0, &d);
            let w = spec::crc32c(init, &d);
            let sl = Slice::from_buf(&d);
            want_eq!(d.as_crc(), w0, "vec"); want_eq!(d.as_slice().as_crc(), w0, "buffer"); want_eq!(sl.as_crc(), w0, "slice");
            want_eq!(s.as_crc(), w0, "string"); want_eq!(s.as_str().as_crc(), w0, "str");
            want_eq!((&d.as_slice()[..]).as_crc(), w0, "buffer");
            want_eq!(d.as_crc_extend(init), w, "vec extend"); want_eq!(sl.as_crc_extend(init), w, "slice extend");
            want_eq!(s.as_crc_extend(init), w, "string extend"); want_eq!(s.as_str().as_crc_extend(init), w, "str extend");
            V::Ok
        });
    }
    c.family("checksum of wider element types");
    fn wide<const N: usize>(c: &mut Ctx) {
        for n in 0..6usize {
            let d: Vec<[u8; N]> = (0..n).map(|_| { let b = c.rng.bytes(N); let mut a = [0u8; N]; a.copy_from_slice(&b); a }).collect();
            let bytes: Vec<u8> = d.iter().flatten().cloned().collect();
            c.case(|| format!("{} elements of {} bytes: {}", n, N, hex(&bytes)), || {
                want_eq!(d.as_crc(), spec::crc32c(0, &bytes), "vec"); want_eq!(d.as_crc_extend(7), spec::crc32c(7, &bytes), "vec extend");
                want_eq!((&d[..]).as_crc(), spec::crc32c(0, &bytes), "slice"); want_eq!((&d[..]).as_crc_extend(7), spec::crc32c(7, &bytes), "slice extend");
                V::Ok
            });
        }
    }
    wide::<0>(c); wide::<1>(c); wide::<2>(c); wide::<3>(c); wide::<7>(c); wide::<8>(c); wide::<9>(c); wide::<12>(c); wide::<16>(c); wide::<17>(c); wide::<20>(c); wide::<24>(c);
    wide::<32>(c); wide::<33>(c); wide::<64>(c); wide::<100>(c); wide::<128>(c); wide::<256>(c); wide::<300>(c);
    let w: Vec<u64> = vec![1, 0xffee_ddcc_bbaa_9988, 3];
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_ne_bytes()).collect();
    c.case(|| format!("{:?}", w), || { want_eq!(w.as_crc(), spec::crc32c(0, &bytes), "Vec<u64>"); want_eq!((&w[..]).as_crc_extend(3), spec::crc32c(3, &bytes), "&[u64]"); V::Ok });
}

pub fn c06(c: &mut Ctx) {
    c.family("boundary and strided values");
    let chunk = |c: &mut Ctx, vals: Vec<u32>| {
        c.case(|| format!("values {:#x}..", vals[0]), || {
            for &v in &vals {
                want_eq!(CRC::mask(v), spec::mask(v), "mask of {:#x}", v);
                want_eq!(CRC::unmask(v), spec::unmask(v), "unmask of {:#x}", v);
                want_eq!(CRC::unmask(CRC::mask(v)), v, "unmask of mask of {:#x}", v);
                want_eq!(CRC::mask(CRC::unmask(v)), v, "mask of unmask of {:#x}", v);
                want_eq!(v.to_mask(), spec::mask(v), "to_mask of {:#x}", v);
                want_eq!(v.unmask(), spec::unmask(v), "unmask method of {:#x}", v);
            }
            V::Ok
        });
    };
    let mut b = vec![0u32, 1, u32::MAX, 0xa282_ead8, 0xa282_ead7, 0xa282_ead9, 0x7fff_ffff, 0x8000_0000];
    for i in 0..32 { b.extend([1u32 << i, (1u32 << i).wrapping_sub(1), !(1u32 << i), 0xa282_ead8u32.wrapping_add(1 << i)]); }
    chunk(c, b);
    let step = if c.thorough { 1u64 } else { 4099 };
    let mut x = 0u64;
    while x < 1 << 32 {
        let mut v = vec![];
        while v.len() < 65536 && x < 1 << 32 { v.push(x as u32); x += step; }
        chunk(c, v);
    }
}

pub fn c07(c: &mut Ctx) {
    c.family("every length and alignment");
    for n in 0..=c.n(150, 400) {
        for _ in 0..6 {
            let d = c.rng.nasty(n);
            let seed = match c.rng.below(4) { 0 => 0, 1 => 0xbc9f_1d34, _ => c.rng.next() as u32 };
            let a = c.rng.below(8);
            c.case(|| format!("{} bytes, seed {:#x}, address {} mod 16: {}", n, seed, a, hex(&d)), || {
                want_eq!(at_alignment(&d, a, |b| Hash::hash_code(b, seed)), spec::hash(&d, seed), "hash");
                V::Ok
            });
        }
    }
    c.family("every tail byte value");
    for n in 1..=9usize {
        for i in 0..n {
            c.case(|| format!("{} bytes, byte {} takes every value", n, i), || {
                for x in 0..=255u8 {
                    let mut d = vec![1u8; n];
                    d[i] = x;
                    want_eq!(Hash::hash_code(&d, 0xbc9f_1d34), spec::hash(&d, 0xbc9f_1d34), "hash of {}", hex(&d));
                }
                V::Ok
            });
        }
    }
    c.family("long data");
    for n in [1000usize, 4095, 65535, 65536, 100003, (1 << 20) + 3, (1 << 24) + 1] {
        let d = c.rng.bytes(n);
        c.case(|| format!("{} bytes", n), || { want_eq!(Hash::hash_code(&d, 7), spec::hash(&d, 7), "hash"); V::Ok });
    }
    c.family("every input type");
    for _ in 0..c.n(1500, 20000) {
        let n = c.rng.below(40);
        let raw = c.rng.nasty(n);
        let d: Vec<u8> = if c.rng.below(2) == 0 { String::from_utf8_lossy(&raw).into_owned().into_bytes() } else { raw.iter().map(|b| b & 127).collect() };
        let seed = c.rng.next() as u32;
        c.case(|| format!("seed {:#x}: {}", seed, hex(&d)), || {
            let s = String::from_utf8(d.clone()).unwrap();
            let w = spec::hash(&d, 0xbc9f_1d34);
            let ws = spec::hash(&d, seed);
            let sl = Slice::from_buf(&d);
            want_eq!(s.to_hash(), w, "String"); want_eq!(s.as_str().to_hash(), w, "str"); want_eq!(d.to_hash(), w, "Vec<u8>");
            want_eq!(d.as_slice().to_hash(), w, "&[u8]"); want_eq!(sl.to_hash(), w, "Slice");
            want_eq!(s.to_hash_with_seed(seed), ws, "String, seed"); want_eq!(s.as_str().to_hash_with_seed(seed), ws, "str, seed");
            want_eq!(d.to_hash_with_seed(seed), ws, "Vec<u8>, seed"); want_eq!(d.as_slice().to_hash_with_seed(seed), ws, "&[u8], seed");
            want_eq!(sl.to_hash_with_seed(seed), ws, "Slice, seed");
            want_eq!(sl.bloom_hash(), w, "bloom hash");
            V::Ok
        });
    }
    c.family("wider element types");
    for _ in 0..c.n(300, 3000) {
        let n = c.rng.below(9);
        let d: Vec<u32> = (0..n).map(|_| c.rng.next() as u32).collect();
        let bytes: Vec<u8> = d.iter().flat_map(|x| x.to_ne_bytes()).collect();
        c.case(|| format!("{:?}", d), || {
            want_eq!(d.to_hash(), spec::hash(&bytes, 0xbc9f_1d34), "Vec<u32>");
            want_eq!(d.as_slice().to_hash_with_seed(5), spec::hash(&bytes, 5), "&[u32]");
            V::Ok
        });
    }
    fn wide<const N: usize>(c: &mut Ctx) {
        for n in 0..6usize {
            let d: Vec<[u8; N]> = (0..n).map(|_| { let b = c.rng.bytes(N); let mut a = [0u8; N]; a.copy_from_slice(&b); a }).collect();
            let bytes: Vec<u8> = d.iter().flatten().cloned().collect();
            c.case(|| format!("{} elements of {} bytes: {}", n, N, hex(&bytes)), || {
                want_eq!(d.to_hash(), spec::hash(&bytes, 0xbc9f_1d34), "hash of Vec");
                want_eq!(d.to_hash_with_seed(9), spec::hash(&bytes, 9), "hash of Vec, seed");
                want_eq!(d.as_slice().to_hash(), spec::hash(&bytes, 0xbc9f_1d34), "hash of slice");
                want_eq!(d.as_slice().to_hash_with_seed(5), spec::hash(&bytes, 5), "hash of slice, seed");
                V::Ok
            });
        }
    }
    wide::<0>(c); wide::<1>(c); wide::<2>(c); wide::<3>(c); wide::<7>(c); wide::<8>(c); wide::<9>(c); wide::<12>(c); wide::<16>(c); wide::<17>(c); wide::<20>(c); wide::<24>(c);
    wide::<32>(c); wide::<33>(c); wide::<64>(c); wide::<100>(c); wide::<128>(c); wide::<256>(c); wide::<300>(c);
}

fn c08_one(bpk: usize, n: Option<usize>, keys: &[Vec<u8>], probes: &[Vec<u8>]) -> V {
    let p = BloomFilterPolicy::new_with_bits_per_key(bpk);
    want_eq!(p.from_k(), spec::bloom_k(bpk), "probe count");
    want_eq!(p.from_bits_per_key(), bpk, "bits per key");
    let sl: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
    let f = match n {
        None => p.create_filter(sl.iter().collect()),
        Some(n) => p.create_filter_with_len(n, sl.iter().collect()),
    };
    let w = spec::bloom(keys, n.unwrap_or(keys.len()), bpk);
    for k in &sl { want!(p.key_may_match(k, &f), "inserted key {} is reported absent", hex(k)); }
    let got: Vec<u8> = f.clone().into();
    want!(got == w, "filter: got {}, want {}", hex(&got), hex(&w));
    for q in probes {
        want_eq!(p.key_may_match(&Slice::from_buf(q), &f), spec::bloom_match(q, &w), "match of {}", hex(q));
    }
    V::Ok
}
pub fn c08(c: &mut Ctx) {
    c.family("every bits-per-key");
    for bpk in (0..=100usize).chain([127, 128, 200, 255, 256, 370, 400, 1000, 5000]) {
        for cnt in [0usize, 1, 2, 5, 7, 9, 40] {
            let keys: Vec<Vec<u8>> = (0..cnt).map(|_| { let n = c.rng.below(12); c.rng.nasty(n) }).collect();
            let probes: Vec<Vec<u8>> = (0..10).map(|_| { let n = c.rng.below(6); c.rng.nasty(n) }).collect();
            c.case(|| format!("{} bits per key, keys {:?}", bpk, keys.iter().map(|k| hex(k)).collect::<Vec<_>>()), || c08_one(bpk, None, &keys, &probes));
        }
    }
    c.family("default policy");
    c.case(|| "new()".into(), || { let p = BloomFilterPolicy::new(); want_eq!(p.from_bits_per_key(), 10, "bits per key"); want_eq!(p.from_k(), 7, "probes"); V::Ok });
    c.family("random key sets");
    for i in 0..c.n(400, 8000) {
        let bpk = if i % 2 == 0 { 10 } else { 1 + c.rng.below(40) };
        let cnt = if c.rng.below(10) == 0 { c.rng.below(600) } else { c.rng.below(60) };
        let keys: Vec<Vec<u8>> = (0..cnt).map(|_| { let n = if c.rng.below(10) == 0 { c.rng.below(200) } else { c.rng.below(10) }; c.rng.nasty(n) }).collect();
        let probes: Vec<Vec<u8>> = (0..20).map(|_| { let n = c.rng.below(8); c.rng.nasty(n) }).collect();
        let n = match c.rng.below(3) { 0 => Some(c.rng.below(100)), _ => None };
        c.case(|| format!("{} bits per key, capacity {:?}, {} keys {:?}", bpk, n, cnt, keys.iter().take(20).map(|k| hex(k)).collect::<Vec<_>>()), || c08_one(bpk, n, &keys, &probes));
    }
    c.family("lookups in arbitrary filters");
    for _ in 0..c.n(20000, 300000) {
        let n = match c.rng.below(8) { 0 => c.rng.below(4), 1 => c.rng.below(300), _ => c.rng.below(14) };
        let mut f = if c.rng.below(2) == 0 { c.rng.bytes(n) } else { vec![0xff; n] };
        for _ in 0..c.rng.below(3) { if n > 0 { let i = c.rng.below(n); f[i] &= c.rng.next() as u8; } }
        if n > 0 && c.rng.below(4) != 0 { f[n - 1] = *c.rng.pick(&[0u8, 1, 2, 6, 7, 29, 30, 31, 32, 127, 128, 255]); }
        let k = { let n = c.rng.below(8); c.rng.nasty(n) };
        c.case(|| format!("key {} in filter {}", hex(&k), hex(&f)), || {
            let p = BloomFilterPolicy::new();
            want_eq!(p.key_may_match(&Slice::from_buf(&k), &Slice::from_buf(&f)), spec::bloom_match(&k, &f), "match");
            V::Ok
        });
    }
    c.family("many keys");
    for (cnt, bpk) in [(255usize, 10usize), (256, 10), (257, 10), (1000, 16), (6600, 10), (9000, 5), (20000, 4), (66000, 10)] {
        let keys: Vec<Vec<u8>> = (0..cnt).map(|i| { let mut k = (i as u32).to_le_bytes().to_vec(); let n = c.rng.below(5); k.extend(c.rng.bytes(n)); k }).collect();
        let probes: Vec<Vec<u8>> = (0..200).map(|_| { let n = c.rng.below(8); c.rng.nasty(n) }).collect();
        c.case(|| format!("{} bits per key, {} keys", bpk, cnt), || c08_one(bpk, None, &keys, &probes));
    }
    for n in [255usize, 256, 65535, 65536, 70000] {
        let k = c.rng.bytes(n);
        c.case(|| format!("a key of {} bytes", n), || c08_one(10, None, &[k.clone(), b"x".to_vec()], &[k[..n - 1].to_vec()]));
    }
}
