//! Executable specifications, written from the property statements (LevelDB's formats),
//! independent of the code under test.

pub fn fixed32(v: u32) -> Vec<u8> { (0..4).map(|i| (v >> (8 * i)) as u8).collect() }
pub fn fixed64(v: u64) -> Vec<u8> { (0..8).map(|i| (v >> (8 * i)) as u8).collect() }
pub fn varint(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let low = (v % 128) as u8;
        v /= 128;
        if v == 0 { out.push(low); return out; }
        out.push(low + 128);
    }
}
/// Some((value, consumed)) when a terminating byte is found within `max` bytes.
/// Bits beyond the width of the value are cut off.
pub fn unvarint(b: &[u8], max: usize) -> Option<(u128, usize)> {
    let mut v: u128 = 0;
    for i in 0..b.len().min(max) {
        v |= ((b[i] & 127) as u128) << (7 * i);
        if b[i] < 128 { return Some((v, i + 1)); }
    }
    None
}
pub fn lps(b: &[u8]) -> Vec<u8> { let mut o = varint(b.len() as u64); o.extend_from_slice(b); o }

fn crc_table() -> &'static [u32; 256] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 }; }
            t[i as usize] = c;
        }
        t
    })
}
/// CRC-32C of b, continuing from the checksum `init`
pub fn crc32c(init: u32, b: &[u8]) -> u32 {
    let t = crc_table();
    let mut c = !init;
    for x in b { c = t[((c ^ *x as u32) & 255) as usize] ^ (c >> 8); }
    !c
}
pub fn mask(c: u32) -> u32 { c.rotate_right(15).wrapping_add(0xa282_ead8) }
pub fn unmask(m: u32) -> u32 { m.wrapping_sub(0xa282_ead8).rotate_left(15) }

pub fn hash(b: &[u8], seed: u32) -> u32 {
    let m = 0xc6a4_a793u32;
    let mut h = seed ^ (b.len() as u32).wrapping_mul(m);
    let mut chunks = b.chunks_exact(4);
    for c in &mut chunks {
        let w = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
        h = h.wrapping_add(w).wrapping_mul(m);
        h ^= h >> 16;
    }
    let r = chunks.remainder();
    if r.len() > 2 { h = h.wrapping_add((r[2] as u32) << 16); }
    if r.len() > 1 { h = h.wrapping_add((r[1] as u32) << 8); }
    if !r.is_empty() {
        h = h.wrapping_add(r[0] as u32).wrapping_mul(m);
        h ^= h >> 24;
    }
    h
}
pub fn bloom_k(bits_per_key: usize) -> usize {
    // 0.69 * bits, nearest integer, in exact arithmetic: floor((69*b + 50) / 100)
    let k = (69u128 * bits_per_key as u128 + 50) / 100;
    k.clamp(1, 30) as usize
}
pub fn bloom_bits(h0: u32, k: usize, bits: usize) -> Vec<usize> {
    let delta = h0.rotate_right(17);
    let mut h = h0;
    (0..k).map(|_| { let p = (h as usize) % bits; h = h.wrapping_add(delta); p }).collect()
}
pub fn bloom(keys: &[Vec<u8>], n: usize, bits_per_key: usize) -> Vec<u8> {
    let k = bloom_k(bits_per_key);
    let bytes = ((n * bits_per_key).max(64) + 7) / 8;
    let mut out = vec![0u8; bytes + 1];
    for key in keys {
        for p in bloom_bits(hash(key, 0xbc9f_1d34), k, bytes * 8) { out[p / 8] |= 1 << (p % 8); }
    }
    out[bytes] = k as u8;
    out
}
pub fn bloom_match(key: &[u8], filter: &[u8]) -> bool {
    if filter.len() < 2 { return false; }
    let k = filter[filter.len() - 1] as usize;
    if k > 30 { return true; }
    bloom_bits(hash(key, 0xbc9f_1d34), k, (filter.len() - 1) * 8).iter().all(|p| filter[p / 8] & (1 << (p % 8)) != 0)
}

pub fn separator(start: &[u8], limit: &[u8]) -> Vec<u8> {
    let n = start.len().min(limit.len());
    for i in 0..n {
        if start[i] != limit[i] {
            if start[i] < 255 && start[i] + 1 < limit[i] {
                let mut s = start[..=i].to_vec();
                s[i] += 1;
                return s;
            }
            return start.to_vec();
        }
    }
    start.to_vec()
}
pub fn successor(key: &[u8]) -> Vec<u8> {
    for i in 0..key.len() {
        if key[i] != 255 { let mut s = key[..=i].to_vec(); s[i] += 1; return s; }
    }
    key.to_vec()
}

pub const BLOCK: usize = 32768;
/// LevelDB's log format. Returns the file and, per record, the end of its last fragment.
pub fn log_file(start: usize, records: &[Vec<u8>]) -> (Vec<u8>, Vec<usize>) {
    let mut f: Vec<u8> = vec![];
    let mut ends = vec![];
    let pos = |f: &Vec<u8>| (start + f.len()) % BLOCK;
    for r in records {
        let mut rest: &[u8] = r;
        let mut first = true;
        loop {
            let left = BLOCK - pos(&f);
            if left < 7 { f.extend(std::iter::repeat(0).take(left)); continue; }
            let n = rest.len().min(left - 7);
            let last = n == rest.len();
            let ty: u8 = match (first, last) { (true, true) => 1, (true, false) => 2, (false, false) => 3, (false, true) => 4 };
            let mut crcin = vec![ty];
            crcin.extend_from_slice(&rest[..n]);
            f.extend(fixed32(mask(crc32c(0, &crcin))));
            f.push(n as u8);
            f.push((n >> 8) as u8);
            f.push(ty);
            f.extend_from_slice(&rest[..n]);
            rest = &rest[n..];
            first = false;
            if last { break; }
        }
        ends.push(f.len());
    }
    (f, ends)
}

/// the 154 histogram limits
pub fn histogram_limits() -> Vec<f64> {
    let mut out: Vec<f64> = (1..=9).map(|x| x as f64).collect();
    let mut scale = 1.0f64;
    let steps = [10., 12., 14., 16., 18., 20., 25., 30., 35., 40., 45., 50., 60., 70., 80., 90.];
    while out.len() < 153 {
        for s in steps { out.push(s * scale); if out.len() == 153 { break; } }
        scale *= 10.0;
    }
    out.push(1e200);
    out
}
