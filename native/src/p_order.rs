use crate::ctx::*;
use crate::spec;
use crate::{want, want_eq};
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use std::cmp::Ordering;

fn lex(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (None, _) => return Ordering::Less,
            (_, None) => return Ordering::Greater,
            (Some(x), Some(y)) if x != y => return if x < y { Ordering::Less } else { Ordering::Greater },
            _ => i += 1,
        }
    }
}
fn strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last { for a in alpha { let mut t: Vec<u8> = s.clone(); t.push(*a); next.push(t); } }
        all.extend(next.clone());
        last = next;
    }
    all
}
fn c09_one(a: &[u8], b: &[u8]) -> V {
    let w = lex(a, b);
    want_eq!(BytewiseComparatorImpl::default().compare(a, b), Some(w), "comparator");
    let (x, y) = (Slice::from_buf(a), Slice::from_buf(b));
    want_eq!(x.partial_cmp(&y), Some(w), "slice partial_cmp");
    want_eq!(x == y, w == Ordering::Equal, "slice ==");
    want_eq!(x != y, w != Ordering::Equal, "slice !=");
    want_eq!(x < y, w == Ordering::Less, "slice <");
    want_eq!(x <= y, w != Ordering::Greater, "slice <=");
    want_eq!(x > y, w == Ordering::Greater, "slice >");
    want_eq!(x >= y, w != Ordering::Less, "slice >=");
    V::Ok
}
fn mutated(c: &mut Ctx, a: &[u8]) -> Vec<u8> {
    let mut b = a.to_vec();
    match c.rng.below(5) {
        0 => { let n = c.rng.below(a.len() + 1); b.truncate(n); }
        1 => { let n = 1 + c.rng.below(5); b.extend(c.rng.nasty(n)); }
        2 if !b.is_empty() => { let i = c.rng.below(b.len()); b[i] = b[i].wrapping_add(1); }
        3 if !b.is_empty() => { let i = c.rng.below(b.len()); b[i] = c.rng.next() as u8; }
        _ => {}
    }
    b
}
pub fn c09(c: &mut Ctx) {
    c.family("all pairs over a small alphabet");
    let s = strings(&[0, 1, 0x7f, 0x80, 0xff], 3);
    for a in &s { for b in &s { c.case(|| format!("{} vs {}", hex(a), hex(b)), || c09_one(a, b)); } }
    c.family("all byte pairs");
    for x in 0..=255u8 {
        c.case(|| format!("byte {:#x} against every byte", x), || {
            for y in 0..=255u8 {
                for (p, q) in [(&b""[..], &b""[..]), (b"k", b""), (b"", b"k")] {
                    let mut a = p.to_vec(); a.push(x); let mut b = p.to_vec(); b.push(y); b.extend_from_slice(q);
                    if let V::Fail(m) = c09_one(&a, &b) { return V::Fail(format!("{} vs {}: {}", hex(&a), hex(&b), m)); }
                }
            }
            V::Ok
        });
    }
    c.family("random pairs");
    for _ in 0..c.n(20000, 300000) {
        let n = if c.rng.below(20) == 0 { c.rng.below(5000) } else { c.rng.below(40) };
        let a = c.rng.nasty(n);
        let b = mutated(c, &a);
        c.case(|| format!("{} vs {}", hex(&a), hex(&b)), || c09_one(&a, &b));
    }
    c.family("long keys");
    for n in [255usize, 256, 257, 4096, 65535, 65536, 65537, 200000] {
        let a: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        for at in [0, 1, n / 2, n.saturating_sub(9), n - 1] {
            for d in [1u8, 0x80] {
                let mut b = a.clone(); b[at] = b[at].wrapping_add(d);
                c.case(|| format!("two keys of {} bytes that differ at byte {}", n, at), || c09_one(&a, &b));
                let cut = b[..at + 1].to_vec();
                c.case(|| format!("keys of {} and {} bytes that differ at byte {}", n, at + 1, at), || c09_one(&a, &cut));
            }
            let cut = a[..at].to_vec();
            c.case(|| format!("a key of {} bytes and its first {}", n, at), || c09_one(&a, &cut));
        }
        c.case(|| format!("a key of {} bytes and itself", n), || c09_one(&a, &a));
    }
    for n in [(1usize << 20) + 9, (1 << 24) + 9] {
        let a: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        let mut b = a.clone(); b[n - 1] ^= 0x80;
        c.case(|| format!("two keys of {} bytes that differ at the last one", n), || c09_one(&a, &b));
        c.case(|| format!("a key of {} bytes and itself", n), || c09_one(&a, &a));
        c.case(|| format!("a key of {} bytes and its first 9", n), || c09_one(&a, &a[..9]));
    }
}

/// the comparator interface takes String; keys are bytes, so any bytes are passed through it
fn as_string(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }

fn c10_sep(a: &[u8], b: &[u8]) -> V {
    let s = BytewiseComparatorImpl::default().find_shortest_separator(&as_string(a), &Slice::from_buf(b)).into_bytes();
    if lex(a, b) == Ordering::Less {
        want!(lex(a, &s) != Ordering::Greater, "separator {} is below start", hex(&s));
        want!(lex(&s, b) == Ordering::Less, "separator {} is not below limit", hex(&s));
        want!(s.len() <= a.len(), "separator {} is longer than start", hex(&s));
        let w = spec::separator(a, b);
        want!(s == w, "separator: got {}, want {}", hex(&s), hex(&w));
    }
    V::Ok
}
fn c10_succ(a: &[u8]) -> V {
    let s = BytewiseComparatorImpl::default().find_short_successor(&as_string(a)).into_bytes();
    want!(lex(a, &s) != Ordering::Greater, "successor {} is below the key", hex(&s));
    let w = spec::successor(a);
    want!(s == w, "successor: got {}, want {}", hex(&s), hex(&w));
    V::Ok
}
pub fn c10(c: &mut Ctx) {
    c.family("all pairs over a small alphabet");
    let s = strings(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff], 3);
    for (i, a) in s.iter().enumerate() {
        c.case(|| format!("successor of {}", hex(a)), || c10_succ(a));
        c.case(|| format!("separators from {}", hex(a)), || {
            for (j, b) in s.iter().enumerate() {
                if i != j { if let V::Fail(m) = c10_sep(a, b) { return V::Fail(format!("limit {}: {}", hex(b), m)); } }
            }
            V::Ok
        });
    }
    c.family("random pairs");
    for _ in 0..c.n(30000, 500000) {
        let n = if c.rng.below(30) == 0 { c.rng.below(400) } else { c.rng.below(14) };
        let mut a = c.rng.nasty(n);
        let mut b = mutated(c, &a);
        if lex(&a, &b) == Ordering::Greater { std::mem::swap(&mut a, &mut b); }
        c.case(|| format!("separator of {} and {}", hex(&a), hex(&b)), || if lex(&a, &b) == Ordering::Less { c10_sep(&a, &b) } else { V::Ok });
        c.case(|| format!("successor of {}", hex(&a)), || c10_succ(&a));
    }
    c.family("successors of long 0xff runs");
    for n in 0..40usize {
        for x in [0u8, 0x7f, 0xfe] {
            let mut a = vec![0xff; n];
            c.case(|| format!("{} times ff", n), || c10_succ(&a));
            a.push(x); a.push(9);
            c.case(|| format!("successor of {}", hex(&a)), || c10_succ(&a));
        }
    }
    c.family("long keys");
    for n in [255usize, 256, 257, 65535, 65536, 70000] {
        let a: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        for at in [0, 1, 127, 200, n / 2, n - 9, n - 2, n - 1] {
            for d in [1u8, 2, 3, 0x40] {
                let mut b = a.clone(); b[at] = b[at].wrapping_add(d);
                let (x, y) = if lex(&a, &b) == Ordering::Less { (a.clone(), b) } else { (b, a.clone()) };
                c.case(|| format!("separator of two keys of {} bytes that differ by {} at byte {}", n, d, at), || c10_sep(&x, &y));
            }
            let mut f = vec![0xffu8; n]; f[at] = 0x7f;
            c.case(|| format!("successor of {} bytes ff with 7f at {}", n, at), || c10_succ(&f));
        }
        c.case(|| format!("successor of {} bytes ff", n), || c10_succ(&vec![0xff; n]));
    }
}
