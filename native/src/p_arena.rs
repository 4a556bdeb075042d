use crate::ctx::*;
use crate::{want, want_eq};
use level_db_rust::util::arena::{ArenaAllocLike, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use level_db_rust::util::Arena;
use std::sync::{Arc, Mutex};

const BLOCK: usize = 4096;

struct Region { ptr: *mut u8, len: usize, tag: u8 }
fn fill(r: &Region) {
    for i in 0..r.len { unsafe { r.ptr.add(i).write(r.tag ^ (i as u8).wrapping_mul(31)) } }
}
fn intact(r: &Region) -> bool {
    (0..r.len).all(|i| unsafe { r.ptr.add(i).read() } == r.tag ^ (i as u8).wrapping_mul(31))
}
fn overlap(a: &Region, b: &Region) -> bool {
    a.len > 0 && b.len > 0 && (a.ptr as usize) < b.ptr as usize + b.len && (b.ptr as usize) < a.ptr as usize + a.len
}

/// requests: (bytes, alignment); alignment 1 goes through allocate and follows the exact usage model
fn c11_history(reqs: &[(usize, usize)]) -> V {
    let mut a = Arena::default();
    let mut regions: Vec<Region> = vec![];
    let mut known: Option<String> = None;
    let (mut usage, mut left): (usize, Option<usize>) = (0, None);
    want_eq!(a.memory_usage(), 0, "usage of a new arena");
    let aligned = reqs.iter().any(|r| r.1 > 1);
    for (i, &(n, al)) in reqs.iter().enumerate() {
        let before = a.memory_usage();
        let (ptr, len) = {
            let s = if al == 1 { a.allocate(n) } else { a.allocate_align(n, al) };
            (s.as_mut_ptr(), s.len())
        };
        want_eq!(len, n, "length of allocation {}", i);
        let after = a.memory_usage();
        if aligned {
            want!(after == before || after == before + BLOCK || (n > 1024 && after == before + n),
                "allocation {} of {} bytes changed usage from {} to {}", i, n, before, after);
        } else {
            match left {
                Some(l) if n <= l => { left = Some(l - n); }
                None if n == 0 && after == 0 => {}
                _ => if n > 1024 { usage += n } else { usage += BLOCK; left = Some(BLOCK - n) },
            }
            want_eq!(after, usage, "usage after allocation {} of {} bytes", i, n);
        }
        let r = Region { ptr, len: n, tag: (i as u8).wrapping_mul(7).wrapping_add(13) };
        for (j, o) in regions.iter().enumerate() { want!(!overlap(o, &r), "allocation {} overlaps allocation {}", i, j); }
        #[cfg(verif_inspect)]
        if n > 0 {
            let inside = (0..a.verif_block_count()).any(|b| {
                let (p, size, _) = a.verif_block(b);
                p as usize <= ptr as usize && ptr as usize + n <= p as usize + size
            });
            want!(inside, "allocation {} lies outside the arena's blocks", i);
        }
        if al > 1 && ptr as usize % al != 0 {
            let m = format!("allocation {} of {} bytes with alignment {} starts at address {} mod {}", i, n, al, ptr as usize % al, al);
            // served from what was left of a block, without taking a new one
            if after == before { known = Some(m) } else { return V::Fail(m) }
        }
        fill(&r);
        regions.push(r);
        if i % 16 == 0 { for (j, o) in regions.iter().enumerate() { want!(intact(o), "allocation {} changed after allocation {}", j, i); } }
    }
    for (j, o) in regions.iter().enumerate() { want!(intact(o), "allocation {} changed", j); }
    #[cfg(verif_inspect)]
    {
        let sum: usize = (0..a.verif_block_count()).map(|b| a.verif_block(b).1).sum();
        want_eq!(a.memory_usage(), sum, "usage against the sizes of the blocks");
    }
    match known { Some(m) => V::Known("arena-align-fast-path", m), None => V::Ok }
}

pub fn c11(c: &mut Ctx) {
    const S: [usize; 22] = [0, 1, 2, 7, 8, 9, 64, 100, 1022, 1023, 1024, 1025, 1026, 2048, 3071, 3072, 4095, 4096, 4097, 5000, 8192, 10000];
    c.family("pairs and triples of boundary sizes");
    for &x in &S { for &y in &S {
        c.case(|| format!("sizes {} {} then 1 0 1024 1025", x, y), || c11_history(&[(x, 1), (y, 1), (1, 1), (0, 1), (1024, 1), (1025, 1), (3, 1)]));
    } }
    c.family("filling a block to its last byte");
    for left in [0usize, 1, 2, 5, 1023, 1024, 1025] {
        for next in [left, left + 1, left.saturating_sub(1)] {
            c.case(|| format!("4096 bytes filled up to the last {}, then {}", left, next), || {
                let mut h = vec![];
                let mut todo = BLOCK - left;
                while todo > 0 { let n = todo.min(1024); h.push((n, 1)); todo -= n; }
                h.extend([(next, 1), (1, 1), (2000, 1), (7, 1)]);
                c11_history(&h)
            });
        }
    }
    c.family("random histories");
    for _ in 0..c.n(1500, 30000) {
        let n = 1 + c.rng.below(60);
        let style = c.rng.below(3);
        let h: Vec<(usize, usize)> = (0..n).map(|_| {
            let s = match style { 0 => *c.rng.pick(&S), 1 => c.rng.below(1100), _ => if c.rng.below(4) == 0 { *c.rng.pick(&S) } else { c.rng.below(200) } };
            (s, 1)
        }).collect();
        c.case(|| format!("sizes {:?}", h.iter().map(|x| x.0).collect::<Vec<_>>()), || c11_history(&h));
    }
    c.family("aligned requests");
    for al in [1usize, 2, 4, 8, 16, 64, 256, 4096] {
        for n in [1usize, 8, 100, 1024, 1025, 5000] {
            c.case(|| format!("first allocation of {} bytes aligned to {}", n, al), || c11_history(&[(n, al)]));
            c.case(|| format!("{} bytes aligned to {} after a full block", n, al), || {
                let mut h = vec![(1024, 1); 4]; h.push((n, al)); c11_history(&h)
            });
        }
    }
    for _ in 0..c.n(300, 5000) {
        let n = 1 + c.rng.below(20);
        let h: Vec<(usize, usize)> = (0..n).map(|_| { let s = if c.rng.below(3) == 0 { *c.rng.pick(&S) } else { c.rng.below(300) }; (s.max(1), 1usize << c.rng.below(8)) }).collect();
        c.case(|| format!("(size, alignment) {:?}", h), || c11_history(&h));
    }
    c.family("copies of slices");
    for n in [0usize, 1, 100, 1024, 1025, 5000] {
        let d = c.rng.bytes(n);
        c.case(|| format!("{} bytes", n), || {
            let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
            let s = Slice::from_buf(&d);
            let t = s.copy_with_arena(arena.clone());
            want!(t.as_ref() == &d[..], "the copy differs");
            let u = s.copy_with_arena(arena.clone());
            drop(t);
            want!(u.as_ref() == &d[..] && s.as_ref() == &d[..], "the second copy or the source differs");
            drop(arena);
            want!(u.as_ref() == &d[..], "the copy differs after the arena is gone");
            V::Ok
        });
    }
    c.family("long histories");
    for (what, f) in [("of 1 to 7 bytes", 7usize), ("of 1 to 700 bytes", 700), ("of 1 to 2500 bytes", 2500)] {
        let h: Vec<(usize, usize)> = (0..if f == 7 { 4000 } else { 900 }).map(|_| (1 + c.rng.below(f), 1)).collect();
        c.case(|| format!("{} allocations {}", h.len(), what), || c11_history(&h));
    }
    for n in [65535usize, 65536, 1 << 20, (1 << 20) + 1] {
        c.case(|| format!("allocations of 10, {}, 10, {} bytes", n, n + 1), || c11_history(&[(10, 1), (n, 1), (10, 1), (n + 1, 1), (4000, 1), (100, 1)]));
    }
}

pub fn c27(c: &mut Ctx) {
    c.family("creation and later allocations");
    for i in 0..c.n(800, 20000) {
        let m = 1 + c.rng.below(25);
        let data: Vec<Vec<u8>> = (0..m).map(|_| { let n = match c.rng.below(6) { 0 => 0, 1 => c.rng.below(6000), 2 => 1020 + c.rng.below(10), _ => c.rng.below(80) }; c.rng.nasty(n) }).collect();
        let sub: Vec<(usize, usize)> = data.iter().map(|d| { let s = c.rng.below(d.len() + 1); (s, c.rng.below(d.len() - s + 1)) }).collect();
        let text = i % 3 == 0;
        c.case(|| format!("{:?}, sub-ranges {:?}", data.iter().map(|d| hex(d)).collect::<Vec<_>>(), sub), || {
            let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
            let mut held: Vec<(UnsafeSlice, Vec<u8>)> = vec![];
            for (d, (s, l)) in data.iter().zip(&sub) {
                let (u, d) = if text {
                    let t: String = d.iter().map(|b| (b & 127) as char).collect();
                    let u = if d.len() % 2 == 0 { t.as_str().try_into_unsafe_slice(arena.clone()) } else { t.clone().try_into_unsafe_slice(arena.clone()) };
                    (u, t.into_bytes())
                } else { (UnsafeSlice::new_with_arena(d, arena.clone()), d.clone()) };
                let u = match u { Ok(u) => u, Err(_) => return V::Fail("creation failed".into()) };
                want_eq!(u.len(), d.len(), "length");
                want!(u.as_ref() == &d[..], "contents: got {}", hex(u.as_ref()));
                let v = unsafe { u.sub_slice(*s, *l) };
                want_eq!(v.len(), *l, "length of the sub-slice");
                want!(v.as_ref() == &d[*s..*s + *l], "sub-slice ({}, {}): got {}", s, l, hex(v.as_ref()));
                if text {
                    want!(u.as_str().as_bytes() == &d[..], "as_str");
                    want!(format!("{}", u).as_bytes() == &d[..], "rendering");
                }
                held.push((v, d[*s..*s + *l].to_vec()));
                held.push((u, d));
                arena.lock().unwrap().allocate(d_len(l)).fill(0xee);
            }
            for (u, d) in &held {
                want!(u.as_ref() == &d[..], "contents changed after later allocations");
                let o = u.to_slice();
                want!(o.as_ref() == &d[..], "owned copy differs");
                drop(o);
                want!(u.as_ref() == &d[..], "contents changed after dropping an owned copy");
            }
            let own: Vec<Slice> = held.iter().map(|h| h.0.to_slice()).collect();
            let want_d: Vec<Vec<u8>> = held.iter().map(|h| h.1.clone()).collect();
            drop(held); drop(arena);
            for (o, d) in own.iter().zip(&want_d) { want!(o.as_ref() == &d[..], "owned copy differs after the arena is gone"); }
            V::Ok
        });
    }
    fn d_len(l: &usize) -> usize { *l % 50 }
    c.family("every sub-range");
    for n in 0..=c.n(10, 24) {
        let d = c.rng.bytes(n);
        c.case(|| format!("all sub-ranges of {} bytes", n), || {
            let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
            let u = match UnsafeSlice::new_with_arena(&d, arena.clone()) { Ok(u) => u, Err(_) => return V::Fail("creation failed".into()) };
            for s in 0..=n + 2 { for l in 0..=n + 2 {
                if s + l <= n {
                    let v = unsafe { u.sub_slice(s, l) };
                    want!(v.len() == l && v.as_ref() == &d[s..s + l], "sub-slice ({}, {})", s, l);
                    want!(v.to_slice().as_ref() == &d[s..s + l], "owned sub-slice ({}, {})", s, l);
                } else {
                    want!(panics(|| unsafe { u.sub_slice(s, l) }), "sub-slice ({}, {}) of {} bytes is not refused", s, l, n);
                }
            } }
            want!(panics(|| unsafe { u.sub_slice(n + 1, 0) }), "an empty sub-slice past the end is not refused");
            V::Ok
        });
    }
    c.family("long contents");
    for n in [255usize, 256, 4095, 4096, 65535, 65536, 100000] {
        let d = c.rng.nasty(n);
        let subs: Vec<(usize, usize)> = (0..12).map(|i| { let s = if i % 3 == 0 { 0 } else { c.rng.below(n + 1) }; (s, if i % 2 == 0 { n - s } else { c.rng.below(n - s + 1) }) }).collect();
        c.case(|| format!("{} bytes, sub-ranges {:?}", n, subs), || {
            let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
            let u = match UnsafeSlice::new_with_arena(&d, arena.clone()) { Ok(u) => u, Err(_) => return V::Fail("creation failed".into()) };
            for i in 0..300usize { arena.lock().unwrap().allocate(1 + i % 90).fill(0xdd); }
            want!(u.len() == n && u.as_ref() == &d[..], "contents");
            for &(s, l) in &subs {
                let v = unsafe { u.sub_slice(s, l) };
                want!(v.len() == l && v.as_ref() == &d[s..s + l], "sub-slice ({}, {})", s, l);
                want!(v.to_slice().as_ref() == &d[s..s + l], "owned sub-slice ({}, {})", s, l);
            }
            V::Ok
        });
    }
}
