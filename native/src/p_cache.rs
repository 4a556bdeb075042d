use crate::ctx::*;
use crate::spec;
use crate::{want, want_eq};
use level_db_rust::util::cache::ShardLRUCache;
#[cfg(verif_inspect)]
use level_db_rust::util::cache::VerifShard;
use level_db_rust::util::slice::Slice;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
enum Op { Insert(usize, usize), Erase(usize), Lookup(usize), Prune }
impl Op { fn show(&self) -> String { match self { Op::Insert(k, c) => format!("i{}/{}", k, c), Op::Erase(k) => format!("e{}", k), Op::Lookup(k) => format!("l{}", k), Op::Prune => "p".into() } } }
fn show(ops: &[Op]) -> String { ops.iter().map(|o| o.show()).collect::<Vec<_>>().join(" ") }

fn key(i: usize) -> Slice { Slice::from_buf(format!("key-{}", i).as_bytes()) }

/// values are strings so that freed memory is noticed
fn value(op: usize, k: usize) -> String { format!("value of key {} by operation {}", k, op) }

#[cfg(verif_inspect)]
fn map_history_shard(slots: usize, hashes: &[u32], ops: &[Op], every: usize) -> V {
    let mut s: VerifShard<String> = VerifShard::new(usize::MAX, slots);
    let mut m: HashMap<usize, String> = HashMap::new();
    let mut held: Vec<(Arc<String>, String)> = vec![];
    for (n, op) in ops.iter().enumerate() {
        match *op {
            Op::Insert(k, ch) => { want!(s.insert(&key(k), hashes[k], value(n, k), ch).is_ok(), "insert failed"); m.insert(k, value(n, k)); }
            Op::Erase(k) => { want!(s.erase(&key(k), hashes[k]).is_ok(), "erase failed"); m.remove(&k); }
            Op::Prune => { want!(s.prune().is_ok(), "prune failed"); m.clear(); }
            Op::Lookup(k) => {
                let r = s.look_up(&key(k), hashes[k]);
                let r = match r { Ok(r) => r, Err(_) => return V::Fail("lookup failed".into()) };
                want_eq!(r.as_deref(), m.get(&k), "operation {}: lookup of key {}", n, k);
                if let Some(a) = r { held.push((a, m[&k].clone())); }
            }
        }
        if n % every == 0 || n + 1 == ops.len() {
            for k in 0..hashes.len() {
                let r = match s.look_up(&key(k), hashes[k]) { Ok(r) => r, Err(_) => return V::Fail("lookup failed".into()) };
                want_eq!(r.as_deref(), m.get(&k), "after operation {} ({}): lookup of key {} (hash {:#x})", n, op.show(), k, hashes[k]);
            }
            want_eq!(s.elements(), m.len(), "after operation {}: number of entries", n);
        }
    }
    for (a, v) in &held { want!(**a == *v, "a value handed out changed: {} instead of {}", a, v); }
    V::Ok
}

/// keys with one hash that agree in all but one byte, or of which one is a prefix of the other
#[cfg(verif_inspect)]
fn look_alikes(n: usize, hash: u32) -> V {
    let base: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
    let mut keys = vec![base.clone()];
    for at in [0, n / 2, n - 1] { let mut k = base.clone(); k[at] ^= 0x80; if !keys.contains(&k) { keys.push(k); } }
    for m in [0, 1, n / 2, n - 1] { let k = base[..m].to_vec(); if !keys.contains(&k) { keys.push(k); } }
    let mut k = base.clone(); k.push(0); keys.push(k);
    let mut s: VerifShard<String> = VerifShard::new(usize::MAX, 16);
    let mut m: Vec<Option<String>> = vec![None; keys.len()];
    let sl = |k: usize| Slice::from_buf(&keys[k]);
    for n in 0..keys.len() * 4 {
        let k = n * 5 % keys.len();
        if n % 3 == 2 { want!(s.erase(&sl(k), hash).is_ok(), "erase failed"); m[k] = None; }
        else { want!(s.insert(&sl(k), hash, value(n, k), 1).is_ok(), "insert failed"); m[k] = Some(value(n, k)); }
        for q in 0..keys.len() {
            let r = match s.look_up(&sl(q), hash) { Ok(r) => r, Err(_) => return V::Fail("lookup failed".into()) };
            want_eq!(r.as_deref(), m[q].as_ref(), "after operation {}: lookup of key {} ({} bytes)", n, q, keys[q].len());
        }
        want_eq!(s.elements(), m.iter().flatten().count(), "after operation {}: number of entries", n);
    }
    V::Ok
}

fn map_history_public(slots: usize, keys: &[Vec<u8>], ops: &[Op], every: usize) -> V {
    let mut s: ShardLRUCache<String> = ShardLRUCache::new_with_capacity(usize::MAX / 4, slots);
    let mut m: HashMap<usize, String> = HashMap::new();
    let mut held: Vec<(Arc<String>, String)> = vec![];
    let key = |k: usize| Slice::from_buf(&keys[k]);
    for (n, op) in ops.iter().enumerate() {
        match *op {
            Op::Insert(k, ch) => { want!(s.insert(&key(k), value(n, k), ch).is_ok(), "insert failed"); m.insert(k, value(n, k)); }
            Op::Erase(k) => { want!(s.erase(&key(k)).is_ok(), "erase failed"); m.remove(&k); }
            Op::Prune => { want!(s.prune().is_ok(), "prune failed"); m.clear(); }
            Op::Lookup(k) => {
                let r = match s.lookup(&key(k)) { Ok(r) => r, Err(_) => return V::Fail("lookup failed".into()) };
                want_eq!(r.as_deref(), m.get(&k), "operation {}: lookup of key {}", n, hex(&keys[k]));
                if let Some(a) = r { held.push((a, m[&k].clone())); }
            }
        }
        if n % every == 0 || n + 1 == ops.len() {
            for k in 0..keys.len() {
                let r = match s.lookup(&key(k)) { Ok(r) => r, Err(_) => return V::Fail("lookup failed".into()) };
                want_eq!(r.as_deref(), m.get(&k), "after operation {} ({}): lookup of key {}", n, op.show(), hex(&keys[k]));
            }
        }
    }
    for (a, v) in &held { want!(**a == *v, "a value handed out changed: {} instead of {}", a, v); }
    V::Ok
}

fn random_ops(c: &mut Ctx, n: usize, keys: usize, charge: &mut dyn FnMut(&mut Rng) -> usize, prunes: bool) -> Vec<Op> {
    let style = c.rng.below(3);
    (0..n).map(|_| {
        let k = c.rng.below(keys);
        match c.rng.below(20) {
            0 if prunes => Op::Prune,
            1..=4 => Op::Lookup(k),
            5..=9 if style != 0 => Op::Erase(k),
            _ => { let ch = charge(&mut c.rng); Op::Insert(k, ch) }
        }
    }).collect()
}

fn distinct_keys(c: &mut Ctx, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff]];
    while v.len() < n { let l = 1 + c.rng.below(8); let k = c.rng.nasty(l); if !v.contains(&k) { v.push(k); } }
    v.truncate(n);
    v
}

pub fn c13(c: &mut Ctx) {
    #[cfg(verif_inspect)]
    {
        c.family("all short histories over three colliding keys");
        let ops = [Op::Insert(0, 1), Op::Insert(1, 1), Op::Insert(2, 1), Op::Erase(0), Op::Erase(1), Op::Erase(2), Op::Prune];
        for hs in [[5u32, 5, 5], [5, 21, 5]] {
            let len = 5;
            let mut idx = vec![0usize; len];
            loop {
                let h: Vec<Op> = idx.iter().map(|i| ops[*i]).collect();
                c.case(|| format!("hashes {:?}: {}", hs, show(&h)), || map_history_shard(16, &hs, &h, 1));
                let mut k = 0;
                while k < len { idx[k] += 1; if idx[k] < ops.len() { break; } idx[k] = 0; k += 1; }
                if k == len { break; }
            }
        }
        c.family("keys that look alike");
        for n in [1usize, 2, 3, 4, 8, 9, 16, 33, 64, 65, 257, 5000, 70000] { for h in [0u32, 7, u32::MAX] {
            c.case(|| format!("keys of about {} bytes that agree in all but one or one more, all of hash {:#x}", n, h), || look_alikes(n, h));
        } }
        c.family("growth with few hash values");
        for i in 0..c.n(300, 5000) {
            let nk = 3 + c.rng.below(70);
            let hashes: Vec<u32> = (0..nk).map(|_| match i % 5 {
                0 => 7, 1 => *c.rng.pick(&[0u32, 16, 32, 48, 64, 80]), 2 => c.rng.below(8) as u32 * 16 + 3,
                3 => c.rng.next() as u32, _ => *c.rng.pick(&[0u32, 1, u32::MAX, 15, 16, 31, 0x8000_0000]),
            }).collect();
            let n = 20 + c.rng.below(200);
            let ops = random_ops(c, n, nk, &mut |_| 1, true);
            let every = 1 + n / 25;
            let slots = *c.rng.pick(&[16usize, 16, 1, 17, 31, 33, 48, 96, 100, 128]);
            c.case(|| format!("{} slots asked for, hashes {:?}: {}", slots, hashes, show(&ops)), || map_history_shard(slots, &hashes, &ops, every));
        }
    }
    c.family("public interface");
    for _ in 0..c.n(60, 800) {
        let nk = 3 + c.rng.below(120);
        let keys = distinct_keys(c, nk);
        let n = 20 + c.rng.below(300);
        let ops = random_ops(c, n, nk, &mut |r| r.below(1000), true);
        let slots = *c.rng.pick(&[1usize, 1, 512, 600, 1000, 1536, 3072, 4096]);
        c.case(|| format!("{} slots asked for, {} keys: {}", slots, nk, show(&ops)), || map_history_public(slots, &keys, &ops, 40));
    }
    c.family("growth of every shard");
    for n in [1500usize, 4000, 4001] {
        c.case(|| format!("{} keys inserted, half erased, all looked up", n), || {
            let keys: Vec<Vec<u8>> = (0..n).map(|i| format!("k{:x}", i * 7919).into_bytes()).collect();
            let mut ops: Vec<Op> = (0..n).map(|k| Op::Insert(k, 1)).collect();
            ops.extend((0..n / 2).map(|k| Op::Erase(2 * k)));
            ops.extend((0..n / 3).map(|k| Op::Insert(3 * k, 2)));
            map_history_public([1, 1536, 1000][n % 3], &keys, &ops, usize::MAX / 2)
        });
    }
    c.family("values handed out");
    for how in 0..4usize {
        c.case(|| format!("held while its entry is {}", ["replaced", "erased", "evicted", "pruned"][how]), || {
            let mut s: ShardLRUCache<String> = ShardLRUCache::new_with_capacity(32 * 100, 1);
            want!(s.insert(&key(1), "first".to_string(), 10).is_ok(), "insert failed");
            let a = match s.lookup(&key(1)) { Ok(Some(a)) => a, _ => return V::Fail("not found".into()) };
            match how {
                0 => { let _ = s.insert(&key(1), "second".to_string(), 10); }
                1 => { let _ = s.erase(&key(1)); }
                2 => { for i in 2..2000 { let _ = s.insert(&key(i), "other".to_string(), 50); } }
                _ => { let _ = s.prune(); }
            }
            want!(a.as_str() == "first", "the value changed");
            drop(s);
            want!(a.as_str() == "first", "the value changed after the cache was dropped");
            V::Ok
        });
    }
}

#[derive(Clone)]
struct Model { e: Vec<(usize, usize, String)>, cap: usize, lru: bool }
impl Model {
    fn usage(&self) -> usize { self.e.iter().map(|x| x.1).sum() }
    fn apply(&mut self, n: usize, op: Op) {
        match op {
            Op::Insert(k, ch) => {
                self.e.retain(|x| x.0 != k);
                self.e.push((k, ch, value(n, k)));
                while self.usage() >= self.cap && !self.e.is_empty() { self.e.remove(0); }
            }
            Op::Erase(k) => self.e.retain(|x| x.0 != k),
            Op::Prune => self.e.clear(),
            Op::Lookup(k) => if self.lru { if let Some(p) = self.e.iter().position(|x| x.0 == k) { let x = self.e.remove(p); self.e.push(x); } },
        }
    }
}
const RECENCY: &str = "cache-lookup-recency";

#[cfg(verif_inspect)]
fn charge_history_shard(hashes: &[u32], cap: usize, ops: &[Op]) -> V {
    let mut s: VerifShard<String> = VerifShard::new(cap, 16);
    let mut ms = [Model { e: vec![], cap, lru: true }, Model { e: vec![], cap, lru: false }];
    let mut alive = [true, true];
    for (n, op) in ops.iter().enumerate() {
        match *op {
            Op::Insert(k, ch) => want!(s.insert(&key(k), hashes[k], value(n, k), ch).is_ok(), "insert failed"),
            Op::Erase(k) => {
                let had = ms[if alive[0] { 0 } else { 1 }].e.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
                match s.erase(&key(k), hashes[k]) { Ok(ch) => want_eq!(ch, had, "operation {}: charge given back by erasing key {}", n, k), Err(_) => return V::Fail("erase failed".into()) }
            }
            Op::Prune => want!(s.prune().is_ok(), "prune failed"),
            Op::Lookup(k) => { let _ = s.look_up(&key(k), hashes[k]); }
        }
        let list = s.oldest_first();
        want_eq!(s.total_charge(), list.iter().map(|x| x.1).sum::<usize>(), "after operation {} ({}): total charge against the charges of the entries", n, op.show());
        want!(list.is_empty() || s.total_charge() < cap, "after operation {} ({}): charge {} is not below the capacity {}", n, op.show(), s.total_charge(), cap);
        want_eq!(s.elements(), list.len(), "after operation {} ({}): entries in the table", n, op.show());
        let got: Vec<(Vec<u8>, usize)> = list.iter().map(|x| (x.0.as_ref().to_vec(), x.1)).collect();
        let mut wants = vec![];
        for i in 0..2 {
            ms[i].apply(n, *op);
            let w: Vec<(Vec<u8>, usize)> = ms[i].e.iter().map(|x| (key(x.0).as_ref().to_vec(), x.1)).collect();
            if w != got { alive[i] = false; }
            wants.push(w);
        }
        let t = |v: &Vec<(Vec<u8>, usize)>| v.iter().map(|x| format!("{}/{}", String::from_utf8_lossy(&x.0), x.1)).collect::<Vec<_>>().join(" ");
        want!(alive[0] || alive[1], "after operation {} ({}): entries oldest first are [{}], want [{}]", n, op.show(), t(&got), t(&wants[0]));
        for (k, ..) in &ms[if alive[0] { 0 } else { 1 }].e {
            if alive[0] { break; } // looking up would count as a use
            want!(matches!(s.look_up(&key(*k), hashes[*k]), Ok(Some(_))), "after operation {}: key {} is not retrievable", n, k);
        }
    }
    if alive[0] { V::Ok } else { V::Known(RECENCY, "looking a key up does not protect it from eviction".into()) }
}

fn charge_history_public(keys: &[Vec<u8>], capacity: usize, ops: &[Op]) -> V {
    let cap = (capacity + 31) / 32;
    let mut s: ShardLRUCache<String> = ShardLRUCache::new_with_capacity(capacity, 1);
    want_eq!(s.capacity(), capacity, "capacity");
    let mut ms: Vec<Vec<Model>> = [true, false].iter().map(|lru| vec![Model { e: vec![], cap, lru: *lru }; 32]).collect();
    let mut alive = [true, true];
    let shard = |k: usize| (spec::hash(&keys[k], 0) >> 27) as usize;
    for (n, op) in ops.iter().enumerate() {
        match *op {
            Op::Insert(k, ch) => want!(s.insert(&Slice::from_buf(&keys[k]), value(n, k), ch).is_ok(), "insert failed"),
            Op::Erase(k) => want!(s.erase(&Slice::from_buf(&keys[k])).is_ok(), "erase failed"),
            Op::Prune => want!(s.prune().is_ok(), "prune failed"),
            Op::Lookup(k) => { let _ = s.lookup(&Slice::from_buf(&keys[k])); }
        }
        let got = match s.total_charge() { Ok(t) => t, Err(_) => return V::Fail("total_charge failed".into()) };
        let mut w = [0usize; 2];
        for i in 0..2 {
            match *op {
                Op::Prune => for m in ms[i].iter_mut() { m.apply(n, Op::Prune) },
                Op::Insert(k, _) | Op::Erase(k) | Op::Lookup(k) => ms[i][shard(k)].apply(n, *op),
            }
            w[i] = ms[i].iter().map(|m| m.usage()).sum();
            if w[i] != got { alive[i] = false; }
        }
        want!(alive[0] || alive[1], "after operation {} ({}): total charge {}, want {}", n, op.show(), got, w[0]);
        #[cfg(verif_inspect)]
        for (i, (c, u)) in s.verif_shards().iter().enumerate() {
            want_eq!(*c, cap, "capacity of shard {}", i);
            want!(*u == 0 || *u < cap, "charge {} of shard {} is not below its capacity {}", u, i, cap);
            if alive[1] { want_eq!(*u, ms[1][i].usage(), "after operation {} ({}): charge of shard {}", n, op.show(), i); }
        }
    }
    let found: Vec<bool> = (0..keys.len()).map(|k| matches!(s.lookup(&Slice::from_buf(&keys[k])), Ok(Some(_)))).collect();
    for i in 0..2 {
        for k in 0..keys.len() { if ms[i][shard(k)].e.iter().any(|x| x.0 == k) != found[k] { alive[i] = false; } }
    }
    want!(alive[0] || alive[1], "the retrievable keys are not those that should have survived");
    if alive[0] { V::Ok } else { V::Known(RECENCY, "looking a key up does not protect it from eviction".into()) }
}

pub fn c14(c: &mut Ctx) {
    #[cfg(verif_inspect)]
    {
        c.family("recency of lookups");
        c.case(|| "capacity 3, charge 1: insert a, insert b, look a up, insert c".into(),
            || charge_history_shard(&[1, 2, 3], 3, &[Op::Insert(0, 1), Op::Insert(1, 1), Op::Lookup(0), Op::Insert(2, 1)]));
        c.family("all short histories");
        let ops = [Op::Insert(0, 1), Op::Insert(0, 2), Op::Insert(1, 1), Op::Insert(2, 3), Op::Insert(2, 4), Op::Erase(0), Op::Erase(1), Op::Prune];
        let len = 5;
        let mut idx = vec![0usize; len];
        loop {
            let h: Vec<Op> = idx.iter().map(|i| ops[*i]).collect();
            c.case(|| format!("capacity 4, colliding hashes: {}", show(&h)), || charge_history_shard(&[9, 9, 25], 4, &h));
            let mut k = 0;
            while k < len { idx[k] += 1; if idx[k] < ops.len() { break; } idx[k] = 0; k += 1; }
            if k == len { break; }
        }
        c.family("random histories of one shard");
        for i in 0..c.n(500, 10000) {
            let nk = 2 + c.rng.below(30);
            let hashes: Vec<u32> = (0..nk).map(|_| if i % 2 == 0 { c.rng.below(4) as u32 * 16 } else { c.rng.next() as u32 }).collect();
            let cap = match c.rng.below(6) { 0 => c.rng.below(4), 1 => 1000, _ => 1 + c.rng.below(60) };
            let n = 10 + c.rng.below(80);
            let with_lookups = i % 3 == 0;
            let mut ops = random_ops(c, n, nk, &mut |r| match r.below(8) { 0 => 0, 1 => r.below(cap + 3), _ => 1 + r.below(8) }, true);
            if !with_lookups { ops.retain(|o| !matches!(o, Op::Lookup(_))); }
            c.case(|| format!("capacity {}, hashes {:?}: {}", cap, hashes, show(&ops)), || charge_history_shard(&hashes, cap, &ops));
        }
    }
    c.family("public interface");
    for i in 0..c.n(150, 2000) {
        let nk = 3 + c.rng.below(200);
        let keys = distinct_keys(c, nk);
        let cap = match c.rng.below(6) { 0 => c.rng.below(70), 1 => 32 * 1000, _ => 32 + c.rng.below(32 * 30) };
        let n = 20 + c.rng.below(300);
        let mut ops = random_ops(c, n, nk, &mut |r| match r.below(8) { 0 => 0, 1 => r.below(cap / 32 + 3), _ => 1 + r.below(8) }, i % 4 == 0);
        if i % 3 != 0 { ops.retain(|o| !matches!(o, Op::Lookup(_))); }
        c.case(|| format!("capacity {}, keys {:?}: {}", cap, keys.iter().map(|k| hex(k)).collect::<Vec<_>>(), show(&ops)), || charge_history_public(&keys, cap, &ops));
    }
    c.family("shared constructor");
    c.case(|| "new_arc_with_capacity".into(), || {
        let s: Arc<ShardLRUCache<u64>> = ShardLRUCache::new_arc_with_capacity(3200, 5000);
        for i in 0..2000usize { want!(s.insert(&key(i), i as u64, 7).is_ok(), "insert failed"); }
        let found = (0..2000).filter(|i| matches!(s.lookup(&key(*i)), Ok(Some(_)))).count();
        let t = match s.total_charge() { Ok(t) => t, Err(_) => return V::Fail("total_charge failed".into()) };
        want_eq!(t, 7 * found, "total charge");
        want!(t < 3200, "charge {} is not below the capacity", t);
        V::Ok
    });
    c.family("long histories");
    #[cfg(verif_inspect)]
    for (nk, cap) in [(400usize, 150usize), (300, 100000)] {
        let hashes: Vec<u32> = (0..nk).map(|_| c.rng.next() as u32).collect();
        let mut ops = random_ops(c, 2500, nk, &mut |r| r.below(9), false);
        ops.retain(|o| !matches!(o, Op::Lookup(_)));
        c.case(|| format!("{} operations on {} keys, capacity {}", ops.len(), nk, cap), || charge_history_shard(&hashes, cap, &ops));
    }
    let keys = distinct_keys(c, 3000);
    let ops = { let mut o = random_ops(c, 6000, 3000, &mut |r| r.below(300), false); o.retain(|o| !matches!(o, Op::Lookup(_))); o };
    for cap in [32 * 4000usize, 32 * 70000] {
        c.case(|| format!("{} operations on 3000 keys, capacity {}", ops.len(), cap), || charge_history_public(&keys, cap, &ops));
    }
}
