use crate::ctx::*;
use crate::{want, want_eq};
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::DataIterator;
use level_db_rust::util::arena::ArenaRef;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use level_db_rust::util::Arena;
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug)]
enum L { Add, Push, First, Last, At(usize), Set(usize) }

fn c12_check(l: &LinkedList<String>, m: &Vec<String>) -> V {
    want_eq!(l.length(), m.len(), "length");
    for (i, x) in m.iter().enumerate() {
        match l.get(i) { Ok(Some(v)) => want!(v == x, "get({}): got {}, want {}", i, v, x), _ => return V::Fail(format!("get({}) finds nothing", i)) }
        match l.get_mut(i) { Ok(Some(v)) => want!(v == x, "get_mut({}): got {}, want {}", i, v, x), _ => return V::Fail(format!("get_mut({}) finds nothing", i)) }
    }
    for i in [m.len(), m.len() + 1, usize::MAX] {
        want!(l.get(i).is_err(), "get({}) of {} elements is not refused", i, m.len());
        want!(l.get_mut(i).is_err(), "get_mut({}) of {} elements is not refused", i, m.len());
    }
    V::Ok
}
fn c12_history(ops: &[L]) -> V {
    let mut l: LinkedList<String> = LinkedListBuilder::new();
    let mut m: Vec<String> = vec![];
    if let V::Fail(e) = c12_check(&l, &m) { return V::Fail(format!("new list: {}", e)); }
    for (n, op) in ops.iter().enumerate() {
        let v = format!("value-{}", n);
        match *op {
            L::Add => { l.add(v.clone()); m.push(v); }
            L::Push => { l.push(v.clone()); m.insert(0, v); }
            L::First => { want!(matches!(l.add_first(v.clone()), Ok(true)), "add_first failed"); m.insert(0, v); }
            L::Last => { want!(matches!(l.add_last(v.clone()), Ok(true)), "add_last failed"); m.push(v); }
            L::At(p) => {
                let r = l.add_by_position(p, v.clone());
                if p <= m.len() { want!(matches!(r, Ok(true)), "add_by_position({}) of {} elements failed", p, m.len()); m.insert(p, v); }
                else { want!(r.is_err(), "add_by_position({}) of {} elements is not refused", p, m.len()); }
            }
            L::Set(p) => if p < m.len() {
                match l.get_mut(p) { Ok(Some(x)) => *x = v.clone(), _ => return V::Fail(format!("get_mut({}) finds nothing", p)) }
                m[p] = v;
            }
        }
        if let V::Fail(e) = c12_check(&l, &m) { return V::Fail(format!("after operation {} ({:?}): {}", n, op, e)); }
    }
    V::Ok
}
fn c12_ends(n: usize) -> V {
    let mut l: LinkedList<String> = LinkedListBuilder::new();
    let mut m: std::collections::VecDeque<usize> = Default::default();
    for k in 0..n {
        let v = format!("value-{}", k);
        match k % 7 {
            0 | 3 => { l.add(v); m.push_back(k); }
            1 => { l.push(v); m.push_front(k); }
            2 | 4 => { want!(matches!(l.add_first(v), Ok(true)), "add_first failed"); m.push_front(k); }
            _ => { want!(matches!(l.add_last(v), Ok(true)), "add_last failed"); m.push_back(k); }
        }
        want_eq!(l.length(), m.len(), "length after {} insertions", k + 1);
    }
    for i in [0, 1, 2, 126, 127, 128, 254, 255, 256, 257, n / 3, n / 2, 65534, 65535, 65536, 65537, n - 2, n - 1] {
        if i >= n { want!(l.get(i).is_err(), "get({}) of {} elements is not refused", i, n); continue; }
        match l.get(i) { Ok(Some(v)) => want!(*v == format!("value-{}", m[i]), "get({}) of {} elements: got {}, want value-{}", i, n, v, m[i]), _ => return V::Fail(format!("get({}) of {} elements finds nothing", i, n)) }
        match l.get_mut(i) { Ok(Some(v)) => want!(*v == format!("value-{}", m[i]), "get_mut({}) of {} elements: got {}, want value-{}", i, n, v, m[i]), _ => return V::Fail(format!("get_mut({}) of {} elements finds nothing", i, n)) }
    }
    want!(l.get(n).is_err(), "get({}) of {} elements is not refused", n, n);
    V::Ok
}
pub fn c12(c: &mut Ctx) {
    c.family("all short histories");
    let ops = [L::Add, L::Push, L::At(0), L::At(1), L::At(2), L::At(3), L::At(9)];
    let len = 5;
    let mut idx = vec![0usize; len];
    loop {
        let h: Vec<L> = idx.iter().map(|i| ops[*i]).collect();
        c.case(|| format!("{:?}", h), || c12_history(&h));
        let mut k = 0;
        while k < len { idx[k] += 1; if idx[k] < ops.len() { break; } idx[k] = 0; k += 1; }
        if k == len { break; }
    }
    c.family("random histories");
    for _ in 0..c.n(600, 8000) {
        let n = c.rng.below(40);
        let mut len = 0usize;
        let h: Vec<L> = (0..n).map(|_| {
            let o = match c.rng.below(9) {
                0 => L::Add, 1 => L::Push, 2 => L::First, 3 => L::Last,
                4 | 5 | 6 => L::At(c.rng.below(len + 1)), 7 => L::At(len + 1 + c.rng.below(3)), _ => L::Set(c.rng.below(len + 1)),
            };
            match o { L::At(p) if p > len => {} L::Set(_) => {} _ => len += 1 }
            o
        }).collect();
        c.case(|| format!("{:?}", h), || c12_history(&h));
    }
    c.family("long lists");
    for n in [100usize, 257] {
        c.case(|| format!("{} insertions in the middle", n), || c12_history(&(0..n).map(|i| L::At(i / 2)).collect::<Vec<_>>()));
    }
    for n in [300usize, 70000] {
        c.case(|| format!("{} insertions at the ends", n), || c12_ends(n));
    }
}

struct Reverse;
impl Comparator for Reverse {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { Some(b.cmp(a)) }
    fn get_name(&self) -> String { "reverse".into() }
    fn find_shortest_separator(&self, s: &String, _: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}
/// orders by length only: different bytes can be equal keys
struct ByLen;
impl Comparator for ByLen {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { Some(a.len().cmp(&b.len())) }
    fn get_name(&self) -> String { "length".into() }
    fn find_shortest_separator(&self, s: &String, _: &Slice) -> String { s.clone() }
    fn find_short_successor(&self, k: &String) -> String { k.clone() }
}

fn bytes_of(v: &[UnsafeSlice]) -> Vec<Vec<u8>> { v.iter().map(|u| u.as_ref().to_vec()).collect() }

fn c15_check<C: Comparator>(l: &SkipList<C>, m: &Vec<Vec<u8>>, absent: &[Vec<u8>], cmp: &dyn Fn(&[u8], &[u8]) -> Ordering) -> V {
    want_eq!(l.len(), m.len(), "size");
    let got = bytes_of(&l.iter().take(m.len() + 3).collect::<Vec<_>>());
    want!(got == *m, "iteration: got {:?}, want {:?}", got.iter().map(|k| hex(k)).collect::<Vec<_>>(), m.iter().map(|k| hex(k)).collect::<Vec<_>>());
    for k in m { want!(l.contains(k), "inserted key {} is not contained", hex(k)); }
    for k in absent {
        let there = m.iter().any(|x| cmp(x, k) == Ordering::Equal);
        want_eq!(l.contains(k), there, "contains({})", hex(k));
    }
    // cursor
    let mut it = l.iter();
    want!(!it.valid(), "a new iterator is valid before it is on a key");
    it.seek_to_first();
    for k in m {
        want!(it.valid(), "iterator on key {} is not valid", hex(k));
        want!(it.key().as_ref() == &k[..], "key: got {}, want {}", hex(it.key().as_ref()), hex(k));
        DataIterator::next(&mut it);
    }
    for _ in 0..3 { want!(!it.valid(), "iterator past the end is valid"); DataIterator::next(&mut it); }
    want!(Iterator::next(&mut it).is_none(), "a key past the end");
    it.seek_to_last();
    want_eq!(it.valid(), !m.is_empty(), "valid after seek_to_last");
    if let Some(k) = m.last() {
        want!(it.key().as_ref() == &k[..], "last key: got {}, want {}", hex(it.key().as_ref()), hex(k));
        DataIterator::next(&mut it);
        want!(!it.valid(), "valid after the last key");
    }
    it.seek_to_first();
    want_eq!(it.valid(), !m.is_empty(), "valid after seek_to_first");
    if let Some(k) = m.first() { want!(it.key().as_ref() == &k[..], "first key"); }
    // every short walk of the cursor: position -1 before the first key, m.len() past the end
    let shape = m.len().min(3);
    for start in 0..81usize {
        if m.len() > 5 && start % 27 != m.len() % 27 { continue; }
        let mut it = l.iter();
        let mut at: i64 = -1;
        let mut code = start * 7 + shape;
        for step in 0..9 {
            match code % 4 {
                0 => { it.seek_to_first(); at = 0; }
                1 => { it.seek_to_last(); at = if m.is_empty() { 0 } else { m.len() as i64 - 1 }; }
                2 => { DataIterator::next(&mut it); at = (at + 1).min(m.len() as i64); }
                _ => {
                    let r = Iterator::next(&mut it);
                    at = (at + 1).min(m.len() as i64);
                    want!(r.map(|u| u.as_ref().to_vec()) == m.get(at as usize).cloned(), "step {} of cursor walk {}: iteration", step, start);
                }
            }
            code = code / 4 + (step * 13 + start) % 5 * 16;
            let on = at >= 0 && at < m.len() as i64;
            want_eq!(it.valid(), on, "step {} of cursor walk {}: valid", step, start);
            if on { want!(it.key().as_ref() == &m[at as usize][..], "step {} of cursor walk {}: key {}, want {}", step, start, hex(it.key().as_ref()), hex(&m[at as usize])); }
        }
    }
    // stepping with the plain iterator interface from a cursor position
    if m.len() > 1 {
        let r = Iterator::next(&mut it);
        want!(r.map(|u| u.as_ref().to_vec()) == Some(m[1].clone()), "second key by iteration");
        want!(it.valid() && it.key().as_ref() == &m[1][..], "cursor after iteration");
    }
    #[cfg(verif_inspect)]
    {
        let mut below = bytes_of(&l.verif_level(0));
        want!(below == *m, "bottom level");
        for lv in 1..8 {
            if lv >= l.height() { break; }
            let here = bytes_of(&l.verif_level(lv));
            want!(here.windows(2).all(|w| cmp(&w[0], &w[1]) == Ordering::Less), "level {} is not sorted", lv);
            want!(here.iter().all(|k| below.contains(k)), "level {} is not part of the level below", lv);
            below = here;
        }
    }
    V::Ok
}
fn c15_history<C: Comparator>(cmpr: C, keys: &[Vec<u8>], absent: &[Vec<u8>], every: usize) -> V {
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let cmp = Arc::new(cmpr);
    let ord = |a: &[u8], b: &[u8]| cmp.compare(a, b).unwrap();
    let mut l = SkipList::create(cmp.clone(), arena.clone());
    let mut m: Vec<Vec<u8>> = vec![];
    if let V::Fail(e) = c15_check(&l, &m, absent, &ord) { return V::Fail(format!("new list: {}", e)); }
    for (n, k) in keys.iter().enumerate() {
        let u = match UnsafeSlice::new_with_arena(k, arena.clone()) { Ok(u) => u, Err(_) => return V::Fail("slice creation failed".into()) };
        want!(l.insert(u).is_ok(), "insertion {} failed", n);
        let p = m.partition_point(|x| ord(x, k) == Ordering::Less);
        if p == m.len() || ord(&m[p], k) != Ordering::Equal { m.insert(p, k.clone()); }
        if n % every == 0 || n + 1 == keys.len() {
            if let V::Fail(e) = c15_check(&l, &m, absent, &ord) { return V::Fail(format!("after insertion {} of {}: {}", n, hex(k), e)); }
        }
    }
    V::Ok
}
pub fn c15(c: &mut Ctx) {
    c.family("all orders of few keys");
    let base: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), b"ab".to_vec(), vec![0x80], vec![0xff, 0]];
    let absent: Vec<Vec<u8>> = vec![vec![0], b"aa".to_vec(), b"b".to_vec(), vec![0xff], vec![0xff, 1]];
    let mut perm: Vec<usize> = (0..5).collect();
    let mut perms = vec![];
    fn heap(k: usize, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k <= 1 { out.push(p.clone()); return; }
        for i in 0..k { heap(k - 1, p, out); if k % 2 == 0 { p.swap(i, k - 1) } else { p.swap(0, k - 1) } }
    }
    heap(5, &mut perm, &mut perms);
    for rep in 0..c.n(6, 60) {
        for p in &perms {
            let mut keys: Vec<Vec<u8>> = p.iter().map(|i| base[*i].clone()).collect();
            if rep % 2 == 1 { let d = keys[c.rng.below(5)].clone(); keys.push(d); let d = keys[c.rng.below(5)].clone(); keys.insert(3, d); }
            c.case(|| format!("keys {:?} (tower heights are random)", keys.iter().map(|k| hex(k)).collect::<Vec<_>>()), || c15_history(BytewiseComparatorImpl::default(), &keys, &absent, 1));
        }
    }
    c.family("random key sets");
    for i in 0..c.n(500, 8000) {
        let n = match c.rng.below(8) { 0 => 200 + c.rng.below(200), _ => c.rng.below(40) };
        let keys: Vec<Vec<u8>> = (0..n).map(|_| { let l = if i % 5 == 0 { 2 } else { c.rng.below(6) }; c.rng.nasty(l) }).collect();
        let absent: Vec<Vec<u8>> = (0..20).map(|_| { let l = c.rng.below(5); c.rng.nasty(l) }).collect();
        let every = 1 + keys.len() / 12;
        c.case(|| format!("{} keys {:?}", n, keys.iter().take(40).map(|k| hex(k)).collect::<Vec<_>>()), || c15_history(BytewiseComparatorImpl::default(), &keys, &absent, every));
        c.case(|| format!("{} keys in reverse order {:?}", n, keys.iter().take(40).map(|k| hex(k)).collect::<Vec<_>>()), || c15_history(Reverse, &keys, &absent, every));
    }
    c.family("comparator with equal but different keys");
    for _ in 0..c.n(100, 1000) {
        let n = c.rng.below(30);
        let keys: Vec<Vec<u8>> = (0..n).map(|_| { let l = c.rng.below(12); c.rng.nasty(l) }).collect();
        c.case(|| format!("keys ordered by length {:?}", keys.iter().map(|k| hex(k)).collect::<Vec<_>>()), || c15_history(ByLen, &keys, &[], 3));
    }
    c.family("many keys");
    for n in [1000usize, 4000] {
        let keys: Vec<Vec<u8>> = (0..n).map(|i| { let mut k = ((i * 7919 % n) as u16).to_be_bytes().to_vec(); if i % 3 == 0 { k.push(i as u8); } k }).collect();
        let absent: Vec<Vec<u8>> = (0..300).map(|_| { let l = 3 + c.rng.below(5); c.rng.nasty(l) }).collect();
        c.case(|| format!("{} keys", n), || c15_history(BytewiseComparatorImpl::default(), &keys, &absent, n / 2));
        let up: Vec<Vec<u8>> = (0..n).map(|i| (i as u32).to_be_bytes().to_vec()).collect();
        c.case(|| format!("{} ascending keys", n), || c15_history(BytewiseComparatorImpl::default(), &up, &absent, n / 2));
        c.case(|| format!("{} descending keys", n), || c15_history(Reverse, &up, &absent, n / 2));
    }
}
