use crate::ctx::*;
use crate::spec::{self, BLOCK};
use crate::{want, want_eq};
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use std::cell::RefCell;
use std::io::{Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// a sink that takes at most `chunk` bytes per write
struct Sink { out: Rc<RefCell<Vec<u8>>>, chunk: usize }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.chunk);
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// a source that gives at most `chunk` bytes per read
struct Source { data: Vec<u8>, pos: usize, chunk: usize }
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.chunk).min(self.data.len().saturating_sub(self.pos));
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let np = match p { SeekFrom::Start(n) => n as i64, SeekFrom::Current(d) => self.pos as i64 + d, SeekFrom::End(d) => self.data.len() as i64 + d };
        self.pos = np as usize;
        Ok(np as u64)
    }
}
impl SeekableReader for Source {}

fn write_log(records: &[Vec<u8>], chunk: usize) -> Result<Vec<u8>, String> {
    let out = Rc::new(RefCell::new(vec![]));
    let mut w = LogWriter::new(Box::new(Sink { out: out.clone(), chunk }));
    for (i, r) in records.iter().enumerate() {
        if w.add_record(Slice::from_buf(r)).is_err() { return Err(format!("writing record {} failed", i)); }
    }
    drop(w);
    let v = out.borrow().clone();
    Ok(v)
}
fn reader(data: Vec<u8>, chunk: usize, checksum: bool) -> LogReader {
    LogReader::new(Box::new(Source { data, pos: 0, chunk }), checksum, 0)
}
fn first_diff(a: &[u8], b: &[u8]) -> usize { a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len())) }

/// record of `n` bytes with contents that depend on its number
fn rec(i: usize, n: usize) -> Vec<u8> { (0..n).map(|j| (i.wrapping_mul(37) ^ j ^ (j >> 7)) as u8).collect() }

const LENS: [usize; 20] = [0, 1, 2, 6, 7, 8, 13, 14, 100, 32747, 32753, 32754, 32755, 32760, 32761, 32762, 32768, 65522, 65529, 100000];

fn c16_one(records: &[Vec<u8>], chunk: usize) -> V {
    let got = match write_log(records, chunk) { Ok(v) => v, Err(e) => return V::Fail(e) };
    let (w, _) = spec::log_file(0, records);
    want!(got == w, "file: got {} bytes, want {} bytes, first difference at byte {} (…got {} want {})", got.len(), w.len(), first_diff(&got, &w),
        hex(&got[first_diff(&got, &w)..got.len().min(first_diff(&got, &w) + 16)]), hex(&w[first_diff(&got, &w)..w.len().min(first_diff(&got, &w) + 16)]));
    V::Ok
}
/// sequences of record lengths that matter: every way to approach a block end
fn length_sets(c: &mut Ctx, random: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![], vec![0], vec![0, 0, 0]];
    for &n in &LENS { v.push(vec![n]); for &m in &[0usize, 1, 50, 40000] { v.push(vec![n, m]); v.push(vec![m, n, 3]); } }
    // the next record starts with exactly `left` bytes left in the block
    for left in 0..=16usize {
        for m in [0usize, 1, 2, 7, 8, 9, 32754, 32761, 32762, 70000] { v.push(vec![BLOCK - 7 - left, m, 5]); }
        v.push(vec![10, 0, BLOCK - 7 - 17 - 7 - left, 1, 1]);
    }
    for _ in 0..random {
        let k = 1 + c.rng.below(8);
        v.push((0..k).map(|_| match c.rng.below(5) { 0 => *c.rng.pick(&LENS), 1 => c.rng.below(70000), 2 => BLOCK - 14 + c.rng.below(14), _ => c.rng.below(300) }).collect());
    }
    v
}
pub fn c16(c: &mut Ctx) {
    c.family("record lengths around block ends");
    let n = c.n(250, 4000);
    for l in length_sets(c, n) {
        let records: Vec<Vec<u8>> = l.iter().enumerate().map(|(i, n)| rec(i, *n)).collect();
        let chunk = *c.rng.pick(&[usize::MAX, usize::MAX, 1000, 3, 1]);
        let chunk = if chunk < 10 && l.iter().sum::<usize>() > 80000 { 1000 } else { chunk };
        c.case(|| format!("record lengths {:?}, writes of at most {} bytes", l, chunk), || c16_one(&records, chunk));
    }
    c.family("contents");
    for _ in 0..c.n(300, 4000) {
        let k = 1 + c.rng.below(6);
        let records: Vec<Vec<u8>> = (0..k).map(|_| { let n = c.rng.below(60); c.rng.nasty(n) }).collect();
        c.case(|| format!("records {:?}", records.iter().map(|r| hex(r)).collect::<Vec<_>>()), || c16_one(&records, usize::MAX));
    }
    #[cfg(verif_inspect)]
    {
        c.family("every block offset");
        for off in (0..=BLOCK).step_by(c.n(97, 7)).chain(BLOCK - 40..=BLOCK) {
            let lens: Vec<usize> = vec![0, 1, BLOCK.saturating_sub(off + 7), (BLOCK + 1).saturating_sub(off + 7), 33000];
            c.case(|| format!("records of {:?} bytes from block offset {}", lens, off), || {
                for n in &lens {
                    let out = Rc::new(RefCell::new(vec![]));
                    let mut w = LogWriter::new(Box::new(Sink { out: out.clone(), chunk: usize::MAX })).verif_at(off);
                    let r = rec(3, *n);
                    want!(w.add_record(Slice::from_buf(&r)).is_ok(), "writing failed");
                    // at offset BLOCK the block is exactly full, which is the start of the next one
                    let (f, _) = spec::log_file(off % BLOCK, &[r]);
                    want!(*out.borrow() == f, "record of {} bytes: first difference at byte {}", n, first_diff(&out.borrow(), &f));
                }
                V::Ok
            });
        }
    }
    c.family("many records and blocks");
    for n in [300usize, 20000] {
        c.case(|| format!("{} records of 0 to 90 bytes", n), || { let r: Vec<Vec<u8>> = (0..n).map(|i| rec(i, i % 91)).collect(); c16_one(&r, usize::MAX) });
    }
    c.case(|| "records of 3000000, 8400000, 5 and 0 bytes".into(), || { let r: Vec<Vec<u8>> = [3000000usize, 8400000, 5, 0].iter().enumerate().map(|(i, n)| rec(i, *n)).collect(); c16_one(&r, usize::MAX) });
}

fn c17_one(records: &[Vec<u8>], chunk: usize, checksum: bool) -> V {
    let file = match write_log(records, usize::MAX) { Ok(v) => v, Err(e) => return V::Fail(e) };
    let mut r = reader(file, chunk, checksum);
    for (i, w) in records.iter().enumerate() {
        match r.read_next() {
            Ok(Some(s)) => want!(s.as_ref() == &w[..], "record {}: got {} bytes, want {}, first difference at byte {}", i, s.size(), w.len(), first_diff(s.as_ref(), w)),
            Ok(None) => return V::Fail(format!("end of log instead of record {}", i)),
            Err(e) => return V::Fail(format!("error instead of record {}: {}", i, e.to_string())),
        }
    }
    for i in 0..4 {
        match r.read_next() { Ok(None) => {} Ok(Some(s)) => return V::Fail(format!("a record of {} bytes after the last one", s.size())), Err(e) => return V::Fail(format!("error instead of the end of log (call {}): {}", i, e.to_string())) }
    }
    V::Ok
}
pub fn c17(c: &mut Ctx) {
    c.family("record lengths around block ends");
    let n = c.n(250, 4000);
    for l in length_sets(c, n) {
        let records: Vec<Vec<u8>> = l.iter().enumerate().map(|(i, n)| rec(i, *n)).collect();
        let chunk = *c.rng.pick(&[usize::MAX, usize::MAX, 4096, 1000, 7]);
        for checksum in [true, false] {
            c.case(|| format!("record lengths {:?}, reads of at most {} bytes, checksums {}", l, chunk, checksum), || c17_one(&records, chunk, checksum));
        }
    }
    c.family("contents");
    for _ in 0..c.n(300, 4000) {
        let k = 1 + c.rng.below(6);
        let records: Vec<Vec<u8>> = (0..k).map(|_| { let n = c.rng.below(60); c.rng.nasty(n) }).collect();
        let checksum = c.rng.below(2) == 0;
        c.case(|| format!("records {:?}, checksums {}", records.iter().map(|r| hex(r)).collect::<Vec<_>>(), checksum), || c17_one(&records, usize::MAX, checksum));
    }
    c.family("many records");
    c.case(|| "20000 records of 0 to 40 bytes".into(), || { let r: Vec<Vec<u8>> = (0..20000).map(|i| rec(i, i % 41)).collect(); c17_one(&r, usize::MAX, true) });
    c.case(|| "records of 3000000, 8400000, 5 and 0 bytes".into(), || { let r: Vec<Vec<u8>> = [3000000usize, 8400000, 5, 0].iter().enumerate().map(|(i, n)| rec(i, *n)).collect(); c17_one(&r, usize::MAX, true) });
}

/// reads to the end: the records, and whether it ended with an error
fn drain(data: Vec<u8>, checksum: bool, after_errors: usize) -> Result<(Vec<Vec<u8>>, bool), String> {
    let mut out = vec![];
    let bound = data.len() / 7 + data.len() / BLOCK + 8;
    let mut r = reader(data, usize::MAX, checksum);
    let (mut calls, mut errors) = (0, 0);
    loop {
        calls += 1;
        if calls > bound { return Err(format!("still reading after {} calls", calls)); }
        match r.read_next() {
            Ok(Some(s)) => out.push(s.into()),
            Ok(None) => return Ok((out, errors > 0)),
            Err(_) => { errors += 1; if errors > after_errors { return Ok((out, true)); } }
        }
    }
}
fn c18_cut(records: &[Vec<u8>], cuts: &mut dyn Iterator<Item = usize>) -> V {
    let (file, ends) = spec::log_file(0, records);
    for cut in cuts {
        if cut > file.len() { continue; }
        let whole = ends.iter().filter(|e| **e <= cut).count();
        match drain(file[..cut].to_vec(), true, 0) {
            Ok((got, err)) => {
                want!(!err, "cut at byte {} of {}: an error instead of the end of the log", cut, file.len());
                want_eq!(got.len(), whole, "cut at byte {} of {}: number of records", cut, file.len());
                want!(got == records[..whole], "cut at byte {} of {}: a record differs", cut, file.len());
            }
            Err(e) => return V::Fail(format!("cut at byte {}: {}", cut, e)),
        }
    }
    V::Ok
}
/// positions of checksum, type and payload bytes (not of the length bytes)
fn alterable(file: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 0;
    while p + 7 <= file.len() {
        let left = BLOCK - p % BLOCK;
        if left < 7 { p += left; continue; }
        let n = file[p + 4] as usize + ((file[p + 5] as usize) << 8);
        v.extend([p, p + 1, p + 2, p + 3, p + 6]);
        v.extend(p + 7..(p + 7 + n).min(file.len()));
        p += 7 + n;
    }
    v
}
fn c18_alter(records: &[Vec<u8>], picks: &[(usize, u8)]) -> V {
    let (file, _) = spec::log_file(0, records);
    let at = alterable(&file);
    for (i, x) in picks {
        let p = at[i % at.len()];
        let mut f = file.clone();
        f[p] ^= x;
        // also keep calling after errors: still nothing but written records
        match drain(f, true, usize::MAX) {
            Ok((got, _)) => {
                let mut from = 0;
                for g in &got {
                    match records[from..].iter().position(|r| r == g) {
                        Some(k) => from += k + 1,
                        None => return V::Fail(format!("byte {} changed by {:#x}: a record of {} bytes was returned that was not written", p, x, g.len())),
                    }
                }
            }
            Err(e) => return V::Fail(format!("byte {} changed by {:#x}: {}", p, x, e)),
        }
    }
    V::Ok
}
/// each fragment in turn, its payload altered and a checksum stored that is not the right one
fn c18_forged(records: &[Vec<u8>]) -> V {
    let (file, _) = spec::log_file(0, records);
    let mut p = 0;
    while p + 7 <= file.len() {
        let left = BLOCK - p % BLOCK;
        if left < 7 { p += left; continue; }
        let n = file[p + 4] as usize + ((file[p + 5] as usize) << 8);
        let mut f = file.clone();
        if n > 0 { f[p + 7 + n / 2] ^= 0x10; }
        let whole = spec::crc32c(0, &f[p + 6..p + 7 + n]);
        let body = spec::crc32c(0, &f[p + 7..p + 7 + n]);
        let right = spec::mask(whole);
        let header = spec::crc32c(0, &f[p + 4..p + 7 + n]);
        let twice = spec::mask(right);
        let unmasked = whole.wrapping_sub(0xa282ead8).rotate_left(15);
        for (what, x) in [("the unmasked one", whole), ("of the payload only", spec::mask(body)), ("of the payload only, unmasked", body), ("0", 0), ("all ones", u32::MAX), ("masked twice", twice), ("unmasked once more", unmasked),
            ("complemented", !right), ("byte-swapped", right.swap_bytes()), ("of length, type and payload", spec::mask(header)), ("with its upper half wrong", right ^ 0xffff_0000), ("with its lower half wrong", right ^ 0xffff), ("without rotation", whole.wrapping_add(0xa282ead8)), ("without the constant", whole.rotate_left(17)), ("of nothing", spec::mask(0))] {
            if x == right { continue; }
            let mut g = f.clone();
            g[p..p + 4].copy_from_slice(&x.to_le_bytes());
            match drain(g, true, usize::MAX) {
                Ok((got, _)) => {
                    let mut from = 0;
                    for r in &got {
                        match records[from..].iter().position(|w| w == r) {
                            Some(k) => from += k + 1,
                            None => return V::Fail(format!("fragment at byte {} altered, its checksum {}: a record of {} bytes was returned that was not written", p, what, r.len())),
                        }
                    }
                    if n == 0 && f[p + 6] == 1 { want!(got.len() < records.len(), "fragment at byte {}, its checksum {}: accepted", p, what); }
                }
                Err(e) => return V::Fail(format!("fragment at byte {} altered, its checksum {}: {}", p, what, e)),
            }
        }
        p += 7 + n;
    }
    V::Ok
}
/// a source whose `fails` reads from byte `at` on fail
struct Failing { src: Source, at: usize, fails: usize }
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.src.pos >= self.at && self.fails > 0 && !b.is_empty() {
            self.fails -= 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "the read failed"));
        }
        let left = if self.fails > 0 { self.at - self.src.pos } else { usize::MAX };
        let n = b.len().min(left);
        self.src.read(&mut b[..n])
    }
}
impl Seek for Failing { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.src.seek(p) } }
impl SeekableReader for Failing {}
/// a record that looks like a log itself: complete fragments one after another
fn nested(n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n { v.extend(spec::log_file(0, &[rec(i, i % 5)]).0); i += 1; }
    v.truncate(n);
    v
}
/// the read at byte `at` fails: an error is reported, once, and no record is returned after it
fn c18_failing(records: &[Vec<u8>], ats: &mut dyn Iterator<Item = usize>, fails: usize, chunk: usize) -> V {
    let (file, _) = spec::log_file(0, records);
    for at in ats {
        if at > file.len() { continue; }
        let mut r = LogReader::new(Box::new(Failing { src: Source { data: file.clone(), pos: 0, chunk }, at, fails }), true, 0);
        let (mut got, mut failed) = (0, false);
        let bound = records.len() + file.len() / BLOCK + 12;
        for call in 0..bound {
            match r.read_next() {
                Ok(Some(d)) => {
                    want!(!failed, "the read at byte {} failed: a record of {} bytes was returned after the error", at, d.size());
                    want!(got < records.len() && d.as_ref() == &records[got][..], "the read at byte {} failed: a record of {} bytes was returned that was not the next one written", at, d.size());
                    got += 1;
                }
                Ok(None) => { want!(failed, "the read at byte {} failed: the end of the log was reported and no error", at); }
                Err(_) => { want!(!failed, "the read at byte {} failed: an error was reported again in call {}", at, call); failed = true; }
            }
        }
        want!(failed, "the read at byte {} failed: no error was reported in {} calls", at, bound);
    }
    V::Ok
}
pub fn c18(c: &mut Ctx) {
    let set = |c: &mut Ctx, l: &[usize]| -> Vec<Vec<u8>> { l.iter().enumerate().map(|(i, n)| if *n < 1000 { c.rng.bytes(*n) } else { rec(i + 1, *n) }).collect() };
    c.family("every cut of short logs");
    for l in [vec![0usize], vec![5], vec![3, 0, 7], vec![40, 1, 2, 3, 0, 0, 20]] {
        let r = set(c, &l);
        c.case(|| format!("record lengths {:?}, cut at every byte", l), || c18_cut(&r, &mut (0..2000)));
    }
    c.family("cuts around block ends");
    for l in [vec![BLOCK - 7, 5], vec![BLOCK - 10, 5], vec![BLOCK - 13, 9], vec![BLOCK - 14, 9], vec![BLOCK - 15, 9, 2], vec![100, 40000, 7], vec![70000, 3], vec![BLOCK - 8, 0, 3], vec![BLOCK - 7 - 7, 0, 3], vec![BLOCK - 7 - 7, 2, 3]] {
        let r = set(c, &l);
        c.case(|| format!("record lengths {:?}, cut within 40 bytes of each block end and of the end", l), || {
            let total = spec::log_file(0, &r).0.len();
            let mut cuts = vec![];
            for b in (0..=total / BLOCK + 1).map(|b| b * BLOCK).chain([total]) { for d in 0..40usize { if b + d <= total { cuts.push(b + d); } if b >= d && b - d <= total { cuts.push(b - d); } } }
            c18_cut(&r, &mut cuts.into_iter())
        });
        let step = c.n(997, 31);
        c.case(|| format!("record lengths {:?}, cut at every {}th byte", l, step), || c18_cut(&r, &mut (0..110000).step_by(step)));
    }
    c.family("single byte alterations of short logs");
    for l in [vec![0usize], vec![1], vec![5, 0, 9], vec![30, 2, 2, 17]] {
        let r = set(c, &l);
        c.case(|| format!("record lengths {:?}, every byte of checksum, type and payload altered in 255 ways", l), || {
            let n = alterable(&spec::log_file(0, &r).0).len();
            let picks: Vec<(usize, u8)> = (0..n).flat_map(|i| (1..=255u8).map(move |x| (i, x))).collect();
            c18_alter(&r, &picks)
        });
    }
    c.family("altered fragments with a wrong checksum of every kind");
    for l in [vec![0usize], vec![1], vec![5, 0, 9], vec![30, 2, 40000, 17], vec![BLOCK - 14, 100, 3], vec![70000, 7], vec![255, 256, 257, 20000, 3]] {
        let r = set(c, &l);
        c.case(|| format!("record lengths {:?}", l), || c18_forged(&r));
    }
    c.family("a read of the file fails");
    for (l, step) in [(vec![0usize], 1), (vec![5, 0, 9], 1), (vec![600, 30], 1), (vec![30, 2, 40000, 17], 131), (vec![BLOCK - 14, 100, 3], 97), (vec![70000, 7], 211)] {
        let r: Vec<Vec<u8>> = l.iter().map(|n| if *n > 20 { nested(*n) } else { c.rng.bytes(*n) }).collect();
        for fails in [1usize, 2, usize::MAX] {
            let chunk = *c.rng.pick(&[usize::MAX, 1000, 77, 4096]);
            c.case(|| format!("record lengths {:?} (records that look like logs), {} reads fail, from every {}th byte on", l, if fails == usize::MAX { "all".into() } else { fails.to_string() }, step), || c18_failing(&r, &mut (0..80000).step_by(step), fails, chunk));
            c.case(|| format!("record lengths {:?} (records that look like logs), {} reads fail, from bytes around block ends on", l, if fails == usize::MAX { "all".into() } else { fails.to_string() }), || c18_failing(&r, &mut (1..4).flat_map(|b| b * BLOCK - 9..b * BLOCK + 9), fails, chunk));
        }
    }
    c.family("single byte alterations of long logs");
    for _ in 0..c.n(60, 900) {
        let k = 1 + c.rng.below(5);
        let l: Vec<usize> = (0..k).map(|_| match c.rng.below(4) { 0 => BLOCK - 20 + c.rng.below(20), 1 => c.rng.below(80000), _ => c.rng.below(200) }).collect();
        let r = set(c, &l);
        let n = alterable(&spec::log_file(0, &r).0).len();
        let picks: Vec<(usize, u8)> = (0..12).map(|_| (c.rng.below(n), *c.rng.pick(&[1u8, 2, 4, 128, 255, 3]))).collect();
        c.case(|| format!("record lengths {:?}, alterations {:?}", l, picks), || c18_alter(&r, &picks));
        // headers of every fragment
        let hp: Vec<(usize, u8)> = { let f = spec::log_file(0, &r).0; let at = alterable(&f); let mut v = vec![]; let mut p = 0;
            while p + 7 <= f.len() { let left = BLOCK - p % BLOCK; if left < 7 { p += left; continue; }
                for q in [p, p + 3, p + 6] { let i = at.iter().position(|x| *x == q).unwrap(); for x in [1u8, 2, 3, 7] { v.push((i, x)); } }
                p += 7 + f[p + 4] as usize + ((f[p + 5] as usize) << 8); } v };
        c.case(|| format!("record lengths {:?}, each fragment's checksum and type altered", l), || c18_alter(&r, &hp));
    }
    c.family("arbitrary files");
    for i in 0..c.n(3000, 60000) {
        let n = match c.rng.below(12) { 0 => BLOCK - 10 + c.rng.below(20), 1 => c.rng.below(70000), 2 => c.rng.below(7), _ => c.rng.below(200) };
        let mut f = if i % 2 == 0 { c.rng.bytes(n) } else { vec![0; n] };
        // plant plausible headers so that all paths run
        let mut p = 0;
        while p + 7 <= f.len() && i % 4 != 0 {
            let l = match c.rng.below(5) { 0 => 0, 1 => c.rng.below(70000) & 0xffff, 2 => (f.len() - p - 7) & 0xffff, _ => c.rng.below(40) };
            f[p + 4] = l as u8; f[p + 5] = (l >> 8) as u8; f[p + 6] = c.rng.below(7) as u8;
            if c.rng.below(3) != 0 && p + 7 + l <= f.len() { let x = spec::fixed32(spec::mask(spec::crc32c(0, &f[p + 6..p + 7 + l]))); f[p..p + 4].copy_from_slice(&x); }
            p += 7 + l;
        }
        let checksum = c.rng.below(2) == 0;
        let all = c.rng.below(2) == 0;
        c.case(|| format!("{} bytes, checksums {}: {}", f.len(), checksum, hex(&f)), || {
            match drain(f.clone(), checksum, if all { usize::MAX } else { 0 }) {
                Ok((got, _)) => { want!(got.iter().map(|g| g.len() + 7).sum::<usize>() <= f.len(), "more bytes returned than the file holds"); V::Ok }
                Err(e) => V::Fail(e),
            }
        });
    }
    c.family("logs of many blocks");
    for l in [vec![400000usize, 3, 700000, 9], vec![40; 12000]] {
        let r = set(c, &l);
        let total = spec::log_file(0, &r).0.len();
        let cuts: Vec<usize> = (0..c.n(40, 400)).map(|i| if i % 2 == 0 { c.rng.below(total) } else { ((1 + c.rng.below(total / BLOCK)) * BLOCK + 20 - c.rng.below(41)).min(total) }).collect();
        c.case(|| format!("{} records in {} bytes, cut at {:?}", r.len(), total, cuts), || c18_cut(&r, &mut cuts.iter().copied()));
        let n = alterable(&spec::log_file(0, &r).0).len();
        let picks: Vec<(usize, u8)> = (0..c.n(12, 100)).map(|_| (c.rng.below(n), *c.rng.pick(&[1u8, 4, 128, 255]))).collect();
        c.case(|| format!("{} records in {} bytes, alterations {:?}", r.len(), total, picks), || c18_alter(&r, &picks));
    }
}
