//! Case runner: every case has an index, a lazily built description and a body.
//! The index of the running case is kept in a file so that the driver can name the
//! case after a crash, and a watchdog ends the process when a case hangs.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static BEAT: AtomicU64 = AtomicU64::new(0);

pub enum V {
    Ok,
    /// the property is broken
    Fail(String),
    /// a behaviour that may be listed in the known-findings file under this key
    Known(&'static str, String),
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// bytes biased towards a few interesting values
    pub fn nasty(&mut self, n: usize) -> Vec<u8> {
        const S: [u8; 10] = [0, 1, 2, 0x61, 0x62, 0x7f, 0x80, 0x81, 0xfe, 0xff];
        let mode = self.below(3);
        (0..n).map(|_| if mode == 0 { self.next() as u8 } else { S[self.below(S.len())] }).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn value64(&mut self) -> u64 {
        let bits = self.below(65);
        let v = if bits == 0 { 0 } else { self.next() >> (64 - bits) };
        match self.below(4) {
            0 => v,
            1 if bits < 64 => 1u64 << bits,
            2 if bits < 64 => (1u64 << bits).wrapping_sub(1),
            _ => v,
        }
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub only: Option<u64>,
    pub index: u64,
    pub ran: u64,
    pub family: &'static str,
    pub families: Vec<(&'static str, u64)>,
    pub failures: Vec<(u64, String, String)>,
    pub knowns: Vec<(u64, &'static str, String, String)>,
    pub samples: Vec<String>,
    pub describe: bool,
    progress: Option<std::fs::File>,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, only: Option<u64>, describe: bool, progress: Option<std::fs::File>) -> Self {
        Ctx {
            rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234_5678),
            thorough, only, index: 0, ran: 0, family: "", families: vec![], failures: vec![], knowns: vec![],
            samples: vec![], describe, progress,
        }
    }
    pub fn family(&mut self, name: &'static str) {
        self.family = name;
        self.families.push((name, 0));
    }
    /// size of a random sweep: quick or thorough
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn stop(&self) -> bool {
        self.failures.len() >= 3
    }
    pub fn case<D: Fn() -> String, B: FnOnce() -> V>(&mut self, desc: D, body: B) {
        let i = self.index;
        self.index += 1;
        if let Some(o) = self.only {
            if o != i {
                return;
            }
        } else if self.stop() {
            return;
        }
        if self.describe {
            println!("CASE {} {} {}", i, self.family, one_line(&desc()));
        }
        if let Some(f) = self.progress.as_mut() {
            use std::os::unix::fs::FileExt;
            // one positioned write per case is cheap enough and survives a crash
            let _ = f.write_at(&i.to_le_bytes(), 0);
        }
        CURRENT.store(i, Ordering::Relaxed);
        BEAT.fetch_add(1, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(body));
        CURRENT.store(u64::MAX, Ordering::Relaxed);
        self.ran += 1;
        if let Some(l) = self.families.last_mut() {
            l.1 += 1;
            if l.1 == 3 && self.samples.len() < 12 {
                self.samples.push(format!("{}: {}", self.family, clip(&one_line(&desc()), 160)));
            }
        }
        match r {
            Ok(V::Ok) => {}
            Ok(V::Fail(m)) => self.failures.push((i, format!("{}: {}", self.family, desc()), m)),
            Ok(V::Known(k, m)) => {
                if !self.knowns.iter().any(|x| x.1 == k) {
                    self.knowns.push((i, k, format!("{}: {}", self.family, desc()), m));
                }
            }
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
                    else { "panic".into() };
                self.failures.push((i, format!("{}: {}", self.family, desc()), format!("unexpected panic: {}", m)));
            }
        }
    }
}

/// does the call panic?
pub fn panics<R, F: FnOnce() -> R>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else {
        let mut e = n;
        while !s.is_char_boundary(e) { e -= 1; }
        format!("{}...", &s[..e])
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) { s.push_str(&format!("{:02x}", x)); }
    if b.len() > 200 { s.push_str(&format!("..({} bytes)", b.len())); }
    s
}

#[macro_export]
macro_rules! want {
    ($c:expr, $($t:tt)*) => { if !($c) { return $crate::ctx::V::Fail(format!($($t)*)); } }
}
#[macro_export]
macro_rules! want_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b { return $crate::ctx::V::Fail(format!("{}: got {:?}, want {:?}", format!($($t)*), a, b)); }
    }}
}
