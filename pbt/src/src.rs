//! The source of choices.
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};

use crate::track::untracked;

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut next = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = next();
        let b = next() | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r ^ (r >> 29)
    }
    pub fn below_incl(&mut self, max: u64) -> u64 {
        if max == u64::MAX { return self.next(); }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// Depth-first enumeration of all choice sequences: a prefix, then zeros, remembering maxima.
    Enumerate(Vec<u64>),
    /// The prefix, then at random; remembering maxima.
    Prefix(Vec<u64>, Rng),
}

pub struct Src {
    mode: Mode,
    pub choices: Vec<u64>,
    pub maxima: Vec<u64>,
    pub labels: Vec<&'static str>,
    pub is_nontrivial: bool,
    pub logging: bool,
    pub log: Vec<String>,
    /// Every choice is appended here at once, so that it survives a crash of the process.
    pub trace: Option<std::fs::File>,
    /// The same, cheaper.
    pub mirror: Option<Mirror>,
    /// The same for the steps of the case.
    pub log_file: Option<std::fs::File>,
}

/// Choices in the mapped memory of a file.
pub struct Mirror(*mut u64);
impl Mirror {
    pub fn create(file: &std::path::Path) -> Self {
        use std::os::fd::AsRawFd;
        extern "C" { fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, at: i64) -> *mut u8; }
        let size = (MAX_CHOICES + 2) * 8;
        let f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(file).unwrap();
        f.set_len(size as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), size, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Mirror(p as *mut u64)
    }
    pub fn share(&self) -> Self { unsafe { *self.0 = 0 }; Mirror(self.0) }
    fn push(&mut self, v: u64) {
        unsafe {
            let n = *self.0;
            if n < MAX_CHOICES as u64 { *self.0.add(1 + n as usize) = v; *self.0 = n + 1; }
        }
    }
    pub fn read(file: &std::path::Path) -> Vec<u64> {
        let b = std::fs::read(file).unwrap_or_default();
        let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        w.first().map_or(Vec::new(), |&n| w[1..].iter().copied().take(n as usize).collect())
    }
}

pub const MAX_CHOICES: usize = 1 << 16;

impl Src {
    pub fn new(mode: Mode) -> Self {
        Src { mode, choices: Vec::with_capacity(256), maxima: Vec::new(), labels: Vec::with_capacity(16),
              is_nontrivial: false, logging: false, log: Vec::new(), trace: None, mirror: None, log_file: None }
    }
    pub fn random(seed: u64) -> Self { Self::new(Mode::Random(Rng::new(seed))) }

    fn draw_with(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let pos = self.choices.len();
        let v = if pos >= MAX_CHOICES { 0 } else {
            match &mut self.mode {
                Mode::Random(r) => f(r).min(max),
                Mode::Replay(v) => v.get(pos).copied().unwrap_or(0).min(max),
                Mode::Enumerate(v) => v.get(pos).copied().unwrap_or(0).min(max),
                Mode::Prefix(v, r) => match v.get(pos) { Some(&c) => c, None => f(r) }.min(max),
            }
        };
        untracked(|| {
            self.choices.push(v);
            if let Mode::Enumerate(_) | Mode::Prefix(..) = self.mode { self.maxima.push(max); }
            if let Some(m) = &mut self.mirror { m.push(v); }
            if let Some(f) = &mut self.trace { let _ = f.write_all(&v.to_le_bytes()); }
        });
        v
    }

    /// Uniform in `0..=max`; shrinks to 0.
    pub fn upto(&mut self, max: u64) -> u64 { self.draw_with(max, |r| r.below_incl(max)) }
    /// Uniform in `a..=b`; shrinks to `a`.
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.upto((b - a) as u64) as usize }
    /// Skewed towards small values and the two ends of `0..=max`; shrinks to 0.
    pub fn skewed(&mut self, max: usize) -> usize {
        let max = max as u64;
        self.draw_with(max, |r| match r.below_incl(9) {
            0 => 0,
            1 => max,
            2 => max.saturating_sub(1),
            3..=6 => { let m = r.below_incl(max); r.below_incl(m) }
            _ => r.below_incl(max),
        }) as usize
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw_with(1, |r| (r.below_incl(den - 1) < num) as u64) == 1
    }
    pub fn bool(&mut self) -> bool { self.chance(1, 2) }
    /// Index into weights; shrinks to the first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let n = w.len() as u64;
        self.draw_with(n - 1, |r| {
            let mut x = r.below_incl(total - 1);
            for (i, &wi) in w.iter().enumerate() {
                if x < wi as u64 { return i as u64; }
                x -= wi as u64;
            }
            n - 1
        }) as usize
    }
    pub fn pick<T: Copy>(&mut self, items: &[T]) -> T { items[self.upto(items.len() as u64 - 1) as usize] }
    pub fn byte(&mut self) -> u8 { self.upto(255) as u8 }
    /// Keep going? A sequence of operations asks before each; the mean length is `avg`, bounded by `max`.
    pub fn more(&mut self, done: usize, avg: u64, max: usize) -> bool {
        if done >= max { return false; }
        self.chance(avg, avg + 1)
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) { untracked(|| self.labels.push(l)); }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    /// Are steps being logged?
    pub fn verbose(&self) -> bool { self.logging }
    pub fn nontrivial(&mut self) { self.is_nontrivial = true; }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging { untracked(|| { let s = f(); if let Some(o) = &mut self.log_file { let _ = writeln!(o, "{s}"); } self.log.push(s) }); }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for &c in &self.choices { h = (h ^ c).wrapping_mul(0x1000_0000_01b3); h ^= h >> 31; }
        h
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| untracked(|| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "<non-string panic>".into() };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("PBT_VERBOSE").is_some() { eprintln!("panic: {m} at {at}"); }
        let _ = LAST_PANIC.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("panic '{m}' at {at}"); });
    })));
}

/// Run `f`; a panic becomes `Err` with its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(payload) => {
            // The payload of a panic with a formatted message is a tracked heap allocation.
            drop(payload);
            Err(untracked(|| LAST_PANIC.with(|p| p.borrow().clone())))
        }
    }
}
/// As `catch`, without a message (allocates nothing).
pub fn catch_quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    panic::catch_unwind(AssertUnwindSafe(f)).ok()
}
