//! Cases that are guided by coverage: what reached an edge or an outcome of a comparison for the
//! first time is kept and changed further; a change of a choice may be by what separates the operands
//! of a comparison which have never been equal. A pure function of the seed but for addresses.
use std::collections::HashMap;
use std::path::Path;

use crate::src::{Mirror, Mode, Rng, Src};

extern "C" {
    fn pbt_cov_begin();
    fn pbt_cov_solved(site: u64) -> i32;
    fn pbt_cov_end(out: *mut u64, max: u32, pairs: *mut u32) -> u32;
}

const PAIRS: usize = 512;
/// What a choice sequence may grow to by changes.
const LONG: usize = 700;

#[derive(Clone)]
struct Seq { v: Vec<u64>, max: Vec<u64> }
struct Kept { seq: Seq, tries: u32 }
/// A comparison whose operands have never been equal, with a few cases that come to it.
struct Open { site: u64, at: Vec<(u64, u64, Seq)>, tries: u32 }

pub struct Guide {
    rng: Rng, kept: Vec<Kept>, open: Vec<Open>, index: HashMap<u64, usize>,
    mirror: Mirror, buf: Vec<u64>, cases: u64,
}

impl Guide {
    pub fn new(seed: u64, out: &Path) -> Self {
        Guide { rng: Rng::new(seed), kept: Vec::new(), open: Vec::new(), index: HashMap::new(),
                mirror: Mirror::create(&out.join("mirror")), buf: vec![0; 3 * PAIRS], cases: 0 }
    }
    pub fn open(&self) -> usize { self.open.len() }
    pub fn kept(&self) -> usize { self.kept.len() }

    fn below(&mut self, n: usize) -> usize { self.rng.below_incl(n as u64 - 1) as usize }

    /// Something kept; more often what is new or was tried little.
    fn pick(&mut self) -> usize {
        let n = self.kept.len();
        let mut best = self.below(n);
        for _ in 0..2 {
            let i = if self.below(3) == 0 { n - 1 - self.below(n.min(12)) } else { self.below(n) };
            if self.kept[i].tries < self.kept[best].tries { best = i; }
        }
        self.kept[best].tries += 1;
        best
    }

    /// Bring the operands of a comparison together.
    fn towards(&mut self) -> Option<Vec<u64>> {
        if self.open.is_empty() { return None; }
        let n = self.open.len();
        let (a, b) = (self.below(n), self.below(n));
        let mut o = if self.open[a].tries <= self.open[b].tries { a } else { b };
        // What was come to last is the likeliest to be rare.
        if self.below(2) == 0 {
            let late = n - 1 - self.below(n.min(6));
            if self.open[late].tries < 2000 { o = late; }
        }
        self.open[o].tries += 1;
        let which = self.below(self.open[o].at.len());
        let (x, y, seq) = self.open[o].at[which].clone();
        let d = if x > y { x - y } else { y - x };
        let n = seq.v.len();
        if n == 0 { return None; }
        let mut v = seq.v;
        // A choice with room for the difference, or one of the operands itself.
        for _ in 0..64 {
            let i = self.below(n);
            let to = match self.below(12) { 0 => x, 1 => y, 2 => y.wrapping_sub(1), 3 => y.wrapping_add(1), 4..=7 => v[i].wrapping_add(d), _ => v[i].wrapping_sub(d) };
            if to <= seq.max[i] && to != v[i] { v[i] = to; return Some(v); }
        }
        None
    }

    fn mutate(&mut self, p: usize) -> Vec<u64> {
        let Seq { v: mut s, max: mut m } = self.kept[p].seq.clone();
        let mut rounds = 1;
        while rounds < 6 && self.below(2) == 0 { rounds += 1; }
        for _ in 0..rounds {
            if s.is_empty() { break; }
            let n = s.len();
            let i = self.below(n);
            match self.below(16) {
                1 => { let k = 1 + self.below(8) as u64; s[i] = if self.below(2) == 0 { s[i].saturating_add(k).min(m[i]) } else { s[i].saturating_sub(k) } }
                2 => s[i] = match self.below(3) { 0 => 0, 1 => m[i], _ => { let b = self.below(64); (1u64 << b).wrapping_add(self.below(3) as u64).wrapping_sub(1).min(m[i]) } },
                0 | 3..=9 => s[i] = self.rng.below_incl(m[i]),
                10 => { // leave some out
                    let len = (1 + self.below(12)).min(n - i);
                    s.drain(i..i + len); m.drain(i..i + len);
                }
                11 if n < LONG => { // again, where it is asked for the same
                    let len = (1 + self.below(24)).min(n - i);
                    let (x, y) = (s[i..i + len].to_vec(), m[i..i + len].to_vec());
                    let at = self.alike(&m, y[0], i);
                    s.splice(at..at, x); m.splice(at..at, y);
                }
                12 | 13 if n < LONG => { // part of another
                    let q = self.below(self.kept.len());
                    let qn = self.kept[q].seq.v.len();
                    if qn == 0 { continue; }
                    let j = self.below(qn);
                    let len = if self.below(3) == 0 { qn - j } else { (1 + self.below(32)).min(qn - j) };
                    let (x, y) = (self.kept[q].seq.v[j..j + len].to_vec(), self.kept[q].seq.max[j..j + len].to_vec());
                    let at = self.alike(&m, y[0], i);
                    if self.below(3) == 0 { s.truncate(at); m.truncate(at); s.extend(x); m.extend(y); }
                    else { s.splice(at..at, x); m.splice(at..at, y); }
                }
                14 => { s.truncate(i); m.truncate(i); } // the rest at random
                _ => { // two that are alike change places
                    let j = self.alike(&m, m[i], i);
                    s.swap(i, j.min(n - 1));
                }
            }
        }
        s
    }
    /// A position near a random one at which the choice had this maximum, if there is any.
    fn alike(&mut self, m: &[u64], max: u64, or: usize) -> usize {
        let start = self.below(m.len());
        for k in 0..m.len() { let i = (start + k) % m.len(); if m[i] == max { return i; } }
        or
    }

    /// The next case; `ran` is called after it.
    pub fn next(&mut self) -> Src {
        self.cases += 1;
        let fresh = self.kept.len() < 4 || self.cases < 64 || self.below(16) == 0;
        let prefix = if fresh { Vec::new() } else {
            let t = if self.below(2) == 0 { self.towards() } else { None };
            match t { Some(t) => t, None => { let p = self.pick(); self.mutate(p) } }
        };
        let mut g = Src::new(Mode::Prefix(prefix, Rng::new(self.rng.next())));
        g.mirror = Some(self.mirror.share());
        unsafe { pbt_cov_begin() }
        g
    }
    /// Was there anything new?
    pub fn ran(&mut self, g: &Src) -> bool {
        let mut pairs = 0;
        let new = unsafe { pbt_cov_end(self.buf.as_mut_ptr(), PAIRS as u32, &mut pairs) };
        let n = g.choices.len().min(LONG);
        let seq = || Seq { v: g.choices[..n].to_vec(), max: g.maxima[..n].to_vec() };
        for k in 0..pairs as usize {
            let (site, x, y) = (self.buf[3 * k], self.buf[3 * k + 1], self.buf[3 * k + 2]);
            let d = |x: u64, y: u64| if x > y { x - y } else { y - x };
            // Addresses, and what is nowhere near.
            if d(x, y) > 1 << 33 { continue; }
            match self.index.get(&site) {
                None => {
                    self.index.insert(site, self.open.len());
                    self.open.push(Open { site, at: vec![(x, y, seq())], tries: 0 });
                }
                Some(&o) => {
                    // The shortest that comes there, the nearest, and one at random.
                    let at = &mut self.open[o].at;
                    if n < at[0].2.v.len() { at[0] = (x, y, seq()); }
                    else if at.len() < 3 { at.push((x, y, seq())); }
                    else if (d(x, y), n) < (d(at[1].0, at[1].1), at[1].2.v.len()) { at[1] = (x, y, seq()); }
                    else if self.rng.below_incl(255) == 0 { at[2] = (x, y, seq()); }
                }
            }
        }
        if new == 0 { return false; }
        // Which comparisons have been solved?
        {
            for o in (0..self.open.len()).rev() {
                if unsafe { pbt_cov_solved(self.open[o].site) } != 0 {
                    let gone = self.open.remove(o);
                    self.index.remove(&gone.site);
                    for k in o..self.open.len() { self.index.insert(self.open[k].site, k); }
                }
            }
        }
        if self.kept.len() < 20_000 { self.kept.push(Kept { seq: seq(), tries: 0 }); }
        true
    }
}
