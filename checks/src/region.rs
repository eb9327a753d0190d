//! Memory regions with guard bytes around them.
use std::mem::MaybeUninit;

use pbt::{ensure, Src, R};
use without_alloc::Uninit;

use crate::vals::*;

#[repr(C, align(64))]
#[derive(Clone, Copy)]
struct Line([u8; 64]);

/// `lines` many from `base` on, with one line around the region on either side.
pub struct Region { base: *mut u8, lines: usize, _mem: Option<Box<[Line]>>, off: usize, len: usize }
const GUARD: u64 = 0x6A2D;

impl Region {
    /// `len` bytes at offset `off` from a multiple of 64, all set to a pattern.
    pub fn new(off: usize, len: usize) -> Self {
        let lines = (off + len).div_ceil(64) + 2;
        let mut mem = vec![Line([0; 64]); lines].into_boxed_slice();
        unsafe { fill(mem.as_mut_ptr() as usize, lines * 64, GUARD) };
        Region { base: mem.as_mut_ptr() as *mut u8, lines, _mem: Some(mem), off: off + 64, len }.raw()
    }
    /// `len` bytes close to or around a multiple of a large power of two; at most one at a time.
    pub fn fixed(g: &mut Src, len: usize) -> Self {
        let at = Fixed::place(g, len, 1);
        let off = at % 64;
        let lines = (off + len).div_ceil(64) + 2;
        let base = at - off - 64;
        unsafe { fill(base, lines * 64, GUARD) };
        Region { base: base as *mut u8, lines, _mem: None, off: off + 64, len }.raw()
    }
    /// Under Miri the memory starts out without a value, so that reading it is noticed.
    fn raw(self) -> Self {
        if cfg!(miri) { for i in 0..self.len { unsafe { *(self.base.add(self.off + i) as *mut MaybeUninit<u8>) = MaybeUninit::uninit(); } } }
        self
    }
    pub fn gen(g: &mut Src, max: usize) -> Self {
        let off = if g.chance(1, 3) { 0 } else { g.range(0, 63) };
        Region::new(off, g.skewed(max))
    }
    pub fn addr(&self) -> usize { self.base as usize + self.off }
    pub fn len(&self) -> usize { self.len }
    pub fn end(&self) -> usize { self.addr() + self.len }
    pub fn memory(&mut self) -> Uninit<'static, ()> {
        unsafe { Uninit::from_memory(std::ptr::NonNull::new(self.base.add(self.off)).unwrap(), self.len) }
    }
    pub fn slice<T>(&mut self, n: usize) -> &'static mut [MaybeUninit<T>] {
        assert!(n * size_of::<T>() <= self.len && self.addr() % align_of::<T>() == 0);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.off) as *mut _, n) }
    }
    /// Nothing outside of the region was written.
    pub fn guards(&self) -> R {
        let base = self.base as usize;
        let all = self.lines * 64;
        for i in (self.off - 64..self.off).chain(self.off + self.len..all) {
            ensure!(unsafe { *((base + i) as *const u8) } == pattern(GUARD, i), "a byte outside of the memory was written, at offset {}", i as isize - self.off as isize);
        }
        Ok(())
    }
    /// As written by `new`, at this offset into the region.
    pub fn original(&self, at: usize) -> bool { cfg!(miri) || unsafe { *((self.addr() + at) as *const u8) == pattern(GUARD, self.off + at) } }
}
