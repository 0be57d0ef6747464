//! Nondeterminism layer: under `--cfg symx` the primitives are externals the
//! symbolic executor implements; natively they read a recorded tape.
use std::alloc::{GlobalAlloc, Layout};

#[cfg(symx)]
mod imp {
    use super::*;
    extern "C" {
        fn symx_any(p: *mut u8, n: usize);
        fn symx_choose(n: u32) -> u32;
        fn symx_assume(c: bool);
        fn symx_cover(id: u32);
        fn symx_out(v: u64);
        fn symx_conc(v: u64) -> u64;
        fn symx_tier() -> u64;
        fn symx_alloc(size: usize, align: usize) -> *mut u8;
        fn symx_calloc(size: usize, align: usize) -> *mut u8;
        fn symx_dealloc(p: *mut u8, size: usize, align: usize);
        fn symx_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    }
    pub struct Alloc;
    unsafe impl GlobalAlloc for Alloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if refused(l.size()) {
                return std::ptr::null_mut();
            }
            symx_alloc(l.size(), l.align())
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if refused(l.size()) {
                return std::ptr::null_mut();
            }
            symx_calloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            symx_dealloc(p, l.size(), l.align())
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if refused(n) {
                return std::ptr::null_mut();
            }
            symx_realloc(p, l.size(), l.align(), n)
        }
    }
    pub fn fill(b: &mut [u8]) {
        unsafe { symx_any(b.as_mut_ptr(), b.len()) }
    }
    pub fn choose(n: u32) -> u32 {
        unsafe { symx_choose(n) }
    }
    pub fn assume(c: bool) {
        unsafe { symx_assume(c) }
    }
    pub fn cover(id: u32) {
        unsafe { symx_cover(id) }
    }
    pub fn out(v: u64) {
        unsafe { symx_out(v) }
    }
    /// Forks the path so that the value is concrete.
    pub fn conc(v: u64) -> u64 {
        unsafe { symx_conc(v) }
    }
    pub fn tier() -> u64 {
        unsafe { symx_tier() }
    }
}

#[cfg(not(symx))]
mod imp {
    use super::*;
    use std::alloc::System;
    use std::sync::atomic::{AtomicU8, Ordering};
    pub static FILL: AtomicU8 = AtomicU8::new(0xA5);
    /// Poisons fresh memory and hands out addresses that have exactly the
    /// requested alignment, both of which the allocator contract allows.
    pub struct Alloc;
    fn big(l: Layout) -> Layout {
        unsafe { Layout::from_size_align_unchecked(l.size() + l.align(), l.align() * 2) }
    }
    unsafe impl GlobalAlloc for Alloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if refused(l.size()) {
                return std::ptr::null_mut();
            }
            let p = System.alloc(big(l));
            if p.is_null() {
                return p;
            }
            std::ptr::write_bytes(p, FILL.load(Ordering::Relaxed), l.size() + l.align());
            p.add(l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let q = p.sub(l.align());
            std::ptr::write_bytes(q, 0xDD, l.size() + l.align());
            System.dealloc(q, big(l))
        }
    }
    pub static mut TAPE: Vec<u8> = Vec::new();
    pub static mut POS: usize = 0;
    #[allow(static_mut_refs)]
    pub fn fill(b: &mut [u8]) {
        unsafe {
            for x in b.iter_mut() {
                if POS >= TAPE.len() {
                    eprintln!("tape exhausted");
                    std::process::exit(78);
                }
                *x = TAPE[POS];
                POS += 1;
            }
        }
    }
    pub fn choose(n: u32) -> u32 {
        let mut b = [0u8; 4];
        fill(&mut b);
        let v = u32::from_le_bytes(b);
        assume(v < n);
        v
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("assumption violated by the tape");
            std::process::exit(77);
        }
    }
    pub fn cover(_: u32) {}
    pub fn out(v: u64) {
        println!("out {}", v);
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub static TIER: AtomicU8 = AtomicU8::new(0);
    pub fn tier() -> u64 {
        TIER.load(Ordering::Relaxed) as u64
    }
}

pub use imp::*;

/// Allocations until one is refused; 0 for never.
static mut FAULT: u32 = 0;
static mut FAULTS: u32 = 0;
/// Only requests of this size and more can be refused: those for documents, not the small change.
const LARGE: usize = 500;
fn refused(size: usize) -> bool {
    if size < LARGE {
        return false;
    }
    unsafe {
        match FAULT {
            0 => false,
            1 => {
                FAULTS += 1;
                true
            }
            _ => {
                FAULT -= 1;
                false
            }
        }
    }
}
/// Runs `f` with memory running out at the `k`th large allocation (0: never); tells whether it did.
pub fn starved<T>(k: u32, f: impl FnOnce() -> T) -> (T, bool) {
    unsafe {
        FAULT = k;
        FAULTS = 0;
    }
    let r = f();
    unsafe {
        FAULT = 0;
        (r, FAULTS > 0)
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

pub fn any<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn any_u8() -> u8 {
    any::<1>()[0]
}
pub fn any_bool() -> bool {
    choose(2) == 1
}
/// A symbolic boolean (no fork).
pub fn sym_bool() -> bool {
    let b = any_u8();
    assume(b < 2);
    b == 1
}
pub fn out_bytes(b: &[u8]) {
    let mut h = b.len() as u64;
    // of much data, both ends
    if b.len() > 8192 {
        out_bytes(&b[..4000]);
        return out_bytes(&b[b.len() - 4000..]);
    }
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = h.rotate_left(7) ^ u64::from_le_bytes(x);
    }
    out(h);
}

/// Quick or thorough bound.
pub fn q(quick: usize, thorough: usize) -> usize {
    if tier() == 0 {
        quick
    } else {
        thorough
    }
}

pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u32) as usize]
}

/// `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    let mut or = 0;
    for x in &b {
        or |= *x;
    }
    assume(or < 0x80);
    unsafe { String::from_utf8_unchecked(b) }
}
/// Every ASCII string of at most `max` bytes.
pub fn ascii_upto(max: usize) -> String {
    let n = choose(max as u32 + 1) as usize;
    ascii(n)
}
fn char_at(b: &[u8], len: usize) -> bool {
    let cont = |x: u8| x & 0xC0 == 0x80;
    match len {
        1 => b[0] < 0x80,
        2 => (b[0] >= 0xC2) & (b[0] <= 0xDF) & cont(b[1]),
        3 => {
            (b[0] & 0xF0 == 0xE0)
                & cont(b[1])
                & cont(b[2])
                & ((b[0] != 0xE0) | (b[1] >= 0xA0))
                & ((b[0] != 0xED) | (b[1] < 0xA0))
        }
        _ => {
            (b[0] >= 0xF0)
                & (b[0] <= 0xF4)
                & cont(b[1])
                & cont(b[2])
                & cont(b[3])
                & ((b[0] != 0xF0) | (b[1] >= 0x90))
                & ((b[0] != 0xF4) | (b[1] < 0x90))
        }
    }
}
/// One symbolic character of the given UTF-8 length, any scalar value.
pub fn wide(len: usize) -> String {
    let mut b = vec![0u8; len];
    fill(&mut b);
    assume(char_at(&b, len));
    unsafe { String::from_utf8_unchecked(b) }
}
/// Every string of exactly `len` bytes, whatever its characters, without a fork.
pub fn utf8(len: usize) -> String {
    let mut b = vec![0u8; len];
    fill(&mut b);
    // ok[i]: the bytes from i on are whole characters
    let mut ok = vec![true; len + 1];
    for i in (0..len).rev() {
        let mut any = false;
        for l in 1..=4 {
            if i + l <= len {
                any |= char_at(&b[i..], l) & ok[i + l];
            }
        }
        ok[i] = any;
    }
    assume(ok[0]);
    unsafe { String::from_utf8_unchecked(b) }
}
/// Every string of at most `max` bytes.
pub fn utf8_upto(max: usize) -> String {
    let n = choose(max as u32 + 1) as usize;
    utf8(n)
}
/// Every string of at most `max` characters.
pub fn text(max: usize) -> String {
    let n = choose(max as u32 + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&wide(choose(4) as usize + 1));
    }
    s
}

/// `n` NUL characters; costs nothing until it is read
pub fn zeros(n: usize) -> String {
    unsafe { String::from_utf8_unchecked(vec![0u8; n]) }
}

/// sizes on both sides of everything a length or a block size could be
pub const LENS: &[usize] = &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300];
/// `c` at position `at` of a text of `n` bytes filled with `f`
pub fn filled(n: usize, at: usize, f: char, c: &str) -> String {
    let f = f.to_string();
    [&f.repeat(at), c, &f.repeat(n - at - 1)].concat()
}
/// a position in `0..n`: near the ends, near multiples of 8, or in the middle
pub fn spot(n: usize) -> usize {
    let p = [0, 1, 3, 4, 7, 8, 15, 16, 31, 32, n / 2, n - 2, n - 1][choose(13) as usize];
    assume(p < n);
    p
}
pub const SOME: &[usize] = &[2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 255, 256, 300];
