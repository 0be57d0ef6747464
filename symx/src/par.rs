//! Worker processes that share one exploration.
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub struct Shared(&'static [AtomicU64; 4]);

impl Shared {
    pub fn new() -> Shared {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        assert!(p as isize != -1, "mmap");
        Shared(unsafe { &*(p as *const [AtomicU64; 4]) })
    }
    pub fn next(&self) -> usize {
        self.0[0].fetch_add(1, Ordering::SeqCst) as usize
    }
    pub fn stop(&self) {
        self.0[1].store(1, Ordering::SeqCst)
    }
    pub fn stopped(&self) -> bool {
        self.0[1].load(Ordering::SeqCst) != 0
    }
    pub fn violation(&self) {
        self.0[2].store(1, Ordering::SeqCst)
    }
    pub fn violated(&self) -> bool {
        self.0[2].load(Ordering::SeqCst) != 0
    }
}

pub fn wait(pid: i32) -> bool {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 0) };
    r == pid && st == 0
}
