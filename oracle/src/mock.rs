//! The operating system generator as a seeded stream: `getrandom` reaches the kernel through
//! `syscall`, which is replaced here, so that every draw of the code under test is reproducible
//! and visible.  Other system calls are passed on.
use std::cell::RefCell;
use std::collections::VecDeque;

pub struct Os {
    pub state: u64,
    pub queue: VecDeque<u8>,
    pub log: Option<Vec<Vec<u8>>>,
}
thread_local! { pub static OS: RefCell<Option<Os>> = const { RefCell::new(None) }; }

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn seed(s: u64) {
    OS.with(|o| *o.borrow_mut() = Some(Os { state: s, queue: VecDeque::new(), log: None }));
}
/// bytes that come before the stream
pub fn feed(b: &[u8]) {
    OS.with(|o| o.borrow_mut().as_mut().unwrap().queue.extend(b));
}
pub fn unfeed() -> usize {
    OS.with(|o| { let mut o = o.borrow_mut(); let q = &mut o.as_mut().unwrap().queue; let n = q.len(); q.clear(); n })
}
pub fn record() {
    OS.with(|o| o.borrow_mut().as_mut().unwrap().log = Some(vec![]));
}
pub fn recorded() -> Vec<Vec<u8>> {
    OS.with(|o| o.borrow_mut().as_mut().unwrap().log.take().unwrap_or_default())
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
extern "C" { fn __errno_location() -> *mut i32; }

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 && b >= 0 {
        let done = OS.try_with(|o| {
            if let Ok(mut o) = o.try_borrow_mut() {
                if let Some(os) = o.as_mut() {
                    let buf = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
                    let mut word = [0u8; 8];
                    let mut left = 0;
                    for x in buf.iter_mut() {
                        if let Some(y) = os.queue.pop_front() { *x = y; continue; }
                        if left == 0 { word = splitmix(&mut os.state).to_le_bytes(); left = 8; }
                        *x = word[8 - left];
                        left -= 1;
                    }
                    if let Some(l) = os.log.as_mut() { l.push(buf.to_vec()); }
                    return true;
                }
            }
            false
        }).unwrap_or(false);
        if done { return b; }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) { *__errno_location() = -r as i32; return -1; }
    r
}
