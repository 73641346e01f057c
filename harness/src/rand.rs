//! The randomness the library draws from OpenSSL, under the monitors' control: this definition
//! takes precedence over libcrypto's. What a test run cannot wait for (two equal draws, ids that
//! are zero or start with zeros) is handed out on request; otherwise the kernel answers.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static CANNED: RefCell<VecDeque<[u8; 8]>> = const { RefCell::new(VecDeque::new()) };
}

/// the next draws, each repeated over the bytes asked for
pub fn script(draws: Vec<[u8; 8]>) {
    CANNED.with(|c| *c.borrow_mut() = draws.into());
}

/// a repeatable stream in place of the kernel's, for the rest of the process
static STREAM: AtomicU64 = AtomicU64::new(0);
static DRAWN: AtomicU64 = AtomicU64::new(0);

pub fn stream(seed: u64) {
    STREAM.store(seed | 1, Relaxed);
}

/// how many bytes were drawn so far
pub fn drawn() -> u64 {
    DRAWN.load(Relaxed)
}

/// ends the script; how many draws were left
pub fn unscript() -> usize {
    CANNED.with(|c| std::mem::take(&mut *c.borrow_mut()).len())
}

#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn RAND_bytes(buf: *mut u8, n: libc::c_int) -> libc::c_int {
    let n = n.max(0) as usize;
    if n == 0 {
        return 1;
    }
    let out = std::slice::from_raw_parts_mut(buf, n);
    let canned = CANNED.try_with(|c| c.try_borrow_mut().ok().and_then(|mut c| c.pop_front()));
    if let Ok(Some(x)) = canned {
        for (o, b) in out.iter_mut().zip(x.iter().cycle()) {
            *o = *b;
        }
        return 1;
    }
    DRAWN.fetch_add(n as u64, Relaxed);
    if STREAM.load(Relaxed) != 0 {
        for o in out.iter_mut() {
            let mut z = STREAM.fetch_add(0x9e37_79b9_7f4a_7c16, Relaxed);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            *o = (z >> 56) as u8;
        }
        return 1;
    }
    let mut at = 0;
    while at < n {
        let k = libc::getrandom(out[at..].as_mut_ptr() as *mut libc::c_void, n - at, 0);
        if k <= 0 {
            return 0;
        }
        at += k as usize;
    }
    1
}
