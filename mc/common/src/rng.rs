//! Deterministic replacement of the kernel's randomness.
//!
//! The harness binaries define `getrandom`, so that `HashMap` keys, v4 UUIDs and `rand` are a
//! function of a per-thread counter that `reset` sets.

use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def0) };
}

pub fn reset(seed: u64) {
    STATE.with(|s| s.set(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1));
}

fn next() -> u64 {
    STATE
        .try_with(|s| {
            let mut z = s.get().wrapping_add(0x9E3779B97F4A7C15);
            s.set(z);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        })
        .unwrap_or(7)
}

/// # Safety
/// `buf` must be valid for `len` bytes.
pub unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let v = next().to_le_bytes();
        for b in v {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
}

/// Defines the `getrandom` symbol of the binary.
#[macro_export]
macro_rules! define_getrandom {
    () => {
        #[no_mangle]
        pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
            $crate::rng::fill(buf, len);
            len as isize
        }
    };
}
