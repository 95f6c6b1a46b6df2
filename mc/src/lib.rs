//! Model checking harness for chf.
pub mod guard;
pub mod cpu;
pub mod race;
pub mod run;
#[cfg(feature = "serde")]
pub mod ser;
pub mod spec;
#[rustfmt::skip]
mod spec_consts;
pub mod step;
pub mod subjects;
pub mod vals;

/// Shows bytes in messages without flooding them.
pub fn show(b: &[u8]) -> String {
    if b.len() <= 40 {
        spec::hex(b)
    } else {
        format!("{}..({} bytes)", spec::hex(&b[..24]), b.len())
    }
}

/// Compares an observation with the model's prediction.
pub fn want<T: PartialEq + std::fmt::Debug>(what: impl FnOnce() -> String, got: T, expected: T) -> Result<(), String> {
    if got == expected {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, model says {:?}", what(), got, expected))
    }
}
pub fn want_bytes(what: impl FnOnce() -> String, got: &[u8], expected: &[u8]) -> Result<(), String> {
    if got == expected {
        Ok(())
    } else {
        Err(format!("{}: got {}, model says {}", what(), show(got), show(expected)))
    }
}

/// Zero-filled memory (read-only, never materialised beyond the shared zero page).
#[cfg(not(miri))]
pub fn zeros(n: usize) -> &'static [u8] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED {
            println!("ERROR mmap failed");
            std::process::exit(3);
        }
        std::slice::from_raw_parts(p as *const u8, n)
    }
}
#[cfg(miri)]
pub fn zeros(n: usize) -> &'static [u8] { Box::leak(vec![0; n].into_boxed_slice()) }
