//! Single-stepping of the calling thread: every machine instruction executed between `on` and
//! `off` raises SIGTRAP, whose handler sees the instruction pointer.
#![cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]

use std::cell::Cell;

pub struct Rec {
    /// Instructions executed so far.
    pub count: u64,
    pub hash: u64,
    /// Instruction pointers, up to the capacity of the vector (never reallocated here).
    pub rips: Vec<u64>,
    /// Called after every instruction with its number and the next instruction's address;
    /// stepping ends when it returns false.
    pub each: Option<fn(u64, u64) -> bool>,
    /// Give up (stop stepping) after this many.
    pub limit: u64,
    pub overrun: bool,
}

impl Rec {
    pub fn new(cap: usize) -> Rec {
        Rec { count: 0, hash: 0xcbf29ce484222325, rips: Vec::with_capacity(cap), each: None, limit: u64::MAX, overrun: false }
    }
}

thread_local! {
    static CUR: Cell<*mut Rec> = const { Cell::new(std::ptr::null_mut()) };
}

extern "C" fn on_trap(_sig: libc::c_int, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let p = CUR.with(|c| c.get());
    let uc = ctx as *mut libc::ucontext_t;
    unsafe {
        let regs = &mut (*uc).uc_mcontext.gregs;
        if p.is_null() {
            // Not stepping (should not happen): make sure it stops.
            regs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        let r = &mut *p;
        let rip = regs[libc::REG_RIP as usize] as u64;
        r.count += 1;
        r.hash = (r.hash ^ rip).wrapping_mul(0x100000001b3).rotate_left(5);
        if r.rips.len() < r.rips.capacity() {
            r.rips.push(rip);
        }
        if let Some(f) = r.each {
            if !f(r.count, rip) {
                regs[libc::REG_EFL as usize] &= !0x100;
            }
        }
        if r.count >= r.limit {
            r.overrun = true;
            regs[libc::REG_EFL as usize] &= !0x100;
        }
    }
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

/// Runs `f(arg)` one instruction at a time.
#[inline(never)]
pub fn stepped<A, R>(rec: &mut Rec, f: fn(&mut A) -> R, arg: &mut A) -> R {
    let f = std::hint::black_box(f);
    CUR.with(|c| c.set(rec));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f(arg);
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") };
    CUR.with(|c| c.set(std::ptr::null_mut()));
    r
}
