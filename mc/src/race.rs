//! Two threads that take turns: only one runs at a time, and control can pass from one to the
//! other before every access to a writable static of the program. Those accesses are found by
//! making the statics' pages inaccessible; the fault handler is the scheduler. Between two
//! such accesses a thread touches nothing the other can see through a static, so moving the
//! switch within that stretch changes nothing.
#![cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

/// One bit for each of the first accesses.
pub type Fresh = [u64; 128];

/// Everything the handler needs lies here, outside the statics.
#[repr(C)]
struct Ctl {
    ranges: [(usize, usize); 4],
    n_ranges: usize,
    turn: AtomicU32,
    ready: AtomicU32,
    over: AtomicU32,
    done: [AtomicU32; 2],
    /// Thread ids.
    tid: [AtomicU32; 2],
    /// Accesses so far, by both.
    accesses: AtomicU64,
    n_switches: usize,
    switches: [u64; 8],
    /// Spinning: same few places again and again.
    places: [[u64; 16]; 2],
    n_places: [usize; 2],
    spin: [u32; 2],
    /// Bit k: access k was made by an instruction other than the last few of that thread.
    fresh: Fresh,
    forced: AtomicU64,
}
const AT: usize = 0x5a5a_0000_0000;
fn ctl() -> &'static mut Ctl { unsafe { &mut *(AT as *mut Ctl) } }

thread_local! {
    static ME: Cell<u32> = const { Cell::new(2) };
}

fn statics() -> Vec<(usize, usize)> {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_str().unwrap();
    let mut v: Vec<(usize, usize)> = Vec::new();
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if f[1].starts_with("rw") && (f.get(5) == Some(&exe) || f.len() == 5 && v.last().is_some_and(|l| l.1 == a)) {
            v.push((a, b));
        }
    }
    assert!(!v.is_empty() && v.len() <= 4, "the program's writable mappings");
    v
}

fn protect(on: bool) {
    let c = ctl();
    for (a, b) in &c.ranges[..c.n_ranges] {
        let p = if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe { libc::mprotect(*a as *mut libc::c_void, b - a, p) };
    }
}

fn futex(a: &AtomicU32, op: libc::c_int, val: u32, ms: i64) {
    let t = libc::timespec { tv_sec: 0, tv_nsec: ms * 1_000_000 };
    unsafe { libc::syscall(libc::SYS_futex, a as *const AtomicU32, op, val, &t as *const libc::timespec) };
}

fn give(to: u32) {
    let c = ctl();
    c.turn.store(to, SeqCst);
    futex(&c.turn, libc::FUTEX_WAKE, 2, 0);
}

/// Whether a thread sleeps in the kernel. (Called from a signal handler: system calls only.)
fn asleep(tid: u32) -> bool {
    let mut path = [0u8; 48];
    let mut n = 0;
    for b in b"/proc/self/task/" {
        path[n] = *b;
        n += 1;
    }
    let mut digits = [0u8; 10];
    let (mut k, mut x) = (0, tid);
    while x > 0 || k == 0 {
        digits[k] = b'0' + (x % 10) as u8;
        x /= 10;
        k += 1;
    }
    for d in digits[..k].iter().rev() {
        path[n] = *d;
        n += 1;
    }
    for b in b"/stat\0" {
        path[n] = *b;
        n += 1;
    }
    let mut buf = [0u8; 128];
    let got = unsafe {
        let fd = libc::open(path.as_ptr() as *const libc::c_char, libc::O_RDONLY);
        if fd < 0 {
            return false;
        }
        let got = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len());
        libc::close(fd);
        got
    };
    // "tid (name) S ..."
    let b = &buf[..got.max(0) as usize];
    b.iter().rposition(|c| *c == b')').is_some_and(|p| b.get(p + 2) == Some(&b'S'))
}

/// Waits for the turn; takes it if the other one is stuck (waits for something in the kernel).
fn wait_turn(me: u32) {
    let c = ctl();
    let (mut idle, mut seen, mut slept) = (0, u64::MAX, 0);
    while c.turn.load(SeqCst) != me {
        futex(&c.turn, libc::FUTEX_WAIT, 1 - me, 1);
        if c.turn.load(SeqCst) == me {
            break;
        }
        let other = c.tid[1 - me as usize].load(SeqCst);
        let now = c.accesses.load(SeqCst) * 2 + c.done[1 - me as usize].load(SeqCst) as u64;
        idle = if now == seen { idle + 1 } else { 0 };
        slept = if now == seen && other != 0 && asleep(other) { slept + 1 } else { 0 };
        seen = now;
        if (idle >= 1000 || slept >= 3) && c.turn.load(SeqCst) != me {
            c.turn.store(me, SeqCst);
        }
    }
}

fn yield_to_other(me: u32) {
    if ctl().done[1 - me as usize].load(SeqCst) == 0 {
        give(1 - me);
        wait_turn(me);
    }
}

extern "C" fn on_access(sig: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let me = ME.with(|m| m.get());
    let c = ctl();
    let addr = unsafe { (*info).si_addr() as usize };
    let uc = ctx as *mut libc::ucontext_t;
    let regs = unsafe { &mut (*uc).uc_mcontext.gregs };
    if !c.ranges[..c.n_ranges].iter().any(|(a, b)| *a <= addr && addr < *b) {
        // A fault of the code's own.
        unsafe { libc::signal(sig, libc::SIG_DFL) };
        return;
    }
    if me < 2 && c.done[me as usize].load(SeqCst) == 0 {
        let k = c.accesses.fetch_add(1, SeqCst);
        let rip = regs[libc::REG_RIP as usize] as u64;
        let (p, s) = (&mut c.places[me as usize], &mut c.spin[me as usize]);
        if p.contains(&rip) {
            *s += 1;
        } else {
            *s = 0;
            let at = &mut c.n_places[me as usize];
            p[*at % p.len()] = rip;
            *at += 1;
            if let Some(f) = c.fresh.get_mut((k / 64) as usize) {
                *f |= 1 << (k % 64);
            }
        }
        if *s > 300 {
            *s = 0;
            c.forced.fetch_add(1, SeqCst);
            yield_to_other(me);
        } else if c.switches[..c.n_switches].contains(&k) {
            yield_to_other(me);
        }
    }
    protect(false);
    regs[libc::REG_EFL as usize] |= 0x100;
}

extern "C" fn on_step(_sig: libc::c_int, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = ctx as *mut libc::ucontext_t;
    unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
    if ctl().over.load(SeqCst) == 0 {
        protect(true);
    }
}

/// Runs `a` here and `b` in another thread; control passes at each of `switches` (numbers of
/// accesses, ascending). Returns what both gave and how many accesses there were (which of
/// them by instructions not seen just before). Once per process.
pub fn run<R, S: Send + 'static>(a: impl FnOnce() -> R, b: impl FnOnce() -> S + Send + 'static, switches: &[u64]) -> (R, S, u64, Fresh) {
    let p = unsafe {
        libc::mmap(AT as *mut libc::c_void, 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0)
    };
    assert!(p as usize == AT && std::mem::size_of::<Ctl>() <= 4096, "control page");
    let c = ctl();
    for (i, r) in statics().into_iter().enumerate() {
        c.ranges[i] = r;
        c.n_ranges = i + 1;
    }
    c.n_switches = switches.len();
    c.switches[..switches.len()].copy_from_slice(switches);
    unsafe {
        for (s, f) in [(libc::SIGSEGV, on_access as *const ()), (libc::SIGTRAP, on_step as *const ())] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = f as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    let t = std::thread::spawn(move || {
        ME.with(|m| m.set(1));
        let c = ctl();
        c.tid[1].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
        c.ready.store(1, SeqCst);
        wait_turn(1);
        let r = b();
        c.done[1].store(1, SeqCst);
        give(0);
        while c.over.load(SeqCst) == 0 {
            futex(&c.over, libc::FUTEX_WAIT, 0, 50);
        }
        r
    });
    while c.ready.load(SeqCst) == 0 {
        std::thread::yield_now();
    }
    c.tid[0].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
    ME.with(|m| m.set(0));
    protect(true);
    let r = a();
    c.done[0].store(1, SeqCst);
    give(1);
    while c.done[1].load(SeqCst) == 0 {
        futex(&c.done[1], libc::FUTEX_WAIT, 0, 1);
    }
    c.over.store(1, SeqCst);
    protect(false);
    ME.with(|m| m.set(2));
    futex(&c.over, libc::FUTEX_WAKE, 2, 0);
    let s = t.join().expect("the other thread");
    (r, s, c.accesses.load(SeqCst), c.fresh)
}
