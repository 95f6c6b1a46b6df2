//! The explorer: visits every index of every family, catches panics, faults and hangs per
//! case, and counts what was covered.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
    Tiny,
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, tiny: T, quick: T, thorough: T) -> T {
        match self {
            Tier::Tiny => tiny,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, v: u64) { self.0 = v.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29) }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub const STATE_CAP: usize = 3_000_000;
const TOTAL_CAP: usize = 60_000_000;

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.iter() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Ctx {
    pub transitions: u64,
    pub extra_traces: u64,
    states: IdSet,
    outcomes: IdSet,
    pub states_capped: bool,
    sampling: bool,
    desc: Option<String>,
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            transitions: 0,
            extra_traces: 0,
            states: Default::default(),
            outcomes: Default::default(),
            states_capped: false,
            sampling: false,
            desc: None,
        }
    }
    /// Records `n` calls into the code under test whose results were compared.
    pub fn steps(&mut self, n: u64) { self.transitions += n }
    /// Records an abstract state that was reached.
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        } else {
            self.states_capped = true;
        }
    }
    /// Records an observed result (to show that executions are not all alike).
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < STATE_CAP {
            self.outcomes.insert(h);
        }
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.sampling {
            self.desc = Some(f());
        }
    }
}

pub type Case = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync>;

pub struct Family {
    pub name: String,
    pub n: u64,
    pub f: Case,
    /// Seconds one case may take before it counts as a hang.
    pub hang_s: u64,
    /// Run the cases one after another on one thread.
    pub serial: bool,
}

impl Family {
    pub fn new(
        name: impl Into<String>,
        n: u64,
        f: impl Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
    ) -> Family {
        Family { name: name.into(), n, f: Box::new(f), hang_s: 30, serial: false }
    }
    pub fn slow(mut self, s: u64) -> Family {
        self.hang_s = s;
        self
    }
    pub fn serial(mut self) -> Family {
        self.serial = true;
        self
    }
}

/// Mixed-radix decoding, least significant digit last.
pub fn digits<const K: usize>(mut idx: u64, radix: [usize; K]) -> [usize; K] {
    let mut out = [0; K];
    for i in (0..K).rev() {
        out[i] = (idx % radix[i] as u64) as usize;
        idx /= radix[i] as u64;
    }
    assert_eq!(idx, 0, "index out of range");
    out
}
pub fn product(radix: &[usize]) -> u64 { radix.iter().map(|x| *x as u64).product() }

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

/// Runs `f`; Ok(value) or Err(panic message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e: Box<dyn Any + Send>| {
        drop(e);
        LAST_PANIC.with(|p| p.borrow().clone())
    })
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { guarded(f).is_err() }

const SLOTS: usize = 64;
static CUR: [AtomicU64; SLOTS] = [const { AtomicU64::new(u64::MAX) }; SLOTS];
static FAM: AtomicUsize = AtomicUsize::new(0);

#[cfg(not(miri))]
mod sig {
    use super::*;
    extern "C" fn on_fault(sig: libc::c_int) {
        // Async-signal-safe: format by hand, write, exit.
        let slot = SLOT.with(|s| s.get());
        let idx = CUR[slot].load(SeqCst);
        let fam = FAM.load(SeqCst) as u64;
        let mut buf = [0u8; 96];
        let mut n = 0;
        let mut put = |b: &[u8]| {
            for x in b {
                buf[n] = *x;
                n += 1;
            }
        };
        fn dec(mut v: u64, out: &mut [u8; 20]) -> usize {
            let mut i = 20;
            loop {
                i -= 1;
                out[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    return i;
                }
            }
        }
        let mut t = [0u8; 20];
        put(b"\nCRASH ");
        for v in [fam, idx, sig as u64] {
            let i = dec(v, &mut t);
            put(&t[i..]);
            put(b" ");
        }
        put(b"\n");
        unsafe {
            libc::write(1, buf.as_ptr() as *const libc::c_void, n);
            libc::_exit(10);
        }
    }
    pub fn install() {
        unsafe {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_fault as *const () as usize;
                sa.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
    }
}

pub struct Args {
    pub tier: Tier,
    pub out: Option<String>,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub family: Option<String>,
    /// Visit only the indices congruent to .0 modulo .1.
    pub shard: (u64, u64),
}

pub fn args() -> Args {
    let mut a = Args {
        tier: Tier::Quick,
        out: None,
        only: None,
        threads: if cfg!(miri) { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) },
        family: None,
        shard: (0, 1),
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" =>
                a.tier = match it.next().unwrap().as_str() {
                    "tiny" => Tier::Tiny,
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    _ => panic!("tier"),
                },
            "--out" => a.out = it.next(),
            "--threads" => a.threads = it.next().unwrap().parse().unwrap(),
            "--only" => a.only = Some((it.next().unwrap(), it.next().unwrap().parse().unwrap())),
            "--family" => a.family = it.next(),
            "--shard" => a.shard = (it.next().unwrap().parse().unwrap(), it.next().unwrap().parse().unwrap()),
            _ => panic!("unknown argument {}", x),
        }
    }
    a.threads = a.threads.clamp(1, SLOTS - 1);
    a
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(f: &Case, idx: u64, cx: &mut Ctx) -> Result<(), String> {
    match guarded(|| f(idx, cx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {}", p)),
    }
}

/// Entry point of every property binary.
pub fn main(prop: &str, build: impl FnOnce(&Args) -> Vec<Family>) {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = msg
            }
        });
    }));
    #[cfg(not(miri))]
    sig::install();
    let a = args();
    let kat = match crate::spec::self_test(if cfg!(miri) { 70 } else { 200_000 }) {
        Ok(n) => n,
        Err(e) => {
            println!("ERROR {}", e);
            std::process::exit(3);
        }
    };
    let fams = match guarded(|| build(&a)) {
        Ok(f) => f,
        Err(e) => {
            // Families only call the model while being built; anything else is our error.
            println!("ERROR building families: {}", e);
            std::process::exit(3);
        }
    };
    let t_start = Instant::now();

    if let Some((name, idx)) = &a.only {
        let by_no = name.strip_prefix('@').and_then(|n| n.parse::<usize>().ok());
        let pos = by_no.or_else(|| fams.iter().position(|f| f.name == *name));
        let Some(f) = pos.and_then(|p| fams.get(p)) else {
            println!("ERROR no such family {}", name);
            std::process::exit(3);
        };
        let mut cx = Ctx::new();
        cx.sampling = true;
        FAM.store(pos.unwrap(), SeqCst);
        CUR[0].store(*idx, SeqCst);
        #[cfg(not(miri))]
        {
            let lim = f.hang_s;
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_secs(lim + 30));
                println!("REPLAY hang: no result after {} s", lim + 30);
                unsafe { libc::_exit(1) };
            });
        }
        let r = run_case(&f.f, *idx, &mut cx);
        let d = cx.desc.unwrap_or_default();
        match r {
            Ok(()) => println!("REPLAY ok {}", d),
            Err(e) => {
                println!("REPLAY violation: family {}: {} [{}]", f.name, e, d);
                std::process::exit(1);
            }
        }
        return;
    }

    let total_states: Mutex<IdSet> = Mutex::new(Default::default());
    let total_outcomes: Mutex<IdSet> = Mutex::new(Default::default());
    let transitions = AtomicU64::new(0);
    let traces = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let mut fam_json = Vec::new();
    let mut samples = Vec::new();
    let mut violation: Option<(usize, u64, String)> = None;
    let mut complete = true;

    #[cfg(not(miri))]
    {
        let lim: Vec<u64> = fams.iter().map(|f| f.hang_s).collect();
        std::thread::spawn(move || {
            // (family, index, ticks of 500 ms without change) per slot
            let mut seen = [(0usize, u64::MAX, 0u64); SLOTS];
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let fam = FAM.load(SeqCst);
                for (s, e) in seen.iter_mut().enumerate() {
                    let idx = CUR[s].load(SeqCst);
                    if idx == u64::MAX || e.0 != fam || e.1 != idx {
                        *e = (fam, idx, 0);
                        continue;
                    }
                    e.2 += 1;
                    if e.2 > lim[fam] * 2 {
                        println!("\nHANG {} {}", fam, idx);
                        unsafe { libc::_exit(11) };
                    }
                }
            }
        });
    }

    for (fi, fam) in fams.iter().enumerate() {
        if let Some(only) = &a.family {
            if !fam.name.starts_with(only.as_str()) {
                complete = false;
                continue;
            }
        }
        FAM.store(fi, SeqCst);
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicU64::new(fam.n);
        let visited = AtomicU64::new(0);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let threads = if fam.serial { 1 } else { a.threads };
        let chunk = (fam.n / (threads as u64 * 32)).clamp(1, 2048);
        let worker = |slot: usize| {
            SLOT.with(|s| s.set(slot));
            let mut cx = Ctx::new();
            let mut done = 0;
            loop {
                let lo = next.fetch_add(chunk, SeqCst);
                if lo >= stop.load(SeqCst) {
                    break;
                }
                for idx in lo..(lo + chunk).min(fam.n) {
                    if idx >= stop.load(SeqCst) {
                        break;
                    }
                    if idx % a.shard.1 != a.shard.0 {
                        continue;
                    }
                    CUR[slot].store(idx, SeqCst);
                    // Undefined behaviour ends the process under Miri: say where it was.
                    if cfg!(miri) {
                        println!("CASE {} {}", fam.name, idx);
                    }
                    if let Err(e) = run_case(&fam.f, idx, &mut cx) {
                        stop.fetch_min(idx, SeqCst);
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map_or(true, |(i, _)| *i > idx) {
                            *g = Some((idx, e));
                        }
                        CUR[slot].store(u64::MAX, SeqCst);
                        break;
                    }
                    done += 1;
                }
            }
            CUR[slot].store(u64::MAX, SeqCst);
            visited.fetch_add(done, SeqCst);
            traces.fetch_add(done + cx.extra_traces, SeqCst);
            transitions.fetch_add(cx.transitions, SeqCst);
            if cx.states_capped {
                capped.store(true, SeqCst);
            }
            let mut g = total_states.lock().unwrap();
            for s in cx.states.drain() {
                if g.len() >= TOTAL_CAP {
                    capped.store(true, SeqCst);
                    break;
                }
                g.insert(s);
            }
            drop(g);
            let mut g = total_outcomes.lock().unwrap();
            for s in cx.outcomes.drain() {
                g.insert(s);
            }
        };
        if threads == 1 {
            worker(0);
        } else {
            std::thread::scope(|sc| {
                for slot in 1..=threads {
                    let w = &worker;
                    sc.spawn(move || w(slot));
                }
            });
        }
        let v = visited.load(SeqCst);
        fam_json.push(format!(
            "{{\"name\":{},\"size\":{},\"visited\":{},\"secs\":{:.2}}}",
            json_str(&fam.name),
            fam.n,
            v,
            t0.elapsed().as_secs_f64()
        ));
        if let Some((idx, e)) = found.into_inner().unwrap() {
            violation = Some((fi, idx, e));
            complete = false;
            break;
        }
        if fam.n > 0 && fi < 40 && a.shard.0 == 0 {
            let mut cx = Ctx::new();
            cx.sampling = true;
            let idx = fam.n * 5 / 8;
            FAM.store(fi, SeqCst);
            if fam.hang_s <= 30 {
                let _ = run_case(&fam.f, idx, &mut cx);
                if let Some(d) = cx.desc {
                    samples.push(json_str(&format!("{}#{}: {}", fam.name, idx, d)));
                }
            }
        }
    }
    let vio = match &violation {
        None => "null".to_string(),
        Some((fi, idx, e)) => format!(
            "{{\"family\":{},\"index\":{},\"message\":{}}}",
            json_str(&fams[*fi].name),
            idx,
            json_str(e)
        ),
    };
    let names: Vec<String> = fams.iter().map(|f| json_str(&f.name)).collect();
    let out = format!(
        "{{\"property\":{},\"tier\":\"{:?}\",\"kat\":{},\"states\":{},\"states_capped\":{},\"outcomes\":{},\"transitions\":{},\"traces\":{},\"complete\":{},\"families\":[{}],\"family_names\":[{}],\"samples\":[{}],\"violation\":{},\"secs\":{:.2}}}",
        json_str(prop),
        a.tier,
        kat,
        total_states.lock().unwrap().len(),
        capped.load(SeqCst),
        total_outcomes.lock().unwrap().len(),
        transitions.load(SeqCst),
        traces.load(SeqCst),
        complete,
        fam_json.join(","),
        names.join(","),
        samples.join(","),
        vio,
        t_start.elapsed().as_secs_f64()
    );
    match &a.out {
        Some(p) if p != "-" => std::fs::write(p, out).unwrap(),
        _ => println!("RESULT {}", out),
    }
    if let Some((fi, idx, e)) = violation {
        println!("FOUND {} {} {}", fams[fi].name, idx, e);
        std::process::exit(1);
    }
}
