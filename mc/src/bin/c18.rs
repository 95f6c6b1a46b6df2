//! C18: engines are independent values: no state leaks between them.
//!
//! Sequential part: every history over a pool of engines (two algorithms at a time) with
//! creation, input, clone and finalization, each compared with the model after every step.
//! Concurrent part: thread A is single-stepped through an operation and preempted after every
//! single machine instruction in turn; at the preemption thread B runs whole computations.
use mc::race;
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::stream;
use mc::step::{install, stepped, Rec};
use mc::subjects::{self, Eng, Subject};
use mc::{want, want_bytes};
use std::cell::RefCell;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Instant;

// ---------------------------------------------------------------- sequential histories

struct S {
    s: Subject,
    /// Digest of msg(k)[..n] for the three message streams.
    table: [Vec<(Vec<u8>, Option<Vec<u8>>)>; 2],
}
fn msgs() -> [Vec<u8>; 2] {
    let a = stream(if run_preempt() { 400 } else { 700 });
    let b: Vec<u8> = a.iter().map(|x| !x).collect();
    [a, b]
}
struct World {
    msgs: [Vec<u8>; 2],
    subs: Vec<S>,
    calls: Vec<Call>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Feed slot s with the size of this class.
    In(usize, usize),
    /// Replace the other slot of the same algorithm with a clone.
    Clone(usize, usize),
    /// The same by `clone_from` (between engines of one type).
    Assign(usize, usize),
    /// Exchange two engines of one type in place.
    Swap(usize, usize),
    /// Read the digest through a clone.
    Peek(usize),
    /// Finalize and start anew.
    Fin(usize),
}
use Op::*;

struct Slot {
    e: Box<dyn Eng>,
    /// Which subject, which message stream, how many bytes.
    sub: usize,
    msg: usize,
    n: usize,
}

/// Runs `f` on this thread's helper thread and waits for it.
fn elsewhere(f: &mut dyn FnMut()) {
    use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
    struct Job(*mut (dyn FnMut() + 'static));
    unsafe impl Send for Job {}
    struct Helper(SyncSender<Job>, Receiver<Result<(), String>>);
    thread_local! {
        static HELPER: Helper = {
            let (tx, jobs) = sync_channel::<Job>(1);
            let (done, rx) = sync_channel(1);
            std::thread::spawn(move || {
                for j in jobs {
                    let j = j;
                    // SAFETY: the other thread waits, so the closure and what it borrows live.
                    if done.send(run::guarded(|| unsafe { (*j.0)() })).is_err() {
                        break;
                    }
                }
            });
            Helper(tx, rx)
        };
    }
    HELPER.with(|h| {
        let p: *mut (dyn FnMut() + '_) = f;
        h.0.send(Job(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) })).unwrap();
        if let Err(e) = h.1.recv().unwrap() {
            panic!("in another thread: {}", e);
        }
    })
}

/// Step k is done in another thread if bit k of `threads` is set, the end if bit `ops.len()` is.
fn history(cx: &mut Ctx, w: &World, x: usize, y: usize, ops: &[Op], threads: u32) -> Result<(), String> {
    let name = |i: usize| &w.subs[i].s.name;
    let h = || format!("slots 0,1 = {} 2 = {}, history {:?}{}", name(x), name(y), ops, if threads == 0 { String::new() } else { format!(" (steps in another thread: {:#b})", threads) });
    cx.desc(h);
    let mut slots: Vec<Slot> = [(x, 0), (x, 1), (y, 0)].iter().map(|(sub, msg)| Slot { e: (w.subs[*sub].s.make)(), sub: *sub, msg: *msg, n: 0 }).collect();
    let check = |cx: &mut Ctx, s: &Slot, i: usize, k: usize| -> Result<(), String> {
        cx.steps(1);
        let sub = &w.subs[s.sub];
        want(|| format!("{}: byte count of slot {} after step {}", h(), i, k), s.e.n() as u128, sub.s.model.start_len + s.n as u128)?;
        if let Some(m) = &sub.table[s.msg][s.n].1 {
            want_bytes(|| format!("{}: midstate of slot {} after step {}", h(), i, k), &s.e.mid(), m)?;
        }
        Ok(())
    };
    for (k, op) in ops.iter().enumerate() {
        let mut step = || -> Result<(), String> {
            match *op {
                In(s, c) => {
                    let b = w.subs[slots[s].sub].s.model.block();
                    let len = [1, b - 1, b + 1][c];
                    let sl = &mut slots[s];
                    sl.e.input(&w.msgs[sl.msg][sl.n..sl.n + len]);
                    sl.n += len;
                }
                Clone(from, to) => {
                    let c = Slot { e: slots[from].e.dup(), sub: slots[from].sub, msg: slots[from].msg, n: slots[from].n };
                    slots[to] = c;
                }
                Assign(from, to) => {
                    let (f, t) = if from < to {
                        let (x, y) = slots.split_at_mut(to);
                        (&x[from], &mut y[0])
                    } else {
                        let (x, y) = slots.split_at_mut(from);
                        (&y[0], &mut x[to])
                    };
                    if t.e.assign(&*f.e) {
                        (t.sub, t.msg, t.n) = (f.sub, f.msg, f.n);
                    }
                }
                Swap(i, j) => {
                    let (x, y) = slots.split_at_mut(j);
                    let (f, t) = (&mut x[i], &mut y[0]);
                    if f.e.swap(&mut *t.e) {
                        std::mem::swap(&mut f.sub, &mut t.sub);
                        std::mem::swap(&mut f.msg, &mut t.msg);
                        std::mem::swap(&mut f.n, &mut t.n);
                    }
                }
                Peek(s) => {
                    let sl = &slots[s];
                    want_bytes(|| format!("{}: digest of slot {} at step {}", h(), s, k), &sl.e.dup().fin(), &w.subs[sl.sub].table[sl.msg][sl.n].0)?;
                }
                Fin(s) => {
                    let sub = slots[s].sub;
                    let old = std::mem::replace(&mut slots[s], Slot { e: (w.subs[sub].s.make)(), sub, msg: s % 2, n: 0 });
                    want_bytes(|| format!("{}: final digest of slot {} at step {}", h(), s, k), &old.e.fin(), &w.subs[sub].table[old.msg][old.n].0)?;
                }
            }
            Ok(())
        };
        if threads >> k & 1 != 0 {
            let mut r = Ok(());
            elsewhere(&mut || r = step());
            r?;
        } else {
            step()?;
        }
        cx.steps(1);
        for (i, s) in slots.iter().enumerate() {
            check(cx, s, i, k)?;
        }
    }
    let mut id = Vec::with_capacity(16);
    for (i, s) in slots.into_iter().enumerate() {
        id.extend([s.sub as u8, s.msg as u8, s.n as u8, (s.n >> 8) as u8]);
        let (mut e, mut d) = (Some(s.e), Vec::new());
        let mut end = || d = e.take().unwrap().fin();
        if threads >> ops.len() & 1 != 0 {
            elsewhere(&mut end);
        } else {
            end();
        }
        want_bytes(|| format!("{}: digest of slot {} at the end", h(), i), &d, &w.subs[s.sub].table[s.msg][s.n].0)?;
        cx.steps(1);
    }
    cx.state(fnv(&[&id, format!("{:?}", ops.last()).as_bytes()]));
    Ok(())
}

fn alphabet() -> Vec<Op> {
    let mut v = Vec::new();
    for s in 0..3 {
        v.push(In(s, 0));
        v.push(In(s, 1));
        v.push(In(s, 2));
        v.push(Fin(s));
    }
    v.extend([Clone(0, 1), Clone(1, 0), Clone(0, 2), Assign(0, 1), Assign(1, 0), Assign(0, 2), Swap(0, 1), Peek(0), Peek(2)]);
    v
}

// ---------------------------------------------------------------- whole computations

/// A function of the bytes alone, and what it gives for msgs[m][..LENS[n]].
struct Call {
    name: String,
    f: Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>,
    want: [Vec<Vec<u8>>; 2],
}
const LENS: [usize; 8] = [0, 4, 8, 9, 32, 33, 64, 128];

fn calls(msgs: &[Vec<u8>; 2]) -> Vec<Call> {
    use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
    use mc::spec::{Alg, Base, Model};
    use mc::subjects::{Tg, K0, K1, TAG};
    let mut v = Vec::new();
    let mut add = |name: String, f: Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>, m: &dyn Fn(&[u8]) -> Vec<u8>| {
        let want = [0, 1].map(|k| LENS.iter().map(|n| m(&msgs[k][..*n])).collect());
        v.push(Call { name, f, want });
    };
    for s in subjects::all() {
        let subjects::Subject { name, model, make, dmodel, chunks, oneshot, .. } = s;
        add(format!("{}-engine", name), Box::new(move |d| {
            let mut e = make();
            e.input(d);
            e.fin()
        }), &|d| model.digest(d));
        if name == "siphash24-keyed" {
            continue;
        }
        add(format!("{}-hash", name), Box::new(oneshot), &|d| dmodel.digest(d));
        add(format!("{}-chunks", name), Box::new(move |d| chunks(&[&d[..d.len() / 2], &d[d.len() / 2..]])), &|d| dmodel.digest(d));
    }
    macro_rules! typ {
        ($($m:ident $a:expr),*) => { $(
            let model = Model::plain(Base::plain($a));
            add(concat!(stringify!($m), "-type").into(), Box::new(|d| $m::Hash::hash(d).to_byte_array().to_vec()), &|d| model.digest(d));
        )* };
    }
    typ!(sha1 Alg::Sha1, sha256 Alg::Sha256, sha384 Alg::Sha384, sha512 Alg::Sha512, sha512_256 Alg::Sha512_256, ripemd160 Alg::Ripemd160);
    let t = Model::plain(Base::tagged(TAG));
    add("sha256t-type".into(), Box::new(|d| sha256t::Hash::<Tg>::hash(d).to_byte_array().to_vec()), &|d| t.digest(d));
    let p = Model::plain(Base::plain(Alg::Sha256));
    add("sha256-const".into(), Box::new(|d| sha256::Hash::const_hash(d).to_byte_array().to_vec()), &|d| p.digest(d));
    add("sha256-tag".into(), Box::new(|d| sha256::Midstate::hash_tag(d).to_byte_array().to_vec()), &|d| {
        let h = p.digest(d);
        p.table(&[&h[..], &h[..]].concat())[64].1.clone().unwrap()
    });
    let s0 = Model::plain(Base::sip(0, 0));
    add("siphash24-type".into(), Box::new(|d| siphash24::Hash::hash(d).to_byte_array().to_vec()), &|d| s0.digest(d));
    let s = Model::plain(Base::sip(K0, K1));
    add("siphash24-keys".into(), Box::new(|d| siphash24::Hash::hash_with_keys(K0, K1, d).to_byte_array().to_vec()), &|d| s.digest(d));
    add("siphash24-u64".into(), Box::new(|d| siphash24::Hash::hash_to_u64_with_keys(K0, K1, d).to_le_bytes().to_vec()), &|d| s.digest(d));
    // The data as the key.
    fn word(d: &[u8], at: usize) -> u64 { d.iter().skip(at).take(8).fold(0, |a, b| a << 8 | *b as u64) }
    add("siphash24-keyed-by".into(), Box::new(|d| siphash24::Hash::hash_with_keys(word(d, 0), word(d, 8), b"message").to_byte_array().to_vec()), &|d| {
        Model::plain(Base::sip(word(d, 0), word(d, 8))).digest(b"message")
    });
    macro_rules! keyed {
        ($($m:ident),*) => { $(
            add(concat!("hmac-", stringify!($m), "-keyed-by").into(), Box::new(|d| {
                let mut e = hmac::Engine::<$m::Engine>::new(d);
                e.input(b"message");
                e.finalize().as_ref().to_vec()
            }), &|d| {
                let name = concat!("hmac-", stringify!($m));
                let x = subjects::hmacs(d).into_iter().find(|s| s.name == name).expect(name);
                x.model.digest(b"message")
            });
        )* };
    }
    keyed!(sha1, sha256, sha512, ripemd160);
    v
}

/// A pool of whole computations, all reading the same buffer address: (call, message, length).
fn oneshots(w: &World) -> Vec<(usize, usize, usize)> {
    let mut v = Vec::new();
    for s in 0..w.calls.len() {
        for m in 0..2 {
            for n in 0..LENS.len() {
                v.push((s, m, n));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- preemption

// Thread A is single-stepped through an operation. After every instruction of the program
// (library routines excepted) the process is forked; in the child another thread B runs whole
// computations, then A goes on to the end, and everything both computed is compared with the
// model. A child thus is one schedule: A up to that instruction, B, the rest of A. The parent
// of the forks has not called the crate before the operation, so first uses are covered too.

/// Shared between the processes.
#[repr(C)]
struct Shared {
    timeouts: AtomicU64,
    schedules: AtomicU64,
    steps: AtomicU64,
    msg_len: AtomicU64,
    msg: [u8; 4000],
    fresh: race::Fresh,
}
static SH: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
fn shared() -> &'static mut Shared { unsafe { &mut *SH.load(SeqCst) } }
fn tell(m: &str) {
    let s = shared();
    let n = m.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
    s.msg_len.store(n as u64, SeqCst);
}

#[derive(Clone, Copy)]
struct Job {
    si: usize,
    op: usize,
    part: u64,
    parts: u64,
}
struct World2 {
    w: Arc<World>,
    job: Job,
    text: Vec<(u64, u64)>,
}
static W2: AtomicPtr<World2> = AtomicPtr::new(std::ptr::null_mut());
/// Set in a child: B's verdict (and that B has ended).
static CHILD: AtomicPtr<Schedule> = AtomicPtr::new(std::ptr::null_mut());
struct Schedule {
    at: u64,
    variant: u64,
    b: Option<std::thread::JoinHandle<Result<(), String>>>,
}

/// Where the program's own instructions are.
fn text() -> Vec<(u64, u64)> {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let exe = exe.to_str().unwrap();
    let mut v = Vec::new();
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() >= 6 && f[1].contains('x') && f[5] == exe {
            let (a, b) = f[0].split_once('-').unwrap();
            v.push((u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap()));
        }
    }
    assert!(!v.is_empty(), "text mapping");
    v
}

/// What thread B does: its own computations, of the same algorithm or of all of them.
fn b_op(w: &World, job: Job, variant: u64) -> Result<(), String> {
    let si = job.si;
    if job.op == CALL {
        let cs: Vec<usize> = if variant == 0 { vec![si] } else { (0..w.calls.len()).filter(|c| ["-type", "-keys", "-tag"].iter().any(|e| w.calls[*c].name.ends_with(e))).collect() };
        for c in cs {
            let call = &w.calls[c];
            for n in call_lens(call) {
                want_bytes(|| format!("{} of {} bytes in the other thread", call.name, LENS[*n]), &(call.f)(&w.msgs[1][..LENS[*n]]), &call.want[1][*n])?;
            }
        }
        return Ok(());
    }
    let subs: Vec<usize> = if variant == 0 { vec![si] } else { (0..w.subs.len()).collect() };
    for s in subs {
        let sub = &w.subs[s];
        let n = if variant == 0 { 2 * sub.s.model.block() + 5 } else { sub.s.model.block() - 1 };
        let mut e = (sub.s.make)();
        e.input(&w.msgs[1][..n]);
        want_bytes(|| format!("digest of {} bytes by {} in the other thread", n, sub.s.name), &e.fin(), &sub.table[1][n].0)?;
    }
    Ok(())
}

/// Called after every instruction of A.
fn each(count: u64, rip: u64) -> bool {
    let w2 = unsafe { &*W2.load(SeqCst) };
    if count % w2.job.parts != w2.job.part || !w2.text.iter().any(|(a, b)| *a <= rip && rip < *b) {
        return true;
    }
    for variant in 0..2 {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            tell("ERROR fork failed");
            unsafe { libc::_exit(3) };
        }
        if pid > 0 {
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            shared().schedules.fetch_add(1, SeqCst);
            if st != 0 {
                if shared().msg_len.load(SeqCst) == 0 {
                    tell(&format!("a schedule ended with wait status {:#x} (preempted after instruction {}, variant {})", st, count, variant));
                }
                unsafe { libc::_exit(if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 { 3 } else { 1 }) };
            }
            continue;
        }
        // The child: B runs now, then A goes on without stepping.
        unsafe { libc::alarm(60) };
        let ack = unsafe { libc::eventfd(0, 0) };
        let (w, job) = (w2.w.clone(), w2.job);
        let b = std::thread::spawn(move || {
            let r = match run::guarded(|| b_op(&w, job, variant)) {
                Ok(r) => r,
                Err(p) => Err(format!("unexpected panic in the other thread: {}", p)),
            };
            let one = 1u64;
            unsafe { libc::write(ack, &one as *const u64 as *const libc::c_void, 8) };
            r
        });
        // If B waits for something A holds, go on with A; B finishes later.
        let ms = if shared().timeouts.load(SeqCst) >= 3 { 3 } else { 2000 };
        let mut p = libc::pollfd { fd: ack, events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, ms) } == 0 {
            shared().timeouts.fetch_add(1, SeqCst);
        }
        CHILD.store(Box::into_raw(Box::new(Schedule { at: count, variant, b: Some(b) })), SeqCst);
        return false;
    }
    true
}

const OPS: [&str; 5] = ["input", "finalize", "many-blocks", "whole", "call"];
/// The operation that is a whole computation (`si` is then the number of a call).
const CALL: usize = 4;
/// Which lengths it is done with.
fn call_lens(call: &Call) -> &'static [usize] { if call.name.starts_with("siphash") { &[2, 4] } else { &[4] } }

struct AOp {
    w: Arc<World>,
    si: usize,
    e: Option<Box<dyn Eng>>,
    op: usize,
    pre: usize,
    out: Vec<(Box<dyn Eng>, usize)>,
    done: Vec<(Vec<u8>, Option<usize>)>,
    called: Vec<Vec<u8>>,
}
fn a_op(a: &mut AOp) {
    let w = &a.w;
    let m = &w.msgs[0];
    if a.op == CALL {
        for n in call_lens(&w.calls[a.si]) {
            a.called.push((w.calls[a.si].f)(&m[..LENS[*n]]));
        }
        return;
    }
    let sub = &w.subs[a.si];
    let b = sub.s.model.block();
    match a.op {
        0 => {
            let mut e = a.e.take().unwrap();
            e.input(&m[a.pre..a.pre + 8]);
            a.out.push((e, a.pre + 8));
        }
        1 => a.done.push((a.e.take().unwrap().fin(), Some(a.pre))),
        2 => {
            let mut e = a.e.take().unwrap();
            e.input(&m[a.pre..a.pre + 2 * b + 1]);
            a.out.push((e, a.pre + 2 * b + 1));
        }
        _ => {
            let mut e = (sub.s.make)();
            e.input(&m[..b]);
            let r = e.restore(e.n());
            let mut d = e.dup();
            d.input(&m[b..b + 3]);
            a.out.push((d, b + 3));
            a.out.push((r, b));
            a.done.push((e.fin(), Some(b)));
            a.done.push(((sub.s.oneshot)(&m[..9]), None));
        }
    }
}

fn prepare(w: &Arc<World>, job: Job) -> AOp {
    let sub = &w.subs[if job.op == CALL { 0 } else { job.si }];
    let b = sub.s.model.block();
    let pre = [b - 3, b + 7, b - 3, 0, 0][job.op];
    let mut a = AOp { w: w.clone(), si: job.si, e: None, op: job.op, pre, out: Vec::with_capacity(4), done: Vec::with_capacity(4), called: Vec::with_capacity(8) };
    if job.op < 3 {
        let mut e = (sub.s.make)();
        e.input(&w.msgs[0][..pre]);
        a.e = Some(e);
    }
    a
}
fn title(w: &World, job: Job) -> String { format!("{} {}", if job.op == CALL { &w.calls[job.si].name } else { &w.subs[job.si].s.name }, OPS[job.op]) }

/// Compares what A and B computed with the model; the exit status of a schedule.
fn judge(w: &World, job: Job, a: AOp, ran: Result<(), String>, verdict: Result<(), String>, what: &str) -> i32 {
    let sub = &w.subs[if job.op == CALL { 0 } else { job.si }];
    let b = sub.s.model.block();
    let check = || -> Result<(), String> {
        if let Err(p) = ran {
            return Err(format!("unexpected panic: {}", p));
        }
        verdict?;
        for (e, n) in a.out {
            want(|| "byte count".to_string(), e.n() as u128, sub.s.model.start_len + n as u128)?;
            want_bytes(|| "digest".to_string(), &e.fin(), &sub.table[0][n].0)?;
        }
        for (d, n) in a.done {
            match n {
                Some(n) => want_bytes(|| "digest".to_string(), &d, &sub.table[0][n].0)?,
                None => want_bytes(|| "one-shot digest".to_string(), &d, &sub.s.dmodel.digest(&w.msgs[0][..9]))?,
            }
        }
        if job.op == CALL {
            for (d, n) in a.called.iter().zip(call_lens(&w.calls[job.si])) {
                want_bytes(|| format!("result for {} bytes", LENS[*n]), d, &w.calls[job.si].want[0][*n])?;
            }
        }
        // Nothing is left behind: what B did and what A did again, in this thread.
        b_op(w, job, 0).map_err(|e| format!("{} (repeated afterwards)", e))?;
        if job.op == CALL {
            let call = &w.calls[job.si];
            for n in call_lens(call) {
                want_bytes(|| format!("result for {} bytes afterwards", LENS[*n]), &(call.f)(&w.msgs[0][..LENS[*n]]), &call.want[0][*n])?;
            }
        } else {
            let mut e = (sub.s.make)();
            e.input(&w.msgs[0][..b + 7]);
            want_bytes(|| "digest by another engine afterwards".to_string(), &e.fin(), &sub.table[0][b + 7].0)?;
        }
        Ok(())
    };
    match run::guarded(check).unwrap_or_else(|p| Err(format!("unexpected panic: {}", p))) {
        Ok(()) => 0,
        Err(e) => {
            tell(&format!("{}: {}", what, e));
            1
        }
    }
}

/// The process that is stepped (and, at the end of a child, one schedule's verdict).
fn step_process(w: &Arc<World>, job: Job) -> ! {
    let w2 = Box::into_raw(Box::new(World2 { w: w.clone(), job, text: text() }));
    W2.store(w2, SeqCst);
    let mut rec = Rec::new(0);
    rec.each = Some(each);
    let mut a = None;
    let r = run::guarded(|| {
        a = Some(prepare(w, job));
        stepped(&mut rec, a_op, a.as_mut().unwrap());
    });
    let ch = CHILD.load(SeqCst);
    let mut what = title(w, job);
    let mut verdict = Ok(());
    if ch.is_null() {
        what.push_str(" (no preemption)");
        shared().steps.store(rec.count, SeqCst);
    } else {
        let c = unsafe { &mut *ch };
        what.push_str(&format!(" preempted after instruction {} by another thread's whole computation ({})", c.at, if c.variant == 0 { "same algorithm" } else { "all algorithms" }));
        verdict = c.b.take().unwrap().join().unwrap_or_else(|_| Err("the other thread panicked".into()));
    }
    let code = match a {
        Some(a) => judge(w, job, a, r, verdict, &what),
        None => {
            tell(&format!("{}: {:?}", what, r));
            1
        }
    };
    unsafe { libc::_exit(code) }
}

// ---------------------------------------------------------------- switching at shared accesses

// A and B take turns; control passes before chosen accesses to statics (see mc::race). All
// choices of up to a number of switches are run, each in a process that has not called the
// crate before (or has called it once: `warm`).

/// One schedule; `shared().steps` then is the number of accesses.
fn race_process(w: &Arc<World>, job: Job, warm: bool, switches: &[u64]) -> ! {
    unsafe { libc::alarm(60) };
    let what = format!("{} beside the same in another thread{}, control passing at shared accesses {:?}", title(w, job), if warm { ", after both have run once" } else { "" }, switches);
    let code = match run::guarded(|| {
        let mut a = prepare(w, job);
        if warm {
            let mut x = prepare(w, job);
            a_op(&mut x);
            b_op(w, job, 0)?;
        }
        let (w3, p) = (w.clone(), &mut a);
        let b = move || run::guarded(|| b_op(&w3, job, 0)).unwrap_or_else(|p| Err(format!("unexpected panic in the other thread: {}", p)));
        let (ran, verdict, n, fresh) = race::run(|| run::guarded(|| a_op(p)), b, switches);
        shared().steps.store(n, SeqCst);
        shared().fresh = fresh;
        Ok::<i32, String>(judge(w, job, a, ran, verdict, &what))
    }) {
        Ok(Ok(code)) => code,
        Ok(Err(e)) | Err(e) => {
            tell(&format!("{}: {}", what, e));
            1
        }
    };
    unsafe { libc::_exit(code) }
}

/// Time spent on these so far.
static RACED_MS: AtomicU64 = AtomicU64::new(0);

/// All schedules of a job with at most `most` switches. If those were more than `cap` runs: all
/// with as many switches as the cap allows, and all with up to `most` (as the
/// cap allows) switches before accesses by another instruction than the last ones, that is
/// where loops over shared memory begin or end. Code that shares much or waits takes longer
/// for each run: the runs end when the time for the job (and for all of them) is used up.
fn races(cx: &mut Ctx, w: &Arc<World>, job: Job, warm: bool, most: usize, cap: u64, time: (f64, f64)) -> Result<(), String> {
    share();
    let s = shared();
    let begun = Instant::now();
    let used = RACED_MS.load(SeqCst) as f64 / 1000.;
    let time = if used > time.1 { time.0 / 10. } else { time.0 };
    let run = |cx: &mut Ctx, sw: &[u64]| -> Result<u64, String> {
        for x in [&s.steps, &s.msg_len] {
            x.store(0, SeqCst);
        }
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            race_process(w, job, warm, sw);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        cx.extra_traces += 1;
        cx.steps(2);
        cx.state(fnv(&[title(w, job).as_bytes(), &[9, warm as u8], format!("{:?}", sw).as_bytes()]));
        if st == 0 {
            return Ok(s.steps.load(SeqCst));
        }
        let m = String::from_utf8_lossy(&s.msg[..s.msg_len.load(SeqCst) as usize]).to_string();
        Err(if m.is_empty() { format!("{}: control passing at shared accesses {:?}: wait status {:#x}", title(w, job), sw, st) } else { m })
    };
    let points = |n: u64, fresh_only: bool| -> Vec<u64> {
        let f = s.fresh;
        (0..n.min(cap)).filter(|k| !fresh_only || f.get((k / 64) as usize).is_some_and(|x| x >> (k % 64) & 1 != 0)).collect()
    };
    let affordable = |n: usize| {
        let (mut depth, mut runs, mut level) = (0, 0u64, 1u64);
        while depth < most {
            level = level.saturating_mul(n as u64) / (depth as u64 + 1);
            runs = runs.saturating_add(level);
            if depth > 0 && runs > cap {
                break;
            }
            depth += 1;
        }
        depth
    };
    let n = run(cx, &[])?;
    let (all, some) = (points(n, false), points(n, true));
    let (d1, d2) = (affordable(all.len()), affordable(some.len()));
    cx.desc(|| format!("{}{}: {} shared accesses, {} by another instruction; up to {} switches, {} at the latter", title(w, job), if warm { " (warm)" } else { "" }, n, some.len(), d1, d2));
    struct Deeper<'a> {
        run: &'a dyn Fn(&mut Ctx, &[u64]) -> Result<u64, String>,
        points: &'a dyn Fn(u64, bool) -> Vec<u64>,
        job: Job,
        begun: Instant,
        time: f64,
    }
    impl Deeper<'_> {
        fn go(&self, cx: &mut Ctx, sw: &mut Vec<u64>, pts: Vec<u64>, left: usize, fresh_only: bool) -> Result<(), String> {
            for k in pts {
                if self.begun.elapsed().as_secs_f64() > self.time {
                    return Ok(());
                }
                if sw.last().is_some_and(|l| k <= *l) || sw.is_empty() && k % self.job.parts != self.job.part {
                    continue;
                }
                sw.push(k);
                let n = (self.run)(cx, sw)?;
                if left > 1 {
                    let p = (self.points)(n, fresh_only);
                    self.go(cx, sw, p, left - 1, fresh_only)?;
                }
                sw.pop();
            }
            Ok(())
        }
    }
    let d = Deeper { run: &run, points: &points, job, begun, time };
    // (One switch anywhere is explored instruction by instruction.) First the schedules with
    // few switches at the likeliest places.
    let r = (|| {
        if d2 > 2 || d1 > 1 {
            d.go(cx, &mut Vec::new(), some.clone(), 2, true)?;
        }
        if d1 > 1 {
            d.go(cx, &mut Vec::new(), all, d1, false)?;
        }
        if d2 > d1 || d1 == 1 {
            d.go(cx, &mut Vec::new(), some, d2, true)?;
        }
        Ok(())
    })();
    RACED_MS.fetch_add(begun.elapsed().as_millis() as u64, SeqCst);
    r
}

fn share() {
    if SH.load(SeqCst).is_null() {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        };
        assert!(p != libc::MAP_FAILED);
        SH.store(p as *mut Shared, SeqCst);
    }
}

fn concurrent(cx: &mut Ctx, w: &Arc<World>, job: Job) -> Result<(), String> {
    share();
    let s = shared();
    // (`timeouts` is kept: code that locks is waited for at length only a few times.)
    for x in [&s.schedules, &s.steps, &s.msg_len] {
        x.store(0, SeqCst);
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        step_process(w, job);
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let n = s.schedules.load(SeqCst);
    let name = if job.op == CALL { &w.calls[job.si].name } else { &w.subs[job.si].s.name };
    cx.extra_traces += n;
    cx.steps(n * 2 + 1);
    for k in 0..n {
        cx.state(fnv(&[name.as_bytes(), &[job.op as u8], &(k * job.parts + job.part).to_le_bytes()]));
    }
    cx.desc(|| format!("{} {}: {} instructions, {} schedules here", name, OPS[job.op], s.steps.load(SeqCst), n));
    if st == 0 {
        if n == 0 {
            return Err("the exploration found no preemption point".into());
        }
        return Ok(());
    }
    let m = String::from_utf8_lossy(&s.msg[..s.msg_len.load(SeqCst) as usize]).to_string();
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 3 {
        println!("ERROR {}", m);
        unsafe { libc::_exit(3) };
    }
    Err(if m.is_empty() { format!("{} {}: wait status {:#x}", name, OPS[job.op], st) } else { m })
}

fn main() {
    install();
    run::main("C18", |a| {
        let t = a.tier;
        let m = msgs();
        let mut subs = subjects::all();
        // The same algorithm under another key.
        let mut more = subjects::hmacs(&stream(200)[..150]);
        more.truncate(2);
        for s in &mut more {
            s.name.push_str("-longkey");
        }
        subs.extend(more);
        let w = Arc::new(World {
            subs: subs.into_iter().map(|s| S { table: [s.model.table(&m[0]), s.model.table(&m[1])], s }).collect(),
            calls: calls(&m),
            msgs: m,
        });
        let ns = w.subs.len();
        let mut fams = Vec::new();
        // In a sharded run (one process per shard) only the preemption families are explored,
        // because other engines of the same process must be quiet there.
        let al = Arc::new(alphabet());
        let n = al.len();
        for x in 0..ns {
            let depth = t.pick(2, 4, 5);
            let (w2, al2) = (w.clone(), al.clone());
            fams.push(Family::new(format!("same-{}", w.subs[x].s.name), product(&vec![n; depth]), move |mut i, cx| {
                let mut ops = Vec::with_capacity(depth);
                for _ in 0..depth {
                    ops.push(al2[(i % n as u64) as usize]);
                    i /= n as u64;
                }
                history(cx, &w2, x, x, &ops, 0)
            }));
            // The same with the steps divided between two threads in every way.
            let depth = t.pick(1, 3, 4);
            let (w2, al2) = (w.clone(), al.clone());
            fams.push(Family::new(format!("threads-{}", w.subs[x].s.name), product(&vec![n; depth]) << (depth + 1), move |mut i, cx| {
                let threads = (i & ((2 << depth) - 1)) as u32;
                i >>= depth + 1;
                let mut ops = Vec::with_capacity(depth);
                for _ in 0..depth {
                    ops.push(al2[(i % n as u64) as usize]);
                    i /= n as u64;
                }
                history(cx, &w2, x, x, &ops, threads)
            }));
        }
        let depth = t.pick(1, 3, 4);
        let (w2, al2) = (w.clone(), al.clone());
        let nn = product(&vec![n; depth]);
        fams.push(Family::new("mixed", (ns * ns) as u64 * nn, move |mut i, cx| {
            let pair = (i / nn) as usize;
            i %= nn;
            let mut ops = Vec::with_capacity(depth);
            for _ in 0..depth {
                ops.push(al2[(i % n as u64) as usize]);
                i /= n as u64;
            }
            history(cx, &w2, pair / ns, pair % ns, &ops, 0)
        }));
        // Sequences of whole computations reading different data from the same address.
        let one = Arc::new(oneshots(&w));
        let k = one.len();
        let kk = t.pick(1, 3, 40);
        let w2 = w.clone();
        thread_local! { static BUF: RefCell<Vec<u8>> = RefCell::new(vec![0; 256]); }
        fams.push(Family::new("calls", product(&[k, k, kk]), move |i, cx| {
            let [x, y, z] = digits(i, [k, k, kk]);
            // The third computation comes from a spread over the pool, then the first again.
            let seq = [x, y, (x + 1 + z * 7) % k, x];
            cx.desc(|| format!("computations {:?}", seq.map(|c| (&w2.calls[one[c].0].name, one[c].1, LENS[one[c].2]))));
            BUF.with(|buf| {
                let mut buf = buf.borrow_mut();
                for (step, c) in seq.into_iter().enumerate() {
                    let (s, m, n) = one[c];
                    buf[..LENS[n]].copy_from_slice(&w2.msgs[m][..LENS[n]]);
                    cx.steps(1);
                    let call = &w2.calls[s];
                    let d = (call.f)(&buf[..LENS[n]]);
                    want_bytes(|| format!("step {} of computations {:?}", step, seq.map(|c| (&w2.calls[one[c].0].name, one[c].1, LENS[one[c].2]))), &d, &call.want[m][n])?;
                }
                cx.state(fnv(&[b"one", &i.to_le_bytes()]));
                Ok(())
            })
        }));
        // Computations inside the iterator that feeds another one, which may end in a panic, and
        // after the panics that are documented.
        let nc = w.calls.len();
        let w2 = w.clone();
        fams.push(Family::new("nested", product(&[ns, nc, LENS.len(), 4, 2]), move |i, cx| {
            let [si, ci, n, at, abort] = digits(i, [ns, nc, LENS.len(), 4, 2]);
            let (s, c) = (&w2.subs[si].s, &w2.calls[ci]);
            let what = || format!("{} (of {} bytes) inside the chunk iterator of {} before chunk {}{}", c.name, LENS[n], s.name, at, if abort == 1 { ", which then panics" } else { "" });
            cx.desc(what);
            let cuts = [0, 5, 70, 200];
            let (mut k, mut inner) = (0, Vec::new());
            let mut next = || {
                if k == at {
                    inner = (c.f)(&w2.msgs[1][..LENS[n]]);
                    if abort == 1 {
                        panic!("asked for");
                    }
                }
                k += 1;
                (k < cuts.len()).then(|| w2.msgs[0][cuts[k - 1]..cuts[k]].to_vec())
            };
            let d = run::guarded(|| (s.chunks_from)(&mut next));
            cx.steps(2);
            want_bytes(|| format!("inner result of {}", what()), &inner, &c.want[1][n])?;
            match d {
                Ok(d) if abort == 0 => want_bytes(what, &d, &s.dmodel.digest(&w2.msgs[0][..200]))?,
                Err(_) if abort == 1 => {}
                Ok(_) => return Err(format!("{}: no panic", what())),
                Err(e) => return Err(format!("{}: {}", what(), e)),
            }
            for (m, what2) in [(0, "the inner one again"), (1, "the inner one once more")] {
                want_bytes(|| format!("{}, then {}", what(), what2), &(c.f)(&w2.msgs[m][..LENS[n]]), &c.want[m][n])?;
            }
            let mut e = (s.make)();
            e.input(&w2.msgs[0][..200]);
            want_bytes(|| format!("{}, then the outer one again", what()), &e.fin(), &w2.subs[si].table[0][200].0)?;
            cx.steps(3);
            cx.state(fnv(&[b"nested", &i.to_le_bytes()]));
            Ok(())
        }));
        // Many computations, alike but for two bytes, then the same again forwards and
        // backwards: all different, and each as before.
        let w2 = w.clone();
        let many = t.pick(300, 1500, 65536);
        fams.push(Family::new("many", product(&[nc, 4, 3]), move |i, cx| {
            let [ci, l, p] = digits(i, [nc, 4, 3]);
            let c = &w2.calls[ci];
            let len = if c.name == "siphash24-keyed-by" { 16 } else { [16, 64, 128, 200][l] };
            let at = [0, len / 2, len - 2][p];
            let what = |k: usize| format!("{} of {} bytes: number {} of {} alike but for the bytes at {}", c.name, len, k, many, at);
            cx.desc(|| what(0));
            let mut d = w2.msgs[0][..len].to_vec();
            let mut f = |k: usize| {
                d[at] = k as u8;
                d[at + 1] = (k >> 8) as u8;
                (c.f)(&d)
            };
            let mut seen = std::collections::HashMap::new();
            let first: Vec<Vec<u8>> = (0..many).map(&mut f).collect();
            for (k, r) in first.iter().enumerate() {
                if let Some(j) = seen.insert(&r[..], k) {
                    return Err(format!("{}: the result of number {}", what(k), j));
                }
            }
            for k in (0..many).chain((0..many).rev()) {
                want_bytes(|| format!("{}, again", what(k)), &f(k), &first[k])?;
            }
            cx.steps(3 * many as u64);
            cx.state(fnv(&[b"many", &i.to_le_bytes()]));
            Ok(())
        }));
        let w2 = w.clone();
        let np = ns + 2;
        fams.push(Family::new("after-panic", product(&[np, nc, LENS.len(), ns]), move |i, cx| {
            let [pi, ci, n, si] = digits(i, [np, nc, LENS.len(), ns]);
            let c = &w2.calls[ci];
            let what = || format!("a documented panic ({}), then {} of {} bytes", if pi < ns { format!("restore of {}", w2.subs[pi].s.name) } else { "comparison or index".into() }, c.name, LENS[n]);
            cx.desc(what);
            let s = &w2.subs[si];
            let mut e = (s.s.make)();
            e.input(&w2.msgs[0][..100]);
            // (Whether it panics is decided elsewhere.)
            let _ = run::guarded(|| match pi {
                p if p < ns => drop((w2.subs[p].s.make)().restore(3)),
                p if p == ns => drop(std::hint::black_box(chf::cmp::fixed_time_eq(&[0; 3], &w2.msgs[0][..LENS[n] + 4]))),
                _ => drop(std::hint::black_box(chf::sha256::Hash::all_zeros()[32 + LENS[n]])),
            });
            cx.steps(3);
            want_bytes(what, &(c.f)(&w2.msgs[0][..LENS[n]]), &c.want[0][n])?;
            e.input(&w2.msgs[0][100..150]);
            want_bytes(|| format!("{}: an engine of {} begun before", what(), s.s.name), &e.fin(), &s.table[0][150].0)?;
            cx.state(fnv(&[b"panic", &i.to_le_bytes()]));
            Ok(())
        }));
        if !run_preempt() {
            return fams;
        }
        fams.clear();
        // Several switches, at accesses to statics.
        // Seconds for one job, and for all of this process before that is cut to a tenth.
        let time = if a.only.is_some() { (600., 600.) } else { t.pick((2., 40.), (2., 40.), (120., 2400.)) };
        let (most, cap, rparts) = (t.pick(1, 3, 5), t.pick(50, 2_000, 100_000), 4u64);
        let mut jobs: Vec<(usize, usize)> = (0..w.calls.len()).map(|c| (c, CALL)).collect();
        for op in 0..CALL {
            jobs.extend((0..ns).map(|s| (s, op)));
        }
        for (si, op) in jobs {
            let name = title(&w, Job { si, op, part: 0, parts: 1 }).replace(' ', "-");
            if t == Tier::Tiny && !name.starts_with("sha256") {
                continue;
            }
            let w2 = w.clone();
            fams.push(
                Family::new(format!("race-{}", name), 2 * rparts, move |i, cx| races(cx, &w2, Job { si, op, part: i / 2, parts: rparts }, i % 2 == 1, most as usize, cap as u64, time))
                    .serial()
                    .slow(1200),
            );
        }
        // In a quick run the HMACs over engines explored on their own are left out.
        let parts = 16u64;
        for si in 0..ns {
            let name = &w.subs[si].s.name;
            if t == Tier::Tiny && name != "siphash24-keyed" {
                continue;
            }
            if t == Tier::Quick && name.starts_with("hmac") && !["hmac-sha256", "hmac-siphash24", "hmac-sha1-longkey"].contains(&name.as_str()) {
                continue;
            }
            for op in 0..CALL {
                let w2 = w.clone();
                fams.push(
                    Family::new(format!("preempt-{}-{}", name, OPS[op]), parts, move |part, cx| {
                        concurrent(cx, &w2, Job { si, op, part, parts })
                    })
                    .serial()
                    .slow(1200),
                );
            }
        }
        for si in 0..w.calls.len() {
            let name = &w.calls[si].name;
            if t == Tier::Tiny && name != "siphash24-keys" {
                continue;
            }
            // What the engines' own operations cover is left out of a quick run.
            if t == Tier::Quick && (name.ends_with("-engine") || name.ends_with("-chunks") || name.starts_with("hmac") && !name.starts_with("hmac-sha256")) {
                continue;
            }
            let w2 = w.clone();
            fams.push(
                Family::new(format!("preempt-{}-call", name), parts, move |part, cx| concurrent(cx, &w2, Job { si, op: CALL, part, parts }))
                    .serial()
                    .slow(1200),
            );
        }
        fams
    });
}

/// The preemption families run when asked for (each worker process is otherwise quiet).
fn run_preempt() -> bool { std::env::var("C18_PREEMPT").is_ok() }
