//! C17: writing into an engine is the same as inputting, with nothing lost.
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::{hex, stream, Alg, Base, Model};
use mc::subjects::{MidBytes, Tg, K0, K1, TAG};
use mc::{want, want_bytes};
use std::sync::Arc;

/// An engine that can be written to.
trait WEng {
    fn input(&mut self, d: &[u8]);
    fn n(&self) -> usize;
    fn mid(&self) -> Vec<u8>;
    fn fin(self: Box<Self>) -> Vec<u8>;
    fn bw(&mut self, d: &[u8]) -> Result<usize, String>;
    fn bwa(&mut self, d: &[u8]) -> Result<(), String>;
    fn bflush(&mut self) -> Result<(), String>;
    /// Through `dyn bitcoin_io::Write`.
    fn bdyn(&mut self, d: &[u8]) -> Result<usize, String>;
    #[cfg(feature = "std")]
    fn sdyn(&mut self) -> &mut dyn std::io::Write;
    #[cfg(feature = "std")]
    fn sw(&mut self, d: &[u8]) -> Result<usize, String>;
    #[cfg(feature = "std")]
    fn swa(&mut self, d: &[u8]) -> Result<(), String>;
    #[cfg(feature = "std")]
    fn sflush(&mut self) -> Result<(), String>;
}
struct W<E>(E);

#[cfg(feature = "std")]
trait Writes: bitcoin_io::Write + std::io::Write {}
#[cfg(feature = "std")]
impl<T: bitcoin_io::Write + std::io::Write> Writes for T {}
#[cfg(not(feature = "std"))]
trait Writes: bitcoin_io::Write {}
#[cfg(not(feature = "std"))]
impl<T: bitcoin_io::Write> Writes for T {}

fn es<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{:?}", e)) }

impl<E: HashEngine + Writes + 'static> WEng for W<E>
where
    E::Midstate: MidBytes,
{
    fn input(&mut self, d: &[u8]) { self.0.input(d) }
    fn n(&self) -> usize { self.0.n_bytes_hashed() }
    fn mid(&self) -> Vec<u8> { self.0.midstate().bytes() }
    fn fin(self: Box<Self>) -> Vec<u8> { self.0.finalize().as_ref().to_vec() }
    fn bw(&mut self, d: &[u8]) -> Result<usize, String> { es(bitcoin_io::Write::write(&mut self.0, d)) }
    fn bwa(&mut self, d: &[u8]) -> Result<(), String> { es(bitcoin_io::Write::write_all(&mut self.0, d)) }
    fn bflush(&mut self) -> Result<(), String> { es(bitcoin_io::Write::flush(&mut self.0)) }
    fn bdyn(&mut self, d: &[u8]) -> Result<usize, String> {
        let w: &mut dyn bitcoin_io::Write = &mut self.0;
        es(w.write(d))
    }
    #[cfg(feature = "std")]
    fn sdyn(&mut self) -> &mut dyn std::io::Write { &mut self.0 }
    #[cfg(feature = "std")]
    fn sw(&mut self, d: &[u8]) -> Result<usize, String> { es(std::io::Write::write(&mut self.0, d)) }
    #[cfg(feature = "std")]
    fn swa(&mut self, d: &[u8]) -> Result<(), String> { es(std::io::Write::write_all(&mut self.0, d)) }
    #[cfg(feature = "std")]
    fn sflush(&mut self) -> Result<(), String> { es(std::io::Write::flush(&mut self.0)) }
}

struct Sub {
    name: &'static str,
    model: Model,
    make: fn() -> Box<dyn WEng>,
    msg: Vec<u8>,
    table: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

fn subs(n: usize) -> Vec<Arc<Sub>> {
    let msg = stream(n);
    let mut v = Vec::new();
    macro_rules! s {
        ($name:expr, $model:expr, $make:expr) => {{
            let model: Model = $model;
            let table = model.table(&msg);
            v.push(Arc::new(Sub { name: $name, model, make: || Box::new(W($make)), msg: msg.clone(), table }));
        }};
    }
    let p = |a| Model::plain(Base::plain(a));
    const KEY: &[u8] = b"a key for writing";
    s!("sha1", p(Alg::Sha1), sha1::Engine::new());
    s!("sha256", p(Alg::Sha256), sha256::Engine::new());
    s!("sha512", p(Alg::Sha512), sha512::Engine::new());
    s!("ripemd160", p(Alg::Ripemd160), ripemd160::Engine::new());
    s!("siphash24", Model::plain(Base::sip(K0, K1)), siphash24::Engine::with_keys(K0, K1));
    s!("sha256t", Model::plain(Base::tagged(TAG)), sha256t::Engine::<Tg>::new());
    s!("hmac-sha1", Model::hmac(Base::plain(Alg::Sha1), KEY), hmac::Engine::<sha1::Engine>::new(KEY));
    s!("hmac-sha256", Model::hmac(Base::plain(Alg::Sha256), KEY), hmac::Engine::<sha256::Engine>::new(KEY));
    s!("hmac-sha384", Model::hmac(Base::plain(Alg::Sha384), KEY), hmac::Engine::<sha384::Engine>::new(KEY));
    s!("hmac-sha512", Model::hmac(Base::plain(Alg::Sha512), KEY), hmac::Engine::<sha512::Engine>::new(KEY));
    s!("hmac-sha512_256", Model::hmac(Base::plain(Alg::Sha512_256), KEY), hmac::Engine::<sha512_256::Engine>::new(KEY));
    s!("hmac-ripemd160", Model::hmac(Base::plain(Alg::Ripemd160), KEY), hmac::Engine::<ripemd160::Engine>::new(KEY));
    s!("hmac-siphash24", Model::hmac(Base::sip(0, 0), KEY), hmac::Engine::<siphash24::Engine>::new(KEY));
    s!("hmac-sha256t", Model::hmac(Base::tagged(TAG), KEY), hmac::Engine::<sha256t::Engine<Tg>>::new(KEY));
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Input,
    BWrite,
    BAll,
    BDyn,
    BFlush,
    #[cfg(feature = "std")]
    SWrite,
    #[cfg(feature = "std")]
    SAll,
    #[cfg(feature = "std")]
    SFlush,
    #[cfg(feature = "std")]
    Vectored,
    #[cfg(feature = "std")]
    Fmt,
    #[cfg(feature = "std")]
    Copy,
    #[cfg(feature = "std")]
    Buffered,
    #[cfg(feature = "std")]
    ByRef,
}
use Op::*;

#[cfg(not(feature = "std"))]
const DATA_OPS: &[Op] = &[Input, BWrite, BAll, BDyn];
#[cfg(feature = "std")]
const DATA_OPS: &[Op] = &[Input, BWrite, BAll, BDyn, SWrite, SAll, Vectored, Fmt, Copy, Buffered, ByRef];
#[cfg(not(feature = "std"))]
const FLUSHES: &[Op] = &[BFlush];
#[cfg(feature = "std")]
const FLUSHES: &[Op] = &[BFlush, SFlush];

/// A reader that hands out odd-sized pieces.
#[cfg(feature = "std")]
struct Bits<'a>(&'a [u8], usize);
#[cfg(feature = "std")]
impl std::io::Read for Bits<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 = self.1 % 61 + 3;
        Ok(n)
    }
}

/// Performs one operation with `d`; returns how many bytes of `d` were taken.
fn step(e: &mut dyn WEng, op: Op, d: &[u8]) -> Result<usize, String> {
    let whole = |k: usize| if k == d.len() { Ok(k) } else { Err(format!("reported {} of {} bytes written", k, d.len())) };
    match op {
        Input => {
            e.input(d);
            Ok(d.len())
        }
        BWrite => whole(e.bw(d)?),
        BDyn => whole(e.bdyn(d)?),
        BAll => e.bwa(d).map(|_| d.len()),
        BFlush => e.bflush().map(|_| 0),
        #[cfg(feature = "std")]
        SWrite => whole(e.sw(d)?),
        #[cfg(feature = "std")]
        SAll => e.swa(d).map(|_| d.len()),
        #[cfg(feature = "std")]
        SFlush => e.sflush().map(|_| 0),
        #[cfg(feature = "std")]
        Vectored => {
            // May take any prefix of the concatenation, but not nothing.
            let (a, r) = d.split_at(d.len() / 3);
            let (b, c) = r.split_at(r.len() / 2);
            let bufs = [std::io::IoSlice::new(a), std::io::IoSlice::new(b), std::io::IoSlice::new(c)];
            let k = es(e.sdyn().write_vectored(&bufs))?;
            if k > d.len() || (k == 0 && !d.is_empty()) {
                return Err(format!("write_vectored reported {} of {} bytes", k, d.len()));
            }
            Ok(k)
        }
        #[cfg(feature = "std")]
        Fmt => {
            // Text needs valid UTF-8: write the bytes through a Display that is ASCII.
            let s: String = d.iter().map(|b| (b & 0x7f) as char).collect();
            let k = d.len() / 2;
            es(write!(e.sdyn(), "{}{}", &s[..k], &s[k..]))?;
            Ok(d.len())
        }
        #[cfg(feature = "std")]
        Copy => {
            let k = es(std::io::copy(&mut Bits(d, 5), e.sdyn()))?;
            whole(k as usize)
        }
        #[cfg(feature = "std")]
        Buffered => {
            use std::io::Write;
            let mut b = std::io::BufWriter::with_capacity(13, e.sdyn());
            for c in d.chunks(6) {
                es(b.write_all(c))?;
            }
            es(b.flush())?;
            drop(b);
            Ok(d.len())
        }
        #[cfg(feature = "std")]
        ByRef => {
            use std::io::Write;
            let mut w = e.sdyn();
            let k = es(Write::by_ref(&mut w).write(d))?;
            whole(k)
        }
    }
}

impl Sub {
    fn seq(&self, cx: &mut Ctx, ops: &[(Op, usize)]) -> Result<(), String> {
        let h = || format!("{} {:?}", self.name, ops);
        cx.desc(h);
        let mut e = (self.make)();
        let mut fed: Vec<u8> = Vec::with_capacity(self.msg.len());
        // While no text op ran, the bytes fed are a prefix of the message and the table applies.
        let mut plain = true;
        for (i, (op, k)) in ops.iter().enumerate() {
            let at = fed.len();
            let d = &self.msg[at..at + k];
            cx.steps(3);
            let took = step(&mut *e, *op, d).map_err(|x| format!("{} step {}: {}", h(), i, x))?;
            #[cfg(feature = "std")]
            if *op == Fmt {
                plain &= *k == 0;
                fed.extend(d.iter().map(|b| b & 0x7f));
            } else {
                fed.extend_from_slice(&d[..took]);
            }
            #[cfg(not(feature = "std"))]
            fed.extend_from_slice(&d[..took]);
            want(|| format!("{} byte count after step {}", h(), i), e.n() as u128, self.model.start_len + fed.len() as u128)?;
            if plain {
                if let Some(m) = &self.table[fed.len()].1 {
                    want_bytes(|| format!("{} midstate after step {}", h(), i), &e.mid(), m)?;
                }
            }
        }
        cx.state(fnv(&[self.name.as_bytes(), format!("{:?}", ops).as_bytes()]));
        let d = e.fin();
        cx.outcome(fnv(&[&d]));
        if plain {
            want_bytes(|| format!("{} digest", h()), &d, &self.table[fed.len()].0)
        } else {
            want_bytes(|| format!("{} digest", h()), &d, &self.model.digest(&fed))
        }
    }
}

fn main() {
    run::main("C17", |a| {
        let t = a.tier;
        let ss = subs(t.pick(700, 1400, 4000));
        let mut fams = Vec::new();
        for s in &ss {
            // Every buffered amount before, every write size, every operation, a flush after.
            let b = s.model.block();
            let (np, nk) = (t.pick(3, b + 1, 2 * b + 1), t.pick(3, 2 * b + 3, 3 * b + 3));
            let no = DATA_OPS.len();
            let c = s.clone();
            fams.push(Family::new(format!("one-{}", s.name), product(&[np, nk, no]), move |i, cx| {
                let [p, k, o] = digits(i, [np, nk, no]);
                c.seq(cx, &[(Input, p), (DATA_OPS[o], k), (FLUSHES[k % FLUSHES.len()], 0)])
            }));
        }
        for s in &ss {
            // Every sequence of operations over boundary sizes.
            let b = s.model.block();
            let mut al: Vec<(Op, usize)> = FLUSHES.iter().map(|f| (*f, 0)).collect();
            let sizes: Vec<usize> = t.pick(vec![1], vec![0, 1, b - 1, b, b + 3], vec![0, 1, 7, b - 1, b, b + 3, 2 * b]);
            for o in DATA_OPS {
                for k in &sizes {
                    // Formatted and buffered data at two sizes is enough for the deep sequences.
                    let rare = !matches!(o, Input | BWrite | BAll) && ![1, b - 1].contains(k);
                    if !rare {
                        al.push((*o, *k));
                    }
                }
            }
            let n = al.len();
            let c = s.clone();
            let a2 = al.clone();
            fams.push(Family::new(format!("seq3-{}", s.name), product(&[n, n, n]), move |i, cx| {
                let d = digits(i, [n, n, n]);
                c.seq(cx, &d.map(|x| a2[x]))
            }));
            if t == Tier::Tiny {
                continue;
            }
            // Deeper, over a smaller alphabet.
            let mut al: Vec<(Op, usize)> = FLUSHES.iter().map(|f| (*f, 0)).collect();
            for o in DATA_OPS.iter().filter(|o| !matches!(o, BDyn)) {
                al.push((*o, if matches!(o, Input | BAll) { 1 } else { b / 2 + 3 }));
            }
            al.push((BWrite, 0));
            let n = al.len();
            let c = s.clone();
            let dn = if t == Tier::Thorough { product(&[n; 5]) } else { product(&[n; 4]) };
            fams.push(Family::new(format!("seq-deep-{}", s.name), dn, move |mut i, cx| {
                let mut ops = Vec::with_capacity(5);
                for _ in 0..if t == Tier::Thorough { 5 } else { 4 } {
                    ops.push(al[(i % n as u64) as usize]);
                    i /= n as u64;
                }
                c.seq(cx, &ops)
            }));
        }
        if t == Tier::Tiny {
            return fams;
        }
        // Scattered writes: many buffers, empty ones among them.
        #[cfg(feature = "std")]
        {
            let mut counts: Vec<usize> = (0..=40).collect();
            counts.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 1030]);
            let (s2, ns, nc) = (ss.clone(), ss.len(), counts.len());
            fams.push(Family::new("scattered", product(&[nc, 6, ns, 3]), move |i, cx| {
                let [k, how, s, pre] = digits(i, [nc, 6, ns, 3]);
                let s = &s2[s];
                let b = s.model.block();
                let pre = [0, 1, b - 1][pre];
                let size = |j: usize| match how {
                    0 => 1,
                    1 => (j % 2) * 3,
                    2 => (j > 0) as usize * 2,
                    3 => (j + 1 == counts[k]) as usize * (b + 1),
                    4 => j % 5,
                    _ => if j < 8 { b + j } else { 0 },
                };
                let total: usize = (0..counts[k]).map(size).sum();
                if pre + total > s.msg.len() {
                    return Ok(());
                }
                let mut at = pre;
                let bufs: Vec<std::io::IoSlice> = (0..counts[k])
                    .map(|j| {
                        at += size(j);
                        std::io::IoSlice::new(&s.msg[at - size(j)..at])
                    })
                    .collect();
                let mut e = (s.make)();
                e.input(&s.msg[..pre]);
                let h = || format!("{} after {} bytes: write_vectored of {} buffers ({} bytes, pattern {})", s.name, pre, counts[k], total, how);
                cx.desc(h);
                cx.steps(2);
                cx.state(fnv(&[s.name.as_bytes(), &i.to_le_bytes()]));
                let took = es(e.sdyn().write_vectored(&bufs)).map_err(|x| format!("{}: {}", h(), x))?;
                if took > total || (took == 0 && total > 0 && !bufs.is_empty()) {
                    return Err(format!("{}: reported {}", h(), took));
                }
                want(|| format!("{} byte count", h()), e.n() as u128, s.model.start_len + (pre + took) as u128)?;
                want_bytes(|| format!("{} digest", h()), &e.fin(), &s.table[pre + took].0)
            }));
        }
        // Large single writes.
        let big = Arc::new(stream((1 << 22) + 2));
        let nk = t.pick(0, 7, 11);
        let no = DATA_OPS.len();
        let s2 = ss.clone();
        let ns = ss.len();
        fams.push(Family::new("large", product(&[nk, 3, ns, no]), move |i, cx| {
            let [k, d, s, o] = digits(i, [nk, 3, ns, no]);
            let len = (1usize << (12 + k)) + d - 1;
            let s = &s2[s];
            let op = DATA_OPS[o];
            let mut e = (s.make)();
            let took = step(&mut *e, op, &big[..len]).map_err(|x| format!("{} {:?} of {} bytes: {}", s.name, op, len, x))?;
            cx.steps(2);
            cx.state(fnv(&[s.name.as_bytes(), &[o as u8, 9], &(len as u64).to_le_bytes()]));
            want(|| format!("{} byte count after {:?} of {} bytes", s.name, op, len), e.n() as u128, s.model.start_len + took as u128)?;
            #[cfg(feature = "std")]
            if op == Fmt {
                let v: Vec<u8> = big[..len].iter().map(|b| b & 0x7f).collect();
                return want_bytes(|| format!("{} digest after {:?} of {} bytes", s.name, op, len), &e.fin(), &s.model.digest(&v));
            }
            want_bytes(|| format!("{} digest after {:?} of {} bytes", s.name, op, len), &e.fin(), &s.model.digest(&big[..took]))
        }).slow(300));
        // One write longer than 4 GiB (zeros), plain engines.
        #[cfg(not(miri))]
        if t == Tier::Thorough || (!cfg!(debug_assertions) && cfg!(feature = "std")) {
            let len = (1usize << 32) + 100;
            let z = unsafe {
                let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                assert!(p != libc::MAP_FAILED);
                std::slice::from_raw_parts(p as *const u8, len)
            };
            let mut known = std::collections::HashMap::new();
            for l in include_str!("../kat_long.txt").lines() {
                let f: Vec<&str> = l.split_whitespace().collect();
                if f.first() == Some(&"H") && f[2] == len.to_string() {
                    known.insert(f[1].to_string(), f[3].to_string());
                }
            }
            let ops: Vec<Op> = if cfg!(feature = "std") { DATA_OPS.iter().copied().filter(|o| matches!(format!("{:?}", o).as_str(), "BWrite" | "SWrite" | "SAll")).collect() } else { vec![BWrite, BAll] };
            let s2 = ss.clone();
            let no = ops.len();
            fams.push(Family::new("huge", product(&[no, 5]), move |i, cx| {
                let [o, k] = digits(i, [no, 5]);
                let s = &s2[k];
                let mut e = (s.make)();
                let took = step(&mut *e, ops[o], z).map_err(|x| format!("{} {:?} of {} bytes: {}", s.name, ops[o], len, x))?;
                cx.steps(2);
                cx.state(fnv(&[s.name.as_bytes(), &[o as u8, 11]]));
                want(|| format!("{} byte count after {:?} of {} bytes", s.name, ops[o], len), (took, e.n()), (len, len))?;
                if let Some(d) = known.get(s.name) {
                    want(|| format!("{} digest after {:?} of {} zero bytes", s.name, ops[o], len), hex(&e.fin()), d.clone())?;
                }
                Ok(())
            }).slow(900));
        }
        fams
    });
}
