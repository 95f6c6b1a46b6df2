//! C05: HMAC is RFC 2104 HMAC for every key, message and underlying engine.
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use mc::run::{self, digits, fnv, panics, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, Base, Model};
use mc::subjects::{Tg, TAG};
use mc::{show, want, want_bytes};
use std::sync::Arc;

type Run = fn(&[u8], &[&[u8]]) -> Vec<(&'static str, Vec<u8>, usize)>;

/// Every way to get an HMAC of the pieces: (entry point, digest, byte count before finalizing).
fn run_hmac<E: HashEngine<Digest = [u8; N]>, const N: usize>(key: &[u8], pieces: &[&[u8]]) -> Vec<(&'static str, Vec<u8>, usize)> {
    let mut out = Vec::with_capacity(4);
    let mut e = hmac::Engine::<E>::new(key);
    for p in pieces {
        e.input(p);
    }
    let n = e.n_bytes_hashed();
    out.push(("Engine::new", e.clone().finalize().as_ref().to_vec(), n));
    let n = e.n_bytes_hashed();
    out.push(("Hash::from_engine", hmac::Hash::<N>::from_engine(e).to_byte_array().to_vec(), n));
    if key.is_empty() {
        let mut e = hmac::Engine::<E>::default();
        for p in pieces {
            e.input(p);
        }
        out.push(("Engine::default", e.clone().finalize().as_ref().to_vec(), e.n_bytes_hashed()));
        let mut e = <hmac::Engine<E> as HashEngine>::new();
        for p in pieces {
            e.input(p);
        }
        out.push(("HashEngine::new", e.clone().finalize().as_ref().to_vec(), e.n_bytes_hashed()));
        let mut e = hmac::Hash::<N>::engine::<hmac::Engine<E>>();
        for p in pieces {
            e.input(p);
        }
        out.push(("Hash::engine", e.clone().finalize().as_ref().to_vec(), e.n_bytes_hashed()));
        let d = <hmac::Engine<E> as HashEngine>::hash_byte_chunks(pieces.iter());
        out.push(("hash_byte_chunks", d.as_ref().to_vec(), n));
        let all: Vec<u8> = pieces.concat();
        let d = <hmac::Engine<E> as HashEngine>::hash(&all);
        out.push(("HashEngine::hash", d.as_ref().to_vec(), n));
    }
    out
}

fn nested<E: HashEngine>(key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut e = hmac::Engine::<hmac::Engine<E>>::new(key);
    e.input(msg);
    e.finalize().as_ref().to_vec()
}

struct U {
    name: &'static str,
    base: Base,
    run: Run,
    nested: fn(&[u8], &[u8]) -> Vec<u8>,
    bs: usize,
}

fn underlying() -> Vec<Arc<U>> {
    let mut v = Vec::new();
    macro_rules! u {
        ($name:expr, $ty:ty, $n:expr, $base:expr) => {
            v.push(Arc::new(U { name: $name, base: $base, run: run_hmac::<$ty, $n>, nested: nested::<$ty>, bs: <hmac::Engine<$ty> as HashEngine>::BLOCK_SIZE }))
        };
    }
    u!("sha1", sha1::Engine, 20, Base::plain(Alg::Sha1));
    u!("sha256", sha256::Engine, 32, Base::plain(Alg::Sha256));
    u!("sha384", sha384::Engine, 48, Base::plain(Alg::Sha384));
    u!("sha512", sha512::Engine, 64, Base::plain(Alg::Sha512));
    u!("sha512_256", sha512_256::Engine, 32, Base::plain(Alg::Sha512_256));
    u!("ripemd160", ripemd160::Engine, 20, Base::plain(Alg::Ripemd160));
    u!("siphash24", siphash24::Engine, 8, Base::sip(0, 0));
    u!("sha256t", sha256t::Engine<Tg>, 32, Base::tagged(TAG));
    v
}

fn one(cx: &mut Ctx, u: &U, key: &[u8], pieces: &[&[u8]]) -> Result<(), String> {
    let model = Model::hmac(u.base.clone(), key);
    let msg: Vec<u8> = pieces.concat();
    let d = model.digest(&msg);
    let what = |e: &str| format!("HMAC-{} via {} with key {} ({} bytes) of {} ({} bytes in {} pieces)", u.name, e, show(key), key.len(), show(&msg), msg.len(), pieces.len());
    cx.desc(|| what("all entry points"));
    cx.state(fnv(&[u.name.as_bytes(), key, &msg]));
    cx.outcome(fnv(&[&d]));
    want(|| format!("block size of HMAC-{}", u.name), u.bs, u.base.block())?;
    for (e, got, n) in (u.run)(key, pieces) {
        cx.steps(3 + pieces.len() as u64);
        want_bytes(|| what(e), &got, &d)?;
        want(|| format!("byte count, {}", what(e)), n as u128, model.start_len + msg.len() as u128)?;
    }
    Ok(())
}

// ---- a transparent engine: HMAC must make exactly these calls on it ----

fn toy(t: &[u8], out: &mut [u8]) {
    for (i, o) in out.iter_mut().enumerate() {
        let h = fnv(&[&[i as u8], t]);
        *o = (h >> 24) as u8;
    }
}

#[derive(Clone)]
struct Rec<const B: usize, const O: usize> {
    t: Vec<u8>,
}
impl<const B: usize, const O: usize> Default for Rec<B, O> {
    fn default() -> Self { Rec { t: vec![] } }
}
impl<const B: usize, const O: usize> HashEngine for Rec<B, O> {
    type Digest = [u8; O];
    type Midstate = Vec<u8>;
    const BLOCK_SIZE: usize = B;
    fn input(&mut self, d: &[u8]) { self.t.extend_from_slice(d) }
    fn n_bytes_hashed(&self) -> usize { self.t.len() }
    fn finalize(self) -> [u8; O] {
        let mut o = [0; O];
        toy(&self.t, &mut o);
        o
    }
    fn midstate(&self) -> Vec<u8> { self.t.clone() }
    fn from_midstate(m: Vec<u8>, _l: usize) -> Self { Rec { t: m } }
}

fn rec_case<const B: usize, const O: usize>(key: &[u8], msg: &[u8]) -> Result<(), String> {
    let mut k = key.to_vec();
    if k.len() > B {
        let mut o = vec![0; O];
        toy(&k, &mut o);
        k = o;
    }
    k.resize(B, 0);
    let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let h = || format!("HMAC over a {}-byte-block engine, key of {} bytes, message of {} bytes", B, key.len(), msg.len());
    let mut e = hmac::Engine::<Rec<B, O>>::new(key);
    let m = e.midstate();
    want_bytes(|| format!("inner input at creation, {}", h()), &m.inner, &inner)?;
    want_bytes(|| format!("outer input at creation, {}", h()), &m.outer, &outer)?;
    e.input(msg);
    inner.extend_from_slice(msg);
    let m = e.midstate();
    want_bytes(|| format!("inner input, {}", h()), &m.inner, &inner)?;
    want_bytes(|| format!("outer input, {}", h()), &m.outer, &outer)?;
    want(|| format!("byte count, {}", h()), e.n_bytes_hashed(), inner.len())?;
    let mut id = vec![0; O];
    toy(&inner, &mut id);
    let mut t = outer.clone();
    t.extend_from_slice(&id);
    let mut d = vec![0; O];
    toy(&t, &mut d);
    want_bytes(|| format!("digest, {}", h()), &e.finalize(), &d)
}

type RecFn = fn(&[u8], &[u8]) -> Result<(), String>;
macro_rules! recs {
    ($v:ident; $($b:literal)*) => { $( $v.push(($b, rec_case::<$b, $b> as RecFn)); $v.push(($b, rec_case::<$b, 1> as RecFn)); )* };
}

fn main() {
    run::main("C05", |a| {
        let t = a.tier;
        let us = underlying();
        let s = Arc::new(stream(4096));
        let big = Arc::new(stream(t.pick(0, (1 << 22) + 32, (1 << 24) + 32)));
        let mut fams = Vec::new();
        for u in &us {
            // Every key length through 3B+2, message lengths at the boundaries, several key contents.
            let b = u.base.block();
            let nk = t.pick(5, 4 * b + 3, 8 * b + 3);
            let ml: Vec<usize> = t.pick(vec![0, 1], vec![0, 1, b / 2, b - 17, b - 16, b - 9, b - 8, b - 1, b, b + 1, 2 * b, 3 * b + 5], (0..2 * b + 2).collect());
            let m = ml.len();
            let (u, s) = (u.clone(), s.clone());
            let klen: Vec<usize> = if t == Tier::Tiny { vec![0, 1, b - 1, b, b + 1] } else { (0..nk).collect() };
            fams.push(Family::new(format!("keylen-{}", u.name), product(&[nk, m, 4]), move |i, cx| {
                let [k, l, p] = digits(i, [nk, m, 4]);
                let k = klen[k];
                let key = match p {
                    0 => s[1000..1000 + k].to_vec(),
                    1 => vec![0; k],
                    2 => vec![0xff; k],
                    _ => vec![0x36; k],
                };
                one(cx, &u, &key, &[&s[..ml[l]]])
            }));
        }
        if t != Tier::Tiny {
            for u in &us {
                // Every byte value at every key position, for keys below, at and above the block size.
                let b = u.base.block();
                let lens = [b, b + 1, b - 1, 2 * b + 3];
                let sizes: Vec<u64> = lens[..t.pick(1, 4, 4)].iter().map(|x| *x as u64 * 256).collect();
                let total = sizes.iter().sum();
                let (u, s) = (u.clone(), s.clone());
                fams.push(Family::new(format!("keybyte-{}", u.name), total, move |mut i, cx| {
                    let mut k = 0;
                    while i >= sizes[k] {
                        i -= sizes[k];
                        k += 1;
                    }
                    let mut key = s[2000..2000 + lens[k]].to_vec();
                    key[(i / 256) as usize] = i as u8;
                    one(cx, &u, &key, &[&s[..3]])
                }));
            }
            for u in &us {
                // Every byte value at every message position; all one- and two-byte messages' first bytes.
                let b = u.base.block();
                let (u, s) = (u.clone(), s.clone());
                let len = b + 9;
                fams.push(Family::new(format!("msgbyte-{}", u.name), product(&[len, 256]), move |i, cx| {
                    let [p, v] = digits(i, [len, 256]);
                    let mut m = s[..len].to_vec();
                    m[p] = v as u8;
                    one(cx, &u, &s[7..7 + b / 2], &[&m])
                }));
            }
            for u in &us {
                // Messages in pieces, each key class.
                let b = u.base.block();
                let al = [0, 1, 7, b - 9, b - 8, b - 1, b, b + 1];
                let kl = [0, 1, b - 1, b, b + 1, 2 * b + 1];
                let (u, s) = (u.clone(), s.clone());
                fams.push(Family::new(format!("pieces-{}", u.name), product(&[6, 8, 8, 8]), move |i, cx| {
                    let [k, x, y, z] = digits(i, [6, 8, 8, 8]);
                    let (x, y, z) = (al[x], al[y], al[z]);
                    one(cx, &u, &s[900..900 + kl[k]], &[&s[..x], &s[x..x + y], &s[x + y..x + y + z]])
                }));
            }
            for u in &us {
                // Long keys: every length to a bound, then around powers of two.
                let kmax = t.pick(0usize, 4200, 17_000);
                let pw: Vec<usize> = (11..t.pick(12, 23, 25)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
                let (n, np) = (kmax as u64, pw.len() as u64);
                let u = u.clone();
                let big = big.clone();
                fams.push(Family::new(format!("longkey-{}", u.name), n + np, move |i, cx| {
                    let k = if i < n { i as usize } else { pw[(i - n) as usize] };
                    one(cx, &u, &big[7..7 + k], &[&big[..3]])
                }).slow(200));
            }
            for u in &us {
                // Long messages: every length to a bound, then around powers of two, three key classes.
                let b = u.base.block();
                let mmax = t.pick(0usize, 4200, 17_000);
                let pw: Vec<usize> = (11..t.pick(12, 23, 25)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
                let (n, np) = (mmax as u64, pw.len() as u64);
                let u = u.clone();
                let big = big.clone();
                fams.push(Family::new(format!("longmsg-{}", u.name), (n + np) * 3, move |i, cx| {
                    let (i, c) = (i / 3, i % 3);
                    let l = if i < n { i as usize } else { pw[(i - n) as usize] };
                    one(cx, &u, &big[11..11 + [5, b, b + 1][c as usize]], &[&big[..l]])
                }).slow(200));
            }
            for u in &us {
                // HMAC over HMAC: the underlying engine is itself HMAC with the empty key.
                let b = u.base.block();
                let kl: Vec<usize> = (0..2 * b + 3).collect();
                let ml = [0, 1, b - 9, b, b + 1];
                let nk = kl.len();
                let (u, s) = (u.clone(), s.clone());
                fams.push(Family::new(format!("nested-{}", u.name), product(&[nk, 5]), move |i, cx| {
                    let [k, m] = digits(i, [nk, 5]);
                    let (key, msg) = (&s[500..500 + kl[k]], &s[..ml[m]]);
                    let h = Model::hmac(u.base.clone(), &[]);
                    let mut kb = if key.len() > b { h.digest(key) } else { key.to_vec() };
                    kb.resize(b, 0);
                    let mut inner: Vec<u8> = kb.iter().map(|x| x ^ 0x36).collect();
                    inner.extend_from_slice(msg);
                    let mut outer: Vec<u8> = kb.iter().map(|x| x ^ 0x5c).collect();
                    outer.extend_from_slice(&h.digest(&inner));
                    cx.steps(2);
                    cx.state(fnv(&[b"nested", u.name.as_bytes(), key, msg]));
                    want_bytes(|| format!("HMAC over HMAC-{} with a key of {} and a message of {} bytes", u.name, key.len(), msg.len()), &(u.nested)(key, msg), &h.digest(&outer))
                }));
            }
            for u in &us {
                // All one-byte and two-byte keys.
                let (u, s) = (u.clone(), s.clone());
                let n = 256 + 65536;
                fams.push(Family::new(format!("shortkey-{}", u.name), n as u64, move |i, cx| {
                    let key = if i < 256 { vec![i as u8] } else { ((i - 256) as u16).to_be_bytes().to_vec() };
                    one(cx, &u, &key, &[&s[..5]])
                }));
            }
        }
        // User-supplied engines of every block size.
        let mut recs: Vec<(usize, RecFn)> = vec![];
        recs!(recs; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64);
        recs!(recs; 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128);
        let nr = recs.len();
        let nk = t.pick(3, 280, 400);
        let nm = t.pick(1, 4, 9);
        let s2 = s.clone();
        fams.push(Family::new("userengine", product(&[nr, nk, nm]), move |i, cx| {
            let [r, k, m] = digits(i, [nr, nk, nm]);
            let (b, f) = recs[r];
            cx.steps(6);
            cx.state(fnv(&[&[r as u8], &(k as u16).to_le_bytes(), &[m as u8]]));
            cx.desc(|| format!("transparent engine with block size {}, key length {}, message length {}", b, k, m * 37));
            f(&s2[k..2 * k], &s2[..m * 37])
        }));
        // Block sizes above 128 are refused.
        let s2 = s.clone();
        fams.push(Family::new("toolarge", product(&[6, 4]), move |i, cx| {
            let [b, k] = digits(i, [6, 4]);
            let key = &s2[..[0, 5, 129, 300][k]];
            cx.steps(1);
            cx.state(fnv(&[&[b as u8, k as u8, 3]]));
            let (bs, p) = match b {
                0 => (129, panics(|| hmac::Engine::<Rec<129, 20>>::new(key))),
                1 => (136, panics(|| hmac::Engine::<Rec<136, 20>>::new(key))),
                2 => (192, panics(|| hmac::Engine::<Rec<192, 20>>::new(key))),
                3 => (256, panics(|| hmac::Engine::<Rec<256, 20>>::new(key))),
                4 => (1000, panics(|| hmac::Engine::<Rec<1000, 20>>::new(key))),
                _ => (65536, panics(|| hmac::Engine::<Rec<65536, 20>>::new(key))),
            };
            want(|| format!("HMAC over block size {} panics", bs), p, true)
        }));
        fams
    });
}
