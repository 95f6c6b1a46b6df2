//! C06: SipHash-2-4 is exact for every key and message through every entry point.
use chf::siphash24::{Engine, Hash};
use chf::HashEngine;
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::{siphash, stream};
use mc::{show, want, zeros};
use std::sync::Arc;

fn one(cx: &mut Ctx, k0: u64, k1: u64, m: &[u8], cut: usize) -> Result<(), String> {
    let x = siphash(k0, k1, m);
    let w = |e: &str| format!("{} with keys {:016x} {:016x} of {} ({} bytes, cut at {})", e, k0, k1, show(m), m.len(), cut);
    cx.desc(|| format!("{} -> {:016x}", w("SipHash-2-4"), x));
    cx.state(fnv(&[&k0.to_le_bytes(), &k1.to_le_bytes(), m, &(cut as u32).to_le_bytes()]));
    cx.outcome(x);
    want(|| w("hash_with_keys"), Hash::hash_with_keys(k0, k1, m).to_byte_array(), x.to_le_bytes())?;
    want(|| w("hash_with_keys().as_u64"), Hash::hash_with_keys(k0, k1, m).as_u64(), x)?;
    want(|| w("hash_to_u64_with_keys"), Hash::hash_to_u64_with_keys(k0, k1, m), x)?;
    let mut e = Engine::with_keys(k0, k1);
    want(|| w("keys()"), e.keys(), (k0, k1))?;
    e.input(&m[..cut]);
    want(|| w("count"), e.n_bytes_hashed(), cut)?;
    e.input(&m[cut..]);
    want(|| w("count"), e.n_bytes_hashed(), m.len())?;
    want(|| w("keys() after input"), e.keys(), (k0, k1))?;
    want(|| w("finalize"), e.clone().finalize(), x.to_le_bytes())?;
    want(|| w("from_engine"), Hash::from_engine(e.clone()).to_byte_array(), x.to_le_bytes())?;
    want(|| w("from_engine_to_u64"), Hash::from_engine_to_u64(e.clone()), x)?;
    want(|| w("keys() of a clone"), e.clone().keys(), (k0, k1))?;
    want(|| w("from_u64"), Hash::from_u64(x), Hash::from_engine(e))?;
    cx.steps(13);
    if k0 == 0 && k1 == 0 {
        want(|| w("Hash::hash"), Hash::hash(m).as_u64(), x)?;
        want(|| w("HashEngine::hash"), <Engine as HashEngine>::hash(m), x.to_le_bytes())?;
        want(|| w("hash_byte_chunks"), Engine::hash_byte_chunks([&m[..cut], &m[cut..]]), x.to_le_bytes())?;
        for (n, e) in [("new", Engine::new()), ("default", Engine::default()), ("trait new", <Engine as HashEngine>::new()), ("engine", Hash::engine())] {
            let mut e = e;
            want(|| w(n), e.keys(), (0, 0))?;
            e.input(m);
            want(|| w(n), e.finalize(), x.to_le_bytes())?;
        }
        cx.steps(11);
    }
    Ok(())
}

fn key(i: usize) -> (u64, u64) {
    match i {
        0 => (0, 0),
        1 => (0x0706050403020100, 0x0f0e0d0c0b0a0908),
        2 => (u64::MAX, u64::MAX),
        3 => (0, u64::MAX),
        4 => (u64::MAX, 0),
        5 => (0x736f6d6570736575, 0x646f72616e646f6d),
        6 => (0x6c7967656e657261, 0x7465646279746573),
        7 => (0x0123456789abcdef, 0xfedcba9876543210),
        i if i < 8 + 64 => (1 << (i - 8), 0),
        i if i < 8 + 128 => (0, 1 << (i - 72)),
        i if i < 8 + 192 => (!(1 << (i - 136)), u64::MAX),
        i => (u64::MAX, !(1 << (i - 200))),
    }
}
const KEYS: usize = 8 + 256;

fn main() {
    run::main("C06", |a| {
        let t = a.tier;
        let s = Arc::new(stream(1 << 17));
        let mut fams = Vec::new();
        let nl = t.pick(20, 1500, 4000);
        let nk = t.pick(2, KEYS, KEYS);
        let c = s.clone();
        fams.push(Family::new("key-length", product(&[nl, nk]), move |i, cx| {
            let [l, k] = digits(i, [nl, nk]);
            let (k0, k1) = key(k);
            one(cx, k0, k1, &c[..l], l / 2)
        }));
        let nl = t.pick(18, 600, 1200);
        let c = s.clone();
        let kk = t.pick(2, 3, 5);
        fams.push(Family::new("every-cut", product(&[kk, nl, nl]), move |i, cx| {
            let [k, l, cut] = digits(i, [kk, nl, nl]);
            if cut > l {
                return Ok(());
            }
            let (k0, k1) = key([0, 1, 7, 2, 5][k]);
            one(cx, k0, k1, &c[..l], cut)
        }));
        // from_u64 / as_u64: every byte value at every position.
        fams.push(Family::new("u64", product(&[3, 8, 256]), move |i, cx| {
            let [bg, p, v] = digits(i, [3, 8, 256]);
            let mut b = [[0u8; 8], [0xff; 8], [1, 2, 3, 4, 5, 6, 7, 8]][bg];
            b[p] = v as u8;
            let x = b.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
            cx.steps(4);
            cx.state(fnv(&[&b]));
            want(|| format!("from_u64({:x}) bytes", x), Hash::from_u64(x).to_byte_array(), b)?;
            want(|| format!("from_byte_array({:?}).as_u64", b), Hash::from_byte_array(b).as_u64(), x)?;
            want(|| "from_u64.as_u64".into(), Hash::from_u64(x).as_u64(), x)?;
            want(|| "from_slice.as_u64".into(), Hash::from_slice(&b).map(|h| h.as_u64()), Ok(x))
        }));
        if t == Tier::Tiny {
            return fams;
        }
        // Every byte value at every position, all lengths through three words.
        let c = s.clone();
        let nl = t.pick(0, 26, 42);
        fams.push(Family::new("posval", product(&[2, nl, nl, 256]), move |i, cx| {
            let [bg, l, p, v] = digits(i, [2, nl, nl, 256]);
            if p >= l {
                return Ok(());
            }
            let mut m = if bg == 0 { c[..l].to_vec() } else { vec![0; l] };
            m[p] = v as u8;
            let (k0, k1) = key(if bg == 0 { 1 } else { 0 });
            one(cx, k0, k1, &m, p)
        }));
        // All messages of up to two bytes, all cuts of boundary lengths near multiples of 256.
        let c = s.clone();
        fams.push(Family::new("short", 1 + 256 + 65536, move |i, cx| {
            let m: Vec<u8> = if i == 0 { vec![] } else if i <= 256 { vec![(i - 1) as u8] } else { ((i - 257) as u16).to_be_bytes().to_vec() };
            let _ = &c;
            one(cx, 3, 5, &m, m.len() / 2)
        }));
        let c = s.clone();
        let nk = t.pick(0, 14, 17) as usize;
        fams.push(Family::new("long", product(&[nk, 17, 9, 2]), move |i, cx| {
            let [k, d, cut, key2] = digits(i, [nk, 17, 9, 2]);
            let l = (512usize << (k / 2)) * (2 + k % 2) / 2 + d - 8;
            let (k0, k1) = key(key2);
            one(cx, k0, k1, &c[..l], cut)
        }));
        // Far longer messages; in one configuration longer than 4 GiB.
        let kmax = t.pick(0, 26, 30);
        let ks = kmax - 17;
        let four = !cfg!(debug_assertions) || t == Tier::Thorough;
        let z = zeros(if four { (1 << 32) + 256 } else { (1 << (kmax + 1)) + 256 });
        fams.push(
            Family::new("huge", product(&[ks + four as usize, 3, 2]), move |i, cx| {
                let [k, d, cut] = digits(i, [ks + four as usize, 3, 2]);
                let l = if k == ks { (1usize << 32) + 100 * d } else { (1usize << (kmax - k)) + d - 1 };
                let (k0, k1) = key(1);
                let w = siphash(k0, k1, &z[..l]);
                cx.steps(2);
                cx.state(fnv(&[b"huge", &(l as u64).to_le_bytes(), &[cut as u8]]));
                if cut == 0 {
                    want(|| format!("hash_to_u64_with_keys of {} zero bytes", l), Hash::hash_to_u64_with_keys(k0, k1, &z[..l]), w)?;
                    return want(|| format!("hash_with_keys of {} zero bytes", l), Hash::hash_with_keys(k0, k1, &z[..l]).as_u64(), w);
                }
                let mut e = Engine::with_keys(k0, k1);
                e.input(&z[..3]);
                e.input(&z[3..l]);
                want(|| format!("byte count after {} zero bytes", l), e.n_bytes_hashed(), l)?;
                want(|| format!("from_engine after 3 + {} zero bytes", l - 3), Hash::from_engine(e.clone()).as_u64(), w)?;
                want(|| format!("from_engine_to_u64 after 3 + {} zero bytes", l - 3), Hash::from_engine_to_u64(e), w)
            })
            .slow(900),
        );
        // Every length, pieces cut below and above a word.
        let nl = t.pick(0, 10_000, 40_000);
        let c = s.clone();
        fams.push(Family::new("everylen", product(&[2, nl, 10]), move |i, cx| {
            let [k, l, cut] = digits(i, [2, nl, 10]);
            let (k0, k1) = key(7 * k);
            one(cx, k0, k1, &c[..l], [0, 1, 2, 3, 4, 5, 6, 7, 8, 300][cut].min(l))
        }));
        // Every pair of cuts of shorter messages.
        let nc = t.pick(0, 90, 200);
        let c = s.clone();
        fams.push(Family::new("two-cuts", product(&[nc, nc, nc]), move |i, cx| {
            let [x, y, z] = digits(i, [nc, nc, nc]);
            let (k0, k1) = key(1);
            let m = &c[..x + y + z];
            let mut e = Engine::with_keys(k0, k1);
            e.input(&m[..x]);
            e.input(&m[x..x + y]);
            e.input(&m[x + y..]);
            let w = siphash(k0, k1, m);
            let h = |n: &str| format!("{} after pieces of {}, {} and {} bytes", n, x, y, z);
            cx.steps(5);
            cx.state(fnv(&[&[x as u8, y as u8, z as u8, 9]]));
            want(|| h("finalize"), e.clone().finalize(), w.to_le_bytes())?;
            want(|| h("from_engine_to_u64"), Hash::from_engine_to_u64(e), w)
        }));
        // Key pairs of bytes.
        let c = s.clone();
        fams.push(Family::new("keybyte", product(&[16, 256, 9]), move |i, cx| {
            let [p, v, l] = digits(i, [16, 256, 9]);
            let mut kb = [0u8; 16];
            kb.copy_from_slice(&c[50..66]);
            kb[p] = v as u8;
            let k0 = u64::from_le_bytes(kb[..8].try_into().unwrap());
            let k1 = u64::from_le_bytes(kb[8..].try_into().unwrap());
            one(cx, k0, k1, &c[..l], 0)
        }));
        // Orbits over keys and messages.
        let steps = t.pick(0, 20_000, 1_000_000);
        fams.push(Family::new("orbit", 32, move |i, cx| {
            let (mut k0, mut k1) = (i, !i);
            let mut m = vec![i as u8; i as usize];
            for _ in 0..steps {
                let x = Hash::hash_to_u64_with_keys(k0, k1, &m);
                want(|| format!("keys {:x} {:x} of {}", k0, k1, show(&m)), x, siphash(k0, k1, &m))?;
                want(|| format!("keys {:x} {:x} of {}", k0, k1, show(&m)), Hash::hash_with_keys(k0, k1, &m).as_u64(), x)?;
                cx.steps(2);
                cx.state(x);
                k0 = k1;
                k1 = x;
                let l = (x % 40) as usize;
                m.clear();
                for j in 0..l {
                    m.push((x >> (j % 57)) as u8);
                }
            }
            Ok(())
        }));
        fams
    });
}
