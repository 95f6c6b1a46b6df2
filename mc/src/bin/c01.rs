//! C01: digests equal the published standards for every message, through every entry point.
use chf::{ripemd160, sha1, sha256, sha384, sha512, sha512_256, HashEngine};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, ALGS};
use mc::{show, want, want_bytes};
use std::sync::Arc;

/// One-shot digest through the hash type.
fn hash(alg: Alg, m: &[u8]) -> Vec<u8> {
    match alg {
        Alg::Sha1 => sha1::Hash::hash(m).to_byte_array().to_vec(),
        Alg::Sha256 => sha256::Hash::hash(m).to_byte_array().to_vec(),
        Alg::Sha384 => sha384::Hash::hash(m).to_byte_array().to_vec(),
        Alg::Sha512 => sha512::Hash::hash(m).to_byte_array().to_vec(),
        Alg::Sha512_256 => sha512_256::Hash::hash(m).to_byte_array().to_vec(),
        Alg::Ripemd160 => ripemd160::Hash::hash(m).to_byte_array().to_vec(),
    }
}

/// All entry points.
fn entries(alg: Alg, m: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    macro_rules! e {
        ($m:ident) => {{
            let mut v: Vec<(&'static str, Vec<u8>)> = Vec::new();
            v.push(("Hash::hash", $m::Hash::hash(m).as_bytes().to_vec()));
            v.push(("HashEngine::hash", <$m::Engine as HashEngine>::hash(m).to_vec()));
            let mut x = $m::Engine::new();
            x.input(m);
            v.push(("new+input+finalize", x.clone().finalize().to_vec()));
            v.push(("from_engine", $m::Hash::from_engine(x).to_byte_array().to_vec()));
            let mut x = $m::Hash::engine();
            x.input(m);
            v.push(("Hash::engine+input+finalize", x.finalize().to_vec()));
            let mut x = $m::Engine::default();
            x.input(m);
            v.push(("default+input+finalize", x.finalize().to_vec()));
            v.push(("hash_byte_chunks", $m::Engine::hash_byte_chunks([m]).to_vec()));
            v
        }};
    }
    match alg {
        Alg::Sha1 => e!(sha1),
        Alg::Sha256 => e!(sha256),
        Alg::Sha384 => e!(sha384),
        Alg::Sha512 => e!(sha512),
        Alg::Sha512_256 => e!(sha512_256),
        Alg::Ripemd160 => e!(ripemd160),
    }
}

fn consts(alg: Alg) -> (usize, usize) {
    match alg {
        Alg::Sha1 => (sha1::Hash::LEN, sha1::Engine::BLOCK_SIZE),
        Alg::Sha256 => (sha256::Hash::LEN, sha256::Engine::BLOCK_SIZE),
        Alg::Sha384 => (sha384::Hash::LEN, sha384::Engine::BLOCK_SIZE),
        Alg::Sha512 => (sha512::Hash::LEN, sha512::Engine::BLOCK_SIZE),
        Alg::Sha512_256 => (sha512_256::Hash::LEN, sha512_256::Engine::BLOCK_SIZE),
        Alg::Ripemd160 => (ripemd160::Hash::LEN, ripemd160::Engine::BLOCK_SIZE),
    }
}

fn one(cx: &mut Ctx, alg: Alg, m: &[u8], what: &str) -> Result<(), String> {
    let d = hash(alg, m);
    cx.steps(1);
    cx.state(fnv(&[&[alg as u8], m]));
    cx.outcome(fnv(&[&d]));
    cx.desc(|| format!("{} {} msg={} digest={}", alg.name(), what, show(m), show(&d)));
    want_bytes(|| format!("{} {} of {}", alg.name(), what, show(m)), &d, &alg.digest(m))
}

const FILLS: usize = 8;
fn fill(k: usize, n: usize) -> Vec<u8> {
    match k {
        0 => stream(n),
        1 => vec![0; n],
        2 => vec![0xff; n],
        3 => (0..n).map(|i| i as u8).collect(),
        4 => vec![0x80; n],
        5 => (0..n).map(|i| if i % 2 == 0 { 0x55 } else { 0xaa }).collect(),
        6 => (0..n).map(|i| (i as u8).wrapping_mul(151).wrapping_add(7)).collect(),
        _ => {
            let mut v = vec![0; n];
            if let Some(l) = v.last_mut() {
                *l = 0x80
            }
            v
        }
    }
}

/// Model digests of all prefixes.
fn prefix_digests(alg: Alg, msg: &[u8]) -> Vec<Vec<u8>> {
    let b = alg.block();
    let mut cv = alg.iv();
    let mut out = Vec::with_capacity(msg.len() + 1);
    for t in 0..=msg.len() {
        if t != 0 && t % b == 0 {
            alg.compress(&mut cv, &msg[t - b..t]);
        }
        out.push(alg.digest_from(cv, &msg[t / b * b..t], t as u128));
    }
    out
}

/// Feeds `msg[..from]` at once, then byte by byte, comparing the digest at every length.
fn prefixes(cx: &mut Ctx, alg: Alg, msg: &[u8], from: usize) -> Result<(), String> {
    macro_rules! go {
        ($m:ident) => {{
            let mut e = $m::Engine::new();
            e.input(&msg[..from]);
            let b = alg.block();
            let mut cv = alg.iv();
            for c in msg[..from].chunks_exact(b) {
                alg.compress(&mut cv, c);
            }
            for t in from..=msg.len() {
                if t > from && t % b == 0 {
                    alg.compress(&mut cv, &msg[t - b..t]);
                }
                cx.steps(1);
                cx.state(fnv(&[&[alg as u8, 6], &t.to_le_bytes()]));
                let want = alg.digest_from(cv, &msg[t / b * b..t], t as u128);
                want_bytes(|| format!("{} of the first {} stream bytes, the last {} fed bytewise", alg.name(), t, t - from), &e.clone().finalize(), &want)?;
                if t < msg.len() {
                    e.input(&msg[t..t + 1]);
                }
            }
            Ok(())
        }};
    }
    match alg {
        Alg::Sha1 => go!(sha1),
        Alg::Sha256 => go!(sha256),
        Alg::Sha384 => go!(sha384),
        Alg::Sha512 => go!(sha512),
        Alg::Sha512_256 => go!(sha512_256),
        Alg::Ripemd160 => go!(ripemd160),
    }
}

fn main() {
    run::main("C01", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        // Every length, several contents, all entry points.
        let n = t.pick(140, 1300, 6000);
        let nf = t.pick(1, FILLS, FILLS);
        fams.push(Family::new("length", product(&[n, 6, nf]), move |i, cx| {
            let [len, al, f] = digits(i, [n, 6, nf]);
            let alg = ALGS[al];
            let m = fill(f, len);
            let expect = alg.digest(&m);
            want(|| format!("{} LEN and BLOCK_SIZE", alg.name()), consts(alg), (alg.out(), alg.block()))?;
            cx.state(fnv(&[&[al as u8], &m]));
            for (name, got) in entries(alg, &m) {
                cx.steps(1);
                want_bytes(|| format!("{} {} of fill {} length {} ({})", alg.name(), name, f, len, show(&m)), &got, &expect)?;
            }
            cx.outcome(fnv(&[&expect]));
            cx.desc(|| format!("{} all entry points, fill {} length {} -> {}", alg.name(), f, len, show(&expect)));
            Ok(())
        }));
        if t == Tier::Tiny {
            return fams;
        }
        // All messages of one and two (thorough: three) bytes.
        let nb = t.pick(1, 65536 + 256, 65536 + 256 + (1 << 24));
        fams.push(Family::new("short", product(&[6, nb]), move |i, cx| {
            let [al, v] = digits(i, [6, nb]);
            let v = v as u32;
            let m: Vec<u8> = if v < 256 {
                vec![v as u8]
            } else if v < 65536 + 256 {
                ((v - 256) as u16).to_be_bytes().to_vec()
            } else {
                (v - 65536 - 256).to_be_bytes()[1..].to_vec()
            };
            one(cx, ALGS[al], &m, "short")
        }));
        // Every byte value at every position of one-, two- and three-block messages.
        let nl = t.pick(1, 3, 8);
        for base in 0..2 {
            for al in 0..6 {
                let alg = ALGS[al];
                let b = alg.block();
                let lens = [b, 2 * b + b / 2, b - 1, 3 * b, b - 9, 2 * b - 17, 4 * b, 5 * b + 1];
                let lens = lens[..nl].to_vec();
                let sizes: Vec<u64> = lens.iter().map(|l| *l as u64 * 256).collect();
                let total: u64 = sizes.iter().sum();
                fams.push(Family::new(format!("posval{}-{}", base, alg.name()), total, move |mut i, cx| {
                    let mut k = 0;
                    while i >= sizes[k] {
                        i -= sizes[k];
                        k += 1;
                    }
                    let mut m = fill(base, lens[k]);
                    m[(i / 256) as usize] = i as u8;
                    one(cx, alg, &m, "position/value")
                }));
            }
        }
        // Every pair of flipped bits in a one-block message.
        for al in 0..6 {
            let alg = ALGS[al];
            let bits = alg.block() * 8;
            let step = t.pick(1, if bits > 512 { 2 } else { 1 }, 1);
            let n = bits / step;
            let base = Arc::new(stream(alg.block()));
            fams.push(Family::new(format!("bitpair-{}", alg.name()), product(&[n, n]), move |i, cx| {
                let [x, y] = digits(i, [n, n]);
                if y > x {
                    return Ok(());
                }
                let mut m = base.to_vec();
                let x = x * step;
                m[x / 8] ^= 1 << (x % 8);
                if y * step != x {
                    let y = y * step;
                    m[y / 8] ^= 1 << (y % 8);
                }
                one(cx, alg, &m, "bit pair")
            }));
        }
        // Pairs of message words at arithmetic extremes.
        for al in 0..6 {
            let alg = ALGS[al];
            let wb = alg.word_bytes();
            let vals: Vec<u64> = if wb == 4 {
                vec![0, 1, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x5a5a5a5a]
            } else {
                vec![0, 1, 0x7fffffff_ffffffff, 1 << 63, 0x80000000, 0xffffffff, u64::MAX - 1, u64::MAX]
            };
            let nv = vals.len();
            fams.push(Family::new(format!("words-{}", alg.name()), product(&[2, 16, 16, nv, nv]), move |i, cx| {
                let [bg, p, q, v, w] = digits(i, [2, 16, 16, nv, nv]);
                if q > p {
                    return Ok(());
                }
                let mut m = fill(1 + bg, alg.block());
                for (pos, val) in [(p, vals[v]), (q, vals[w])] {
                    let bytes = val.to_be_bytes();
                    m[pos * wb..(pos + 1) * wb].copy_from_slice(&bytes[8 - wb..]);
                }
                one(cx, alg, &m, "extreme words")
            }));
        }
        // Every length up to a large bound in one shot, against an incrementally built table.
        let big = t.pick(0, 40_000, 132_000) as usize;
        for al in 0..6 {
            let alg = ALGS[al];
            let msg = Arc::new(stream(big));
            let table: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
            fams.push(Family::new(format!("everylen-{}", alg.name()), big as u64 + 1, move |i, cx| {
                let t = table.get_or_init(|| prefix_digests(alg, &msg));
                let m = &msg[..i as usize];
                let d = hash(alg, m);
                cx.steps(1);
                cx.state(fnv(&[&[al as u8, 5], &i.to_le_bytes()]));
                cx.outcome(fnv(&[&d]));
                want_bytes(|| format!("{} of the first {} stream bytes", alg.name(), i), &d, &t[i as usize])
            }));
        }
        // Every prefix of a much longer message, finalized from a clone as it is fed bytewise.
        let seg = 1usize << 13;
        let nseg = t.pick(0, 40, 640);
        fams.push(Family::new("prefixes", product(&[6, nseg]), move |i, cx| {
            let [al, k] = digits(i, [6, nseg]);
            let alg = ALGS[al];
            // Segment k: restart after k*seg bytes fed in one piece, then one byte at a time.
            let msg = stream((k + 1) * seg);
            prefixes(cx, alg, &msg, k * seg)
        }).slow(200));
        // Long messages.
        let kmax = t.pick(0, 25, 28) as usize;
        fams.push(Family::new("powers", product(&[kmax - 11, 3, 2, 6]), move |i, cx| {
            let [k, d, f, al] = digits(i, [kmax - 11, 3, 2, 6]);
            let len = (1usize << (12 + k)) + d - 1;
            one(cx, ALGS[al], &fill(f * 6, len), "long")
        }).slow(200));
        // Orbits: the digest of each message is the next message (arithmetic coverage).
        let steps = t.pick(0, 20_000, 400_000);
        fams.push(Family::new("orbit", 6 * 16, move |i, cx| {
            let [al, s] = digits(i, [6, 16]);
            let alg = ALGS[al];
            let mut m = fill(0, s + 1);
            for _ in 0..steps {
                let d = hash(alg, &m);
                want_bytes(|| format!("{} of {}", alg.name(), show(&m)), &d, &alg.digest(&m))?;
                cx.steps(1);
                cx.state(fnv(&[&[al as u8, 7], &d]));
                m = d;
                if s % 2 == 1 {
                    // Alternate message sizes so that orbits also cover two-block messages.
                    let k = m[0] as usize % (alg.block() + 1);
                    m.extend(std::iter::repeat(m[1]).take(k));
                }
            }
            cx.desc(|| format!("{} orbit of {} steps from stream[..{}]", alg.name(), steps, s + 1));
            Ok(())
        }));
        fams
    });
}
