//! Reference model: the published algorithms written as plainly as possible, independent of
//! the code under test. Checked on every run against known answers produced by OpenSSL.

use crate::spec_consts::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg {
    Sha1,
    Sha256,
    Sha384,
    Sha512,
    Sha512_256,
    Ripemd160,
}

pub const ALGS: [Alg; 6] =
    [Alg::Sha1, Alg::Sha256, Alg::Sha384, Alg::Sha512, Alg::Sha512_256, Alg::Ripemd160];

/// Chaining value; 32-bit algorithms use the low halves.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Cv(pub [u64; 8]);

impl Alg {
    pub fn name(self) -> &'static str {
        match self {
            Alg::Sha1 => "sha1",
            Alg::Sha256 => "sha256",
            Alg::Sha384 => "sha384",
            Alg::Sha512 => "sha512",
            Alg::Sha512_256 => "sha512_256",
            Alg::Ripemd160 => "ripemd160",
        }
    }
    pub fn by_name(s: &str) -> Option<Alg> { ALGS.iter().copied().find(|a| a.name() == s) }
    pub fn block(self) -> usize {
        match self {
            Alg::Sha384 | Alg::Sha512 | Alg::Sha512_256 => 128,
            _ => 64,
        }
    }
    pub fn out(self) -> usize {
        match self {
            Alg::Sha1 | Alg::Ripemd160 => 20,
            Alg::Sha256 | Alg::Sha512_256 => 32,
            Alg::Sha384 => 48,
            Alg::Sha512 => 64,
        }
    }
    fn len_bytes(self) -> usize { self.block() / 8 }
    pub fn words(self) -> usize {
        match self {
            Alg::Sha1 | Alg::Ripemd160 => 5,
            _ => 8,
        }
    }
    pub fn word_bytes(self) -> usize { self.block() / 16 }
    fn little(self) -> bool { self == Alg::Ripemd160 }

    pub fn iv(self) -> Cv {
        let mut r = [0u64; 8];
        match self {
            Alg::Sha1 | Alg::Ripemd160 => {
                // Five words: the nibbles counting up, down, and the F0 E1 .. pattern.
                r[0] = 0x67452301;
                r[1] = 0xefcdab89;
                r[2] = 0x98badcfe;
                r[3] = 0x10325476;
                r[4] = 0xc3d2e1f0;
            }
            Alg::Sha256 =>
                for i in 0..8 {
                    r[i] = IV256[i] as u64;
                },
            Alg::Sha512 => r = IV512,
            Alg::Sha384 => r = IV384,
            Alg::Sha512_256 => {
                // FIPS 180-4, 5.3.6: SHA-512/t IV generation function.
                static CACHE: std::sync::OnceLock<[u64; 8]> = std::sync::OnceLock::new();
                r = *CACHE.get_or_init(|| {
                    let mut start = IV512;
                    for x in start.iter_mut() {
                        *x ^= 0xa5a5a5a5a5a5a5a5;
                    }
                    let d = Alg::Sha512.digest_from(Cv(start), b"SHA-512/256", 11);
                    let mut o = [0u64; 8];
                    for i in 0..8 {
                        let mut b = [0u8; 8];
                        b.copy_from_slice(&d[i * 8..i * 8 + 8]);
                        o[i] = u64::from_be_bytes(b);
                    }
                    o
                });
            }
        }
        Cv(r)
    }

    pub fn compress(self, cv: &mut Cv, block: &[u8]) {
        assert_eq!(block.len(), self.block());
        match self {
            Alg::Sha1 => sha1_compress(cv, block),
            Alg::Sha256 => sha256_compress(cv, block),
            Alg::Ripemd160 => ripemd_compress(cv, block),
            _ => sha512_compress(cv, block),
        }
    }

    /// The chaining value as bytes in the algorithm's byte order.
    pub fn cv_bytes(self, cv: &Cv) -> Vec<u8> {
        let mut out = Vec::with_capacity(64);
        for w in &cv.0[..self.words()] {
            match (self.word_bytes(), self.little()) {
                (4, false) => out.extend_from_slice(&(*w as u32).to_be_bytes()),
                (4, true) => out.extend_from_slice(&(*w as u32).to_le_bytes()),
                _ => out.extend_from_slice(&w.to_be_bytes()),
            }
        }
        out
    }

    /// Padding for a message of `total` bytes: a one bit, zeros, and the length in bits.
    pub fn pad(self, total: u128) -> Vec<u8> {
        let b = self.block() as u128;
        let mut p = Vec::with_capacity(160);
        p.push(0x80u8);
        while (total + p.len() as u128 + self.len_bytes() as u128) % b != 0 {
            p.push(0);
        }
        let bits = total * 8;
        if self.len_bytes() == 16 {
            p.extend_from_slice(&bits.to_be_bytes());
        } else if self.little() {
            p.extend_from_slice(&(bits as u64).to_le_bytes());
        } else {
            p.extend_from_slice(&(bits as u64).to_be_bytes());
        }
        p
    }

    /// Digest of a message of `total` bytes whose full blocks before `tail` led to `cv`.
    pub fn digest_from(self, mut cv: Cv, tail: &[u8], total: u128) -> Vec<u8> {
        let mut m = Vec::with_capacity(tail.len() + 160);
        m.extend_from_slice(tail);
        m.extend_from_slice(&self.pad(total));
        for c in m.chunks(self.block()) {
            self.compress(&mut cv, c);
        }
        let mut d = self.cv_bytes(&cv);
        d.truncate(self.out());
        d
    }

    pub fn digest(self, msg: &[u8]) -> Vec<u8> {
        let (cv, tail) = self.absorb(self.iv(), msg);
        self.digest_from(cv, tail, msg.len() as u128)
    }

    /// Runs all full blocks of `msg`; returns the chaining value and the rest.
    pub fn absorb(self, mut cv: Cv, msg: &[u8]) -> (Cv, &[u8]) {
        let full = msg.len() / self.block() * self.block();
        for c in msg[..full].chunks(self.block()) {
            self.compress(&mut cv, c);
        }
        (cv, &msg[full..])
    }
}

fn be32(b: &[u8]) -> u32 { u32::from_be_bytes([b[0], b[1], b[2], b[3]]) }
fn le32(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }

fn sha1_compress(cv: &mut Cv, block: &[u8]) {
    let mut w = [0u32; 80];
    for t in 0..16 {
        w[t] = be32(&block[4 * t..]);
    }
    for t in 16..80 {
        w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
    }
    let h: Vec<u32> = cv.0[..5].iter().map(|x| *x as u32).collect();
    let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
    for t in 0..80 {
        let (f, k) = match t / 20 {
            0 => ((b & c) | (!b & d), 0x5a827999u32),
            1 => (b ^ c ^ d, 0x6ed9eba1),
            2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
            _ => (b ^ c ^ d, 0xca62c1d6),
        };
        let tmp = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = tmp;
    }
    for (i, v) in [a, b, c, d, e].iter().enumerate() {
        cv.0[i] = h[i].wrapping_add(*v) as u64;
    }
}

fn sha256_compress(cv: &mut Cv, block: &[u8]) {
    let mut w = [0u32; 64];
    for t in 0..16 {
        w[t] = be32(&block[4 * t..]);
    }
    for t in 16..64 {
        let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
        let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = [0u32; 8];
    for i in 0..8 {
        v[i] = cv.0[i] as u32;
    }
    let h = v;
    for t in 0..64 {
        let [a, b, c, d, e, f, g, hh] = v;
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        cv.0[i] = h[i].wrapping_add(v[i]) as u64;
    }
}

fn sha512_compress(cv: &mut Cv, block: &[u8]) {
    let mut w = [0u64; 80];
    for t in 0..16 {
        w[t] = ((be32(&block[8 * t..]) as u64) << 32) | be32(&block[8 * t + 4..]) as u64;
    }
    for t in 16..80 {
        let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
        let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
        w[t] = w[t - 16].wrapping_add(s0).wrapping_add(w[t - 7]).wrapping_add(s1);
    }
    let mut v = cv.0;
    for t in 0..80 {
        let [a, b, c, d, e, f, g, hh] = v;
        let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = (e & f) ^ (!e & g);
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
    }
    for i in 0..8 {
        cv.0[i] = cv.0[i].wrapping_add(v[i]);
    }
}

// RIPEMD-160 is defined by a message permutation rho and pi and shift tables.
const RHO: [usize; 16] = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8];
const SHIFTS: [[u32; 16]; 5] = [
    [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
    [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
    [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
    [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
    [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
];

struct RmdTables {
    l: [[usize; 16]; 5],
    r: [[usize; 16]; 5],
}

fn rmd_tables() -> &'static RmdTables {
    static T: std::sync::OnceLock<RmdTables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut l = [[0; 16]; 5];
        let mut r = [[0; 16]; 5];
        for i in 0..16 {
            l[0][i] = i;
            r[0][i] = (9 * i + 5) % 16;
        }
        for k in 1..5 {
            for i in 0..16 {
                l[k][i] = RHO[l[k - 1][i]];
                r[k][i] = RHO[r[k - 1][i]];
            }
        }
        RmdTables { l, r }
    })
}

fn rmd_f(j: usize, x: u32, y: u32, z: u32) -> u32 {
    match j {
        0 => x ^ y ^ z,
        1 => (x & y) | (!x & z),
        2 => (x | !y) ^ z,
        3 => (x & z) | (y & !z),
        _ => x ^ (y | !z),
    }
}

fn ripemd_compress(cv: &mut Cv, block: &[u8]) {
    const KL: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
    const KR: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
    let t = rmd_tables();
    let x: Vec<u32> = (0..16).map(|i| le32(&block[4 * i..])).collect();
    let h: Vec<u32> = cv.0[..5].iter().map(|v| *v as u32).collect();
    let line = |right: bool| {
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for round in 0..5 {
            for i in 0..16 {
                let (idx, k, f) = if right {
                    (t.r[round][i], KR[round], rmd_f(4 - round, b, c, d))
                } else {
                    (t.l[round][i], KL[round], rmd_f(round, b, c, d))
                };
                let v = a
                    .wrapping_add(f)
                    .wrapping_add(x[idx])
                    .wrapping_add(k)
                    .rotate_left(SHIFTS[round][idx])
                    .wrapping_add(e);
                a = e;
                e = d;
                d = c.rotate_left(10);
                c = b;
                b = v;
            }
        }
        [a, b, c, d, e]
    };
    let l = line(false);
    let r = line(true);
    for i in 0..5 {
        cv.0[i] = h[(i + 1) % 5].wrapping_add(l[(i + 2) % 5]).wrapping_add(r[(i + 3) % 5]) as u64;
    }
}

/// SipHash-2-4 as in the paper: words, then the length byte, then four rounds.
pub fn siphash(k0: u64, k1: u64, msg: &[u8]) -> u64 { siphash_len(k0, k1, msg, msg.len() as u8) }

/// SipHash-2-4 with an explicit length byte (messages whose first words were absorbed elsewhere).
pub fn siphash_len(k0: u64, k1: u64, msg: &[u8], len_byte: u8) -> u64 {
    let mut v = [
        k0 ^ u64::from_be_bytes(*b"somepseu"),
        k1 ^ u64::from_be_bytes(*b"dorandom"),
        k0 ^ u64::from_be_bytes(*b"lygenera"),
        k1 ^ u64::from_be_bytes(*b"tedbytes"),
    ];
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[2] = v[2].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[1]);
        v[0] = v[0].wrapping_add(v[3]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].rotate_left(32);
    }
    let mut chunks = msg.chunks_exact(8);
    let word = |v: &mut [u64; 4], m: u64| {
        v[3] ^= m;
        round(v);
        round(v);
        v[0] ^= m;
    };
    for c in &mut chunks {
        let mut b = [0u8; 8];
        b.copy_from_slice(c);
        word(&mut v, u64::from_le_bytes(b));
    }
    let mut last = [0u8; 8];
    let rest = chunks.remainder();
    last[..rest.len()].copy_from_slice(rest);
    last[7] = len_byte;
    word(&mut v, u64::from_le_bytes(last));
    v[2] ^= 0xff;
    for _ in 0..4 {
        round(&mut v);
    }
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

/// A (possibly preloaded) unkeyed state machine in the model.
#[derive(Clone, Debug)]
pub enum Base {
    Md { alg: Alg, cv: Cv, total: u128 },
    Sip { k0: u64, k1: u64, prefix: Vec<u8> },
}

impl Base {
    pub fn plain(alg: Alg) -> Base { Base::Md { alg, cv: alg.iv(), total: 0 } }
    pub fn sip(k0: u64, k1: u64) -> Base { Base::Sip { k0, k1, prefix: vec![] } }
    pub fn tagged(tag: &[u8]) -> Base {
        let t = Alg::Sha256.digest(tag);
        let mut m = t.clone();
        m.extend_from_slice(&t);
        Base::plain(Alg::Sha256).feed(&m)
    }
    pub fn block(&self) -> usize {
        match self {
            Base::Md { alg, .. } => alg.block(),
            Base::Sip { .. } => 32,
        }
    }
    pub fn out(&self) -> usize {
        match self {
            Base::Md { alg, .. } => alg.out(),
            Base::Sip { .. } => 8,
        }
    }
    /// Feeds whole blocks.
    pub fn feed(&self, data: &[u8]) -> Base {
        match self {
            Base::Md { alg, cv, total } => {
                assert_eq!(data.len() % alg.block(), 0);
                let (cv, _) = alg.absorb(*cv, data);
                Base::Md { alg: *alg, cv, total: total + data.len() as u128 }
            }
            Base::Sip { k0, k1, prefix } => {
                let mut p = prefix.clone();
                p.extend_from_slice(data);
                Base::Sip { k0: *k0, k1: *k1, prefix: p }
            }
        }
    }
    pub fn digest(&self, msg: &[u8]) -> Vec<u8> {
        match self {
            Base::Md { alg, cv, total } => {
                let (c, tail) = alg.absorb(*cv, msg);
                alg.digest_from(c, tail, total + msg.len() as u128)
            }
            Base::Sip { k0, k1, prefix } => {
                let mut p = prefix.clone();
                p.extend_from_slice(msg);
                siphash(*k0, *k1, &p).to_le_bytes().to_vec()
            }
        }
    }
    /// Chaining value bytes after the full blocks of msg (None where the type is opaque).
    pub fn mid(&self, msg: &[u8]) -> Option<Vec<u8>> {
        match self {
            Base::Md { alg, cv, .. } => Some(alg.cv_bytes(&alg.absorb(*cv, msg).0)),
            Base::Sip { .. } => None,
        }
    }
    /// (digest, midstate) for every prefix length of msg.
    pub fn table(&self, msg: &[u8]) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
        let mut out = Vec::with_capacity(msg.len() + 1);
        match self {
            Base::Md { alg, cv, total } => {
                let b = alg.block();
                let mut c = *cv;
                for t in 0..=msg.len() {
                    if t != 0 && t % b == 0 {
                        alg.compress(&mut c, &msg[t - b..t]);
                    }
                    let d = alg.digest_from(c, &msg[t / b * b..t], total + t as u128);
                    out.push((d, Some(alg.cv_bytes(&c))));
                }
            }
            Base::Sip { k0, k1, prefix } => {
                let mut p = prefix.clone();
                let n = p.len();
                p.extend_from_slice(msg);
                for t in 0..=msg.len() {
                    out.push((siphash(*k0, *k1, &p[..n + t]).to_le_bytes().to_vec(), None));
                }
            }
        }
        out
    }
}

/// Model of any engine of the crate: plain or HMAC.
#[derive(Clone, Debug)]
pub struct Model {
    pub inner: Base,
    pub outer: Option<Base>,
    /// What a fresh engine reports as its byte count.
    pub start_len: u128,
}

impl Model {
    pub fn plain(b: Base) -> Model {
        let start_len = match &b {
            Base::Md { total, .. } => *total,
            Base::Sip { prefix, .. } => prefix.len() as u128,
        };
        Model { inner: b, outer: None, start_len }
    }
    /// RFC 2104.
    pub fn hmac(h: Base, key: &[u8]) -> Model {
        let b = h.block();
        let mut k = if key.len() > b { h.digest(key) } else { key.to_vec() };
        assert!(k.len() <= b);
        k.resize(b, 0);
        let ipad: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        let opad: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        let base_len = Model::plain(h.clone()).start_len;
        Model { inner: h.feed(&ipad), outer: Some(h.feed(&opad)), start_len: base_len + b as u128 }
    }
    pub fn digest(&self, msg: &[u8]) -> Vec<u8> {
        let d = self.inner.digest(msg);
        match &self.outer {
            None => d,
            Some(o) => o.digest(&d),
        }
    }
    pub fn mid(&self, msg: &[u8]) -> Option<Vec<u8>> {
        let mut m = self.inner.mid(msg)?;
        if let Some(o) = &self.outer {
            m.extend_from_slice(&o.mid(&[])?);
        }
        Some(m)
    }
    pub fn block(&self) -> usize { self.inner.block() }
    pub fn out(&self) -> usize { self.inner.out() }
    pub fn table(&self, msg: &[u8]) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
        let mut t = self.inner.table(msg);
        if let Some(o) = &self.outer {
            let om = o.mid(&[]);
            for (d, m) in t.iter_mut() {
                *d = o.digest(d);
                if let (Some(m), Some(om)) = (m.as_mut(), om.as_ref()) {
                    m.extend_from_slice(om);
                }
            }
        }
        t
    }
}

/// The fixed message stream (top byte of splitmix64(i)).
pub fn stream_byte(i: u64) -> u8 {
    let mut z = i.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    ((z ^ (z >> 31)) >> 56) as u8
}
pub fn stream(n: usize) -> Vec<u8> { (0..n as u64).map(stream_byte).collect() }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// Validates the model against the committed known answers. Returns how many were checked.
pub fn self_test(max_len: usize) -> Result<u64, String> {
    let s = stream(110_000.min(max_len.max(1500)));
    let mut n = 0;
    for (i, line) in include_str!("kat.txt").lines().enumerate() {
        // Under Miri a part of the table is enough: it is the same model.
        if cfg!(miri) && i % 41 != 0 {
            continue;
        }
        let f: Vec<&str> = line.split(' ').collect();
        match f[0] {
            "H" => {
                let alg = Alg::by_name(f[1]).ok_or("alg")?;
                let len: usize = f[2].parse().map_err(|_| "len")?;
                if len > max_len {
                    continue;
                }
                if hex(&alg.digest(&s[..len])) != f[3] {
                    return Err(format!("reference model wrong: {}", line));
                }
                n += 1;
            }
            "M" => {
                let alg = Alg::by_name(f[1]).ok_or("alg")?;
                let k: usize = f[2].parse().map_err(|_| "len")?;
                let len: usize = f[3].parse().map_err(|_| "len")?;
                if len > max_len || k > max_len {
                    continue;
                }
                let m = Model::hmac(Base::plain(alg), &s[1000..1000 + k]);
                if hex(&m.digest(&s[..len])) != f[4] {
                    return Err(format!("reference HMAC model wrong: {}", line));
                }
                n += 1;
            }
            "S" => {
                // Official SipHash-2-4 vectors: key 00..0f, message 00..len-1.
                let len: usize = f[1].parse().map_err(|_| "len")?;
                let msg: Vec<u8> = (0..len as u8).collect();
                let d = siphash(0x0706050403020100, 0x0f0e0d0c0b0a0908, &msg).to_le_bytes();
                if hex(&d) != f[2] {
                    return Err(format!("reference SipHash wrong: {}", line));
                }
                n += 1;
            }
            _ => return Err(format!("bad KAT line {}", line)),
        }
    }
    Ok(n)
}

/// Digest and midstate of every prefix of a message; computed on demand under Miri.
pub struct Rows {
    model: Model,
    msg: Vec<u8>,
    rows: Option<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
}
impl Rows {
    pub fn new(model: &Model, msg: &[u8]) -> Rows {
        let rows = if cfg!(miri) { None } else { Some(model.table(msg)) };
        Rows { model: model.clone(), msg: msg.to_vec(), rows }
    }
    pub fn d(&self, l: usize) -> Vec<u8> {
        match &self.rows {
            Some(r) => r[l].0.clone(),
            None => self.model.digest(&self.msg[..l]),
        }
    }
    pub fn m(&self, l: usize) -> Option<Vec<u8>> {
        match &self.rows {
            Some(r) => r[l].1.clone(),
            None => self.model.mid(&self.msg[..l]),
        }
    }
}

/// The model restarted at `total` bytes with the chaining value of a fresh engine.
pub fn digest_at(model: &Model, total: u128, msg: &[u8]) -> Vec<u8> {
    match &model.inner {
        Base::Md { alg, cv, .. } => {
            let m = Model { inner: Base::Md { alg: *alg, cv: *cv, total }, outer: model.outer.clone(), start_len: total };
            m.digest(msg)
        }
        Base::Sip { k0, k1, prefix } => {
            let mut p = prefix.clone();
            p.extend_from_slice(msg);
            let d = siphash_len(*k0, *k1, &p, (total + msg.len() as u128) as u8).to_le_bytes().to_vec();
            match &model.outer {
                None => d,
                Some(o) => o.digest(&d),
            }
        }
    }
}
