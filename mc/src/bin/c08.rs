//! C08: compile-time SHA-256 equals run-time SHA-256.
#![allow(long_running_const_eval)]
use chf::sha256::{Engine, Hash, Midstate};
use chf::HashEngine;
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, Base, Model};
use mc::{show, want, want_bytes};
use std::sync::Arc;

// A const copy of the message stream.
const N: usize = 330;
const fn stream_c<const L: usize>(seed: u64) -> [u8; L] {
    let mut o = [0u8; L];
    let mut i = 0;
    while i < L {
        let mut z = (i as u64 + seed).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        o[i] = ((z ^ (z >> 31)) >> 56) as u8;
        i += 1;
    }
    o
}
const S: [u8; N] = stream_c::<N>(0);
const ZERO: [u8; N] = [0; N];
const ONES: [u8; N] = [0xff; N];

const ZH: Hash = Hash::const_hash(&[]);

/// Evaluated by the compiler: the hash of every prefix.
const fn table(s: &[u8; N]) -> [Hash; N + 1] {
    let mut t = [ZH; N + 1];
    let mut i = 0;
    while i <= N {
        let (p, _) = s.split_at(i);
        t[i] = Hash::const_hash(p);
        i += 1;
    }
    t
}
const fn tag_table(s: &[u8; N]) -> [Midstate; 200] {
    let mut t = [Midstate([0; 32]); 200];
    let mut i = 0;
    while i < 200 {
        let (p, _) = s.split_at(i);
        t[i] = Midstate::hash_tag(p);
        i += 1;
    }
    t
}
static CT_S: [Hash; N + 1] = table(&S);
static CT_Z: [Hash; N + 1] = table(&ZERO);
static CT_F: [Hash; N + 1] = table(&ONES);
static CT_TAG: [Midstate; 200] = tag_table(&S);
static BIG: [u8; 4099] = stream_c::<4099>(0);
static CT_BIG: Hash = Hash::const_hash(&stream_c::<4099>(0));
static CT_BYTES: [Hash; 256] = {
    let mut t = [ZH; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = Hash::const_hash(&[i as u8]);
        i += 1;
    }
    t
};

fn runtime(m: &[u8]) -> [u8; 32] {
    let mut e = Engine::new();
    e.input(m);
    e.finalize()
}

fn one(cx: &mut Ctx, m: &[u8]) -> Result<(), String> {
    let d = Alg::Sha256.digest(m);
    cx.steps(2);
    cx.state(fnv(&[m]));
    cx.outcome(fnv(&[&d]));
    cx.desc(|| format!("const_hash({}) = {}", show(m), show(&d)));
    want_bytes(|| format!("const_hash at run time of {} ({} bytes)", show(m), m.len()), &Hash::const_hash(m).to_byte_array(), &d)?;
    want_bytes(|| format!("run-time hash of {} ({} bytes)", show(m), m.len()), &runtime(m), &d)
}

fn tag(cx: &mut Ctx, t: &[u8]) -> Result<(), String> {
    let model = Model::plain(Base::tagged(t)).mid(&[]).unwrap();
    cx.steps(2);
    cx.state(fnv(&[b"tag", t]));
    want_bytes(|| format!("hash_tag({}) ({} bytes)", show(t), t.len()), &Midstate::hash_tag(t).0, &model)?;
    let h = runtime(t);
    let mut e = Engine::new();
    e.input(&h);
    e.input(&h);
    cx.desc(|| format!("hash_tag({}) = {}", show(t), show(&model)));
    want_bytes(|| format!("run-time midstate for tag {}", show(t)), &e.midstate().0, &model)
}

/// Model digests of all prefixes.
fn prefix_digests(msg: &[u8]) -> Vec<[u8; 32]> {
    let a = Alg::Sha256;
    let mut cv = a.iv();
    (0..=msg.len())
        .map(|t| {
            if t != 0 && t % 64 == 0 {
                a.compress(&mut cv, &msg[t - 64..t]);
            }
            a.digest_from(cv, &msg[t / 64 * 64..t], t as u128).try_into().unwrap()
        })
        .collect()
}

fn main() {
    run::main("C08", |a| {
        let t = a.tier;
        let s = Arc::new(stream(1 << 17));
        let mut fams = Vec::new();
        fams.push(Family::new("compiled-prefixes", product(&[3, t.pick(5, N + 1, N + 1)]), move |i, cx| {
            let [k, l] = digits(i, [3, t.pick(5, N + 1, N + 1)]);
            let (tab, s) = [(&CT_S, &S), (&CT_Z, &ZERO), (&CT_F, &ONES)][k];
            cx.steps(2);
            cx.state(fnv(&[b"ct", &[k as u8], &(l as u32).to_le_bytes()]));
            cx.desc(|| format!("compiler-evaluated hash of prefix {} of pattern {}", l, k));
            let d = Alg::Sha256.digest(&s[..l]);
            want_bytes(|| format!("compiler-evaluated const_hash of pattern {} length {}", k, l), &tab[l].to_byte_array(), &d)?;
            want_bytes(|| format!("run-time hash of pattern {} length {}", k, l), &runtime(&s[..l]), &d)
        }));
        fams.push(Family::new("compiled-tags", t.pick(3, 200, 200), move |i, cx| {
            let l = i as usize;
            cx.steps(1);
            cx.state(fnv(&[b"ctt", &(l as u32).to_le_bytes()]));
            want_bytes(|| format!("compiler-evaluated hash_tag of length {}", l), &CT_TAG[l].0, &Model::plain(Base::tagged(&S[..l])).mid(&[]).unwrap())?;
            tag(cx, &S[..l])
        }));
        fams.push(Family::new("compiled-bytes", 257, move |i, cx| {
            cx.steps(1);
            cx.state(fnv(&[b"ctb", &(i as u32).to_le_bytes()]));
            if i == 256 {
                return want_bytes(|| "compiler-evaluated const_hash of 4099 bytes".into(), &CT_BIG.to_byte_array(), &Alg::Sha256.digest(&BIG));
            }
            want_bytes(|| format!("compiler-evaluated const_hash of byte {}", i), &CT_BYTES[i as usize].to_byte_array(), &Alg::Sha256.digest(&[i as u8]))
        }));
        let n = t.pick(5, 4200, 20_000);
        let c = s.clone();
        fams.push(Family::new("length", product(&[n, 3]), move |i, cx| {
            let [l, k] = digits(i, [n, 3]);
            match k {
                0 => one(cx, &c[..l]),
                1 => one(cx, &vec![0; l]),
                _ => one(cx, &vec![0xff; l]),
            }
        }));
        if t == Tier::Tiny {
            return fams;
        }
        let n = t.pick(0, 67_000, 132_000);
        let c = s.clone();
        let rows: std::sync::OnceLock<Vec<[u8; 32]>> = std::sync::OnceLock::new();
        fams.push(Family::new("everylen", n as u64, move |i, cx| {
            let rows = rows.get_or_init(|| prefix_digests(&c[..n]));
            let m = &c[..i as usize];
            cx.steps(1);
            cx.state(fnv(&[b"every", &i.to_le_bytes()]));
            cx.outcome(fnv(&[&rows[i as usize]]));
            want_bytes(|| format!("const_hash at run time of the first {} stream bytes", i), &Hash::const_hash(m).to_byte_array(), &rows[i as usize])
        }));
        fams.push(Family::new("short", 65536 + 256, move |i, cx| {
            if i < 256 {
                one(cx, &[i as u8])
            } else {
                one(cx, &((i - 256) as u16).to_be_bytes())
            }
        }));
        for bg in 0..2 {
            let nl = t.pick(0, 4, 9);
            let c = s.clone();
            fams.push(Family::new(format!("posval{}", bg), product(&[nl, 192, 256]), move |i, cx| {
                let [l, p, v] = digits(i, [nl, 192, 256]);
                let l = [64, 120, 55, 119, 56, 63, 65, 128, 192][l];
                if p >= l {
                    return Ok(());
                }
                let mut m = if bg == 0 { c[..l].to_vec() } else { vec![0; l] };
                m[p] = v as u8;
                one(cx, &m)
            }));
        }
        let c = s.clone();
        fams.push(Family::new("bitpair", product(&[512, 512]), move |i, cx| {
            let [x, y] = digits(i, [512, 512]);
            if y > x {
                return Ok(());
            }
            let mut m = c[..64].to_vec();
            m[x / 8] ^= 1 << (x % 8);
            if x != y {
                m[y / 8] ^= 1 << (y % 8);
            }
            one(cx, &m)
        }));
        let c = s.clone();
        let nt = t.pick(0, 2200, 9000);
        fams.push(Family::new("tag", product(&[nt, 3]), move |i, cx| {
            let [l, k] = digits(i, [nt, 3]);
            match k {
                0 => tag(cx, &c[..l]),
                1 => tag(cx, &vec![0; l]),
                _ => tag(cx, &vec![0xff; l]),
            }
        }));
        let c = s.clone();
        fams.push(Family::new("long", product(&[6, 3]), move |i, cx| {
            let [k, d] = digits(i, [6, 3]);
            one(cx, &c[..(1usize << (11 + k)) + d - 1])
        }));
        let c = s.clone();
        fams.push(Family::new("longtag", product(&[6, 3]), move |i, cx| {
            let [k, d] = digits(i, [6, 3]);
            tag(cx, &c[..(1usize << (11 + k)) + d - 1])
        }));
        let c = s.clone();
        fams.push(Family::new("tagbyte", product(&[4, 130, 256]), move |i, cx| {
            let [l, p, v] = digits(i, [4, 130, 256]);
            let l = [1, 33, 64, 130][l];
            if p >= l {
                return Ok(());
            }
            let mut m = c[..l].to_vec();
            m[p] = v as u8;
            tag(cx, &m)
        }));
        // So long that the bit length needs more than 32 bits, or the byte length does.
        #[cfg(not(any(miri, debug_assertions)))]
        if t == Tier::Thorough || cfg!(feature = "std") {
            let lens: Vec<usize> = vec![(1 << 32) + 100, (1 << 29) - 1, 1 << 29, (1 << 29) + 1, (1 << 28) + 1, 1 << 24, (1 << 30) + 1];
            let z = unsafe {
                let n = lens[0];
                let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                assert!(p != libc::MAP_FAILED);
                std::slice::from_raw_parts(p as *const u8, n)
            };
            fams.push(
                Family::new("huge", lens.len() as u64, move |i, cx| {
                    let n = lens[i as usize];
                    let known = include_str!("../kat_long.txt").lines().find_map(|l| l.strip_prefix(&format!("H sha256 {} ", n))).expect("known answer");
                    cx.steps(2);
                    cx.state(fnv(&[b"huge", &i.to_le_bytes()]));
                    want(|| format!("const_hash at run time of {} zero bytes", n), mc::spec::hex(&Hash::const_hash(&z[..n]).to_byte_array()), known.to_string())?;
                    if n >> 30 == 0 {
                        let h = runtime(&z[..n]);
                        let mut e = Engine::new();
                        e.input(&h);
                        e.input(&h);
                        want_bytes(|| format!("hash_tag of {} zero bytes", n), &Midstate::hash_tag(&z[..n]).0, &e.midstate().0)?;
                    }
                    Ok(())
                })
                .slow(900),
            );
        }
        let steps = t.pick(0, 20_000, 500_000);
        fams.push(Family::new("orbit", 16, move |i, cx| {
            let mut m = vec![i as u8; 1 + i as usize];
            for _ in 0..steps {
                let d = Hash::const_hash(&m).to_byte_array();
                want_bytes(|| format!("const_hash({})", show(&m)), &d, &runtime(&m))?;
                cx.steps(2);
                cx.state(fnv(&[&d]));
                m.truncate(0);
                m.extend_from_slice(&d);
                if i % 2 == 1 {
                    let k = d[0] as usize % 70;
                    m.extend_from_slice(&[d[1]; 70][..k]);
                }
            }
            Ok(())
        }));
        fams
    });
}
