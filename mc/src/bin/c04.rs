//! C04: message length is counted and encoded exactly, however long the message.
use mc::run::{self, digits, fnv, product, Family, Tier};
use mc::spec::{digest_at as at, hex, siphash, stream, Base};
use mc::subjects::{self, Subject};
use mc::{want, want_bytes, zeros};
use std::sync::Arc;

/// The digest of `n` zero bytes according to the committed known answers (or the model for SipHash).
fn known(s: &Subject, n: usize) -> Option<Vec<u8>> {
    if s.is_sip {
        let z = zeros(n + 64);
        return Some(match (&s.model.inner, &s.model.outer) {
            (Base::Sip { k0, k1, prefix }, None) => {
                assert!(prefix.is_empty());
                siphash(*k0, *k1, &z[..n]).to_le_bytes().to_vec()
            }
            _ => return None,
        });
    }
    for l in include_str!("../kat_long.txt").lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let hit = match f[0] {
            "H" => f[1] == s.name && f[2].parse::<usize>() == Ok(n),
            "M" => s.name == format!("hmac-{}", f[1]) && f[3].parse::<usize>() == Ok(n),
            _ => s.name == "sha256t" && f[1].parse::<usize>() == Ok(n),
        };
        if hit {
            let h = f[f.len() - 1];
            return Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
        }
    }
    None
}

fn main() {
    run::main("C04", |a| {
        let t = a.tier;
        let key = stream(1033)[1000..].to_vec();
        let mut v = subjects::plain();
        v.extend(subjects::hmacs(&key));
        let subs: Vec<Arc<Subject>> = v.into_iter().map(Arc::new).collect();
        let s = Arc::new(stream(4096));
        let mut fams = Vec::new();
        for sub in &subs {
            // Restored lengths around every power of two, every suffix at the boundaries.
            let unit = sub.unit;
            let b = sub.model.block();
            let bits = usize::BITS.min(62) as usize - 1; // 2^61 on 64-bit targets
            let mut lens: Vec<usize> = Vec::new();
            for k in 7..=bits {
                for j in -2i64..=1 {
                    let l = (1u64 << k) as i64 + j * unit as i64;
                    if l > 0 && (l as u128 + 1000) < (1u128 << bits) {
                        lens.push(l as usize / unit * unit);
                    }
                }
            }
            // Bit patterns that truncation to 8, 16, 32, 40, 48, 56 bits would change.
            for l in [0x0102030405060700u64, 0x1f00000000000000, 0x00ffffffffffff00, 0x1234567800000000, 0x1edcba9876543200, 0x15555555aaaaaa80, 0x1fffffffffffe000] {
                if l as u128 <= usize::MAX as u128 {
                    lens.push(l as usize / 128 * 128);
                }
            }
            let suf: Vec<usize> = t.pick(
                vec![0, 1, b - 9, b],
                vec![0, 1, 7, 8, b / 2, b - 18, b - 17, b - 16, b - 10, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 9, 2 * b, 3 * b + 1],
                (0..3 * b + 2).collect(),
            );
            let suf: Vec<usize> = if t == Tier::Tiny && unit == 8 { vec![0, 1] } else { suf };
            if t == Tier::Tiny {
                lens = lens.into_iter().step_by(9).collect();
            }
            let (nl, ns) = (lens.len(), suf.len());
            let (sub, s) = (sub.clone(), s.clone());
            fams.push(Family::new(format!("restored-{}", sub.name), product(&[nl, ns, 2]), move |i, cx| {
                let [l, k, split] = digits(i, [nl, ns, 2]);
                let (l, k) = (lens[l], suf[k]);
                let h = || format!("{} restored at length {} (0x{:x}) plus {} bytes", sub.name, l, l, k);
                cx.desc(h);
                cx.state(fnv(&[sub.name.as_bytes(), &(l as u64).to_le_bytes(), &(k as u32).to_le_bytes()]));
                let mut e = (sub.make)().restore(l);
                want(|| format!("byte count of {} before input", h()), e.n(), l)?;
                if split == 0 {
                    e.input(&s[..k]);
                } else {
                    e.input(&s[..k / 3]);
                    want(|| format!("byte count of {} after {}", h(), k / 3), e.n(), l + k / 3)?;
                    e.input(&s[k / 3..k]);
                }
                want(|| format!("byte count of {}", h()), e.n(), l + k)?;
                let d = e.dup().fin();
                cx.steps(4);
                cx.outcome(fnv(&[&d]));
                want_bytes(|| format!("digest of {}", h()), &d, &at(&sub.model, l as u128, &s[..k]))
            }));
        }
        if t == Tier::Tiny {
            return fams;
        }
        // Real long streams of zeros, checked at each known total.
        let top = t.pick(0usize, (1 << 29) + 100, (1 << 33) + 100);
        let chunk_sizes = [(1usize << 20) + 17, 65536 - 1];
        let nch = t.pick(0, 1, 2);
        let subs2 = subs.clone();
        let z = zeros((1 << 20) + 64);
        let ns = subs.len();
        fams.push(Family::new("stream", product(&[nch, ns]), move |i, cx| {
            let [c, k] = digits(i, [nch, ns]);
            let sub = &subs2[k];
            if sub.name == "siphash24" || sub.name == "hmac-siphash24" || sub.name == "hmac-sha256t" {
                return Ok(());
            }
            let chunk = chunk_sizes[c];
            let marks: Vec<usize> = [20, 24, 28, 29, 30, 31, 32, 33].iter().flat_map(|k| [-1i64, 0, 1, 100].map(|d| ((1i64 << k) + d) as usize)).filter(|x| *x <= top).collect();
            let mut e = (sub.make)();
            let mut at = 0;
            for m in marks {
                while at < m {
                    let n = chunk.min(m - at);
                    e.input(&z[..n]);
                    at += n;
                }
                cx.steps(2);
                cx.state(fnv(&[sub.name.as_bytes(), &[c as u8, 5], &(m as u64).to_le_bytes()]));
                want(|| format!("{} byte count after {} zero bytes", sub.name, m), e.n() as u128, sub.model.start_len + m as u128)?;
                if let Some(d) = known(sub, m) {
                    want(|| format!("{} digest of {} zero bytes in chunks of {}", sub.name, m, chunk), hex(&e.dup().fin()), hex(&d))?;
                }
            }
            Ok(())
        }).slow(900));
        // One slice longer than 4 GiB.
        if t == Tier::Thorough || (!cfg!(debug_assertions) && !cfg!(feature = "small-hash")) {
            let lens: Vec<usize> = t.pick(vec![], vec![(1 << 32) + 100], vec![(1 << 30) + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 100, (1 << 33) + 100]);
            let nl = lens.len();
            let subs2 = subs.clone();
            let zz = zeros((1 << 33) + 4096);
            fams.push(Family::new("oneslice", product(&[nl, ns]), move |i, cx| {
                let [l, k] = digits(i, [nl, ns]);
                let sub = &subs2[k];
                let l = lens[l];
                if t == Tier::Quick && (sub.is_hmac || ["siphash24", "sha384", "sha512_256"].contains(&sub.name.as_str())) {
                    return Ok(());
                }
                let Some(d) = known(sub, l) else { return Ok(()) };
                let mut e = (sub.make)();
                e.input(&zz[..l]);
                cx.steps(2);
                cx.state(fnv(&[sub.name.as_bytes(), &[6], &(l as u64).to_le_bytes()]));
                want(|| format!("{} byte count after one slice of {} bytes", sub.name, l), e.n() as u128, sub.model.start_len + l as u128)?;
                want(|| format!("{} digest of one slice of {} zero bytes", sub.name, l), hex(&e.fin()), hex(&d))
            }).slow(900));
        }
        fams
    });
}
