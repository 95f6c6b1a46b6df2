//! C02: splitting a message never changes digest, byte count or midstate.
use mc::run::{self, digits, fnv, product, Ctx, Family};
use mc::spec::stream;
use mc::subjects::{self, Eng, Subject};
use mc::{want, want_bytes};
use std::sync::Arc;

struct S {
    s: Subject,
    msg: Vec<u8>,
    /// (digest, midstate) per prefix length.
    table: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    /// Midstate of the one-piece run for opaque types, per prefix length.
    b: usize,
    id: u8,
}

impl S {
    fn check(&self, cx: &mut Ctx, e: &dyn Eng, total: usize, hist: &dyn Fn() -> String) -> Result<(), String> {
        want(|| format!("{} byte count after {}", self.s.name, hist()), e.n() as u128, self.s.model.start_len + total as u128)?;
        if let Some(m) = &self.table[total].1 {
            want_bytes(|| format!("{} midstate after {}", self.s.name, hist()), &e.mid(), m)?;
        }
        cx.steps(1);
        Ok(())
    }
    fn seq(&self, cx: &mut Ctx, pieces: &[usize]) -> Result<(), String> {
        let hist = || format!("pieces {:?}", pieces);
        let mut e = (self.s.make)();
        let mut at = 0;
        for p in pieces {
            e.input(&self.msg[at..at + p]);
            at += p;
            self.check(cx, &*e, at, &hist)?;
            cx.state(fnv(&[&[self.id], &(at as u32).to_le_bytes(), &((at - p) as u32).to_le_bytes()]));
        }
        let mid = if self.s.is_sip { Some(e.mid()) } else { None };
        let d = e.fin();
        cx.outcome(fnv(&[&d]));
        want_bytes(|| format!("{} digest of {}", self.s.name, hist()), &d, &self.table[at].0)?;
        if let Some(m) = mid {
            // Opaque midstate: must equal that of the one-piece run.
            let mut o = (self.s.make)();
            o.input(&self.msg[..at]);
            want_bytes(|| format!("{} midstate after {} vs one piece", self.s.name, hist()), &m, &o.mid())?;
        }
        cx.desc(|| format!("{} {}", self.s.name, hist()));
        Ok(())
    }
    fn boundary(&self) -> Vec<usize> {
        let b = self.b;
        let mut v = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33];
        for m in 1..=2 {
            for d in [-17i64, -16, -9, -8, -1, 0, 1] {
                v.push((m * b as i64 + d).max(0) as usize);
            }
        }
        v.sort();
        v.dedup();
        v
    }
}

fn main() {
    run::main("C02", |a| {
        let t = a.tier;
        let maxlen = t.pick(700, 1 << 18, 1 << 22) as usize;
        let mut fams = Vec::new();
        let subs: Vec<Arc<S>> = subjects::all()
            .into_iter()
            .enumerate()
            .map(|(i, s)| {
                let msg = stream(maxlen);
                let b = s.model.block();
                let table_len = t.pick(700, if s.is_hmac { 24 * b } else { 70 * b }, 144 * b).max(t.pick(700, 1700, 2600));
                let table = s.model.table(&msg[..table_len]);
                Arc::new(S { s, msg, table, b, id: i as u8 })
            })
            .collect();

        for s in &subs {
            // Two pieces, every pair of sizes.
            let n = t.pick(12, 4 * s.b + 3, 6 * s.b + 3);
            let c = s.clone();
            fams.push(Family::new(format!("two-{}", s.s.name), product(&[n, n]), move |i, cx| {
                let [a, b] = digits(i, [n, n]);
                c.seq(cx, &[a, b])
            }));
        }
        for s in &subs {
            // Three pieces: every pair of sizes up to 2B+2, then boundary sizes (thorough: all).
            let n = t.pick(6, 2 * s.b + 3, 2 * s.b + 3);
            let bd: Vec<usize> = if t == run::Tier::Thorough { (0..n).collect() } else { s.boundary() };
            let m = if t == run::Tier::Tiny { 4 } else { bd.len() };
            let c = s.clone();
            fams.push(Family::new(format!("three-{}", s.s.name), product(&[n, n, m]), move |i, cx| {
                let [x, a, b] = digits(i, [m, n, n]);
                c.seq(cx, &[a, b, bd[x]])
            }));
        }
        if t != run::Tier::Tiny {
            for s in &subs {
                // Deep sequences over a small alphabet of sizes.
                let b = s.b;
                let alpha = if s.s.is_sip { [0, 1, 3, 5, 7, 8, 13, 17] } else { [0, 1, b / 2, b - 9, b - 8, b - 1, b, b + 1] };
                let depth = t.pick(3, 5, 7);
                let c = s.clone();
                fams.push(Family::new(format!("deep-{}", s.s.name), 8u64.pow(depth), move |mut i, cx| {
                    let mut p = vec![];
                    for _ in 0..depth {
                        p.push(alpha[(i % 8) as usize]);
                        i /= 8;
                    }
                    c.seq(cx, &p)
                }));
            }
            for s in &subs {
                // Uniform chunks of every size.
                let n = 2 * s.b + 2;
                let c = s.clone();
                let total = t.pick(700, 1700, 2600);
                fams.push(Family::new(format!("uniform-{}", s.s.name), product(&[n, 8]), move |i, cx| {
                    let [k, cut] = digits(i, [n, 8]);
                    let total = total - cut * 37;
                    let mut p = vec![k + 1; total / (k + 1)];
                    if total % (k + 1) != 0 {
                        p.push(total % (k + 1));
                    }
                    c.seq(cx, &p)
                }));
            }
            for s in &subs {
                // Bulk: every pending count, then every number of whole blocks (+0, +1, +B-1).
                let b = if s.s.is_sip { 8 } else { s.b };
                let kmax = t.pick(1, if s.s.is_hmac { 20 } else { 66 }, 140);
                let c = s.clone();
                fams.push(Family::new(format!("bulk-{}", s.s.name), product(&[kmax, b, 3]), move |i, cx| {
                    let [k, p, x] = digits(i, [kmax, b, 3]);
                    c.seq(cx, &[p, (k + 1) * b + [0, 1, b - 1][x], 3])
                }));
            }
            for s in &subs {
                // Large pieces: prefix of every size below a block, then 2^k +- 1 bytes, then a suffix.
                let c = s.clone();
                let kmax = t.pick(10, 17, 21) as usize;
                let ks = kmax - 9;
                let b = s.b;
                let deltas = [-1i64, 0, 1, b as i64 - 1];
                let np = if s.s.is_sip { 9 } else { 8 };
                let pref: Vec<usize> = if s.s.is_sip { (0..9).collect() } else { vec![0, 1, b / 2 - 1, b / 2, b - 17, b - 9, b - 2, b - 1] };
                fams.push(Family::new(format!("large-{}", s.s.name), product(&[ks, deltas.len(), np, 2]), move |i, cx| {
                    let [k, d, p, suf] = digits(i, [ks, deltas.len(), np, 2]);
                    let l = ((1i64 << (10 + k)) + deltas[d]) as usize;
                    let mut e = (c.s.make)();
                    let p = pref[p];
                    let suf = suf * 5;
                    e.input(&c.msg[..p]);
                    e.input(&c.msg[p..p + l]);
                    e.input(&c.msg[p + l..p + l + suf]);
                    let h = || format!("pieces [{}, {}, {}]", p, l, suf);
                    want(|| format!("{} count after {}", c.s.name, h()), e.n() as u128, c.s.model.start_len + (p + l + suf) as u128)?;
                    let m = &c.msg[..p + l + suf];
                    if let Some(x) = c.s.model.mid(m) {
                        want_bytes(|| format!("{} midstate after {}", c.s.name, h()), &e.mid(), &x)?;
                    }
                    let d = e.fin();
                    cx.steps(4);
                    cx.state(fnv(&[&[c.id, 99], &(p as u32).to_le_bytes(), &(l as u32).to_le_bytes()]));
                    cx.outcome(fnv(&[&d]));
                    want_bytes(|| format!("{} digest of {}", c.s.name, h()), &d, &c.s.model.digest(m))
                }));
            }
        }
        if t != run::Tier::Tiny {
            // Very large pieces: 2^k bytes and a little more, after a prefix.
            let kmax = t.pick(0, 24, 27);
            let ks = kmax - 17;
            let msg = Arc::new(stream((1 << kmax) + 300));
            for s in &subs {
                let (c, msg) = (s.clone(), msg.clone());
                fams.push(
                    Family::new(format!("huge-{}", s.s.name), product(&[ks, 2, 3]), move |i, cx| {
                        let [k, d, p] = digits(i, [ks, 2, 3]);
                        let l = (1usize << (kmax - k)) + d * (c.b + 1);
                        let p = [0, 1, c.b - 1][p];
                        let mut e = (c.s.make)();
                        e.input(&msg[..p]);
                        e.input(&msg[p..p + l]);
                        let h = || format!("pieces [{}, {}]", p, l);
                        want(|| format!("{} count after {}", c.s.name, h()), e.n() as u128, c.s.model.start_len + (p + l) as u128)?;
                        let d = e.fin();
                        cx.steps(3);
                        cx.state(fnv(&[&[c.id, 97], &(p as u32).to_le_bytes(), &(l as u32).to_le_bytes()]));
                        cx.outcome(fnv(&[&d]));
                        want_bytes(|| format!("{} digest of {}", c.s.name, h()), &d, &c.s.model.digest(&msg[..p + l]))
                    })
                    .slow(200),
                );
            }
        }
        if t != run::Tier::Tiny {
            for s in &subs {
                // Very many pieces (counts around powers of two), fed or as chunks.
                let c = s.clone();
                let mut counts: Vec<usize> = (0..40).collect();
                for k in 6..=t.pick(0, 16, 20) {
                    counts.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
                }
                let n = counts.len();
                fams.push(
                    Family::new(format!("many-{}", s.s.name), product(&[n, 3]), move |i, cx| {
                        let [k, z] = digits(i, [n, 3]);
                        let (k, z) = (counts[k], [0, 1, 3][z]);
                        let m = &c.msg[..k * z + 5];
                        let mut e = (c.s.make)();
                        for j in 0..k {
                            e.input(&m[j * z..(j + 1) * z]);
                        }
                        e.input(&m[k * z..]);
                        cx.steps(k as u64 + 4);
                        cx.state(fnv(&[&[c.id, 96, z as u8], &(k as u32).to_le_bytes()]));
                        let h = || format!("{} pieces of {} bytes, then 5", k, z);
                        want(|| format!("{} count after {}", c.s.name, h()), e.n() as u128, c.s.model.start_len + m.len() as u128)?;
                        let d = e.fin();
                        cx.outcome(fnv(&[&d]));
                        want_bytes(|| format!("{} digest of {}", c.s.name, h()), &d, &c.s.model.digest(m))?;
                        let mut p: Vec<&[u8]> = (0..k).map(|j| &m[j * z..(j + 1) * z]).collect();
                        p.push(&m[k * z..]);
                        let d = c.s.dmodel.digest(m);
                        want_bytes(|| format!("{} hash_byte_chunks of {}", c.s.name, h()), &(c.s.chunks)(&p), &d)?;
                        for how in 0..subjects::CHUNKERS {
                            want_bytes(|| format!("{} hash_byte_chunks ({}) of {}", c.s.name, subjects::CHUNKER_NAMES[how], h()), &(c.s.chunks_by)(how, &p), &d)?;
                        }
                        Ok(())
                    })
                    .slow(200),
                );
            }
        }
        for s in &subs {
            // Iterator-of-chunks helper: every list of up to 4 boundary sizes.
            let b = s.b;
            let alpha: Vec<usize> = if t == run::Tier::Tiny { vec![0, 1, b] } else { vec![0, 1, 7, 8, b - 9, b - 8, b - 1, b, b + 1, 2 * b] };
            let depth = t.pick(2, 3, 4);
            let c = s.clone();
            let k = alpha.len() as u64;
            let n: u64 = (0..=depth).map(|d| k.pow(d)).sum();
            let dt = s.s.dmodel.table(&s.msg[..(2 * b * 4 + 1).min(600 + 3 * b)]);
            fams.push(Family::new(format!("chunks-{}", s.s.name), n, move |mut i, cx| {
                let mut d = 0;
                while i >= k.pow(d) {
                    i -= k.pow(d);
                    d += 1;
                }
                let mut p = vec![];
                let mut at = 0;
                let mut sizes = vec![];
                for _ in 0..d {
                    let l = alpha[(i % k) as usize];
                    i /= k;
                    p.push(&c.msg[at..at + l]);
                    sizes.push(l);
                    at += l;
                }
                if at >= dt.len() {
                    return Ok(());
                }
                let got = (c.s.chunks)(&p);
                cx.steps(1 + d as u64);
                cx.state(fnv(&[&[c.id, 98], &(at as u32).to_le_bytes(), &[d as u8]]));
                cx.desc(|| format!("{} hash_byte_chunks {:?}", c.s.name, sizes));
                want_bytes(|| format!("{} hash_byte_chunks {:?}", c.s.name, sizes), &got, &dt[at].0)?;
                for how in 0..subjects::CHUNKERS {
                    cx.steps(1);
                    want_bytes(|| format!("{} hash_byte_chunks ({}) {:?}", c.s.name, subjects::CHUNKER_NAMES[how], sizes), &(c.s.chunks_by)(how, &p), &dt[at].0)?;
                }
                want_bytes(|| format!("{} hash of {} bytes", c.s.name, at), &(c.s.oneshot)(&c.msg[..at]), &dt[at].0)
            }));
        }
        fams
    });
}
