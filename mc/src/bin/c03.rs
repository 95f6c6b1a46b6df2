//! C03: an engine restored from its midstate is indistinguishable from the original.
use chf::{ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, HashEngine};
use mc::run::{self, digits, fnv, guarded, panics, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, Base, Model, ALGS};
use mc::subjects::{self, wrap, Eng, Subject, Tg};
use mc::{want, want_bytes};
use std::sync::Arc;

struct S {
    s: Subject,
    msg: Vec<u8>,
    table: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    id: u8,
}

impl S {
    fn obs(&self, cx: &mut Ctx, e: &dyn Eng, at: usize, h: &dyn Fn() -> String) -> Result<(), String> {
        cx.steps(2);
        want(|| format!("{} byte count {}", self.s.name, h()), e.n() as u128, self.s.model.start_len + at as u128)?;
        if let Some(m) = &self.table[at].1 {
            want_bytes(|| format!("{} midstate {}", self.s.name, h()), &e.mid(), m)?;
        }
        Ok(())
    }
    /// saves = units at which to save and restore (increasing), cont = continuation pieces.
    fn run(&self, cx: &mut Ctx, saves: &[usize], cont: &[usize]) -> Result<(), String> {
        let h = || format!("saved/restored at units {:?}, continued with pieces {:?}", saves, cont);
        cx.desc(|| format!("{} {}", self.s.name, h()));
        let mut e = (self.s.make)();
        let mut o = (self.s.make)();
        let mut at = 0;
        for s in saves {
            let to = s * self.s.unit;
            e.input(&self.msg[at..to]);
            o.input(&self.msg[at..to]);
            at = to;
            let n = e.n();
            e = guarded(|| e.restore(n)).map_err(|p| format!("{} restore panicked {}: {}", self.s.name, h(), p))?;
            cx.steps(3);
            self.obs(cx, &*e, at, &h)?;
            want_bytes(|| format!("{} midstate of restored {} vs original", self.s.name, h()), &e.mid(), &o.mid())?;
        }
        for c in cont {
            e.input(&self.msg[at..at + c]);
            o.input(&self.msg[at..at + c]);
            at += c;
            cx.steps(2);
            self.obs(cx, &*e, at, &h)?;
            want_bytes(|| format!("{} midstate of restored {} vs original", self.s.name, h()), &e.mid(), &o.mid())?;
        }
        cx.state(fnv(&[&[self.id], format!("{:?}{:?}", saves, cont).as_bytes()]));
        let d = e.fin();
        cx.outcome(fnv(&[&d]));
        want_bytes(|| format!("{} digest of restored {}", self.s.name, h()), &d, &self.table[at].0)?;
        want_bytes(|| format!("{} digest of original {}", self.s.name, h()), &o.fin(), &d)
    }
}

/// Engine built from arbitrary midstate bytes.
fn from_cv(alg: Alg, cv: &[u8], len: usize) -> Box<dyn Eng> {
    fn arr<const N: usize>(b: &[u8]) -> [u8; N] { b.try_into().unwrap() }
    match alg {
        Alg::Sha1 => wrap(sha1::Engine::from_midstate(arr(cv), len)),
        Alg::Sha256 => wrap(sha256::Engine::from_midstate(sha256::Midstate(arr(cv)), len)),
        Alg::Sha384 => wrap(sha384::Engine::from_midstate(arr(cv), len)),
        Alg::Sha512 => wrap(sha512::Engine::from_midstate(arr(cv), len)),
        Alg::Sha512_256 => wrap(sha512_256::Engine::from_midstate(arr(cv), len)),
        Alg::Ripemd160 => wrap(ripemd160::Engine::from_midstate(arr(cv), len)),
    }
}

fn main() {
    run::main("C03", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        let subs: Vec<Arc<S>> = subjects::all()
            .into_iter()
            .enumerate()
            .map(|(i, s)| {
                let n = t.pick(700, 140 * s.model.block() + 40, 280 * s.model.block() + 40).max(400);
                let msg = stream(n);
                let table = s.model.table(&msg);
                Arc::new(S { s, msg, table, id: i as u8 })
            })
            .collect();
        for s in &subs {
            // One save at every unit, every continuation length.
            let ns = t.pick(2, 130, 260) * if s.s.is_sip { 3 } else { 1 };
            let nc = t.pick(8, 2 * s.s.model.block() + 3, 3 * s.s.model.block() + 3);
            let c = s.clone();
            fams.push(Family::new(format!("once-{}", s.s.name), product(&[ns, nc]), move |i, cx| {
                let [sv, k] = digits(i, [ns, nc]);
                c.run(cx, &[sv], &[k])
            }));
        }
        for s in &subs {
            // One save, two continuation pieces.
            let b = s.s.model.block();
            let al: Vec<usize> = if s.s.is_sip { (0..18).collect() } else if t == Tier::Tiny { vec![0, 1, b] } else { vec![0, 1, 7, 8, b / 2, b - 17, b - 16, b - 9, b - 8, b - 1, b, b + 1, b + b / 2, 2 * b] };
            let k = al.len();
            let ns = t.pick(2, 16, 40);
            let c = s.clone();
            fams.push(Family::new(format!("pieces-{}", s.s.name), product(&[ns, k, k]), move |i, cx| {
                let [sv, x, y] = digits(i, [ns, k, k]);
                c.run(cx, &[sv], &[al[x], al[y]])
            }));
        }
        for s in &subs {
            // Save and restore repeatedly (including twice at the same point).
            let n = t.pick(2, 9, 16);
            let b = s.s.model.block();
            let al = vec![0, 1, b / 2 - 1, b - 8, b - 1, b, b + 3];
            let k = al.len();
            let c = s.clone();
            fams.push(Family::new(format!("repeat-{}", s.s.name), product(&[n, n, n, k]), move |i, cx| {
                let [x, y, z, k] = digits(i, [n, n, n, k]);
                c.run(cx, &[x, x + y, x + y + z], &[al[k]])
            }));
        }
        // Restore lengths off the block boundary are refused (unkeyed block hashes and tagged).
        let lens = t.pick(200, 1100, 5000);
        fams.push(Family::new("refuse", product(&[8, lens]), move |i, cx| {
            let [k, len] = digits(i, [8, lens]);
            let (name, block) = if k < 6 { (ALGS[k].name(), ALGS[k].block()) } else { (["sha256t", "sha256 (trait)"][k - 6], 64) };
            let p = panics(|| {
                if k < 6 {
                    let cv = ALGS[k].cv_bytes(&ALGS[k].iv());
                    let cv = if cv.len() == 64 || k == 0 || k == 1 || k == 5 { cv } else { unreachable!() };
                    drop(from_cv(ALGS[k], &cv, len));
                } else if k == 6 {
                    drop(sha256t::Engine::<Tg>::from_midstate(sha256::Midstate([7; 32]), len));
                } else {
                    drop(<sha256::Engine as HashEngine>::from_midstate(sha256::Midstate([7; 32]), len));
                }
            });
            cx.steps(1);
            cx.state(fnv(&[&[k as u8, 77], &(len as u32).to_le_bytes()]));
            cx.outcome(p as u64 + 2);
            cx.desc(|| format!("{} from_midstate with length {}", name, len));
            want(|| format!("{} from_midstate with length {} panics", name, len), p, len % block != 0)
        }));
        // Far lengths, on and off the boundary.
        fams.push(Family::new("refuse-far", product(&[8, 61 - 13, 5]), move |i, cx| {
            let [k, sh, d] = digits(i, [8, 61 - 13, 5]);
            let len = (1usize << (13 + sh)) + [0, 1, 8, 63, 127][d];
            let (name, block) = if k < 6 { (ALGS[k].name(), ALGS[k].block()) } else { (["sha256t", "sha256 (trait)"][k - 6], 64) };
            let p = panics(|| {
                if k < 6 {
                    let cv = ALGS[k].cv_bytes(&ALGS[k].iv());
                    drop(from_cv(ALGS[k], &cv, len));
                } else if k == 6 {
                    drop(sha256t::Engine::<Tg>::from_midstate(sha256::Midstate([7; 32]), len));
                } else {
                    drop(<sha256::Engine as HashEngine>::from_midstate(sha256::Midstate([7; 32]), len));
                }
            });
            cx.steps(1);
            cx.state(fnv(&[&[k as u8, 78], &(len as u64).to_le_bytes()]));
            want(|| format!("{} from_midstate with length {} panics", name, len), p, len % block != 0)
        }));
        // Restored with a far length: count, digest and midstate of every continuation follow.
        for sub in &subs {
            let (b, unit) = (sub.s.model.block(), sub.s.unit);
            let ks = t.pick(2, 48, 52);
            let al: Vec<usize> = t.pick(vec![0, 1], vec![0, 1, 7, 8, b / 2, b - 17, b - 9, b - 8, b - 1, b, b + 1, 2 * b], (0..2 * b + 2).collect());
            let na = al.len();
            let c = sub.clone();
            fams.push(Family::new(format!("far-{}", sub.s.name), product(&[ks, 3, na]), move |i, cx| {
                let [k, d, x] = digits(i, [ks, 3, na]);
                let len = (((1usize << (60 - k)) + [0, b, 37 * b][d]) / b * b).max(b) / unit * unit;
                let h = || format!("{} restored with length {} (0x{:x}), continued with {} bytes", c.s.name, len, len, al[x]);
                cx.desc(h);
                let mut e = (c.s.make)().restore(len);
                want(|| format!("byte count of {} before input", h()), e.n(), len)?;
                let m = &c.msg[..al[x]];
                e.input(&m[..al[x] / 2]);
                e.input(&m[al[x] / 2..]);
                want(|| format!("byte count of {}", h()), e.n(), len + al[x])?;
                if al[x] % b == 0 {
                    let n = e.n();
                    e = e.restore(n);
                }
                cx.steps(5);
                cx.state(fnv(&[&[c.id, 55], &(len as u64).to_le_bytes(), &(al[x] as u32).to_le_bytes()]));
                let d = e.fin();
                cx.outcome(fnv(&[&d]));
                want_bytes(|| format!("digest of {}", h()), &d, &mc::spec::digest_at(&c.s.model, len as u128, m))
            }));
        }
        // Arbitrary chaining values: every (byte position, value) over two backgrounds; the
        // exported midstate must be the imported one and continuations must follow the model.
        for alg in ALGS {
            let nb = alg.words() * alg.word_bytes();
            let vals = t.pick(2, 256, 256);
            fams.push(Family::new(format!("cv-{}", alg.name()), product(&[2, nb, vals]), move |i, cx| {
                let [bg, pos, v] = digits(i, [2, nb, vals]);
                let mut cv = if bg == 0 { vec![0u8; nb] } else { stream(nb) };
                cv[pos] = v as u8;
                let mut words = [0u64; 8];
                for w in 0..alg.words() {
                    let c = &cv[w * alg.word_bytes()..(w + 1) * alg.word_bytes()];
                    let mut x = 0u64;
                    if alg == Alg::Ripemd160 {
                        for b in c.iter().rev() {
                            x = x << 8 | *b as u64;
                        }
                    } else {
                        for b in c {
                            x = x << 8 | *b as u64;
                        }
                    }
                    words[w] = x;
                }
                let model = Model::plain(Base::Md { alg, cv: mc::spec::Cv(words), total: alg.block() as u128 * 3 });
                let mut e = from_cv(alg, &cv, alg.block() * 3);
                cx.desc(|| format!("{} from_midstate({}, {})", alg.name(), mc::show(&cv), alg.block() * 3));
                cx.state(fnv(&[&[alg as u8, 66], &cv]));
                cx.steps(5);
                want_bytes(|| format!("{} midstate after restoring it", alg.name()), &e.mid(), &cv)?;
                want_bytes(|| format!("{} digest from cv {}", alg.name(), mc::show(&cv)), &e.dup().fin(), &model.digest(&[]))?;
                let m = stream(alg.block() + 5);
                e.input(&m);
                want_bytes(|| format!("{} midstate from cv {} plus a block", alg.name(), mc::show(&cv)), &e.mid(), &model.mid(&m).unwrap())?;
                want_bytes(|| format!("{} digest from cv {} plus a block", alg.name(), mc::show(&cv)), &e.fin(), &model.digest(&m))
            }));
        }
        fams
    });
}
