//! C07: tagged SHA-256 equals SHA256(SHA256(tag) || SHA256(tag) || message).
use chf::{sha256, sha256t, HashEngine};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, Base, Model};
use mc::subjects::{Rt, Tg, TAG};
use mc::{show, want, want_bytes};
use std::sync::Arc;

/// The definition, computed over the full prefixed message.
fn tagged(tag: &[u8], msg: &[u8]) -> Vec<u8> {
    let t = Alg::Sha256.digest(tag);
    let mut m = Vec::with_capacity(64 + msg.len());
    m.extend_from_slice(&t);
    m.extend_from_slice(&t);
    m.extend_from_slice(msg);
    Alg::Sha256.digest(&m)
}

fn entries<T: sha256t::Tag>(m: &[u8], cut: usize) -> Vec<(&'static str, [u8; 32], usize)> {
    let n0 = 64 + m.len();
    let mut v = Vec::with_capacity(10);
    v.push(("Hash::hash", sha256t::Hash::<T>::hash(m).to_byte_array(), n0));
    v.push(("HashEngine::hash", <sha256t::Engine<T> as HashEngine>::hash(m), n0));
    v.push(("hash_byte_chunks", sha256t::Engine::<T>::hash_byte_chunks([&m[..cut], &m[cut..]]), n0));
    for (n, mut e) in [
        ("Hash::engine", sha256t::Hash::<T>::engine()),
        ("Tag::engine", <T as sha256t::Tag>::engine()),
        ("Engine::default", sha256t::Engine::<T>::default()),
        ("Engine::new", <sha256t::Engine<T> as HashEngine>::new()),
    ] {
        e.input(&m[..cut]);
        e.input(&m[cut..]);
        let c = e.n_bytes_hashed();
        v.push((n, e.clone().finalize(), c));
        v.push(("from_engine", sha256t::Hash::<T>::from_engine(e).to_byte_array(), c));
    }
    v
}

fn one(cx: &mut Ctx, tag: &[u8], m: &[u8], cut: usize) -> Result<(), String> {
    let mid = sha256::Midstate::hash_tag(tag);
    let model = Model::plain(Base::tagged(tag));
    want_bytes(|| format!("hash_tag({})", show(tag)), &mid.0, &model.mid(&[]).unwrap())?;
    Rt::set(mid.0);
    let d = tagged(tag, m);
    cx.state(fnv(&[tag, &[0], m]));
    cx.outcome(fnv(&[&d]));
    cx.desc(|| format!("tag {} message {} cut {}", show(tag), show(m), cut));
    cx.steps(1);
    for (n, got, c) in entries::<Rt>(m, cut) {
        cx.steps(2);
        want_bytes(|| format!("{} with tag {} of {} ({} bytes, cut {})", n, show(tag), show(m), m.len(), cut), &got, &d)?;
        want(|| format!("byte count of {} with {} message bytes", n, m.len()), c, 64 + m.len())?;
    }
    let fresh = sha256t::Hash::<Rt>::engine();
    want_bytes(|| format!("midstate of a fresh engine for tag {}", show(tag)), &fresh.midstate().0, &mid.0)?;
    want(|| "byte count of a fresh tagged engine".into(), fresh.n_bytes_hashed(), 64)
}

fn main() {
    run::main("C07", |a| {
        let t = a.tier;
        let s = Arc::new(stream(t.pick(1 << 16, (1 << 23) + 8, (1 << 26) + 8)));
        let mut fams = Vec::new();
        // Tag lengths x message lengths.
        let nt = t.pick(3, 600, 1400);
        let tl: Vec<usize> = if t == Tier::Tiny { vec![0, 7, 64] } else { (0..nt).collect() };
        let nm = t.pick(3, 600, 1400);
        let ml: Vec<usize> = if t == Tier::Tiny { vec![0, 1, 64] } else { (0..nm).collect() };
        let c = s.clone();
        fams.push(Family::new("lengths", product(&[nt, nm]), move |i, cx| {
            let [a, b] = digits(i, [nt, nm]);
            one(cx, &c[3000..3000 + tl[a]], &c[..ml[b]], ml[b] / 3)
        }));
        // The compile-time tag.
        let nm = t.pick(4, 9000, 30_000);
        let c = s.clone();
        fams.push(Family::new("const-tag", nm as u64, move |i, cx| {
            let m = &c[..i as usize];
            let d = tagged(TAG, m);
            cx.state(fnv(&[b"c", m]));
            for (n, got, k) in entries::<Tg>(m, m.len() / 2) {
                cx.steps(2);
                want_bytes(|| format!("{} with the constant tag of {} bytes", n, i), &got, &d)?;
                want(|| "count".into(), k, 64 + m.len())?;
            }
            Ok(())
        }));
        if t == Tier::Tiny {
            return fams;
        }
        let c = s.clone();
        fams.push(Family::new("tag-byte", product(&[5, 80, 256]), move |i, cx| {
            let [l, p, v] = digits(i, [5, 80, 256]);
            let l = [1, 10, 55, 64, 80][l];
            if p >= l {
                return Ok(());
            }
            let mut tag = c[..l].to_vec();
            tag[p] = v as u8;
            one(cx, &tag, b"abc", 1)
        }));
        let c = s.clone();
        let nl = t.pick(0, 140, 270);
        fams.push(Family::new("msg-byte", product(&[nl, 256]), move |i, cx| {
            let [p, v] = digits(i, [nl, 256]);
            let mut m = c[..nl].to_vec();
            m[p] = v as u8;
            one(cx, b"BIP0340/challenge", &m, p)
        }));
        let c = s.clone();
        let nl = t.pick(0, 500, 900);
        fams.push(Family::new("every-cut", product(&[nl, nl]), move |i, cx| {
            let [l, cut] = digits(i, [nl, nl]);
            if cut > l {
                return Ok(());
            }
            one(cx, b"TapLeaf", &c[..l], cut)
        }));
        let c = s.clone();
        let nt = t.pick(0, 4200, 17_000);
        fams.push(Family::new("taglen", nt as u64, move |i, cx| one(cx, &c[..i as usize], b"abc", 1)));
        let c = s.clone();
        let nlong = t.pick(0, 14, 17);
        fams.push(Family::new("long", product(&[nlong, 3, 4]), move |i, cx| {
            let [k, d, tg] = digits(i, [nlong, 3, 4]);
            let l = (1usize << (10 + k)) + d - 1;
            if tg < 2 {
                one(cx, &c[..5 + tg], &c[..l], 64)
            } else {
                one(cx, &c[..l], &c[..5 + tg], 1)
            }
        }).slow(200));
        fams
    });
}
