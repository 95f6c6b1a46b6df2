//! C09: the results of this build configuration are the standard ones. Run once per
//! feature combination, profile and target; the oracle does not depend on any of them.
use chf::{sha256, siphash24};
use mc::for_all_vals;
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, Base, Model, Rows};
use mc::subjects::{self, Subject};
use mc::vals::{back, hexs, Val, BACKS};
use mc::{want, want_bytes};
use std::sync::Arc;

fn digest_families(t: Tier, fams: &mut Vec<Family>) {
    for (id, s) in subjects::all().into_iter().enumerate() {
        // Under Miri the HMACs over one small and one large hash stand for the others.
        if t == Tier::Tiny && s.is_hmac && s.name != "hmac-sha1" && s.name != "hmac-sha512" {
            continue;
        }
        let s: Arc<Subject> = Arc::new(s);
        let b = s.model.block();
        // Under Miri (tiny tier) only lengths around the padding edges.
        let lens: Vec<usize> = match t {
            Tier::Tiny => if s.is_hmac { vec![0, b + 1] } else { vec![0, 1, 3, 8, b - 17, b - 16, b - 9, b - 8, b - 1, b, 2 * b + 3] },
            Tier::Quick => (0..=4 * b + 2).collect(),
            Tier::Thorough => (0..=20 * b + 2).collect(),
        };
        let max = *lens.last().unwrap();
        for bg in 0..t.pick(1, 3, 3) {
            let msg = match bg {
                0 => stream(max),
                1 => vec![0; max],
                _ => vec![0xff; max],
            };
            let table: Arc<Rows> = Arc::new(Rows::new(&s.model, &msg));
            let dtable: Arc<Rows> = Arc::new(Rows::new(&s.dmodel, &msg));
            let (s, lens) = (s.clone(), lens.clone());
            fams.push(Family::new(format!("digest{}-{}", bg, s.name), lens.len() as u64, move |i, cx| {
                let l = lens[i as usize];
                cx.steps(8);
                cx.state(fnv(&[&[id as u8, bg], &(l as u32).to_le_bytes()]));
                cx.outcome(fnv(&[&table.d(l)]));
                cx.desc(|| format!("{} length {} pattern {}", s.name, l, bg));
                let w = |k: &str| format!("{} {} of {} bytes, pattern {}", s.name, k, l, bg);
                let mut e = (s.make)();
                e.input(&msg[..l]);
                want(|| w("byte count"), e.n() as u128, s.model.start_len + l as u128)?;
                if let Some(m) = &table.m(l) {
                    want_bytes(|| w("midstate"), &e.mid(), m)?;
                }
                want_bytes(|| w("digest"), &e.fin(), &table.d(l))?;
                want_bytes(|| w("one-shot"), &(s.oneshot)(&msg[..l]), &dtable.d(l))?;
                want_bytes(|| w("chunks"), &(s.chunks)(&[&msg[..l / 3], &msg[l / 3..l]]), &dtable.d(l))?;
                // Two pieces, split at a third, then saved and restored at the last boundary.
                let cut = l / s.unit * s.unit;
                let mut e = (s.make)();
                e.input(&msg[..cut]);
                let mut e = e.restore((s.model.start_len + cut as u128) as usize);
                e.input(&msg[cut..l]);
                want_bytes(|| w("restored digest"), &e.fin(), &table.d(l))
            }));
        }
        if t == Tier::Tiny {
            continue;
        }
        // Every two-piece split of two lengths.
        let max = 2 * b + 3;
        let msg = stream(max);
        let table: Arc<Rows> = Arc::new(Rows::new(&s.model, &msg));
        let (s2, m2) = (s.clone(), msg.clone());
        fams.push(Family::new(format!("split-{}", s.name), product(&[max + 1, max + 1]), move |i, cx| {
            let [l, c] = digits(i, [max + 1, max + 1]);
            if c > l {
                return Ok(());
            }
            cx.steps(3);
            cx.state(fnv(&[b"split", &[id as u8], &(l as u32).to_le_bytes(), &(c as u32).to_le_bytes()]));
            let mut e = (s2.make)();
            e.input(&m2[..c]);
            e.input(&m2[c..l]);
            want_bytes(|| format!("{} digest of {}+{} bytes", s2.name, c, l - c), &e.fin(), &table.d(l))
        }));
        // Long messages.
        let n = t.pick(0, 4, 6);
        fams.push(Family::new(format!("long-{}", s.name), n, move |i, cx| {
            let l = (1usize << (10 + 2 * i)) + 1;
            let m = stream(l);
            cx.steps(1);
            cx.state(fnv(&[b"long", &[id as u8], &(l as u32).to_le_bytes()]));
            let mut e = (s.make)();
            e.input(&m);
            want_bytes(|| format!("{} digest of {} bytes", s.name, l), &e.fin(), &s.model.digest(&m))
        }));
    }
}

fn misc_families(t: Tier, fams: &mut Vec<Family>) {
    // Lengths whose encoding exceeds 32 bits.
    let bits: Vec<usize> = match (t == Tier::Tiny, usize::BITS == 64) {
        (false, true) => (8..58).collect(),
        (false, false) => (8..31).collect(),
        (true, true) => vec![9, 29, 32, 57],
        (true, false) => vec![9, 29, 30],
    };
    let (nb, nd) = (bits.len(), t.pick(2, 3, 3));
    fams.push(Family::new("length-field", product(&[4, nb, nd]), move |i, cx| {
        let [a, k, d] = digits(i, [4, nb, nd]);
        let alg = [Alg::Sha1, Alg::Sha256, Alg::Sha512, Alg::Ripemd160][a];
        let len = 1usize << bits[k];
        let tail = &stream(130)[..[60, 0, 130][d]];
        let total = len as u128 + tail.len() as u128;
        cx.steps(2);
        cx.state(fnv(&[b"len", &[a as u8, k as u8, d as u8]]));
        let w = || format!("{} digest with a restored length of {} + {} bytes", alg.name(), len, tail.len());
        let cv = alg.iv();
        let model = {
            let (cv2, rest) = alg.absorb(cv, tail);
            alg.digest_from(cv2, rest, total)
        };
        macro_rules! go {
            ($m:ident) => {{
                use chf::HashEngine;
                let m0 = chf::$m::Engine::new().midstate();
                let mut e = chf::$m::Engine::from_midstate(m0, len);
                e.input(tail);
                e.finalize().to_vec()
            }};
        }
        let got = match alg {
            Alg::Sha1 => go!(sha1),
            Alg::Sha256 => go!(sha256),
            Alg::Sha512 => go!(sha512),
            _ => go!(ripemd160),
        };
        want_bytes(w, &got, &model)
    }));
    let n = t.pick(4, 200, 1000);
    fams.push(Family::new("const", n, move |i, cx| {
        let m = stream(if t == Tier::Tiny { [0, 55, 56, 130][i as usize] } else { i as usize });
        cx.steps(2);
        cx.state(fnv(&[b"const", &(i as u32).to_le_bytes()]));
        want_bytes(|| format!("const_hash of {} bytes", m.len()), &sha256::Hash::const_hash(&m).to_byte_array(), &Alg::Sha256.digest(&m))?;
        want_bytes(|| format!("hash_tag of {} bytes", m.len()), &sha256::Midstate::hash_tag(&m).0, &Model::plain(Base::tagged(&m)).mid(&[]).unwrap())
    }));
    fams.push(Family::new("siphash-u64", 64, move |i, cx| {
        cx.steps(2);
        cx.state(fnv(&[b"sip", &[i as u8]]));
        let m = &stream(64)[..i as usize];
        let model = mc::spec::siphash(1 << i, !(1 << i), m);
        want(|| format!("siphash of {} bytes as an integer", i), siphash24::Hash::hash_to_u64_with_keys(1 << i, !(1 << i), m), model)?;
        want_bytes(|| format!("siphash of {} bytes", i), &siphash24::Hash::hash_with_keys(1 << i, !(1 << i), m).to_byte_array(), &model.to_le_bytes())?;
        want(|| "as_u64".into(), siphash24::Hash::from_u64(model).as_u64(), model)
    }));
    let lens = t.pick(9, 130, 300);
    fams.push(Family::new("fixed-time-eq", product(&[lens, lens + 1]), move |i, cx| {
        let [l, p] = digits(i, [lens, lens + 1]);
        if p > l {
            return Ok(());
        }
        cx.steps(1);
        cx.state(fnv(&[b"fte", &(l as u32).to_le_bytes(), &(p as u32).to_le_bytes()]));
        let a = stream(l);
        let mut b = a.clone();
        if p < l {
            b[p] ^= 1 << (p % 8);
        }
        want(|| format!("fixed_time_eq of {} bytes, difference at {}", l, p), chf::cmp::fixed_time_eq(&a, &b), p == l)
    }));
}

fn val<T: Val>(bytes: &[u8], cx: &mut Ctx) -> Result<(), String> {
    let v = T::of(bytes);
    let n = T::N;
    let lo = hexs(bytes, false);
    let w = |k: &str| format!("{} {} of {}", T::NAME, k, lo);
    cx.steps(12);
    cx.outcome(fnv(&[T::NAME.as_bytes(), bytes]));
    want(|| w("text"), format!("{}", v), lo.clone())?;
    want(|| w("lower hex"), format!("{:x}", v), lo.clone())?;
    want(|| w("upper hex"), format!("{:X}", v), hexs(bytes, true))?;
    want(|| w("precision 3"), format!("{:.3}", v), lo.chars().take(3).collect())?;
    if !format!("{:?}", v).contains(&lo) {
        return Err(format!("{}: {:?}", w("debug text"), v));
    }
    want(|| w("parse"), lo.parse::<T>().ok().map(|x| x.to_arr()), Some(v.to_arr()))?;
    want(|| w("upper parse"), hexs(bytes, true).parse::<T>().ok().map(|x| x.to_arr()), Some(v.to_arr()))?;
    want(|| w("parse of a shorter text"), lo[1..].parse::<T>().is_err(), true)?;
    want(|| w("parse of a longer text"), format!("{}0", lo).parse::<T>().is_err(), true)?;
    want(|| w("parse of a bad digit"), format!("{}g", &lo[1..]).parse::<T>().is_err(), true)?;
    want_bytes(|| w("bytes"), v.as_ref(), bytes)?;
    want(|| w("slice"), T::slice(bytes).ok().map(|x| x.to_arr()), Some(v.to_arr()))?;
    want(|| w("short slice"), T::slice(&bytes[1..]).is_err(), true)?;
    for (k, b) in v.readers() {
        want_bytes(|| w(k), &b, bytes)?;
    }
    want_bytes(|| w("index"), v.all_index(), bytes)?;
    want(|| w("order"), v.cmp(&T::of(&vec![0x80; n])), bytes.cmp(&vec![0x80; n][..]))
}

#[cfg(feature = "serde")]
fn ser<T: Val + serde::Serialize + serde::de::DeserializeOwned>(bytes: &[u8], cx: &mut Ctx) -> Result<(), String> {
    use mc::ser::{Out, Ser};
    let v = T::of(bytes);
    let lo = hexs(bytes, false);
    let w = |k: &str| format!("{} {} of {}", T::NAME, k, lo);
    cx.steps(4);
    want(|| w("human serialization"), v.serialize(Ser { human: true }), Ok(Out::Text(lo.clone())))?;
    want(|| w("binary serialization"), v.serialize(Ser { human: false }), Ok(Out::Bytes(bytes.to_vec())))?;
    let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    want(|| w("JSON"), j.clone(), format!("\"{}\"", lo))?;
    want(|| w("JSON read back"), serde_json::from_str::<T>(&j).ok().map(|x| x.to_arr()), Some(v.to_arr()))
}

#[cfg(feature = "schemars")]
fn schema<T: Val + schemars::JsonSchema>() -> Result<(), String> {
    let s = serde_json::to_value(schemars::schema_for!(T)).map_err(|e| e.to_string())?;
    let w = |k: &str| format!("{} schema {}", T::NAME, k);
    want(|| w("type"), s["type"].as_str(), Some("string"))?;
    want(|| w("minLength"), s["minLength"].as_u64(), Some(2 * T::N as u64))?;
    want(|| w("maxLength"), s["maxLength"].as_u64(), Some(2 * T::N as u64))
}

fn val_family<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let np = t.pick(2, T::N, T::N);
    let nv = t.pick(3, 256, 256);
    let nb = t.pick(1, 1, BACKS);
    fams.push(Family::new(format!("value-{}", T::NAME), product(&[nb, np, nv]), move |i, cx| {
        let [b, p, x] = digits(i, [nb, np, nv]);
        let mut bytes = back(b, T::N);
        let p = p.min(T::N - 1);
        bytes[p] = if nv == 256 { x as u8 } else { [0, 0x5a, 0xff][x] };
        cx.state(fnv(&[b"val", T::NAME.as_bytes(), &bytes]));
        cx.desc(|| format!("{} {}", T::NAME, hexs(&bytes, false)));
        val::<T>(&bytes, cx)
    }));
}

#[cfg(feature = "serde")]
fn ser_family<T: Val + serde::Serialize + serde::de::DeserializeOwned>(t: Tier, fams: &mut Vec<Family>) {
    let np = t.pick(1, T::N, T::N);
    let nv = t.pick(2, 256, 256);
    fams.push(Family::new(format!("serde-{}", T::NAME), product(&[np, nv]), move |i, cx| {
        let [p, x] = digits(i, [np, nv]);
        let mut bytes = back(0, T::N);
        bytes[p] = x as u8;
        cx.state(fnv(&[b"ser", T::NAME.as_bytes(), &bytes]));
        ser::<T>(&bytes, cx)
    }));
}
#[cfg(feature = "schemars")]
fn schema_family<T: Val + schemars::JsonSchema>(fams: &mut Vec<Family>) {
    fams.push(Family::new(format!("schema-{}", T::NAME), 1, move |_, cx| {
        cx.steps(1);
        cx.state(fnv(&[b"schema", T::NAME.as_bytes()]));
        schema::<T>()
    }));
}

#[cfg(any(feature = "io", feature = "std"))]
fn write_families(t: Tier, fams: &mut Vec<Family>) {
    let n = t.pick(5, 300, 1000);
    macro_rules! w {
        ($name:expr, $e:expr, $m:expr) => {
            fams.push(Family::new(format!("write-{}", $name), n as u64, move |i, cx| {
                use chf::HashEngine;
                let m = stream(i as usize * if t == Tier::Tiny { 37 } else { 1 });
                let mut e = $e;
                cx.steps(2);
                cx.state(fnv(&[b"write", $name.as_bytes(), &(i as u32).to_le_bytes()]));
                want(|| format!("{} bitcoin_io write", $name), bitcoin_io::Write::write(&mut e, &m).ok(), Some(m.len()))?;
                want_bytes(|| format!("{} digest after a bitcoin_io write of {} bytes", $name, m.len()), e.finalize().as_ref(), &$m.digest(&m))
            }));
        };
    }
    let p = |a: Alg| Model::plain(Base::plain(a));
    w!("sha1", chf::sha1::Engine::new(), p(Alg::Sha1));
    w!("sha256", chf::sha256::Engine::new(), p(Alg::Sha256));
    w!("sha512", chf::sha512::Engine::new(), p(Alg::Sha512));
    w!("ripemd160", chf::ripemd160::Engine::new(), p(Alg::Ripemd160));
    w!("siphash24", siphash24::Engine::with_keys(1, 2), Model::plain(Base::sip(1, 2)));
    w!("sha256t", chf::sha256t::Hash::<subjects::Tg>::engine(), Model::plain(Base::tagged(subjects::TAG)));
    w!("hmac", chf::hmac::Engine::<sha256::Engine>::new(b"key"), Model::hmac(Base::plain(Alg::Sha256), b"key"));
}

fn main() {
    run::main("C09", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        if std::env::var_os("MC_CPU").is_some() {
            mc::cpu::families(&mut fams);
            return fams;
        }
        digest_families(t, &mut fams);
        misc_families(t, &mut fams);
        for_all_vals!(val_family(t, &mut fams));
        #[cfg(feature = "serde")]
        for_all_vals!(ser_family(t, &mut fams));
        #[cfg(feature = "schemars")]
        {
            let f = &mut fams;
            schema_family::<chf::sha1::Hash>(f);
            schema_family::<chf::sha256::Hash>(f);
            schema_family::<chf::sha384::Hash>(f);
            schema_family::<chf::sha512::Hash>(f);
            schema_family::<chf::sha512_256::Hash>(f);
            schema_family::<chf::ripemd160::Hash>(f);
            schema_family::<chf::siphash24::Hash>(f);
            schema_family::<chf::sha256t::Hash<subjects::Tg>>(f);
            schema_family::<chf::hmac::Hash<20>>(f);
            schema_family::<chf::hmac::Hash<32>>(f);
            schema_family::<chf::hmac::Hash<64>>(f);
        }
        #[cfg(any(feature = "io", feature = "std"))]
        write_families(t, &mut fams);
        fams
    });
}
