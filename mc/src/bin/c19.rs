//! C19: no call reads or writes outside its arguments, or panics unexpectedly.
//! Arguments lie in read-only memory flush against inaccessible pages (Miri's own checks
//! replace the pages under Miri); a fault, panic or hang in any case is a violation.
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use mc::{for_all_vals, for_more_vals};
use mc::guard::{self, Pos};
use mc::run::{self, digits, fnv, guarded, product, Ctx, Family, Tier};
use mc::spec::{stream, Alg, Base, Model, Rows};
use mc::subjects::{self, Subject, Tg, TAG};
use mc::vals::{back, hexs, unhex, Val};
use mc::{want, want_bytes};
use std::sync::Arc;

const ENDS: [Pos; 2] = [Pos::End, Pos::Start];

/// Compares a digest with the model (not under Miri, which checks accesses, and for which the
/// model would be the larger part of the work).
fn same(what: impl FnOnce() -> String, got: &[u8], model: impl FnOnce() -> Vec<u8>) -> Result<(), String> {
    if cfg!(miri) {
        return Ok(());
    }
    want_bytes(what, got, &model())
}

fn family(fams: &mut Vec<Family>, name: String, n: u64, f: impl Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync + 'static) {
    let nm = name.clone();
    fams.push(Family::new(name, n, move |i, cx| {
        cx.state(fnv(&[nm.as_bytes(), &i.to_le_bytes()]));
        cx.desc(|| format!("case {} of {}", i, nm));
        f(i, cx)
    }));
}

fn edge_lens(b: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, b - 9, b - 1, b, b + 1, 2 * b];
    v.sort();
    v.dedup();
    v
}

fn engines(t: Tier, fams: &mut Vec<Family>) {
    for s in subjects::all() {
        let s: Arc<Subject> = Arc::new(s);
        let b = s.model.block();
        let nm = s.name.clone();
        let max = t.pick(2 * b + 2, 3 * b + 2, 6 * b + 2);
        let msg = stream(b + max);
        let table = Arc::new(Rows::new(&s.model, &msg));
        // Miri: a few pending counts and lengths.
        let pend: Vec<usize> = if t == Tier::Tiny { vec![0, 1, 5, b - 1] } else { (0..b).collect() };
        let lens: Vec<usize> = if t == Tier::Tiny { edge_lens(b) } else { (0..=max).collect() };
        let (np, nl) = (pend.len(), lens.len());
        {
            let (s, msg, table, pend, lens) = (s.clone(), msg.clone(), table.clone(), pend.clone(), lens.clone());
            family(fams, format!("input-{}", nm), product(&[np, nl, 2]), move |i, cx| {
                let [p, l, e] = digits(i, [np, nl, 2]);
                let (p, l) = (pend[p], lens[l]);
                cx.steps(3);
                let mut eng = (s.make)();
                eng.input(&msg[..p]);
                guard::with(|a, _| eng.input(a.put(&msg[p..p + l], ENDS[e])));
                want(|| format!("{} byte count", s.name), eng.n() as u128, s.model.start_len + (p + l) as u128)?;
                same(|| format!("{} digest of {}+{} bytes", s.name, p, l), &eng.fin(), || table.d(p + l))
            });
        }
        if t != Tier::Tiny {
            let (s, msg, table, lens) = (s.clone(), msg.clone(), table.clone(), lens.clone());
            family(fams, format!("align-{}", nm), product(&[64, nl, 3]), move |i, cx| {
                let [a, l, p] = digits(i, [64, nl, 3]);
                let (p, l) = ([0, 1, b - 1][p], lens[l]);
                cx.steps(2);
                let mut eng = (s.make)();
                eng.input(&msg[..p]);
                guard::with(|g, _| eng.input(g.put(&msg[p..p + l], Pos::Off(a))));
                same(|| format!("{} digest of {}+{} bytes at alignment {}", s.name, p, l, a), &eng.fin(), || table.d(p + l))
            });
        }
        // Engines far into a message: restored at lengths around every power of two.
        {
            let (s, msg) = (s.clone(), msg.clone());
            let u = s.unit.max(s.model.block());
            let top = if usize::BITS == 64 { 61 } else { 31 };
            let ks: Vec<usize> = (0..top).filter(|k| t != Tier::Tiny || k % 10 == 9 || k + 1 == top).collect();
            let nk = ks.len();
            let ins = [0, 1, b - 9, b - 8, b - 1, b, b + 1];
            let ni = t.pick(2, 7, 7);
            family(fams, format!("long-{}", nm), product(&[nk, 3, ni]), move |i, cx| {
                let [k, d, l] = digits(i, [nk, 3, ni]);
                let len = ((1usize << ks[k]).max(2 * u) / u + d - 1) * u;
                let l = ins[l];
                cx.steps(5);
                let e = (s.make)();
                let mut r = e.restore(len);
                r.input(&msg[..l]);
                want(|| format!("{} byte count after a restore at {} and {} bytes", s.name, len, l), r.n(), len + l)?;
                let _ = r.mid();
                let c = r.dup();
                same(|| format!("{} digest after a restore at {} and {} bytes", s.name, len, l), &r.fin(), || c.fin())
            });
        }
        // One-shot entry points.
        let dtable = Arc::new(Rows::new(&s.dmodel, &msg));
        family(fams, format!("oneshot-{}", nm), product(&[nl, 2]), move |i, cx| {
            let [l, e] = digits(i, [nl, 2]);
            let l = lens[l];
            cx.steps(2);
            guard::with(|a, b| {
                let x = a.put(&msg[..l], ENDS[e]);
                same(|| format!("{} one-shot digest of {} bytes", s.name, l), &(s.oneshot)(x), || dtable.d(l))?;
                let (x, y) = (&msg[..l / 2], &msg[l / 2..l]);
                let (x, y) = (a.put(x, ENDS[e]), b.put(y, ENDS[1 - e]));
                same(|| format!("{} chunks digest of {} bytes", s.name, l), &(s.chunks)(&[x, y]), || dtable.d(l))
            })
        });
    }
}

/// The engine itself lies flush against the inaccessible pages.
fn placed<E: HashEngine + 'static>(t: Tier, fams: &mut Vec<Family>, name: &str, model: Model, make: impl Fn() -> E + Send + Sync + 'static) {
    let b = model.block();
    let max = 2 * b + 2;
    let lens: Vec<usize> = if t == Tier::Tiny { edge_lens(b) } else { (0..=max).collect() };
    let nl = lens.len();
    let msg = stream(2 * max);
    let table = Rows::new(&model, &msg);
    let nm = name.to_string();
    let np = t.pick(2, 8, 8);
    family(fams, format!("placed-{}", name), product(&[np, nl, 2]), move |i, cx| {
        let [p, l, e] = digits(i, [np, nl, 2]);
        let p = [0, b - 1, 1, 7, 8, b / 2, b - 9, b + 1][p];
        let l = lens[l];
        cx.steps(5);
        guard::with(|a, d| {
            let at: *mut E = a.room::<E>(ENDS[e]);
            // Safety: `at` is aligned room of the right size that nothing else uses.
            let (n, got) = unsafe {
                at.write(make());
                (*at).input(&msg[..p]);
                (*at).input(d.put(&msg[p..p + l], ENDS[e]));
                let n = (*at).n_bytes_hashed();
                let _ = (*at).midstate();
                let c = (*at).clone();
                (n, (at.read().finalize(), c.finalize()))
            };
            want(|| format!("{} byte count", nm), n as u128, model.start_len + (p + l) as u128)?;
            same(|| format!("{} digest of {}+{} bytes in a placed engine", nm, p, l), got.0.as_ref(), || table.d(p + l))?;
            same(|| format!("{} digest of {}+{} bytes in its clone", nm, p, l), got.1.as_ref(), || table.d(p + l))
        })
    });
}

fn placed_all(t: Tier, fams: &mut Vec<Family>) {
    let p = |a: Alg| Model::plain(Base::plain(a));
    placed(t, fams, "sha1", p(Alg::Sha1), sha1::Engine::new);
    placed(t, fams, "sha256", p(Alg::Sha256), sha256::Engine::new);
    placed(t, fams, "sha384", p(Alg::Sha384), sha384::Engine::new);
    placed(t, fams, "sha512", p(Alg::Sha512), sha512::Engine::new);
    placed(t, fams, "sha512_256", p(Alg::Sha512_256), sha512_256::Engine::new);
    placed(t, fams, "ripemd160", p(Alg::Ripemd160), ripemd160::Engine::new);
    placed(t, fams, "siphash24", Model::plain(Base::sip(3, 4)), || siphash24::Engine::with_keys(3, 4));
    placed(t, fams, "sha256t", Model::plain(Base::tagged(TAG)), sha256t::Hash::<Tg>::engine);
    let key = stream(200);
    placed(t, fams, "hmac-sha256", Model::hmac(Base::plain(Alg::Sha256), &key), move || hmac::Engine::<sha256::Engine>::new(&stream(200)));
    placed(t, fams, "hmac-sha512", Model::hmac(Base::plain(Alg::Sha512), &key), move || hmac::Engine::<sha512::Engine>::new(&stream(200)));
}

fn keys(t: Tier, fams: &mut Vec<Family>) {
    macro_rules! k {
        ($name:expr, $ty:ty, $base:expr) => {{
            let base = $base;
            let b = base.block();
            let lens: Vec<usize> = if t == Tier::Tiny { edge_lens(b) } else { (0..=t.pick(0, 3, 10) * b + 2).collect() };
            let nl = lens.len();
            family(fams, format!("key-{}", $name), product(&[nl, 2]), move |i, cx| {
                let [l, e] = digits(i, [nl, 2]);
                let key = stream(lens[l]);
                cx.steps(2);
                guard::with(|a, _| {
                    let eng = hmac::Engine::<$ty>::new(a.put(&key, ENDS[e]));
                    same(|| format!("{} with a {} byte key", $name, key.len()), eng.finalize().as_ref(), || Model::hmac(base.clone(), &key).digest(&[]))
                })
            });
        }};
    }
    k!("hmac-sha1", sha1::Engine, Base::plain(Alg::Sha1));
    k!("hmac-sha256", sha256::Engine, Base::plain(Alg::Sha256));
    k!("hmac-sha384", sha384::Engine, Base::plain(Alg::Sha384));
    k!("hmac-sha512", sha512::Engine, Base::plain(Alg::Sha512));
    k!("hmac-sha512_256", sha512_256::Engine, Base::plain(Alg::Sha512_256));
    k!("hmac-ripemd160", ripemd160::Engine, Base::plain(Alg::Ripemd160));
    k!("hmac-siphash24", siphash24::Engine, Base::sip(0, 0));
    k!("hmac-sha256t", sha256t::Engine<Tg>, Base::tagged(TAG));
}

fn functions(t: Tier, fams: &mut Vec<Family>) {
    let lens: Vec<usize> = if t == Tier::Tiny { vec![0, 1, 2, 7, 8, 9, 15, 33, 64] } else { (0..t.pick(0, 600, 3000)).collect() };
    let nl = lens.len();
    // Every pair of ends; a difference nowhere, at the first or at the last byte.
    let ls = lens.clone();
    family(fams, "fixed-time-eq".into(), product(&[nl, 2, 2, 3]), move |i, cx| {
        let [l, x, y, d] = digits(i, [nl, 2, 2, 3]);
        let l = ls[l];
        let a = stream(l);
        let mut b = a.clone();
        if l > 0 && d > 0 {
            b[if d == 1 { 0 } else { l - 1 }] ^= 0x80;
        }
        cx.steps(1);
        guard::with(|p, q| want(|| format!("fixed_time_eq of {} bytes", l), chf::cmp::fixed_time_eq(p.put(&a, ENDS[x]), q.put(&b, ENDS[y])), a == b))
    });
    let n = t.pick(6, 70, 200);
    family(fams, "fixed-time-eq-align".into(), product(&[n, t.pick(2, 17, 65), t.pick(2, 17, 65)]), move |i, cx| {
        let [l, x, y] = digits(i, [n, t.pick(2, 17, 65), t.pick(2, 17, 65)]);
        let a = stream(l);
        cx.steps(1);
        guard::with(|p, q| want(|| format!("fixed_time_eq of {} bytes at {} and {}", l, x, y), chf::cmp::fixed_time_eq(p.put(&a, Pos::Off(x)), q.put(&a, Pos::Off(y))), true))
    });
    // Unequal lengths: the documented panic, and no access beyond either slice.
    family(fams, "fixed-time-eq-lengths".into(), product(&[t.pick(3, 60, 200), t.pick(3, 60, 200)]), move |i, cx| {
        let [l, m] = digits(i, [t.pick(3, 60, 200), t.pick(3, 60, 200)]);
        let (a, b) = (stream(l), stream(m));
        cx.steps(1);
        let r = guarded(|| guard::with(|p, q| chf::cmp::fixed_time_eq(p.put(&a, Pos::End), q.put(&b, Pos::End))));
        if r.is_err() != (l != m) {
            return Err(format!("fixed_time_eq of {} and {} bytes: {:?}", l, m, r));
        }
        Ok(())
    });
    let ls = lens.clone();
    family(fams, "const".into(), product(&[nl, 2]), move |i, cx| {
        let [l, e] = digits(i, [nl, 2]);
        let m = stream(ls[l]);
        cx.steps(2);
        guard::with(|a, _| {
            let x = a.put(&m, ENDS[e]);
            same(|| format!("const_hash of {} bytes", m.len()), &sha256::Hash::const_hash(x).to_byte_array(), || Alg::Sha256.digest(&m))?;
            same(|| format!("hash_tag of {} bytes", m.len()), &sha256::Midstate::hash_tag(x).0, || Model::plain(Base::tagged(&m)).mid(&[]).unwrap())
        })
    });
    let ls = lens.clone();
    family(fams, "siphash-keyed".into(), product(&[nl, 2]), move |i, cx| {
        let [l, e] = digits(i, [nl, 2]);
        let m = stream(ls[l]);
        cx.steps(2);
        let model = mc::spec::siphash(9, 8, &m);
        guard::with(|a, _| {
            let x = a.put(&m, ENDS[e]);
            want(|| format!("siphash of {} bytes", m.len()), siphash24::Hash::hash_to_u64_with_keys(9, 8, x), model)?;
            want(|| format!("siphash of {} bytes", m.len()), siphash24::Hash::hash_with_keys(9, 8, x).as_u64(), model)
        })
    });
    // The two-piece SipHash input at every alignment (its loads are unaligned).
    let n = t.pick(3, 40, 80);
    family(fams, "siphash-align".into(), product(&[n, n, t.pick(3, 16, 64)]), move |i, cx| {
        let [x, y, a] = digits(i, [n, n, t.pick(3, 16, 64)]);
        let m = stream(x + y);
        cx.steps(2);
        guard::with(|p, q| {
            let mut e = siphash24::Engine::with_keys(1, 2);
            e.input(p.put(&m[..x], Pos::Off(a)));
            e.input(q.put(&m[x..], Pos::End));
            want_bytes(|| format!("siphash of {}+{} bytes", x, y), &e.finalize(), &mc::spec::siphash(1, 2, &m).to_le_bytes())
        })
    });
    #[cfg(any(feature = "io", feature = "std"))]
    {
        macro_rules! w {
            ($name:expr, $e:expr, $m:expr) => {{
                let ls = lens.clone();
                family(fams, format!("write-{}", $name), product(&[nl, 2]), move |i, cx| {
                    let [l, e] = digits(i, [nl, 2]);
                    let m = stream(ls[l]);
                    cx.steps(1);
                    guard::with(|a, _| {
                        let mut eng = $e;
                        let r = bitcoin_io::Write::write(&mut eng, a.put(&m, ENDS[e]));
                        want(|| format!("{} write", $name), r.ok(), Some(m.len()))?;
                        same(|| format!("{} digest of {} written bytes", $name, m.len()), eng.finalize().as_ref(), || $m.digest(&m))
                    })
                });
            }};
        }
        let p = |a: Alg| Model::plain(Base::plain(a));
        w!("sha1", sha1::Engine::new(), p(Alg::Sha1));
        w!("sha256", sha256::Engine::new(), p(Alg::Sha256));
        w!("sha512", sha512::Engine::new(), p(Alg::Sha512));
        w!("ripemd160", ripemd160::Engine::new(), p(Alg::Ripemd160));
        w!("siphash24", siphash24::Engine::with_keys(1, 2), Model::plain(Base::sip(1, 2)));
        w!("sha256t", sha256t::Hash::<Tg>::engine(), Model::plain(Base::tagged(TAG)));
        w!("hmac", hmac::Engine::<sha256::Engine>::new(b"key"), Model::hmac(Base::plain(Alg::Sha256), b"key"));
    }
}

fn values<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    // Slices of every length.
    let nl = t.pick(n + 2, 3 * n + 3, 600);
    family(fams, format!("slice-{}", T::NAME), product(&[nl, 2]), move |i, cx| {
        let [l, e] = digits(i, [nl, 2]);
        let b = stream(l);
        cx.steps(1);
        guard::with(|a, _| want(|| format!("{} from_slice of {} bytes", T::NAME, l), T::slice(a.put(&b, ENDS[e])).ok().map(|v| v.to_arr().as_ref().to_vec()), if l == n { Some(b.clone()) } else { None }))
    });
    // Texts of every length with several endings.
    const TAILS: [&str; 9] = ["", "0", "f", "g", " ", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0"];
    let nt = t.pick(3, TAILS.len(), TAILS.len());
    let lens: Vec<usize> = if t == Tier::Tiny { vec![0, 1, 2 * n - 2, 2 * n - 1, 2 * n] } else { (0..2 * n + 5).collect() };
    let nl = lens.len();
    family(fams, format!("text-{}", T::NAME), product(&[nl, nt, 2]), move |i, cx| {
        let [l, k, e] = digits(i, [nl, nt, 2]);
        let mut s: String = hexs(&stream(n + 3), false)[..lens[l]].to_string();
        s.push_str(TAILS[k]);
        cx.steps(1);
        guard::with(|a, _| {
            let x = std::str::from_utf8(a.put(s.as_bytes(), ENDS[e])).unwrap();
            want(|| format!("{} parse of {:?}", T::NAME, s), x.parse::<T>().ok().map(|v| v.to_arr().as_ref().to_vec()), unhex(&s, n))
        })
    });
    // Values that lie in guarded memory.
    let nb = t.pick(1, 4, 4);
    let na = t.pick(3, 66, 66);
    family(fams, format!("value-{}", T::NAME), product(&[nb, na]), move |i, cx| {
        let [b, p] = digits(i, [nb, na]);
        let bytes = back(b, n);
        let pos = [Pos::End, Pos::Start].get(p).copied().unwrap_or_else(|| Pos::Off(p - 1));
        cx.steps(6);
        guard::with(|a, c| {
            let x = a.put(&bytes, pos);
            // Safety: an array of bytes has alignment 1.
            let arr: &T::Arr = unsafe { &*(x.as_ptr() as *const T::Arr) };
            if let Some(v) = T::by_ref(arr) {
                want(|| format!("{} text", T::NAME), v.to_string(), hexs(&bytes, false))?;
                want_bytes(|| format!("{} bytes", T::NAME), v.as_ref(), &bytes)?;
                want_bytes(|| format!("{} range", T::NAME), v.range_from(n), &[])?;
                want(|| format!("{} last", T::NAME), v.idx(n - 1), bytes[n - 1])?;
                want(|| format!("{} equality", T::NAME), *v == T::of(&bytes), true)?;
                for (k, r) in v.readers() {
                    want_bytes(|| format!("{} {}", T::NAME, k), &r, &bytes)?;
                }
            }
            let at: *mut T::Arr = c.room::<T::Arr>(if p == 1 { Pos::Start } else { Pos::End });
            // Safety: `at` is room for an array that nothing else uses.
            unsafe {
                at.write(T::arr(&bytes));
                if let Some(v) = T::by_mut(&mut *at) {
                    *v = T::of(&back(2, n));
                    want_bytes(|| format!("{} after writing through from_bytes_mut", T::NAME), (*at).as_ref(), &back(2, n))?;
                }
            }
            Ok(())
        })
    });
}

#[cfg(feature = "serde")]
fn serde_values<T: Val + serde::Serialize + serde::de::DeserializeOwned>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    let lens: Vec<usize> = if t == Tier::Tiny { vec![0, 2 * n - 1, 2 * n, 2 * n + 1] } else { (0..2 * n + 6).collect() };
    let nl = lens.len();
    family(fams, format!("json-{}", T::NAME), product(&[nl, 2]), move |i, cx| {
        let [l, e] = digits(i, [nl, 2]);
        let s = hexs(&stream(n + 3), false)[..lens[l]].to_string();
        let j = format!("\"{}\"", s);
        cx.steps(1);
        guard::with(|a, _| {
            let x = a.put(j.as_bytes(), ENDS[e]);
            want(|| format!("{} from JSON {}", T::NAME, j), serde_json::from_slice::<T>(x).ok().map(|v| v.to_arr().as_ref().to_vec()), unhex(&s, n))
        })
    });
}

/// Runs a case on a thread with the standard library's default stack: a call must not need
/// stack in proportion to its argument.
fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
}

/// Arguments of a few million bytes, pieces or characters.
fn big(t: Tier, fams: &mut Vec<Family>) {
    let ks: &'static [u32] = if t == Tier::Thorough { &[16, 20, 22, 24] } else { &[16, 20, 22] };
    let nk = ks.len();
    let top = 1usize << ks[nk - 1];
    let msg: Arc<Vec<u8>> = Arc::new(stream(251).iter().copied().cycle().take(top).collect());
    for s in subjects::all() {
        let msg = msg.clone();
        family(fams, format!("big-{}", s.name), product(&[nk, 3]), move |i, cx| {
            let [k, how] = digits(i, [nk, 3]);
            let m = &msg[..1usize << ks[k]];
            cx.steps(1);
            let s = &s;
            on_thread(move || match how {
                0 => {
                    let mut e = (s.make)();
                    e.input(m);
                    want(|| format!("{} byte count", s.name), e.n() as u128, s.model.start_len + m.len() as u128)?;
                    want_bytes(|| format!("{} digest of {} bytes", s.name, m.len()), &e.fin(), &s.model.digest(m))
                }
                1 => want_bytes(|| format!("{} one-shot digest of {} bytes", s.name, m.len()), &(s.oneshot)(m), &s.dmodel.digest(m)),
                _ => {
                    // Empty chunks among chunks of one byte.
                    let m = &m[..m.len() / 4];
                    let mut at = 0;
                    let got = (s.chunks_from)(&mut || {
                        at += 1;
                        let x = at - 1;
                        if x >= 2 * m.len() {
                            None
                        } else if x % 2 == 0 {
                            Some(Vec::new())
                        } else {
                            Some(vec![m[x / 2]])
                        }
                    });
                    want_bytes(|| format!("{} digest of {} chunks", s.name, 2 * m.len()), &got, &s.dmodel.digest(m))
                }
            })
        });
    }
    let m = msg.clone();
    family(fams, "big-fixed-time-eq".into(), product(&[nk, 3]), move |i, cx| {
        let [k, d] = digits(i, [nk, 3]);
        let a = &m[..1usize << ks[k]];
        let mut b = a.to_vec();
        if d > 0 {
            let n = b.len();
            b[if d == 1 { 0 } else { n - 1 }] ^= 0x80;
        }
        cx.steps(1);
        on_thread(|| want(|| format!("fixed_time_eq of {} bytes", a.len()), chf::cmp::fixed_time_eq(a, &b), d == 0))
    });
    let m = msg.clone();
    family(fams, "big-const".into(), product(&[nk, 3]), move |i, cx| {
        let [k, how] = digits(i, [nk, 3]);
        let a = &m[..1usize << ks[k]];
        cx.steps(1);
        on_thread(|| match how {
            0 => want_bytes(|| format!("const_hash of {} bytes", a.len()), &sha256::Hash::const_hash(a).to_byte_array(), &Alg::Sha256.digest(a)),
            1 => want_bytes(|| format!("hash_tag of {} bytes", a.len()), &sha256::Midstate::hash_tag(a).0, &Model::plain(Base::tagged(a)).mid(&[]).unwrap()),
            _ => want(|| format!("siphash of {} bytes", a.len()), siphash24::Hash::hash_to_u64_with_keys(9, 8, a), mc::spec::siphash(9, 8, a)),
        })
    });
    macro_rules! keyed {
        ($name:expr, $ty:ty, $base:expr) => {{
            let m = msg.clone();
            family(fams, format!("big-key-{}", $name), nk as u64, move |i, cx| {
                let key = &m[..1usize << ks[i as usize]];
                cx.steps(1);
                on_thread(|| want_bytes(|| format!("{} with a key of {} bytes", $name, key.len()), hmac::Engine::<$ty>::new(key).finalize().as_ref(), &Model::hmac($base, key).digest(&[])))
            });
        }};
    }
    keyed!("hmac-sha256", sha256::Engine, Base::plain(Alg::Sha256));
    keyed!("hmac-sha512", sha512::Engine, Base::plain(Alg::Sha512));
    keyed!("hmac-sha1", sha1::Engine, Base::plain(Alg::Sha1));
    keyed!("hmac-ripemd160", ripemd160::Engine, Base::plain(Alg::Ripemd160));
}

/// Text and slices of a few million characters or bytes are refused, all of them.
fn big_values<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let ks: &'static [u32] = if t == Tier::Thorough { &[10, 16, 20, 22] } else { &[10, 16, 20] };
    let nk = ks.len();
    family(fams, format!("big-value-{}", T::NAME), product(&[nk, 3]), move |i, cx| {
        let [k, how] = digits(i, [nk, 3]);
        let n = 1usize << ks[k];
        cx.steps(1);
        on_thread(|| {
            let ok = match how {
                0 => "0".repeat(n).parse::<T>().is_ok(),
                1 => "é".repeat(n).parse::<T>().is_ok(),
                _ => T::slice(&vec![0; n]).is_ok(),
            };
            want(|| format!("{} made of {} units ({})", T::NAME, n, how), ok, false)
        })
    });
}

fn main() {
    run::main("C19", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        if std::env::var_os("MC_CPU").is_some() {
            mc::cpu::families(&mut fams);
            return fams;
        }
        if !cfg!(miri) {
            big(t, &mut fams);
            for_all_vals!(big_values(t, &mut fams));
            for_more_vals!(big_values(t, &mut fams));
        }
        engines(t, &mut fams);
        placed_all(t, &mut fams);
        keys(t, &mut fams);
        functions(t, &mut fams);
        for_all_vals!(values(t, &mut fams));
        for_more_vals!(values(t, &mut fams));
        #[cfg(feature = "serde")]
        for_all_vals!(serde_values(t, &mut fams));
        #[cfg(feature = "serde")]
        for_more_vals!(serde_values(t, &mut fams));
        fams
    });
}
