//! C12: byte-level conversions of hash values are lossless and length-checked.
use chf::{siphash24, FromSliceError};
use mc::{for_all_vals, for_more_vals};
use mc::run::{self, digits, fnv, panics, product, Ctx, Family, Tier};
use mc::spec::stream;
use mc::vals::{back, Val, BACKS};
use mc::{want, want_bytes};

fn round<T: Val>(cx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let w = |how: &str| format!("{} of {} read through {}", T::NAME, mc::show(b), how);
    cx.state(fnv(&[T::NAME.as_bytes(), b]));
    cx.desc(|| format!("{} bytes {} through every accessor", T::NAME, mc::show(b)));
    let mut made: Vec<(&str, T)> = Vec::with_capacity(6);
    made.push(("from_byte_array", T::of(b)));
    match T::slice(b) {
        Ok(v) => made.push(("from_slice", v)),
        Err(e) => return Err(format!("{} from_slice({}) rejected: {:?}", T::NAME, mc::show(b), e)),
    }
    let arr = T::arr(b);
    if let Some(r) = T::by_ref(&arr) {
        want(|| w("from_bytes_ref address"), r as *const T as usize, &arr as *const T::Arr as usize)?;
        made.push(("from_bytes_ref", *r));
    }
    let mut marr = T::arr(b);
    if let Some(r) = T::by_mut(&mut marr) {
        made.push(("from_bytes_mut", *r));
        *r = T::of(&back(0, T::N));
        want_bytes(|| w("array written through from_bytes_mut"), marr.as_ref(), &back(0, T::N))?;
    }
    for (how, v) in made {
        cx.steps(4);
        want_bytes(|| w(&format!("{} then to_byte_array", how)), v.to_arr().as_ref(), b)?;
        want_bytes(|| w(&format!("{} then [..]", how)), v.all_index(), b)?;
        want_bytes(|| w(&format!("{} then AsRef<[u8]>", how)), AsRef::<[u8]>::as_ref(&v), b)?;
        for (r, x) in v.readers() {
            cx.steps(1);
            want_bytes(|| w(&format!("{} then {}", how, r)), &x, b)?;
        }
        for (i, x) in b.iter().enumerate() {
            want(|| w(&format!("{} then [{}]", how, i)), v.idx(i), *x)?;
        }
        cx.steps(b.len() as u64);
    }
    Ok(())
}

fn same<A: PartialEq + std::fmt::Debug>(what: impl Fn() -> String, got: impl FnOnce() -> A, model: impl FnOnce() -> A) -> Result<(), String> {
    let g = run::guarded(got);
    let m = run::guarded(model);
    match (g, m) {
        (Ok(g), Ok(m)) => want(what, g, m),
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Err(_)) => Err(format!("{}: returned {:?}, model says it panics", what(), g)),
        (Err(p), Ok(m)) => Err(format!("{}: panicked ({}), model says {:?}", what(), p, m)),
    }
}

fn add<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    let nv = t.pick(2, 256, 256);
    let np = t.pick(n.min(2), n, n);
    fams.push(Family::new(format!("values-{}", T::NAME), product(&[BACKS, np, nv]), move |i, cx| {
        let [k, p, v] = digits(i, [BACKS, np, nv]);
        let mut b = back(k, n);
        b[p] = v as u8;
        round::<T>(cx, &b)
    }));
    // from_slice at every length.
    let nl = t.pick(2 * n + 2, 8 * n + 260, 70_000);
    let far: Vec<usize> = if t == Tier::Tiny { vec![] } else { (8..25).flat_map(|k| [0, 1, n - 1, n, n + 1, 2 * n].map(|d| (1usize << k) + d)).collect() };
    fams.push(Family::new(format!("slices-{}", T::NAME), product(&[nl + far.len()]), move |i, cx| {
        let l = if (i as usize) < nl { i as usize } else { far[i as usize - nl] };
        let b = stream(l);
        let r = T::slice(&b);
        cx.steps(1);
        cx.state(fnv(&[T::NAME.as_bytes(), b"len", &i.to_le_bytes()]));
        cx.outcome(r.is_ok() as u64);
        cx.desc(|| format!("{} from_slice with {} bytes -> {}", T::NAME, l, if r.is_ok() { "ok" } else { "error" }));
        match r {
            Ok(v) if l == n => want_bytes(|| format!("{} from_slice", T::NAME), v.to_arr().as_ref(), &b),
            Ok(_) => Err(format!("{} from_slice accepted {} bytes", T::NAME, l)),
            Err(_) if l == n => Err(format!("{} from_slice rejected {} bytes", T::NAME, l)),
            Err(e) => {
                cx.steps(4);
                want(|| format!("{} from_slice({} bytes) error (expected, got) fields", T::NAME, l), (e.expected, e.got), (n, l))?;
                want(|| format!("{} from_slice({} bytes) error accessors", T::NAME, l), (e.expected_length(), e.invalid_length()), (n, l))?;
                let s = e.to_string();
                let nums: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
                if !(nums.contains(&n) && nums.contains(&l)) {
                    return Err(format!("{} from_slice({} bytes) error text {:?} does not state both lengths", T::NAME, l, s));
                }
                want(|| "error equality".into(), e == e.clone() && e == FromSliceError { expected: n, got: l }, true)
            }
        }
    }));
    // Every index and every range, in and out of bounds.
    let e = t.pick(3.min(n + 3), n + 3, n + 40);
    fams.push(Family::new(format!("index-{}", T::NAME), product(&[e + 1, e + 1]), move |i, cx| {
        let [a, b] = digits(i, [e + 1, e + 1]);
        let (a, b) = (if a == e { usize::MAX } else { a }, if b == e { usize::MAX } else { b });
        let bytes = back(0, n);
        let v = T::of(&bytes);
        let m = &bytes[..];
        cx.steps(6);
        cx.state(fnv(&[T::NAME.as_bytes(), b"idx", &i.to_le_bytes()]));
        cx.desc(|| format!("{} ranges over {} and {}", T::NAME, a, b));
        same(|| format!("{} [{}]", T::NAME, a), || v.idx(a), || m[a])?;
        same(|| format!("{} [{}..{}]", T::NAME, a, b), || v.range(a, b).to_vec(), || m[a..b].to_vec())?;
        same(|| format!("{} [{}..]", T::NAME, a), || v.range_from(a).to_vec(), || m[a..].to_vec())?;
        same(|| format!("{} [..{}]", T::NAME, b), || v.range_to(b).to_vec(), || m[..b].to_vec())?;
        same(|| format!("{} [{}..={}]", T::NAME, a, b), || v.range_incl(a, b).map(|x| x.to_vec()), || if has_incl::<T>() { Some(m[a..=b].to_vec()) } else { None })?;
        same(|| format!("{} [..={}]", T::NAME, b), || v.range_to_incl(b).map(|x| x.to_vec()), || if has_incl::<T>() { Some(m[..=b].to_vec()) } else { None })?;
        // A range borrows the value's own bytes.
        if a <= b && b <= n {
            want(|| format!("{} [{}..{}] address", T::NAME, a, b), v.range(a, b).as_ptr() as usize, v.all_index().as_ptr() as usize + a)?;
        }
        Ok(())
    }));
    fams.push(Family::new(format!("consts-{}", T::NAME), 1, move |_, cx| {
        cx.steps(3);
        if let Some(l) = T::LEN {
            want(|| format!("{}::LEN", T::NAME), l, n)?;
        }
        for (how, z) in T::zeros() {
            cx.steps(1);
            want_bytes(|| format!("{} {}", T::NAME, how), z.to_arr().as_ref(), &vec![0; n])?;
        }
        Ok(())
    }));
    // Values placed at every alignment and reinterpreted in place.
    let na = t.pick(3, 64, 64);
    fams.push(Family::new(format!("inplace-{}", T::NAME), na, move |i, cx| {
        let off = i as usize;
        let mut store = stream(64 + n + 64);
        let orig = store.clone();
        let p = store[off..off + n].as_mut_ptr();
        cx.steps(2);
        // Safety: an array of bytes has alignment 1.
        let arr: &mut T::Arr = unsafe { &mut *(p as *mut T::Arr) };
        if let Some(r) = T::by_ref(arr) {
            want_bytes(|| format!("{} from_bytes_ref at offset {}", T::NAME, off), r.to_arr().as_ref(), &orig[off..off + n])?;
        }
        if let Some(r) = T::by_mut(arr) {
            *r = T::of(&back(2, n));
            let mut want = orig.clone();
            want[off..off + n].copy_from_slice(&back(2, n));
            want_bytes(|| format!("{} store after from_bytes_mut at offset {}", T::NAME, off), &store, &want)?;
        }
        Ok(())
    }));
}

fn has_incl<T: Val>() -> bool { T::of(&back(0, T::N)).range_incl(0, 0).is_some() }

fn main() {
    run::main("C12", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        for_all_vals!(add(t, &mut fams));
        for_more_vals!(add(t, &mut fams));
        // The integer form of SipHash outputs.
        fams.push(Family::new("siphash-u64", product(&[8, t.pick(2, 256, 256), 2]), move |i, cx| {
            let [p, v, bg] = digits(i, [8, t.pick(2, 256, 256), 2]);
            let mut b: [u8; 8] = if bg == 0 { stream(8).try_into().unwrap() } else { [0; 8] };
            b[p] = v as u8;
            let h = siphash24::Hash::from_byte_array(b);
            cx.steps(4);
            cx.state(fnv(&[b"u64", &b]));
            let x = u64::from_le_bytes(b);
            want(|| format!("siphash24 as_u64 of {}", mc::show(&b)), h.as_u64(), x)?;
            want_bytes(|| format!("siphash24 from_u64({:#x})", x), &siphash24::Hash::from_u64(x).to_byte_array(), &b)
        }));
        fams.push(Family::new("error-new", 64 * 64, move |i, cx| {
            let [g, e] = digits(i, [64, 64]);
            cx.steps(1);
            let x = FromSliceError::new(g, e);
            want(|| format!("FromSliceError::new({}, {})", g, e), (x.invalid_length(), x.expected_length()), (g, e))
        }));
        let _ = panics(|| ());
        fams
    });
}
