//! C13: comparison and hashing of hash values agree with their bytes.
use mc::{for_all_vals, for_more_vals};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::vals::{back, Val, BACKS};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

/// Records what a Hash impl feeds to a hasher (concatenated, with lengths and kinds lost only
/// where the standard library does not fix them).
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}

fn fed<H: Hash + ?Sized>(h: &H) -> Vec<u8> {
    let mut r = Rec(Vec::with_capacity(128));
    h.hash(&mut r);
    r.0
}
fn std_hash<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut r = DefaultHasher::new();
    h.hash(&mut r);
    r.finish()
}

fn pair<T: Val>(cx: &mut Ctx, a: &[u8], b: &[u8]) -> Result<(), String> {
    let (x, y) = (T::of(a), T::of(b));
    let o = a.cmp(b);
    cx.steps(10);
    cx.state(fnv(&[T::NAME.as_bytes(), a, b]));
    cx.outcome(o as i8 as u64 & 3);
    cx.desc(|| format!("{} {} vs {}", T::NAME, mc::show(a), mc::show(b)));
    #[allow(clippy::neg_cmp_op_on_partial_ord)]
    let got = (
        (x == y, x != y),
        x.cmp(&y),
        x.partial_cmp(&y),
        (x < y, x <= y, x > y, x >= y),
        x.max(y) == if o == Ordering::Greater { x } else { y },
        x.min(y) == if o == Ordering::Greater { y } else { x },
    );
    let want = (
        (o == Ordering::Equal, o != Ordering::Equal),
        o,
        Some(o),
        (o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less),
        true,
        true,
    );
    if got != want {
        return Err(format!("{} comparing {} with {}: (eq,ne),cmp,partial_cmp,(lt,le,gt,ge),max,min = {:?}, model says {:?}", T::NAME, mc::show(a), mc::show(b), got, want));
    }
    // Further provided methods.
    let (lo, hi) = if o == Ordering::Greater { (y, x) } else { (x, y) };
    let mut z = [lo; 2];
    z[0].clone_from(&hi);
    let mut s = [lo, lo];
    s.clone_from_slice(&[x, y]);
    let mut w = vec![x];
    w.clone_from(&vec![y, x]);
    cx.steps(6);
    let ok = lo.clamp(lo, hi) == lo && hi.clamp(lo, hi) == hi && x.clamp(y, y) == y && y.clamp(x, x) == x
        && z[0] == hi && s == [x, y] && w == [y, x]
        && [x, y].cmp(&[y, x]) == [a, b].cmp(&[b, a])
        && fed(&[x, y][..]) == fed(&[T::arr(a), T::arr(b)][..])
        && (x, 1).cmp(&(y, 0)) == (a, 1).cmp(&(b, 0));
    if !ok {
        return Err(format!("{} {} and {}: clamp, clone_from, hashing or comparing as part of a larger value differs from the bytes", T::NAME, mc::show(a), mc::show(b)));
    }
    Ok(())
}

fn hashing<T: Val>(cx: &mut Ctx, a: &[u8]) -> Result<(), String> {
    let x = T::of(a);
    #[allow(clippy::clone_on_copy)]
    let c = x.clone();
    let d = x;
    cx.steps(4);
    cx.state(fnv(&[T::NAME.as_bytes(), b"hash", a]));
    if c != x || d != x || c.to_arr().as_ref() != a || d.to_arr().as_ref() != a {
        return Err(format!("{} {}: a copy or clone differs from its original", T::NAME, mc::show(a)));
    }
    let m = T::arr(a);
    if std_hash(&x) != std_hash(&m) || fed(&x) != fed(&m) {
        return Err(format!("{} {}: feeds {} to a hasher, its byte array feeds {}", T::NAME, mc::show(a), mc::show(&fed(&x)), mc::show(&fed(&m))));
    }
    Ok(())
}

fn add<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    // Every position, every pair of byte values there.
    let long = n > 64 && t == Tier::Quick;
    let v1 = if long { 18 } else { t.pick(3, 256, 256) };
    let val = move |v: usize| if long { [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 192, 254, 255][v] } else { v as u8 };
    let np = t.pick(n.min(2), n, n);
    let nbg = t.pick(1, 1, 3);
    fams.push(Family::new(format!("values-{}", T::NAME), product(&[nbg, np, v1, v1]), move |i, cx| {
        let [k, p, v, w] = digits(i, [nbg, np, v1, v1]);
        let mut a = back(k, n);
        let mut b = a.clone();
        a[p] = val(v);
        b[p] = val(w);
        pair::<T>(cx, &a, &b)
    }));
    // Two positions that disagree on the order.
    let al = [0u8, 1, 0x7f, 0x80, 0xfe, 0xff];
    let nn = t.pick(n.min(3), n, n);
    let la = if n > 64 && t == Tier::Quick { 2 } else { 6 };
    let al = if la == 2 { [0u8, 0xff, 0, 0, 0, 0] } else { al };
    fams.push(Family::new(format!("two-{}", T::NAME), product(&[nn, nn, la, la, la, la]), move |i, cx| {
        let [p, q, a1, b1, a2, b2] = digits(i, [nn, nn, la, la, la, la]);
        if p >= q {
            return Ok(());
        }
        let mut a = back(3, n);
        let mut b = a.clone();
        a[p] = al[a1];
        b[p] = al[b1];
        a[q] = al[a2];
        b[q] = al[b2];
        pair::<T>(cx, &a, &b)
    }));
    fams.push(Family::new(format!("hash-{}", T::NAME), product(&[BACKS, np, v1]), move |i, cx| {
        let [k, p, v] = digits(i, [BACKS, np, v1]);
        let mut a = back(k, n);
        a[p] = val(v);
        hashing::<T>(cx, &a)
    }));
    // Collections of many values keep exactly the distinct ones, in order.
    fams.push(Family::new(format!("sets-{}", T::NAME), 2, move |k, cx| {
        let mut vals = Vec::new();
        for p in 0..np {
            for v in 0..v1 {
                let mut a = back(k as usize, n);
                a[p] = val(v).reverse_bits();
                vals.push(a);
            }
        }
        cx.steps(3 * vals.len() as u64);
        let hs: HashSet<T> = vals.iter().map(|a| T::of(a)).collect();
        let bs: BTreeSet<T> = vals.iter().map(|a| T::of(a)).collect();
        let m: BTreeSet<Vec<u8>> = vals.iter().cloned().collect();
        let got: Vec<Vec<u8>> = bs.iter().map(|x| x.to_arr().as_ref().to_vec()).collect();
        if hs.len() != m.len() || got != m.iter().cloned().collect::<Vec<_>>() {
            return Err(format!("{}: a HashSet keeps {}, a BTreeSet {} of {} distinct values (or in another order)", T::NAME, hs.len(), got.len(), m.len()));
        }
        let mut sorted: Vec<T> = vals.iter().map(|a| T::of(a)).collect();
        sorted.sort();
        let mut ms = vals.clone();
        ms.sort();
        if sorted.iter().map(|x| x.to_arr().as_ref().to_vec()).collect::<Vec<_>>() != ms {
            return Err(format!("{}: sorting differs from sorting the bytes", T::NAME));
        }
        Ok(())
    }));
}

fn main() {
    run::main("C13", |a| {
        let mut fams = Vec::new();
        for_all_vals!(add(a.tier, &mut fams));
        for_more_vals!(add(a.tier, &mut fams));
        fams
    });
}
