//! C16: fixed-time equality runs the same instructions whatever the contents.
use chf::cmp::fixed_time_eq;
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::spec::stream;
use mc::step::{install, stepped, Rec};
use std::cell::RefCell;
use std::collections::HashMap;

/// One pair of buffers per thread, so that every comparison of a thread sees the same
/// addresses.
struct Pad {
    a: Vec<u8>,
    b: Vec<u8>,
    rec: Rec,
    /// Reference (length, offsets) -> (instructions, hash) for all-zero equal slices.
    known: HashMap<(usize, usize, usize), (u64, u64)>,
}
const MAX: usize = (1 << 20) + 64;
thread_local! {
    static PAD: RefCell<Option<Box<Pad>>> = const { RefCell::new(None) };
}

struct Call {
    a: *const u8,
    b: *const u8,
    len: usize,
}
fn call(c: &mut Call) -> bool {
    let (a, b) = unsafe { (std::slice::from_raw_parts(c.a, c.len), std::slice::from_raw_parts(c.b, c.len)) };
    std::hint::black_box(fixed_time_eq as fn(&[u8], &[u8]) -> bool)(a, b)
}

fn trace(p: &mut Pad, a: &[u8], b: &[u8], oa: usize, ob: usize, keep: usize) -> (bool, u64, u64, Vec<u64>) {
    p.a[oa..oa + a.len()].copy_from_slice(a);
    p.b[ob..ob + b.len()].copy_from_slice(b);
    let mut c = Call { a: p.a[oa..].as_ptr(), b: p.b[ob..].as_ptr(), len: a.len() };
    p.rec = Rec::new(keep);
    let r = stepped(&mut p.rec, call, &mut c);
    (r, p.rec.count, p.rec.hash, std::mem::take(&mut p.rec.rips))
}

/// Compares the trace for (a, b) with the trace for equal all-zero slices of that length.
fn check(cx: &mut Ctx, a: &[u8], b: &[u8], oa: usize, ob: usize) -> Result<(), String> {
    PAD.with(|pad| {
        let mut g = pad.borrow_mut();
        if g.is_none() {
            let mut p = Box::new(Pad { a: vec![0; MAX], b: vec![0; MAX], rec: Rec::new(0), known: HashMap::new() });
            // Warm-up: lazily bound symbols resolve here.
            let _ = trace(&mut p, &[0; 8], &[0; 8], 0, 0, 0);
            *g = Some(p);
        }
        let p = g.as_mut().unwrap();
        let l = a.len();
        let z = vec![0u8; l];
        let known = match p.known.get(&(l, oa, ob)) {
            Some(k) => *k,
            None => {
                let (_, n, h, _) = trace(p, &z, &z, oa, ob, 0);
                p.known.insert((l, oa, ob), (n, h));
                (n, h)
            }
        };
        let (r, n, h, _) = trace(p, a, b, oa, ob, 0);
        cx.steps(n);
        cx.state(fnv(&[&(l as u32).to_le_bytes(), a, b]));
        cx.outcome(fnv(&[&h.to_le_bytes(), &(l as u32).to_le_bytes()]));
        let what = || {
            let d: Vec<String> = a.iter().zip(b).enumerate().filter(|(_, (x, y))| x != y).take(4).map(|(i, (x, y))| format!("[{}] {:02x}/{:02x}", i, x, y)).collect();
            format!("{} bytes, first byte {:02x?}, differing at {}", l, a.first(), if d.is_empty() { "nothing".into() } else { d.join(" ") })
        };
        cx.desc(|| format!("{}: {} instructions", what(), n));
        if n == 0 {
            return Err("single-stepping recorded nothing".into());
        }
        if r != (a == b) {
            // C15 decides this; a wrong answer while stepping is reported there.
            return Ok(());
        }
        if (n, h) == known {
            return Ok(());
        }
        // A trace may also be disturbed from outside: only a difference that repeats counts.
        let (_, n0, h0, t0) = trace(p, &z, &z, oa, ob, 1 << 20);
        let (_, n1, h1, t1) = trace(p, a, b, oa, ob, 1 << 20);
        if (n1, h1) == (n0, h0) {
            p.known.insert((l, oa, ob), (n0, h0));
            return Ok(());
        }
        let at = t0.iter().zip(&t1).position(|(x, y)| x != y).unwrap_or(t0.len().min(t1.len()));
        Err(format!("comparing {}: {} instructions, but {} for equal zero bytes; the paths part after {} instructions", what(), n1, n0, at))
    })
}

fn fill(k: usize, n: usize) -> Vec<u8> {
    match k {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => stream(n),
        _ => vec![0x80; n],
    }
}

fn main() {
    install();
    run::main("C16", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        // Every length, background, position and several XORs (0 = equal).
        let nl = t.pick(34, 67, 140);
        let nx = t.pick(2, 4, 5);
        let xs = [0u8, 0x80, 1, 0xff, 0x10];
        fams.push(Family::new("one", product(&[nl, nl, nx, 2]), move |i, cx| {
            let [l, p, x, bg] = digits(i, [nl, nl, nx, 2]);
            if p > l || (p == l && x > 0) {
                return Ok(());
            }
            let a = fill([2, 1][bg], l);
            let mut b = a.clone();
            if p < l {
                b[p] ^= xs[x];
            }
            check(cx, &a, &b, 0, 0)
        }));
        // Every XOR at every position for the digest lengths.
        let lens: &[usize] = t.pick(&[1, 2, 8], &[1, 2, 3, 8, 20, 32, 48, 64], &[1, 2, 3, 4, 7, 8, 16, 20, 31, 32, 33, 48, 64]);
        for l in lens {
            let l = *l;
            fams.push(Family::new(format!("xor-{}", l), product(&[l, 256]), move |i, cx| {
                let [p, x] = digits(i, [l, 256]);
                let a = fill(2, l);
                let mut b = a.clone();
                b[p] ^= x as u8;
                check(cx, &a, &b, 0, 0)
            }));
        }
        // One byte: every pair of values.
        let nv = t.pick(64, 256, 256);
        fams.push(Family::new("bytes", product(&[nv, nv]), move |i, cx| {
            let [x, y] = digits(i, [nv, nv]);
            let m = 256 / nv;
            check(cx, &[(x * m) as u8 ^ (y as u8 >> 7)], &[(y * m) as u8], 0, 0)
        }));
        if t == Tier::Tiny {
            return fams;
        }
        // Two differences, everything different, several backgrounds.
        for l in t.pick(vec![], vec![8, 32], vec![8, 20, 32, 48]) {
            fams.push(Family::new(format!("two-{}", l), product(&[l, l, 3, 4]), move |i, cx| {
                let [p, q, x, bg] = digits(i, [l, l, 3, 4]);
                if p >= q {
                    return Ok(());
                }
                let a = fill(bg, l);
                let mut b = a.clone();
                b[p] ^= [1, 0xff, 0x80][x];
                b[q] ^= [1, 0xff, 0x40][x];
                check(cx, &a, &b, 0, 0)
            }));
        }
        fams.push(Family::new("all-differ", product(&[66, 51]), move |i, cx| {
            let [l, x] = digits(i, [66, 51]);
            let a = fill(2, l);
            let b: Vec<u8> = a.iter().map(|y| y ^ (x as u8 * 5 + 1)).collect();
            check(cx, &a, &b, 0, 0)
        }));
        fams.push(Family::new("prefix-differ", product(&[66, 66, 2]), move |i, cx| {
            let [l, k, x] = digits(i, [66, 66, 2]);
            if k > l {
                return Ok(());
            }
            let a = fill(2, l);
            let mut b = a.clone();
            for y in &mut b[..k] {
                *y ^= [1, 0x80][x];
            }
            check(cx, &a, &b, 0, 0)
        }));
        // Longer slices: a difference at the start, the middle and the end, and none.
        let mut ls: Vec<usize> = vec![127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 2049, 4096, 8193, 16385, 32769];
        ls.extend(t.pick(vec![], vec![], vec![65535, 65537, (1 << 17) + 1, (1 << 18) + 1, (1 << 20) + 1]));
        ls.reverse();
        fams.push(Family::new("long", product(&[ls.len(), 16]), move |i, cx| {
            let [l, k] = digits(i, [ls.len(), 16]);
            let l = ls[l];
            let a = fill(2, l);
            let mut b = a.clone();
            match k {
                0 => {}
                1 => b[0] ^= 0x80,
                2 => b[l / 2] ^= 1,
                3 => b[l - 1] ^= 0xff,
                k if k > 4 => b[(k - 4) * l / 12] ^= 0x42,
                _ => b.iter_mut().for_each(|x| *x ^= 0x55),
            }
            check(cx, &a, &b, 0, 0)
        }).slow(200));
        // Either argument off alignment.
        fams.push(Family::new("align", product(&[8, 8, 5, 4]), move |i, cx| {
            let [oa, ob, l, k] = digits(i, [8, 8, 5, 4]);
            let l = [7, 16, 20, 32, 48][l];
            let a = fill(2, l);
            let mut b = a.clone();
            match k {
                0 => {}
                1 => b[0] ^= 1,
                2 => b[l - 1] ^= 0x80,
                _ => b[l / 2] ^= 0xff,
            }
            check(cx, &a, &b, oa, ob)
        }));
        fams
    });
}
