//! C15: fixed-time equality decides byte equality exactly.
use chf::cmp::fixed_time_eq;
use mc::run::{self, digits, fnv, panics, product, Ctx, Family, Tier};
use mc::spec::stream;
use mc::{show, want};

fn eq(cx: &mut Ctx, a: &[u8], b: &[u8]) -> Result<(), String> {
    cx.steps(2);
    cx.state(fnv(&[&(a.len() as u32).to_le_bytes(), a, b]));
    let m = a == b;
    cx.outcome(m as u64);
    cx.desc(|| format!("{} vs {} -> {}", show(a), show(b), m));
    let what = || {
        let d: Vec<String> = a.iter().zip(b).enumerate().filter(|(_, (x, y))| x != y).take(4).map(|(i, (x, y))| format!("[{}] {:02x}/{:02x}", i, x, y)).collect();
        format!("fixed_time_eq of {} bytes, differing at {}", a.len(), d.join(" "))
    };
    want(what, fixed_time_eq(a, b), m)?;
    want(what, fixed_time_eq(b, a), m)
}

fn main() {
    run::main("C15", |a| {
        let t = a.tier;
        let mut fams = Vec::new();
        // One differing byte: every length, position and pair of values class.
        let nl = t.pick(6, 140, 300);
        fams.push(Family::new("one", product(&[nl, nl, 256]), move |i, cx| {
            let [l, p, x] = digits(i, [nl, nl, 256]);
            if p > l {
                return Ok(());
            }
            let a = stream(l);
            let mut b = a.clone();
            if p < l {
                b[p] ^= x as u8;
            } else if x > 0 {
                return Ok(());
            }
            eq(cx, &a, &b)
        }));
        // Every pair of byte values, alone and at each position of short slices.
        let nl = t.pick(1, 18, 34);
        fams.push(Family::new("bytes", product(&[nl, nl, 256, 256]), move |i, cx| {
            let [l, p, x, y] = digits(i, [nl, nl, 256, 256]);
            if p > l {
                return Ok(());
            }
            let mut a = stream(l + 1);
            let mut b = a.clone();
            a[p] = x as u8;
            b[p] = y as u8;
            eq(cx, &a, &b)
        }));
        if t == Tier::Tiny {
            return fams;
        }
        // Two differences whose XORs could cancel: every pair of positions, every pair of XORs.
        let n = t.pick(0, 9, 16);
        fams.push(Family::new("two", product(&[n, n, 256, 256]), move |i, cx| {
            let [p, q, x, y] = digits(i, [n, n, 256, 256]);
            if p >= q {
                return Ok(());
            }
            let a = stream(n);
            let mut b = a.clone();
            b[p] ^= x as u8;
            b[q] ^= y as u8;
            eq(cx, &a, &b)
        }));
        // Two differences that cancel as XORs, sums or products, at every pair of positions.
        let cl = [16usize, 20, 32, 48, 64, 65];
        for l in cl {
            fams.push(Family::new(format!("cancel-{}", l), product(&[l, l, 6, 10]), move |i, cx| {
                let [p, q, how, v] = digits(i, [l, l, 6, 10]);
                if p >= q {
                    return Ok(());
                }
                let v = [1u8, 2, 4, 8, 16, 32, 64, 128, 255, 0x5a][v];
                let a = if how < 4 { stream(l) } else { vec![0; l] };
                let mut b = a.clone();
                match how {
                    0 | 4 => {
                        b[p] ^= v;
                        b[q] ^= v;
                    }
                    1 => {
                        b[p] = b[p].wrapping_add(v);
                        b[q] = b[q].wrapping_sub(v);
                    }
                    2 => b.swap(p, q),
                    3 => {
                        b[p] ^= v;
                        b[q] ^= !v;
                    }
                    _ => {
                        b[p] = v;
                        b[q] = v.wrapping_neg();
                    }
                }
                eq(cx, &a, &b)
            }));
        }
        // Reversed, rotated and complemented contents.
        fams.push(Family::new("moved", product(&[140, 140, 3]), move |i, cx| {
            let [l, r, k] = digits(i, [140, 140, 3]);
            if l == 0 || r >= l {
                return Ok(());
            }
            let a = stream(l);
            let mut b = a.clone();
            b.rotate_left(r);
            match k {
                0 => {}
                1 => b.reverse(),
                _ => b.iter_mut().for_each(|x| *x = !*x),
            }
            eq(cx, &a, &b)
        }));
        // So many equal differences that 8-, 16-, 24- and 32-bit sums or counts of them wrap.
        #[cfg(not(miri))]
        fams.push(
            Family::new("wrap", product(&[26, 9]), move |i, cx| {
                let [k, v] = digits(i, [26, 9]);
                let v = [1u8, 2, 4, 8, 16, 32, 64, 128, 255][v];
                let l = 1usize << k;
                // Large sizes only where a sum of v's wraps at 2^32 (or 2^24).
                if k > 20 && (l as u64 * v as u64) % (1 << 32) != 0 && (l as u64 * v as u64) % (1 << 24) != 0 {
                    return Ok(());
                }
                let (a, b) = (vec![0u8; l], vec![v; l]);
                cx.steps(2);
                cx.state(fnv(&[b"wrap", &i.to_le_bytes()]));
                want(|| format!("fixed_time_eq of {} zeros and {} bytes {:#x}", l, l, v), fixed_time_eq(&a, &b), false)?;
                want(|| format!("fixed_time_eq of {} bytes {:#x} and {} zeros", l, v, l), fixed_time_eq(&b, &a), false)
            })
            .slow(300),
        );
        // 2^32 differing bytes (the same pages mapped over and over).
        #[cfg(not(any(miri, debug_assertions)))]
        fams.push(
            Family::new("wrap32", 2, move |i, cx| {
                let (len, pg) = (1usize << 32, 1usize << 24);
                cx.steps(1);
                let r = unsafe {
                    let fd = libc::memfd_create(c"ones".as_ptr(), 0);
                    assert!(fd >= 0 && libc::ftruncate(fd, pg as i64) == 0);
                    let base = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                    let zero = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                    assert!(base != libc::MAP_FAILED && zero != libc::MAP_FAILED);
                    for k in 0..len / pg {
                        let at = (base as *mut u8).add(k * pg) as *mut libc::c_void;
                        assert!(libc::mmap(at, pg, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0) == at);
                    }
                    std::slice::from_raw_parts_mut(base as *mut u8, pg).fill(1);
                    let (a, b) = (std::slice::from_raw_parts(base as *const u8, len), std::slice::from_raw_parts(zero as *const u8, len));
                    let r = if i == 0 { fixed_time_eq(a, b) } else { fixed_time_eq(b, b) };
                    libc::munmap(base, len);
                    libc::munmap(zero, len);
                    libc::close(fd);
                    r
                };
                want(|| format!("fixed_time_eq of 2^32 bytes, {}", if i == 0 { "all different" } else { "all equal" }), r, i == 1)
            })
            .slow(300),
        );
        // The same XOR in every subset of positions (even counts cancel under XOR, sums wrap).
        fams.push(Family::new("subsets", product(&[1 << 12, 255]), move |i, cx| {
            let [s, x] = digits(i, [1 << 12, 255]);
            let a = stream(12);
            let mut b = a.clone();
            for p in 0..12 {
                if s >> p & 1 == 1 {
                    b[p] ^= x as u8 + 1;
                }
            }
            eq(cx, &a, &b)
        }));
        // k equal differences of one bit in a long slice (counters and sums that wrap).
        fams.push(Family::new("many", product(&[1030, 8, 3]), move |i, cx| {
            let [k, bit, d] = digits(i, [1030, 8, 3]);
            let a = vec![[0u8, 0xff, 0x5a][d]; 1030];
            let mut b = a.clone();
            for x in b.iter_mut().take(k) {
                *x ^= 1 << bit;
            }
            eq(cx, &a, &b)
        }));
        // Long slices: one difference at every position of several lengths.
        let lens: Vec<usize> = if t == Tier::Thorough { vec![4096, 65536, 65537] } else { vec![1024, 4097] };
        for l in lens {
            let a = std::sync::Arc::new(stream(l));
            fams.push(Family::new(format!("long-{}", l), product(&[l + 1, 2]), move |i, cx| {
                let [p, x] = digits(i, [l + 1, 2]);
                let mut b = a.to_vec();
                if p < l {
                    b[p] ^= [1, 0x80][x];
                }
                eq(cx, &a, &b)
            }));
        }
        let ks = t.pick(0, 6, 10);
        fams.push(Family::new("huge", product(&[ks, 3, 4]), move |i, cx| {
            let [k, d, p] = digits(i, [ks, 3, 4]);
            let l = (1usize << (15 + k)) + d - 1;
            let a = stream(l);
            let mut b = a.clone();
            if p < 3 {
                b[[0, l / 2, l - 1][p]] ^= 0x10;
            }
            eq(cx, &a, &b)
        }));
        // Alignment of either argument.
        fams.push(Family::new("align", product(&[16, 16, 40, 9]), move |i, cx| {
            let [o, r, l, b] = digits(i, [16, 16, 40, 9]);
            let mut x = vec![0u8; 64];
            let mut y = vec![0u8; 64];
            let m = stream(l);
            x[o..o + l].copy_from_slice(&m);
            y[r..r + l].copy_from_slice(&m);
            // The bytes around the slices differ.
            x[o + l] = 0x77;
            y[r + l] = 0x33;
            if b < 8 && l > 0 {
                y[r + l - 1] ^= 1 << b;
            }
            eq(cx, &x[o..o + l], &y[r..r + l])
        }));
        // The same slice as both arguments, and overlapping slices.
        fams.push(Family::new("alias", product(&[64, 64, 64]), move |i, cx| {
            let [o, r, l] = digits(i, [64, 64, 64]);
            let s: Vec<u8> = (0..128).map(|i| (i as u8 / 3) & 1).collect();
            eq(cx, &s[o..o + l], &s[r..r + l])
        }));
        // Different lengths panic (prefixes included).
        let nl = t.pick(0, 140, 400);
        fams.push(Family::new("lengths", product(&[nl, nl]), move |i, cx| {
            let [x, y] = digits(i, [nl, nl]);
            let a = stream(nl);
            cx.steps(1);
            cx.state(fnv(&[b"len", &i.to_le_bytes()]));
            let p = panics(|| fixed_time_eq(&a[..x], &a[..y]));
            want(|| format!("fixed_time_eq of lengths {} and {} panics", x, y), p, x != y)
        }));
        fams.push(Family::new("lengths-far", product(&[9, 3]), move |i, cx| {
            let [k, d] = digits(i, [9, 3]);
            let l = 1usize << (k + 8);
            let a = stream(l + d);
            cx.steps(2);
            // Lengths that agree in their low bytes.
            for y in [0, 1, d, 256 * d] {
                if y != l + d && y <= l + d {
                    want(|| format!("fixed_time_eq of lengths {} and {} panics", l + d, y), panics(|| fixed_time_eq(&a, &a[..y])), true)?;
                    want(|| format!("fixed_time_eq of lengths {} and {} panics", y, l + d), panics(|| fixed_time_eq(&a[..y], &a)), true)?;
                }
            }
            Ok(())
        }));
        fams
    });
}
