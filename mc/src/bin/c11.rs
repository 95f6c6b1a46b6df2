//! C11: hex parsing accepts exactly well-formed strings and inverts printing.
use mc::{for_all_vals, for_more_vals};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::vals::{back, hexs, unhex, Val, BACKS};

fn parse<T: Val>(cx: &mut Ctx, s: &str) -> Result<(), String> {
    let want = unhex(s, T::N);
    let got = s.parse::<T>();
    cx.steps(1);
    cx.state(fnv(&[T::NAME.as_bytes(), s.as_bytes()]));
    cx.outcome(want.is_some() as u64);
    cx.desc(|| format!("{} parse {:?} -> {:?}", T::NAME, s, got));
    judge(T::NAME, "from_str", s, got, &want)?;
    if let Some(g) = T::from_hex(s) {
        cx.steps(1);
        judge(T::NAME, "from_hex", s, g, &want)?;
    }
    Ok(())
}

fn judge<T: Val>(name: &str, how: &str, s: &str, got: Result<T, chf::hex::HexToArrayError>, want: &Option<Vec<u8>>) -> Result<(), String> {
    match (got, want) {
        (Ok(v), Some(w)) =>
            if v.to_arr().as_ref() == &w[..] {
                Ok(())
            } else {
                Err(format!("{} {}({:?}): got bytes {}, model says {}", name, how, s, mc::show(v.to_arr().as_ref()), mc::show(w)))
            },
        (Ok(v), None) => Err(format!("{} {}({:?}): accepted as {}, model rejects it", name, how, s, mc::show(v.to_arr().as_ref()))),
        (Err(e), Some(_)) => Err(format!("{} {}({:?}): rejected ({}), model accepts it", name, how, s, e)),
        (Err(e), None) => {
            let _ = e.to_string();
            Ok(())
        }
    }
}

/// Characters of every UTF-8 length and every class that might be mistaken for a digit.
fn odd_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|c| c as char).collect();
    v.extend("\u{80}\u{e9}\u{ff}\u{130}\u{131}\u{660}\u{661}\u{6f0}\u{967}\u{1d7ce}\u{ff10}\u{ff11}\u{ff21}\u{ff41}\u{2028}\u{feff}\u{200b}\u{fffd}\u{10ffff}\u{1f600}\u{7ff}\u{800}\u{ffff}\u{10000}".chars());
    v
}

fn add<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    // Every byte value at every position, all case combinations; printed text parses back.
    let nv = t.pick(3, 256, 256);
    let np = t.pick(n.min(2), n, n);
    fams.push(Family::new(format!("values-{}", T::NAME), product(&[BACKS, np, nv, 4]), move |i, cx| {
        let [k, p, v, c] = digits(i, [BACKS, np, nv, 4]);
        let mut b = back(k, n);
        b[p] = v as u8;
        let mut s = hexs(&b, k % 2 == 1).into_bytes();
        for (j, up) in [(2 * p, c & 1), (2 * p + 1, c >> 1)] {
            if up == 1 {
                s[j].make_ascii_uppercase();
            } else {
                s[j].make_ascii_lowercase();
            }
        }
        parse::<T>(cx, std::str::from_utf8(&s).unwrap())?;
        let x = T::of(&b);
        if c == 0 {
            for text in [x.to_string(), format!("{:x}", x), format!("{:X}", x)] {
                cx.steps(1);
                match text.parse::<T>() {
                    Ok(y) if y == x => {}
                    r => return Err(format!("{} parsing its own text {:?}: {:?}", T::NAME, text, r)),
                }
            }
        }
        Ok(())
    }));
    // Every length.
    let nl = t.pick(2 * n + 3, 6 * n + 620, 30 * n + 5000);
    fams.push(Family::new(format!("lengths-{}", T::NAME), product(&[nl, 3]), move |i, cx| {
        let [l, k] = digits(i, [nl, 3]);
        let s: String = match k {
            0 => hexs(&back(0, l / 2 + 1), false)[..l].to_string(),
            1 => hexs(&back(1, l / 2 + 1), false)[..l].to_string(),
            _ => hexs(&back(2, l / 2 + 1), true)[..l].to_string(),
        };
        parse::<T>(cx, &s)
    }));
    // Lengths that agree with the right one in their low bytes.
    fams.push(Family::new(format!("far-{}", T::NAME), t.pick(1, 60, 60), move |i, cx| {
        let [k, d, c] = digits(i, [5, 6, 2]);
        let l = (1usize << (8 + 4 * k)) * (1 + c) + [0, 1, n, n + 1, 2 * n, 2 * n + 1][d];
        let s = hexs(&back(0, l / 2 + 1), false);
        cx.steps(1);
        judge(T::NAME, "from_str", &s[..l], s[..l].parse::<T>(), &unhex(&s[..l], n))
    }));
    // One character substituted at every position (string lengths vary with the character's
    // width), inserted at every position, or replacing as many bytes as it has.
    let odd = odd_chars();
    let no = if t == Tier::Tiny { 8 } else { odd.len() };
    let npos = t.pick(2, 2 * n + 1, 2 * n + 1);
    let o = odd.clone();
    fams.push(Family::new(format!("edit-{}", T::NAME), product(&[2, npos, no, 3]), move |i, cx| {
        let [bg, p, c, how] = digits(i, [2, npos, no, 3]);
        let c = if t == Tier::Tiny { odd_tiny(c) } else { o[c] };
        let s = hexs(&back([0, 1][bg], n), bg == 1);
        let skip = match how {
            0 => 1,
            1 => 0,
            _ => c.len_utf8(),
        };
        if p + skip > s.len() {
            return Ok(());
        }
        let mut r = String::with_capacity(s.len() + 4);
        r.push_str(&s[..p]);
        r.push(c);
        r.push_str(&s[p + skip..]);
        parse::<T>(cx, &r)
    }));
    if t == Tier::Tiny {
        return;
    }
    // Deletions and rotations, prefixes and suffixes.
    let affix = ["", "0x", "0X", " ", "\t", "\n", "+", "-", "#", "\\x", "x", "0", "00", "_", ":", "\0", "\u{feff}", "\"", "ff", "0x0"];
    let na = affix.len();
    fams.push(Family::new(format!("affix-{}", T::NAME), product(&[na, na, 5]), move |i, cx| {
        let [a, b, cut] = digits(i, [na, na, 5]);
        let s = hexs(&back(0, n), false);
        let s = if cut < 3 { &s[cut.min(s.len())..] } else { &s[..s.len().saturating_sub(cut - 2)] };
        parse::<T>(cx, &format!("{}{}{}", affix[a], s, affix[b]))
    }));
    // Two positions, each with every character of a class alphabet.
    let al: Vec<char> = "0fFgG/:@`x \u{e9}\u{7f}\u{0}".chars().collect();
    let k = al.len();
    let m = if t == Tier::Thorough { 2 * n } else { (2 * n).min(14) };
    fams.push(Family::new(format!("pairs-{}", T::NAME), product(&[m, m, k, k]), move |i, cx| {
        let [p, q, x, y] = digits(i, [m, m, k, k]);
        // Spread over the string: the first half from the front, the rest from the back.
        let at = |j: usize| if j < m / 2 { j } else { 2 * n - (m - j) };
        let (p, q) = (at(p), at(q));
        if p >= q {
            return Ok(());
        }
        let s = hexs(&back(0, n), false);
        let mut r = String::with_capacity(s.len() + 4);
        r.push_str(&s[..p]);
        r.push(al[x]);
        r.push_str(&s[p + 1..q]);
        r.push(al[y]);
        r.push_str(&s[q + 1..]);
        parse::<T>(cx, &r)
    }));
    // Every string of one repeated ASCII character at the right length and around it.
    fams.push(Family::new(format!("repeat-{}", T::NAME), product(&[128, 5]), move |i, cx| {
        let [c, d] = digits(i, [128, 5]);
        let s: String = std::iter::repeat(c as u8 as char).take(2 * n + d - 2).collect();
        parse::<T>(cx, &s)
    }));
    // Every Unicode scalar value at the start, in place of as many bytes as it has.
    let top: usize = if t == Tier::Thorough || n <= 3 || n == 32 { 0x110000 } else { 0x3000 };
    fams.push(Family::new(format!("scalar-{}", T::NAME), product(&[top]), move |i, cx| {
        let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
        let s = hexs(&back(0, n), false);
        if c.len_utf8() > s.len() {
            return Ok(());
        }
        let mut r = String::with_capacity(s.len() + 4);
        r.push(c);
        r.push_str(&s[c.len_utf8()..]);
        cx.steps(1);
        cx.outcome(unhex(&r, n).is_some() as u64);
        judge(T::NAME, "from_str", &r, r.parse::<T>(), &unhex(&r, n))
    }));
    // All short strings for the one- and two-byte types.
    if n == 1 {
        fams.push(Family::new(format!("all2-{}", T::NAME), 128 * 128, move |i, cx| {
            let [a, b] = digits(i, [128, 128]);
            let s: String = [a as u8 as char, b as u8 as char].iter().collect();
            parse::<T>(cx, &s)
        }));
        fams.push(Family::new(format!("all3-{}", T::NAME), 128 * 128 * 128, move |i, cx| {
            let [a, b, c] = digits(i, [128, 128, 128]);
            let s = [a as u8, b as u8, c as u8];
            cx.steps(1);
            judge(T::NAME, "from_str", std::str::from_utf8(&s).unwrap(), std::str::from_utf8(&s).unwrap().parse::<T>(), &None)
        }));
    }
    if n == 2 {
        let al: Vec<u8> = b"0123456789abcdefABCDEFgG/:@`xX +-_\0\x7f".to_vec();
        let k = al.len();
        fams.push(Family::new(format!("all4-{}", T::NAME), product(&[k, k, k, k]), move |i, cx| {
            let d = digits(i, [k, k, k, k]);
            let s = d.map(|x| al[x]);
            let s = std::str::from_utf8(&s).unwrap();
            cx.steps(1);
            judge(T::NAME, "from_str", s, s.parse::<T>(), &unhex(s, 2))
        }));
    }
}

fn odd_tiny(c: usize) -> char { ['g', '/', ':', 'G', '\u{e9}', '\u{ff10}', ' ', '\u{1f600}'][c] }

fn main() {
    run::main("C11", |a| {
        let mut fams = Vec::new();
        for_all_vals!(add(a.tier, &mut fams));
        for_more_vals!(add(a.tier, &mut fams));
        fams
    });
}
