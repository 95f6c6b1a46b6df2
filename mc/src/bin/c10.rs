//! C10: hex text of every value is exactly its bytes in order.
use mc::{for_all_vals, for_more_vals};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::vals::{back, hexs, Val, BACKS};
use std::fmt::{self, Write};

/// A fixed buffer to format into (no allocation while exploring).
struct Buf {
    b: [u8; 2048],
    n: usize,
}
impl Buf {
    fn new() -> Buf { Buf { b: [0; 2048], n: 0 } }
    fn s(&self) -> &str { std::str::from_utf8(&self.b[..self.n]).expect("formatted text is UTF-8") }
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let e = self.n + s.len();
        if e > self.b.len() {
            return Err(fmt::Error);
        }
        self.b[self.n..e].copy_from_slice(s.as_bytes());
        self.n = e;
        Ok(())
    }
}

macro_rules! put {
    ($($a:tt)*) => {{
        let mut b = Buf::new();
        write!(b, $($a)*).map_err(|_| format!("formatting {:?} failed", stringify!($($a)*)))?;
        b
    }};
}

fn eq(name: &str, what: &str, bytes: &[u8], got: &str, want: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} {} of bytes {}: got {:?}, model says {:?}", name, what, mc::show(bytes), got, want))
    }
}

fn plain<T: Val>(cx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let v = T::of(b);
    let (lo, up) = (hexs(b, false), hexs(b, true));
    cx.steps(8);
    cx.state(fnv(&[T::NAME.as_bytes(), b]));
    cx.desc(|| format!("{} {} -> {}", T::NAME, mc::show(b), v));
    let pre = if T::HMAC { "" } else { "0x" };
    let (alt, ualt) = (format!("{}{}", pre, lo), format!("{}{}", pre, up));
    eq(T::NAME, "{}", b, put!("{}", v).s(), &lo)?;
    eq(T::NAME, "{:x}", b, put!("{:x}", v).s(), &lo)?;
    eq(T::NAME, "{:X}", b, put!("{:X}", v).s(), &up)?;
    eq(T::NAME, "{:?}", b, put!("{:?}", v).s(), &alt)?;
    eq(T::NAME, "{:#x}", b, put!("{:#x}", v).s(), &alt)?;
    eq(T::NAME, "{:#X}", b, put!("{:#X}", v).s(), &ualt)?;
    // Pretty Debug, alone and inside other values.
    eq(T::NAME, "{:#?}", b, put!("{:#?}", v).s(), &alt)?;
    for (what, got) in [("{:x?}", put!("{:x?}", v)), ("{:X?}", put!("{:X?}", v)), ("{:#x?}", put!("{:#x?}", v)), ("{:#X?}", put!("{:#X?}", v))] {
        if got.s() != ualt {
            eq(T::NAME, what, b, got.s(), &alt)?;
        }
    }
    eq(T::NAME, "{:?} in Some", b, put!("{:?}", Some(&v)).s(), &format!("Some({})", alt))
}

const ALIGNS: usize = 10;
const ALIGN_NAMES: [&str; ALIGNS] = ["", "<", "^", ">", "*<", "*^", "*>", "\u{e9}^", "0", "+"];

/// Formats with run-time width and precision.
fn styled<T: Val>(v: &T, kind: usize, al: usize, alt: bool, w: usize, p: Option<usize>) -> Result<Buf, String> {
    macro_rules! one {
        ($w:literal, $p:literal) => {
            match p {
                Some(p) => put!($p, v, w, p),
                None => put!($w, v, w),
            }
        };
    }
    Ok(match (kind, alt, al) {
        (0, false, 0) => one!("{:1$}", "{:1$.2$}"),
        (0, false, 1) => one!("{:<1$}", "{:<1$.2$}"),
        (0, false, 2) => one!("{:^1$}", "{:^1$.2$}"),
        (0, false, 3) => one!("{:>1$}", "{:>1$.2$}"),
        (0, false, 4) => one!("{:*<1$}", "{:*<1$.2$}"),
        (0, false, 5) => one!("{:*^1$}", "{:*^1$.2$}"),
        (0, false, 6) => one!("{:*>1$}", "{:*>1$.2$}"),
        (0, false, 7) => one!("{:\u{e9}^1$}", "{:\u{e9}^1$.2$}"),
        (0, false, 8) => one!("{:01$}", "{:01$.2$}"),
        (0, false, _) => one!("{:+1$}", "{:+1$.2$}"),
        (0, true, 0) => one!("{:#1$}", "{:#1$.2$}"),
        (0, true, 1) => one!("{:<#1$}", "{:<#1$.2$}"),
        (0, true, 2) => one!("{:^#1$}", "{:^#1$.2$}"),
        (0, true, 3) => one!("{:>#1$}", "{:>#1$.2$}"),
        (0, true, 4) => one!("{:*<#1$}", "{:*<#1$.2$}"),
        (0, true, 5) => one!("{:*^#1$}", "{:*^#1$.2$}"),
        (0, true, 6) => one!("{:*>#1$}", "{:*>#1$.2$}"),
        (0, true, 7) => one!("{:\u{e9}^#1$}", "{:\u{e9}^#1$.2$}"),
        (0, true, 8) => one!("{:#01$}", "{:#01$.2$}"),
        (0, true, _) => one!("{:+#1$}", "{:+#1$.2$}"),
        (1, false, 0) => one!("{:1$x}", "{:1$.2$x}"),
        (1, false, 1) => one!("{:<1$x}", "{:<1$.2$x}"),
        (1, false, 2) => one!("{:^1$x}", "{:^1$.2$x}"),
        (1, false, 3) => one!("{:>1$x}", "{:>1$.2$x}"),
        (1, false, 4) => one!("{:*<1$x}", "{:*<1$.2$x}"),
        (1, false, 5) => one!("{:*^1$x}", "{:*^1$.2$x}"),
        (1, false, 6) => one!("{:*>1$x}", "{:*>1$.2$x}"),
        (1, false, 7) => one!("{:\u{e9}^1$x}", "{:\u{e9}^1$.2$x}"),
        (1, false, 8) => one!("{:01$x}", "{:01$.2$x}"),
        (1, false, _) => one!("{:+1$x}", "{:+1$.2$x}"),
        (1, true, 0) => one!("{:#1$x}", "{:#1$.2$x}"),
        (1, true, 1) => one!("{:<#1$x}", "{:<#1$.2$x}"),
        (1, true, 2) => one!("{:^#1$x}", "{:^#1$.2$x}"),
        (1, true, 3) => one!("{:>#1$x}", "{:>#1$.2$x}"),
        (1, true, 4) => one!("{:*<#1$x}", "{:*<#1$.2$x}"),
        (1, true, 5) => one!("{:*^#1$x}", "{:*^#1$.2$x}"),
        (1, true, 6) => one!("{:*>#1$x}", "{:*>#1$.2$x}"),
        (1, true, 7) => one!("{:\u{e9}^#1$x}", "{:\u{e9}^#1$.2$x}"),
        (1, true, 8) => one!("{:#01$x}", "{:#01$.2$x}"),
        (1, true, _) => one!("{:+#1$x}", "{:+#1$.2$x}"),
        (2, false, 0) => one!("{:1$X}", "{:1$.2$X}"),
        (2, false, 1) => one!("{:<1$X}", "{:<1$.2$X}"),
        (2, false, 2) => one!("{:^1$X}", "{:^1$.2$X}"),
        (2, false, 3) => one!("{:>1$X}", "{:>1$.2$X}"),
        (2, false, 4) => one!("{:*<1$X}", "{:*<1$.2$X}"),
        (2, false, 5) => one!("{:*^1$X}", "{:*^1$.2$X}"),
        (2, false, 6) => one!("{:*>1$X}", "{:*>1$.2$X}"),
        (2, false, 7) => one!("{:\u{e9}^1$X}", "{:\u{e9}^1$.2$X}"),
        (2, false, 8) => one!("{:01$X}", "{:01$.2$X}"),
        (2, false, _) => one!("{:+1$X}", "{:+1$.2$X}"),
        (2, true, 0) => one!("{:#1$X}", "{:#1$.2$X}"),
        (2, true, 1) => one!("{:<#1$X}", "{:<#1$.2$X}"),
        (2, true, 2) => one!("{:^#1$X}", "{:^#1$.2$X}"),
        (2, true, 3) => one!("{:>#1$X}", "{:>#1$.2$X}"),
        (2, true, 4) => one!("{:*<#1$X}", "{:*<#1$.2$X}"),
        (2, true, 5) => one!("{:*^#1$X}", "{:*^#1$.2$X}"),
        (2, true, 6) => one!("{:*>#1$X}", "{:*>#1$.2$X}"),
        (2, true, 7) => one!("{:\u{e9}^#1$X}", "{:\u{e9}^#1$.2$X}"),
        (2, true, 8) => one!("{:#01$X}", "{:#01$.2$X}"),
        (2, true, _) => one!("{:+#1$X}", "{:+#1$.2$X}"),
        (_, false, 0) => one!("{:1$?}", "{:1$.2$?}"),
        (_, false, 1) => one!("{:<1$?}", "{:<1$.2$?}"),
        (_, false, 2) => one!("{:^1$?}", "{:^1$.2$?}"),
        (_, false, 3) => one!("{:>1$?}", "{:>1$.2$?}"),
        (_, false, 4) => one!("{:*<1$?}", "{:*<1$.2$?}"),
        (_, false, 5) => one!("{:*^1$?}", "{:*^1$.2$?}"),
        (_, false, 6) => one!("{:*>1$?}", "{:*>1$.2$?}"),
        (_, false, 7) => one!("{:\u{e9}^1$?}", "{:\u{e9}^1$.2$?}"),
        (_, false, 8) => one!("{:01$?}", "{:01$.2$?}"),
        (_, false, _) => one!("{:+1$?}", "{:+1$.2$?}"),
        (_, true, 0) => one!("{:#1$?}", "{:#1$.2$?}"),
        (_, true, 1) => one!("{:<#1$?}", "{:<#1$.2$?}"),
        (_, true, 2) => one!("{:^#1$?}", "{:^#1$.2$?}"),
        (_, true, 3) => one!("{:>#1$?}", "{:>#1$.2$?}"),
        (_, true, 4) => one!("{:*<#1$?}", "{:*<#1$.2$?}"),
        (_, true, 5) => one!("{:*^#1$?}", "{:*^#1$.2$?}"),
        (_, true, 6) => one!("{:*>#1$?}", "{:*>#1$.2$?}"),
        (_, true, 7) => one!("{:\u{e9}^#1$?}", "{:\u{e9}^#1$.2$?}"),
        (_, true, 8) => one!("{:#01$?}", "{:#01$.2$?}"),
        (_, true, _) => one!("{:+#1$?}", "{:+#1$.2$?}"),
    })
}

/// The texts allowed for a style (the side on which padding goes is only fixed when an
/// alignment is given; the zero flag may pad with zeros behind the prefix or be ignored).
fn allowed(core: &str, prefix: &str, al: usize, w: usize) -> Vec<String> {
    let len = prefix.len() + core.len();
    let pad = w.saturating_sub(len);
    let rep = |c: char, k: usize| std::iter::repeat(c).take(k).collect::<String>();
    let mk = |c: char, l: usize| format!("{}{}{}{}", rep(c, l), prefix, core, rep(c, pad - l));
    match al {
        0 | 9 => vec![mk(' ', 0), mk(' ', pad)],
        1 => vec![mk(' ', 0)],
        2 => vec![mk(' ', pad / 2)],
        3 => vec![mk(' ', pad)],
        4 => vec![mk('*', 0)],
        5 => vec![mk('*', pad / 2)],
        6 => vec![mk('*', pad)],
        7 => vec![mk('\u{e9}', pad / 2)],
        _ => vec![format!("{}{}{}", prefix, rep('0', pad), core), mk(' ', 0), mk(' ', pad)],
    }
}

fn style<T: Val>(cx: &mut Ctx, b: &[u8], kind: usize, al: usize, alt: bool, w: usize, p: Option<usize>) -> Result<(), String> {
    let v = T::of(b);
    let mut core = hexs(b, kind == 2);
    if let Some(p) = p {
        core.truncate(p);
    }
    let prefix = if (alt || kind == 3) && !T::HMAC { "0x" } else { "" };
    cx.steps(1);
    let got = styled(&v, kind, al, alt, w, p)?;
    cx.state(fnv(&[T::NAME.as_bytes(), got.s().as_bytes()]));
    let what = || format!("{} with {} align {:?} alternate {} width {} precision {:?}", T::NAME, ["Display", "LowerHex", "UpperHex", "Debug"][kind], ALIGN_NAMES[al], alt, w, p);
    cx.desc(|| format!("{} of {} -> {:?}", what(), mc::show(b), got.s()));
    let mut ok = allowed(&core, prefix, al, w);
    if al == 9 {
        // The sign flag may show a sign, as it does for integers.
        ok.extend(allowed(&core, &format!("+{}", prefix), al, w));
    }
    if kind == 3 {
        // Debug may disregard the width, the precision or both, never the digits.
        let full = hexs(b, false);
        ok.extend(allowed(&full, prefix, al, w));
        ok.extend([format!("{}{}", prefix, core), format!("{}{}", prefix, full)]);
    }
    if ok.iter().any(|x| x == got.s()) {
        Ok(())
    } else {
        Err(format!("{} of bytes {}: got {:?}, model says {:?}", what(), mc::show(b), got.s(), ok))
    }
}

fn add<T: Val>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    // The longest types (all of them one generic type) with fewer backgrounds in a quick run.
    let nbk = if n > 64 && t == Tier::Quick { 1 } else { BACKS };
    let nv = t.pick(3, 256, 256);
    let np = t.pick(n.min(2), n, n);
    fams.push(Family::new(format!("posval-{}", T::NAME), product(&[nbk, np, nv]), move |i, cx| {
        let [k, p, v] = digits(i, [nbk, np, nv]);
        let mut b = back(k, n);
        b[p] = v as u8;
        plain::<T>(cx, &b)
    }));
    // Every precision and width (for the longest types: those around the ends and the middle),
    // with every alignment, case and alternate flag.
    let pick = |max: usize| -> Vec<usize> {
        let near = |x: usize| [0, n - 1, n, 2 * n - 3].iter().any(|y| (*y..*y + 9).contains(&x));
        (0..max).filter(|x| n <= 64 || t == Tier::Thorough || near(*x)).collect()
    };
    let ws = pick(t.pick(4, 2 * n + 8, 2 * n + 40));
    let ps = pick(t.pick(3, 2 * n + 3, 2 * n + 19));
    let (nw, npr) = (ws.len(), ps.len() + 1);
    let nb = t.pick(1, 1, 3);
    fams.push(Family::new(format!("style-{}", T::NAME), product(&[nb, 4, 2, ALIGNS, nw, npr]), move |i, cx| {
        let [k, kind, alt, al, w, p] = digits(i, [nb, 4, 2, ALIGNS, nw, npr]);
        style::<T>(cx, &back([0, 3, 2][k], n), kind, al, alt == 1, ws[w], p.checked_sub(1).map(|p| ps[p]))
    }));
    if t == Tier::Tiny {
        return;
    }
    // Widths and precisions far beyond the text, and around powers of two.
    let far = [0usize, 1, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 258, 259, 320, 511, 512, 513, 600, 1000, 1023];
    let nf = far.len();
    fams.push(Family::new(format!("stylefar-{}", T::NAME), product(&[4, 2, ALIGNS, nf, nf + 1]), move |i, cx| {
        let [kind, alt, al, w, p] = digits(i, [4, 2, ALIGNS, nf, nf + 1]);
        style::<T>(cx, &back(0, n), kind, al, alt == 1, far[w], p.checked_sub(1).map(|p| far[p]))
    }));
    if n > 64 && t == Tier::Quick {
        return;
    }
    // Precision and width with every byte value at every position.
    fams.push(Family::new(format!("styleval-{}", T::NAME), product(&[n, 256, 4, 5]), move |i, cx| {
        let [pos, v, kind, s] = digits(i, [n, 256, 4, 5]);
        let mut b = back(3, n);
        b[pos] = v as u8;
        match s {
            0 => style::<T>(cx, &b, kind, 3, false, 0, Some(2 * pos + 1)),
            1 => style::<T>(cx, &b, kind, 3, false, 0, Some(2 * pos + 2)),
            2 => style::<T>(cx, &b, kind, 5, true, 2 * n + 5, None),
            3 => style::<T>(cx, &b, kind, 4, false, 2 * n + 7, Some(2 * pos + 1)),
            _ => style::<T>(cx, &b, kind, 8, true, 2 * n + 6, None),
        }
    }));
    // Every pair of neighbouring byte values.
    let ps = if t == Tier::Thorough { n - 1 } else { (n - 1).min(3) };
    fams.push(Family::new(format!("pairs-{}", T::NAME), product(&[ps, 65536]), move |i, cx| {
        let [p, v] = digits(i, [ps, 65536]);
        let p = if t == Tier::Thorough || n <= 4 { p } else { [0, n / 2, n - 2][p] };
        let mut b = back(0, n);
        b[p] = (v >> 8) as u8;
        b[p + 1] = v as u8;
        plain::<T>(cx, &b)
    }));
}

fn main() {
    run::main("C10", |a| {
        let mut fams = Vec::new();
        for_all_vals!(add(a.tier, &mut fams));
        for_more_vals!(add(a.tier, &mut fams));
        fams
    });
}
