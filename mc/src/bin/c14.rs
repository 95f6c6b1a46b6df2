//! C14: serde round-trips every value and rejects malformed data.
use mc::{for_all_vals, for_more_vals};
use mc::run::{self, digits, fnv, product, Ctx, Family, Tier};
use mc::ser::{Er, Out, Ser};
use mc::vals::{back, hexs, unhex, Val, BACKS};
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::ser::Serialize;
use std::fmt;

/// The data a format hands to a Deserialize impl.
#[derive(Debug, Clone, Copy)]
enum Tok<'a> {
    Str(&'a str),
    BorrowedStr(&'a str),
    String(&'a str),
    Bytes(&'a [u8]),
    BorrowedBytes(&'a [u8]),
    ByteBuf(&'a [u8]),
    Char(char),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    None,
    Unit,
    SomeStr(&'a str),
    SomeBytes(&'a [u8]),
    NewtypeStr(&'a str),
    NewtypeBytes(&'a [u8]),
    Seq(&'a [u8]),
    SeqStr(&'a str),
    Map(&'a [u8]),
    Enum(&'a str),
}

#[derive(Clone, Copy)]
struct De<'a> {
    human: bool,
    tok: Tok<'a>,
}
impl<'de> Deserializer<'de> for De<'de> {
    type Error = Er;
    fn is_human_readable(&self) -> bool { self.human }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        let sub = |tok| De { human: self.human, tok };
        match self.tok {
            Tok::Str(s) => {
                // A transient copy: dies when the visitor returns.
                let t = s.to_string();
                let r = v.visit_str(&t);
                drop(t);
                r
            }
            Tok::BorrowedStr(s) => v.visit_borrowed_str(s),
            Tok::String(s) => v.visit_string(s.to_string()),
            Tok::Bytes(b) => {
                let t = b.to_vec();
                let r = v.visit_bytes(&t);
                drop(t);
                r
            }
            Tok::BorrowedBytes(b) => v.visit_borrowed_bytes(b),
            Tok::ByteBuf(b) => v.visit_byte_buf(b.to_vec()),
            Tok::Char(c) => v.visit_char(c),
            Tok::Bool(x) => v.visit_bool(x),
            Tok::U8(x) => v.visit_u8(x),
            Tok::U16(x) => v.visit_u16(x),
            Tok::U32(x) => v.visit_u32(x),
            Tok::U64(x) => v.visit_u64(x),
            Tok::U128(x) => v.visit_u128(x),
            Tok::I8(x) => v.visit_i8(x),
            Tok::I16(x) => v.visit_i16(x),
            Tok::I32(x) => v.visit_i32(x),
            Tok::I64(x) => v.visit_i64(x),
            Tok::I128(x) => v.visit_i128(x),
            Tok::F32(x) => v.visit_f32(x),
            Tok::F64(x) => v.visit_f64(x),
            Tok::None => v.visit_none(),
            Tok::Unit => v.visit_unit(),
            Tok::SomeStr(s) => v.visit_some(sub(Tok::BorrowedStr(s))),
            Tok::SomeBytes(b) => v.visit_some(sub(Tok::BorrowedBytes(b))),
            Tok::NewtypeStr(s) => v.visit_newtype_struct(sub(Tok::BorrowedStr(s))),
            Tok::NewtypeBytes(b) => v.visit_newtype_struct(sub(Tok::BorrowedBytes(b))),
            Tok::Seq(b) => v.visit_seq(SeqDeserializer::new(b.iter().copied())),
            Tok::SeqStr(s) => v.visit_seq(SeqDeserializer::new(Some(s).into_iter())),
            Tok::Map(b) => v.visit_map(MapDeserializer::new(b.iter().map(|x| (*x, *x)))),
            Tok::Enum(s) => v.visit_enum(IntoDeserializer::<Er>::into_deserializer(s)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A format whose data does not describe itself: it hands out what was stored only when it is
/// asked for that kind of data.
struct Strict<'a> {
    human: bool,
    /// How the data is handed over: borrowed, transient or owned.
    how: usize,
    data: &'a Out,
}
macro_rules! refuse {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Er> { Err(Er(concat!("the format cannot ", stringify!($f)).into())) })* };
}
impl<'de> Strict<'de> {
    fn text<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.data {
            Out::Text(s) => match self.how {
                0 => v.visit_borrowed_str(s),
                1 => v.visit_str(&s.clone()),
                _ => v.visit_string(s.clone()),
            },
            _ => Err(Er("not text".into())),
        }
    }
    fn raw<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.data {
            Out::Bytes(b) => match self.how {
                0 => v.visit_borrowed_bytes(b),
                1 => v.visit_bytes(&b.clone()),
                _ => v.visit_byte_buf(b.clone()),
            },
            _ => Err(Er("not bytes".into())),
        }
    }
}
impl<'de> Deserializer<'de> for Strict<'de> {
    type Error = Er;
    fn is_human_readable(&self) -> bool { self.human }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.text(v) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.text(v) }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.raw(v) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.raw(v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> { v.visit_newtype_struct(self) }
    refuse!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Er> { Err(Er("unit struct".into())) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Er> { Err(Er("tuple".into())) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Er> { Err(Er("tuple struct".into())) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> { Err(Er("struct".into())) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Er> { Err(Er("enum".into())) }
}

trait SVal: Copy + Ord + fmt::Debug + Serialize + for<'a> Deserialize<'a> + Send + Sync + 'static {
    const NAME: &'static str;
    const N: usize;
    fn of(b: &[u8]) -> Self;
    fn bytes(&self) -> Vec<u8>;
}
macro_rules! sval {
    ($($t:ty),*) => { $(impl SVal for $t {
        const NAME: &'static str = <$t as Val>::NAME;
        const N: usize = <$t as Val>::N;
        fn of(b: &[u8]) -> Self { <$t as Val>::of(b) }
        fn bytes(&self) -> Vec<u8> { self.to_arr().to_vec() }
    })* };
}
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24};
sval!(sha1::Hash, sha256::Hash, sha384::Hash, sha512::Hash, sha512_256::Hash, ripemd160::Hash, siphash24::Hash, sha256t::Hash<mc::subjects::Tg>, sha256::Midstate);
sval!(hmac::Hash<1>, hmac::Hash<2>, hmac::Hash<3>, hmac::Hash<8>, hmac::Hash<20>, hmac::Hash<32>, hmac::Hash<48>, hmac::Hash<64>,
    hmac::Hash<5>, hmac::Hash<16>, hmac::Hash<100>, hmac::Hash<128>, hmac::Hash<129>, hmac::Hash<300>);

/// A user's own type, made serializable by the crate's exported macro.
mod user {
    use super::*;
    use std::ops::{Index, RangeFull};
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
    pub struct Five([u8; 5]);
    impl Five {
        pub fn from_slice(b: &[u8]) -> Result<Five, chf::FromSliceError> {
            Ok(Five(b.try_into().map_err(|_| chf::FromSliceError::new(b.len(), 5))?))
        }
    }
    impl fmt::Display for Five {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&hexs(&self.0, false)) }
    }
    impl std::str::FromStr for Five {
        type Err = &'static str;
        fn from_str(s: &str) -> Result<Five, &'static str> { unhex(s, 5).map(|v| Five(v.try_into().unwrap())).ok_or("not five bytes of hex") }
    }
    impl Index<usize> for Five {
        type Output = u8;
        fn index(&self, i: usize) -> &u8 { &self.0[i] }
    }
    impl Index<RangeFull> for Five {
        type Output = [u8];
        fn index(&self, _: RangeFull) -> &[u8] { &self.0 }
    }
    chf::serde_impl!(Five, 5);
    impl SVal for Five {
        const NAME: &'static str = "user";
        const N: usize = 5;
        fn of(b: &[u8]) -> Self { Five(b.try_into().unwrap()) }
        fn bytes(&self) -> Vec<u8> { self.0.to_vec() }
    }
}

/// What must happen.
enum Want {
    Accept(Vec<u8>),
    Reject,
    /// Rejecting is right; if the impl chooses to accept, it must be this value.
    RejectOr(Option<Vec<u8>>),
}

fn want(human: bool, tok: &Tok, n: usize) -> Want {
    let hex = |s: &str| unhex(s, n);
    let raw = |b: &[u8]| if b.len() == n { Some(b.to_vec()) } else { None };
    let acc = |o: Option<Vec<u8>>| match o {
        Some(v) => Want::Accept(v),
        None => Want::Reject,
    };
    match tok {
        Tok::Str(s) | Tok::BorrowedStr(s) | Tok::String(s) =>
            if human {
                acc(hex(s))
            } else {
                Want::Reject
            },
        Tok::Bytes(b) | Tok::BorrowedBytes(b) | Tok::ByteBuf(b) =>
            if human {
                acc(std::str::from_utf8(b).ok().and_then(hex))
            } else {
                acc(raw(b))
            },
        Tok::SomeStr(s) | Tok::NewtypeStr(s) => Want::RejectOr(if human { hex(s) } else { None }),
        Tok::SomeBytes(b) | Tok::NewtypeBytes(b) => Want::RejectOr(if human { std::str::from_utf8(b).ok().and_then(hex) } else { raw(b) }),
        Tok::Seq(b) => Want::RejectOr(if human { None } else { raw(b) }),
        _ => Want::Reject,
    }
}

fn de<T: SVal>(cx: &mut Ctx, human: bool, tok: Tok) -> Result<(), String> {
    // The token's data must outlive the deserializer, not the result.
    let got: Result<T, Er> = T::deserialize(De { human, tok });
    judge(cx, human, tok, got, "")?;
    // Into a place that holds another value (what lists do when they are reused).
    let mut place = T::of(&vec![0x5a; T::N]);
    let got = T::deserialize_in_place(De { human, tok }, &mut place).map(|()| place);
    judge(cx, human, tok, got, " in place")
}

fn judge<T: SVal>(cx: &mut Ctx, human: bool, tok: Tok, got: Result<T, Er>, how: &str) -> Result<(), String> {
    cx.steps(1);
    let fmt = || format!("{} deserializing {} from a {} format{}", T::NAME, short(&tok), if human { "human-readable" } else { "binary" }, how);
    cx.desc(|| format!("{} -> {:?}", fmt(), got));
    cx.outcome(got.is_ok() as u64);
    let ok = |v: T, w: &[u8]| {
        if v.bytes() == w {
            Ok(())
        } else {
            Err(format!("{}: got {}, model says {}", fmt(), mc::show(&v.bytes()), mc::show(w)))
        }
    };
    match (got, want(human, &tok, T::N)) {
        (Ok(v), Want::Accept(w)) => ok(v, &w),
        (Ok(v), Want::RejectOr(Some(w))) => ok(v, &w),
        (Ok(v), _) => Err(format!("{}: accepted as {}, model rejects it", fmt(), mc::show(&v.bytes()))),
        (Err(e), Want::Accept(_)) => Err(format!("{}: rejected ({}), model accepts it", fmt(), e)),
        (Err(_), _) => Ok(()),
    }
}

fn short(t: &Tok) -> String {
    let s = format!("{:?}", t);
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

fn bytes_toks(b: &[u8]) -> [Tok<'_>; 6] {
    [Tok::Bytes(b), Tok::BorrowedBytes(b), Tok::ByteBuf(b), Tok::SomeBytes(b), Tok::NewtypeBytes(b), Tok::Seq(b)]
}
fn str_toks(s: &str) -> [Tok<'_>; 5] {
    [Tok::Str(s), Tok::BorrowedStr(s), Tok::String(s), Tok::SomeStr(s), Tok::NewtypeStr(s)]
}

fn all_toks<T: SVal>(cx: &mut Ctx, s: &str, raw: &[u8]) -> Result<(), String> {
    cx.state(fnv(&[T::NAME.as_bytes(), s.as_bytes(), raw]));
    for human in [true, false] {
        for tok in str_toks(s) {
            de::<T>(cx, human, tok)?;
        }
        for tok in bytes_toks(s.as_bytes()) {
            de::<T>(cx, human, tok)?;
        }
        for tok in bytes_toks(raw) {
            de::<T>(cx, human, tok)?;
        }
    }
    Ok(())
}

fn value<T: SVal>(cx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let v = T::of(b);
    let hex = hexs(b, false);
    cx.steps(2);
    let h = v.serialize(Ser { human: true }).map_err(|e| format!("{} serialize failed: {}", T::NAME, e))?;
    mc::want(|| format!("{} of {} serialized for humans", T::NAME, mc::show(b)), h, Out::Text(hex.clone()))?;
    let m = v.serialize(Ser { human: false }).map_err(|e| format!("{} serialize failed: {}", T::NAME, e))?;
    mc::want(|| format!("{} of {} serialized in binary", T::NAME, mc::show(b)), m, Out::Bytes(b.to_vec()))?;
    for (human, data) in [(true, Out::Text(hex.clone())), (false, Out::Bytes(b.to_vec()))] {
        for how in 0..3 {
            cx.steps(1);
            let r = T::deserialize(Strict { human, how, data: &data });
            mc::want(|| format!("{} of {} round trip through a {} format that does not describe itself", T::NAME, mc::show(b), if human { "text" } else { "binary" }), r.map(|v| v.bytes()), Ok(b.to_vec()))?;
        }
    }
    all_toks::<T>(cx, &hex, b)
}

/// JSON text: the whole path through a real format.
fn json<T: SVal>(cx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    let v = T::of(b);
    let hex = hexs(b, false);
    let quoted = format!("\"{}\"", hex);
    cx.steps(8);
    cx.state(fnv(&[b"json", T::NAME.as_bytes(), b]));
    let what = |how: &str| format!("{} of {} {}", T::NAME, mc::show(b), how);
    mc::want(|| what("as JSON"), serde_json::to_string(&v).ok(), Some(quoted.clone()))?;
    mc::want(|| what("as JSON value"), serde_json::to_value(v).ok(), Some(serde_json::Value::String(hex.clone())))?;
    let esc: String = std::iter::once('"').chain(hex.chars().flat_map(|c| format!("\\u{:04x}", c as u32).chars().collect::<Vec<_>>())).chain(std::iter::once('"')).collect();
    let ok = |r: Result<T, serde_json::Error>| r.ok().map(|x| x.bytes());
    let w = Some(b.to_vec());
    mc::want(|| what("from JSON text"), ok(serde_json::from_str::<T>(&quoted)), w.clone())?;
    mc::want(|| what("from JSON bytes"), ok(serde_json::from_slice::<T>(quoted.as_bytes())), w.clone())?;
    mc::want(|| what("from a JSON reader"), ok(serde_json::from_reader::<_, T>(quoted.as_bytes())), w.clone())?;
    mc::want(|| what("from an owned JSON value"), ok(serde_json::from_value::<T>(serde_json::Value::String(hex.clone()))), w.clone())?;
    mc::want(|| what("from escaped JSON text"), ok(serde_json::from_str::<T>(&esc)), w.clone())?;
    mc::want(|| what("from upper-case JSON text"), ok(serde_json::from_str::<T>(&format!("\"{}\"", hexs(b, true)))), w.clone())?;
    let mut place = T::of(&vec![0x5a; T::N]);
    let r = T::deserialize_in_place(&mut serde_json::Deserializer::from_str(&quoted), &mut place);
    mc::want(|| what("from JSON in place"), r.ok().map(|()| place.bytes()), w.clone())?;
    // Nested in lists, options and as map keys.
    let list = vec![Some(v), None, Some(v)];
    let text = serde_json::to_string(&list).map_err(|e| e.to_string())?;
    mc::want(|| what("list as JSON"), text.clone(), format!("[{},null,{}]", quoted, quoted))?;
    let back: Vec<Option<T>> = serde_json::from_str(&text).map_err(|e| format!("{}: {}", what("list from JSON"), e))?;
    mc::want(|| what("list round trip"), back == list, true)?;
    let map: std::collections::BTreeMap<T, T> = [(v, v)].into_iter().collect();
    let text = serde_json::to_string(&map).map_err(|e| e.to_string())?;
    mc::want(|| what("map as JSON"), text.clone(), format!("{{{}:{}}}", quoted, quoted))?;
    let back: std::collections::BTreeMap<T, T> = serde_json::from_str(&text).map_err(|e| format!("{}: {}", what("map from JSON"), e))?;
    mc::want(|| what("map round trip"), back == map, true)
}

fn add<T: SVal>(t: Tier, fams: &mut Vec<Family>) {
    let n = T::N;
    let nv = t.pick(2, 256, 256);
    let np = t.pick(n.min(2), n, n);
    let nb = t.pick(1, 2, BACKS);
    fams.push(Family::new(format!("values-{}", T::NAME), product(&[nb, np, nv]), move |i, cx| {
        let [k, p, v] = digits(i, [nb, np, nv]);
        let mut b = back(k, n);
        b[p] = v as u8;
        value::<T>(cx, &b)
    }));
    // Every length, every token kind, both kinds of format.
    let nl = t.pick(2 * n + 2, 4 * n + 300, 12 * n + 1200);
    fams.push(Family::new(format!("lengths-{}", T::NAME), product(&[nl, 3]), move |i, cx| {
        let [l, k] = digits(i, [nl, 3]);
        let raw = back(k % 3, l);
        let s = hexs(&back(k % 3, l / 2 + 1), k == 2);
        all_toks::<T>(cx, &s[..l], &raw)
    }));
    // Every other kind of token.
    fams.push(Family::new(format!("kinds-{}", T::NAME), 2 * 24, move |i, cx| {
        let [h, k] = digits(i, [2, 24]);
        let b = back(0, n);
        let s = hexs(&b, false);
        let tok = match k {
            0 => Tok::Char('a'),
            1 => Tok::Bool(true),
            2 => Tok::U8(b[0]),
            3 => Tok::U16(7),
            4 => Tok::U32(7),
            5 => Tok::U64(u64::MAX),
            6 => Tok::U128(u128::MAX),
            7 => Tok::I8(-1),
            8 => Tok::I64(-1),
            9 => Tok::I128(-1),
            10 => Tok::F32(1.5),
            11 => Tok::F64(1.5),
            12 => Tok::None,
            13 => Tok::Unit,
            14 => Tok::SeqStr(&s),
            15 => Tok::Map(&b),
            16 => Tok::Enum(&s),
            17 => Tok::Seq(&[]),
            18 => Tok::Seq(&b[..n - 1]),
            19 => Tok::Map(&[]),
            20 => Tok::Enum(""),
            21 => Tok::I16(-7),
            22 => Tok::I32(-7),
            _ => Tok::Char('\u{e9}'),
        };
        cx.state(fnv(&[T::NAME.as_bytes(), b"kind", &i.to_le_bytes()]));
        de::<T>(cx, h == 1, tok)
    }));
    if t == Tier::Tiny {
        return;
    }
    // Every byte value at every position of the hex text, as text where it is text.
    fams.push(Family::new(format!("edit-{}", T::NAME), product(&[2 * n, 256, 3]), move |i, cx| {
        let [p, c, how] = digits(i, [2 * n, 256, 3]);
        let mut s = hexs(&back(0, n), false).into_bytes();
        match how {
            0 => s[p] = c as u8,
            1 => s.insert(p, c as u8),
            _ => {
                s.remove(p);
                s.push(c as u8);
            }
        }
        cx.state(fnv(&[T::NAME.as_bytes(), &s]));
        for human in [true, false] {
            for tok in bytes_toks(&s) {
                de::<T>(cx, human, tok)?;
            }
            if let Ok(s) = std::str::from_utf8(&s) {
                for tok in str_toks(s) {
                    de::<T>(cx, human, tok)?;
                }
            }
        }
        Ok(())
    }));
    // Wide characters and prefixes as text.
    let odd = ["0x", " ", "\u{e9}", "\u{ff10}", "\u{1f600}", "\n", "+", "\0", "0X", "\u{feff}", "\\x"];
    fams.push(Family::new(format!("odd-{}", T::NAME), product(&[2 * n + 1, odd.len(), 2]), move |i, cx| {
        let [p, o, how] = digits(i, [2 * n + 1, odd.len(), 2]);
        let s = hexs(&back(0, n), false);
        let skip = if how == 0 { 0 } else { odd[o].len() };
        if p + skip > s.len() {
            return Ok(());
        }
        let r = format!("{}{}{}", &s[..p], odd[o], &s[p + skip..]);
        all_toks::<T>(cx, &r, r.as_bytes())
    }));
    let jv = if n > 64 && t == Tier::Quick { 8 } else { 256 };
    fams.push(Family::new(format!("json-{}", T::NAME), product(&[2, n, jv]), move |i, cx| {
        let [k, p, v] = digits(i, [2, n, jv]);
        let v = if jv == 256 { v } else { [0, 1, 9, 0x0a, 0x10, 0x7f, 0x80, 0xff][v] };
        let mut b = back(k, n);
        b[p] = v as u8;
        json::<T>(cx, &b)
    }));
    fams.push(Family::new(format!("badjson-{}", T::NAME), product(&[12, 2 * n + 3]), move |i, cx| {
        let [k, l] = digits(i, [12, 2 * n + 3]);
        let h = hexs(&back(0, n + 2), false);
        let text = match k {
            0 => format!("\"{}\"", &h[..l]),
            1 => h[..l].to_string(),
            2 => format!("[\"{}\"]", &h[..l]),
            3 => format!("{{\"{}\":1}}", &h[..l]),
            4 => format!("{:?}", back(0, l)),
            5 => format!("\"{}", &h[..l]),
            6 => format!("\"0x{}\"", &h[..l]),
            7 => format!("\"{}\\u0000\"", &h[..l]),
            8 => format!("\"{}g\"", &h[..l]),
            9 => "null".into(),
            10 => "true".into(),
            _ => format!("\"{} \"", &h[..l]),
        };
        cx.steps(1);
        cx.state(fnv(&[b"bj", T::NAME.as_bytes(), text.as_bytes()]));
        let w = if k == 0 { unhex(&h[..l], n) } else { None };
        let got = serde_json::from_str::<T>(&text).ok().map(|x| x.bytes());
        mc::want(|| format!("{} from JSON {}", T::NAME, text), got, w)
    }));
}

fn main() {
    run::main("C14", |a| {
        let mut fams = Vec::new();
        for_all_vals!(add(a.tier, &mut fams));
        for_more_vals!(add(a.tier, &mut fams));
        add::<user::Five>(a.tier, &mut fams);
        fams
    });
}
