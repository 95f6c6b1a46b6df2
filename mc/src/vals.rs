//! Every value type of the crate behind one interface.

use crate::subjects::Tg;
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, FromSliceError};
use std::fmt::{Debug, Display, LowerHex, UpperHex};

pub trait Val:
    Copy
    + Clone
    + Eq
    + Ord
    + std::hash::Hash
    + Display
    + Debug
    + LowerHex
    + UpperHex
    + std::str::FromStr<Err = chf::hex::HexToArrayError>
    + AsRef<[u8]>
    + Send
    + Sync
    + 'static
{
    const NAME: &'static str;
    const N: usize;
    const HMAC: bool;
    /// The advertised length, if the type has one.
    const LEN: Option<usize>;
    type Arr: Copy + AsRef<[u8]> + AsMut<[u8]> + Eq + Ord + std::hash::Hash + Debug + Send + Sync + 'static;
    fn arr(b: &[u8]) -> Self::Arr;
    fn from_arr(a: Self::Arr) -> Self;
    fn to_arr(self) -> Self::Arr;
    fn slice(b: &[u8]) -> Result<Self, FromSliceError>;
    fn all_index(&self) -> &[u8];
    fn idx(&self, i: usize) -> u8;
    fn range(&self, a: usize, b: usize) -> &[u8];
    fn range_from(&self, a: usize) -> &[u8];
    fn range_to(&self, b: usize) -> &[u8];
    /// Further index forms, where the type has them: (a..=b), (..=b).
    fn range_incl(&self, _a: usize, _b: usize) -> Option<&[u8]> { None }
    fn range_to_incl(&self, _b: usize) -> Option<&[u8]> { None }
    /// Further readers: (name, bytes).
    fn readers(&self) -> Vec<(&'static str, Vec<u8>)>;
    /// Reference reinterpretation, where the type has it.
    fn by_ref(_a: &Self::Arr) -> Option<&Self> { None }
    fn by_mut(_a: &mut Self::Arr) -> Option<&mut Self> { None }
    /// Values that must be all zeros.
    fn zeros() -> Vec<(&'static str, Self)>;
    /// Another hex parser, where the type has it.
    fn from_hex(_s: &str) -> Option<Result<Self, chf::hex::HexToArrayError>> { None }
    fn of(b: &[u8]) -> Self { Self::from_arr(Self::arr(b)) }
}

macro_rules! common {
    ($n:expr) => {
        type Arr = [u8; $n];
        fn arr(b: &[u8]) -> [u8; $n] { b.try_into().unwrap() }
        fn from_arr(a: [u8; $n]) -> Self { Self::from_byte_array(a) }
        fn to_arr(self) -> [u8; $n] { self.to_byte_array() }
        fn slice(b: &[u8]) -> Result<Self, FromSliceError> { Self::from_slice(b) }
        fn all_index(&self) -> &[u8] { &self[..] }
        fn idx(&self, i: usize) -> u8 { self[i] }
        fn range(&self, a: usize, b: usize) -> &[u8] { &self[a..b] }
        fn range_from(&self, a: usize) -> &[u8] { &self[a..] }
        fn range_to(&self, b: usize) -> &[u8] { &self[..b] }
    };
}
macro_rules! incl {
    () => {
        fn range_incl(&self, a: usize, b: usize) -> Option<&[u8]> { Some(&self[a..=b]) }
        fn range_to_incl(&self, b: usize) -> Option<&[u8]> { Some(&self[..=b]) }
    };
}
macro_rules! refs {
    ($n:expr) => {
        fn by_ref(a: &[u8; $n]) -> Option<&Self> { Some(Self::from_bytes_ref(a)) }
        fn by_mut(a: &mut [u8; $n]) -> Option<&mut Self> { Some(Self::from_bytes_mut(a)) }
    };
}
macro_rules! readers {
    ($arr:ty, $asarr:expr) => {
        fn readers(&self) -> Vec<(&'static str, Vec<u8>)> {
            let mut v: Vec<(&'static str, Vec<u8>)> = Vec::with_capacity(8);
            v.push(("as_byte_array", self.as_byte_array().to_vec()));
            v.push(("as_bytes", self.as_bytes().to_vec()));
            #[cfg(any(feature = "std", feature = "alloc"))]
            v.push(("to_bytes", self.to_bytes()));
            if $asarr {
                let f: fn(&Self) -> Option<Vec<u8>> = Self::as_arr_dyn;
                if let Some(x) = f(self) {
                    v.push(("AsRef<[u8; N]>", x));
                }
            }
            v
        }
    };
}

trait AsArrDyn {
    fn as_arr_dyn(&self) -> Option<Vec<u8>> { None }
}

macro_rules! hash_val {
    ($m:ident, $n:expr) => {
        impl AsArrDyn for $m::Hash {
            fn as_arr_dyn(&self) -> Option<Vec<u8>> { Some(AsRef::<[u8; $n]>::as_ref(self).to_vec()) }
        }
        impl Val for $m::Hash {
            const NAME: &'static str = stringify!($m);
            const N: usize = $n;
            const HMAC: bool = false;
            const LEN: Option<usize> = Some($m::Hash::LEN);
            common!($n);
            incl!();
            refs!($n);
            readers!([u8; $n], true);
            fn zeros() -> Vec<(&'static str, Self)> { vec![("all_zeros", Self::all_zeros())] }
        }
    };
}
hash_val!(sha1, 20);
hash_val!(sha256, 32);
hash_val!(sha384, 48);
hash_val!(sha512, 64);
hash_val!(sha512_256, 32);
hash_val!(ripemd160, 20);
hash_val!(siphash24, 8);

impl AsArrDyn for sha256t::Hash<Tg> {
    fn as_arr_dyn(&self) -> Option<Vec<u8>> { Some(AsRef::<[u8; 32]>::as_ref(self).to_vec()) }
}
impl Val for sha256t::Hash<Tg> {
    const NAME: &'static str = "sha256t";
    const N: usize = 32;
    const HMAC: bool = false;
    const LEN: Option<usize> = Some(sha256t::Hash::<Tg>::LEN);
    common!(32);
    incl!();
    refs!(32);
    readers!([u8; 32], true);
    fn zeros() -> Vec<(&'static str, Self)> {
        vec![("all_zeros", Self::all_zeros()), ("default", Self::default())]
    }
}

impl<const N: usize> AsArrDyn for hmac::Hash<N> {}
macro_rules! hmac_val {
    ($n:expr) => {
        impl Val for hmac::Hash<$n> {
            const NAME: &'static str = concat!("hmac", stringify!($n));
            const N: usize = $n;
            const HMAC: bool = true;
            const LEN: Option<usize> = None;
            common!($n);
            refs!($n);
            readers!([u8; $n], false);
            fn zeros() -> Vec<(&'static str, Self)> { vec![("all_zeros", Self::all_zeros())] }
        }
    };
}
hmac_val!(1);
hmac_val!(2);
hmac_val!(3);
hmac_val!(8);
hmac_val!(20);
hmac_val!(32);
hmac_val!(48);
hmac_val!(64);
hmac_val!(5);
hmac_val!(16);
hmac_val!(100);
hmac_val!(128);
hmac_val!(129);
hmac_val!(300);

impl Val for sha256::Midstate {
    const NAME: &'static str = "midstate";
    const N: usize = 32;
    const HMAC: bool = false;
    const LEN: Option<usize> = None;
    common!(32);
    incl!();
    fn readers(&self) -> Vec<(&'static str, Vec<u8>)> { vec![(".0", self.0.to_vec())] }
    fn zeros() -> Vec<(&'static str, Self)> { vec![("default", Self::default())] }
    fn from_hex(s: &str) -> Option<Result<Self, chf::hex::HexToArrayError>> {
        Some(<sha256::Midstate as chf::hex::FromHex>::from_hex(s))
    }
}

/// Calls `$f::<T>($args..)` for every value type.
#[macro_export]
macro_rules! for_all_vals {
    ($f:ident ( $($a:expr),* )) => {{
        $f::<chf::sha1::Hash>($($a),*);
        $f::<chf::sha256::Hash>($($a),*);
        $f::<chf::sha384::Hash>($($a),*);
        $f::<chf::sha512::Hash>($($a),*);
        $f::<chf::sha512_256::Hash>($($a),*);
        $f::<chf::ripemd160::Hash>($($a),*);
        $f::<chf::siphash24::Hash>($($a),*);
        $f::<chf::sha256t::Hash<$crate::subjects::Tg>>($($a),*);
        $f::<chf::sha256::Midstate>($($a),*);
        $f::<chf::hmac::Hash<1>>($($a),*);
        $f::<chf::hmac::Hash<2>>($($a),*);
        $f::<chf::hmac::Hash<3>>($($a),*);
        $f::<chf::hmac::Hash<8>>($($a),*);
        $f::<chf::hmac::Hash<20>>($($a),*);
        $f::<chf::hmac::Hash<32>>($($a),*);
        $f::<chf::hmac::Hash<48>>($($a),*);
        $f::<chf::hmac::Hash<64>>($($a),*);
    }};
}

/// The same for further output lengths that `hmac::Hash` allows.
#[macro_export]
macro_rules! for_more_vals {
    ($f:ident ( $($a:expr),* )) => {{
        $f::<chf::hmac::Hash<5>>($($a),*);
        $f::<chf::hmac::Hash<16>>($($a),*);
        $f::<chf::hmac::Hash<100>>($($a),*);
        $f::<chf::hmac::Hash<128>>($($a),*);
        $f::<chf::hmac::Hash<129>>($($a),*);
        $f::<chf::hmac::Hash<300>>($($a),*);
    }};
}

/// Background values: mixed bytes, all zeros, all ones, ascending.
pub const BACKS: usize = 4;
pub fn back(k: usize, n: usize) -> Vec<u8> {
    match k {
        0 => crate::spec::stream(n),
        1 => vec![0; n],
        2 => vec![0xff; n],
        _ => (0..n).map(|i| (i as u8).wrapping_add(1)).collect(),
    }
}

const DIG: &[u8; 16] = b"0123456789abcdef";
const UPP: &[u8; 16] = b"0123456789ABCDEF";
pub fn hexs(b: &[u8], upper: bool) -> String {
    let t = if upper { UPP } else { DIG };
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(t[(x >> 4) as usize] as char);
        s.push(t[(x & 15) as usize] as char);
    }
    s
}

/// What a hex string denotes: exactly two hex digits of either case per byte.
pub fn unhex(s: &str, n: usize) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() != 2 * n {
        return None;
    }
    let v = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    let mut o = Vec::with_capacity(n);
    for p in b.chunks(2) {
        o.push(v(p[0])? << 4 | v(p[1])?);
    }
    Some(o)
}
