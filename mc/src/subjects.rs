//! Every engine of the crate behind one erased interface, each with its model.

use crate::spec::{Alg, Base, Model};
use chf::{hmac, ripemd160, sha1, sha256, sha256t, sha384, sha512, sha512_256, siphash24, HashEngine};
use std::cell::Cell;

pub trait MidBytes {
    /// Bytes that identify the midstate (equal iff the midstates are equal).
    fn bytes(&self) -> Vec<u8>;
}
impl<const N: usize> MidBytes for [u8; N] {
    fn bytes(&self) -> Vec<u8> { self.to_vec() }
}
impl MidBytes for sha256::Midstate {
    fn bytes(&self) -> Vec<u8> { self.0.to_vec() }
}
impl MidBytes for siphash24::State {
    fn bytes(&self) -> Vec<u8> { format!("{:?}", self).into_bytes() }
}
impl<E: HashEngine> MidBytes for hmac::Midstate<E>
where
    E::Midstate: MidBytes,
{
    fn bytes(&self) -> Vec<u8> {
        let mut v = self.inner.bytes();
        v.extend(self.outer.bytes());
        v
    }
}

pub trait Eng {
    fn as_any(&self) -> &dyn std::any::Any;
    /// `clone_from`; false (and nothing done) if `src` is an engine of another type.
    fn assign(&mut self, src: &dyn Eng) -> bool;
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any;
    /// `mem::swap`; false (and nothing done) if `other` is an engine of another type.
    fn swap(&mut self, other: &mut dyn Eng) -> bool;
    fn input(&mut self, d: &[u8]);
    fn n(&self) -> usize;
    fn fin(self: Box<Self>) -> Vec<u8>;
    fn dup(&self) -> Box<dyn Eng>;
    fn mid(&self) -> Vec<u8>;
    /// `from_midstate(self.midstate(), len)`
    fn restore(&self, len: usize) -> Box<dyn Eng>;
}

struct W<E>(E);

impl<E: HashEngine + 'static> Eng for W<E>
where
    E::Midstate: MidBytes,
{
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn assign(&mut self, src: &dyn Eng) -> bool {
        match src.as_any().downcast_ref::<W<E>>() {
            Some(s) => {
                self.0.clone_from(&s.0);
                true
            }
            None => false,
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self }
    fn swap(&mut self, other: &mut dyn Eng) -> bool {
        match other.as_any_mut().downcast_mut::<W<E>>() {
            Some(o) => {
                std::mem::swap(&mut self.0, &mut o.0);
                true
            }
            None => false,
        }
    }
    fn input(&mut self, d: &[u8]) { self.0.input(d) }
    fn n(&self) -> usize { self.0.n_bytes_hashed() }
    fn fin(self: Box<Self>) -> Vec<u8> { self.0.finalize().as_ref().to_vec() }
    fn dup(&self) -> Box<dyn Eng> { Box::new(W(self.0.clone())) }
    fn mid(&self) -> Vec<u8> { self.0.midstate().bytes() }
    fn restore(&self, len: usize) -> Box<dyn Eng> {
        Box::new(W(E::from_midstate(self.0.midstate(), len)))
    }
}

pub fn wrap<E: HashEngine + 'static>(e: E) -> Box<dyn Eng>
where
    E::Midstate: MidBytes,
{
    Box::new(W(e))
}

pub const TAG: &[u8] = b"verif/tag";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tg;
impl sha256t::Tag for Tg {
    fn engine() -> sha256t::Engine<Self> {
        const M: sha256::Midstate = sha256::Midstate::hash_tag(TAG);
        sha256t::Engine::<Tg>::from_midstate(M, 64)
    }
}

thread_local! {
    static RT_MID: Cell<[u8; 32]> = const { Cell::new([0; 32]) };
}
/// A tag whose midstate is chosen at run time (per thread).
#[derive(Clone, Debug)]
pub struct Rt;
impl Rt {
    pub fn set(m: [u8; 32]) { RT_MID.with(|c| c.set(m)) }
}
impl sha256t::Tag for Rt {
    fn engine() -> sha256t::Engine<Self> {
        sha256t::Engine::<Rt>::from_midstate(sha256::Midstate(RT_MID.with(|c| c.get())), 64)
    }
}

pub struct Subject {
    pub name: String,
    /// Model of `make()`.
    pub model: Model,
    pub make: Box<dyn Fn() -> Box<dyn Eng> + Send + Sync>,
    /// Model of the type's static functions (default engine).
    pub dmodel: Model,
    pub chunks: fn(&[&[u8]]) -> Vec<u8>,
    /// The same through other kinds of iterators and items (`CHUNKERS` of them).
    pub chunks_by: fn(usize, &[&[u8]]) -> Vec<u8>,
    /// Chunks from a function that may do anything.
    pub chunks_from: fn(&mut dyn FnMut() -> Option<Vec<u8>>) -> Vec<u8>,
    pub oneshot: fn(&[u8]) -> Vec<u8>,
    pub default: fn() -> Box<dyn Eng>,
    pub new: fn() -> Box<dyn Eng>,
    pub block_const: usize,
    /// Unit at which a midstate is complete (8 for SipHash).
    pub unit: usize,
    pub is_hmac: bool,
    pub is_sip: bool,
}

fn chunks_of<E: HashEngine>(v: &[&[u8]]) -> Vec<u8> {
    E::hash_byte_chunks(v.iter()).as_ref().to_vec()
}
fn chunks_from<E: HashEngine>(f: &mut dyn FnMut() -> Option<Vec<u8>>) -> Vec<u8> {
    E::hash_byte_chunks(std::iter::from_fn(f)).as_ref().to_vec()
}
pub const CHUNKERS: usize = 8;
pub const CHUNKER_NAMES: [&str; CHUNKERS] = ["Vec<Vec>", "filter", "from_fn", "chain", "VecDeque", "dyn Iterator", "rev", "boxed slices, skip"];
fn chunks_by<E: HashEngine>(how: usize, v: &[&[u8]]) -> Vec<u8> {
    match how {
        0 => E::hash_byte_chunks(v.iter().map(|x| x.to_vec()).collect::<Vec<_>>()),
        // Size hints without a lower or without any bound.
        1 => E::hash_byte_chunks(v.iter().filter(|x| std::hint::black_box(x.len()) < usize::MAX)),
        2 => {
            let mut i = 0;
            E::hash_byte_chunks(std::iter::from_fn(|| {
                i += 1;
                v.get(i - 1)
            }))
        }
        3 => E::hash_byte_chunks(v[..v.len() / 2].iter().chain(v[v.len() / 2..].iter().map(|x| x))),
        4 => E::hash_byte_chunks(v.iter().copied().collect::<std::collections::VecDeque<_>>()),
        5 => E::hash_byte_chunks(Box::new(v.iter()) as Box<dyn Iterator<Item = _>>),
        6 => {
            let r: Vec<&[u8]> = v.iter().rev().copied().collect();
            E::hash_byte_chunks(r.into_iter().rev())
        }
        _ => {
            let r: Vec<Box<[u8]>> = std::iter::once(&b"skipped"[..]).chain(v.iter().copied()).map(|x| x.into()).collect();
            E::hash_byte_chunks(r.iter().skip(1))
        }
    }
    .as_ref()
    .to_vec()
}
fn hash_of<E: HashEngine>(v: &[u8]) -> Vec<u8> { E::hash(v).as_ref().to_vec() }
fn default_of<E: HashEngine + 'static>() -> Box<dyn Eng>
where
    E::Midstate: MidBytes,
{
    wrap(E::default())
}
fn new_of<E: HashEngine + 'static>() -> Box<dyn Eng>
where
    E::Midstate: MidBytes,
{
    wrap(<E as HashEngine>::new())
}

fn subject<E: HashEngine + 'static>(
    name: &str,
    model: Model,
    dmodel: Model,
    make: impl Fn() -> E + Send + Sync + 'static,
) -> Subject
where
    E::Midstate: MidBytes,
{
    let is_sip = matches!(model.inner, Base::Sip { .. });
    let unit = if is_sip { 8 } else { model.block() };
    Subject {
        name: name.to_string(),
        unit,
        is_hmac: model.outer.is_some(),
        is_sip,
        model,
        make: Box::new(move || wrap(make())),
        dmodel,
        chunks: chunks_of::<E>,
        chunks_by: chunks_by::<E>,
        chunks_from: chunks_from::<E>,
        oneshot: hash_of::<E>,
        default: default_of::<E>,
        new: new_of::<E>,
        block_const: E::BLOCK_SIZE,
    }
}

pub const K0: u64 = 0x0123456789abcdef;
pub const K1: u64 = 0xfedcba9876543210;

/// The unkeyed subjects: six hashes, SipHash default and keyed, tagged SHA-256.
pub fn plain() -> Vec<Subject> {
    let p = |a: Alg| Model::plain(Base::plain(a));
    let mut v = Vec::new();
    v.push(subject("sha1", p(Alg::Sha1), p(Alg::Sha1), sha1::Engine::new));
    v.push(subject("sha256", p(Alg::Sha256), p(Alg::Sha256), sha256::Engine::new));
    v.push(subject("sha384", p(Alg::Sha384), p(Alg::Sha384), sha384::Engine::new));
    v.push(subject("sha512", p(Alg::Sha512), p(Alg::Sha512), sha512::Engine::new));
    v.push(subject("sha512_256", p(Alg::Sha512_256), p(Alg::Sha512_256), sha512_256::Engine::new));
    v.push(subject("ripemd160", p(Alg::Ripemd160), p(Alg::Ripemd160), ripemd160::Engine::new));
    let s0 = Model::plain(Base::sip(0, 0));
    v.push(subject("siphash24", s0.clone(), s0.clone(), siphash24::Engine::default));
    v.push(subject("siphash24-keyed", Model::plain(Base::sip(K0, K1)), s0, || {
        siphash24::Engine::with_keys(K0, K1)
    }));
    let t = Model::plain(Base::tagged(TAG));
    v.push(subject("sha256t", t.clone(), t, || sha256t::Hash::<Tg>::engine()));
    v
}

pub fn hmacs(key: &[u8]) -> Vec<Subject> {
    let mut v = Vec::new();
    macro_rules! h {
        ($name:expr, $ty:ty, $base:expr) => {{
            let k = key.to_vec();
            v.push(subject(
                $name,
                Model::hmac($base, key),
                Model::hmac($base, &[]),
                move || hmac::Engine::<$ty>::new(&k),
            ));
        }};
    }
    h!("hmac-sha1", sha1::Engine, Base::plain(Alg::Sha1));
    h!("hmac-sha256", sha256::Engine, Base::plain(Alg::Sha256));
    h!("hmac-sha384", sha384::Engine, Base::plain(Alg::Sha384));
    h!("hmac-sha512", sha512::Engine, Base::plain(Alg::Sha512));
    h!("hmac-sha512_256", sha512_256::Engine, Base::plain(Alg::Sha512_256));
    h!("hmac-ripemd160", ripemd160::Engine, Base::plain(Alg::Ripemd160));
    h!("hmac-siphash24", siphash24::Engine, Base::sip(0, 0));
    h!("hmac-sha256t", sha256t::Engine<Tg>, Base::tagged(TAG));
    v
}

pub fn all() -> Vec<Subject> {
    let mut v = plain();
    v.extend(hmacs(&crate::spec::stream(40)[..33]));
    v
}
