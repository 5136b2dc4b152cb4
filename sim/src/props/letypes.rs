//! The value types of bm-le: how to make one from a random stream, and an independent ssz root of it.
//! Nothing of bm is used to compute the reference root.
//! (Empty generic arrays are left out: generic-array itself trips over them when debug assertions are on.)

use crate::model::{self, depth_for, hash2, le_chunk, merkle, mix_in, H};
use crate::common::vh;
use crate::rng::Rng;
use crate::store::{Cons, SimError, SimStore, V};
use bm::{Error, NoopBackend, ProvingBackend, Proofs, ReadBackend, WriteBackend, Construct};
use bm_le::{tree_root, Compact, CompactRef, ElementalFixedVec, ElementalFixedVecRef, ElementalVariableVec, ElementalVariableVecRef, FromCompactListTree,
    FromCompactVectorTree, FromCompositeListTree, FromCompositeVectorTree, FromTree, Ignored, IntoCompactListTree, IntoCompactVectorTree,
    IntoCompositeListTree, IntoCompositeVectorTree, IntoTree, MaxVec};
use generic_array::{ArrayLength, GenericArray};
use sha2::Sha256;
use primitive_types::{H256, H512, U256};
use std::convert::TryFrom;
use typenum::*;
use vecarray::VecArray;

/// Something the simulation can write and read, on any store.
pub type Res<T> = Result<T, Error<SimError>>;

/// The library wants a sized store; this passes everything on.
pub struct Sized_<'a, C: Cons>(pub &'a mut (dyn WriteBackend<Construct = C, Error = SimError> + 'a));
impl<'a, C: Cons> bm::Backend for Sized_<'a, C> { type Construct = C; type Error = SimError; }
impl<'a, C: Cons> ReadBackend for Sized_<'a, C> { fn get(&mut self, k: &V) -> Result<Option<(V, V)>, SimError> { self.0.get(k) } }
impl<'a, C: Cons> WriteBackend for Sized_<'a, C> {
    fn rootify(&mut self, k: &V) -> Result<(), SimError> { self.0.rootify(k) }
    fn unrootify(&mut self, k: &V) -> Result<(), SimError> { self.0.unrootify(k) }
    fn insert(&mut self, k: V, v: (V, V)) -> Result<(), SimError> { self.0.insert(k, v) }
}

// ---- making values, and their reference roots -----------------------------------------------------------------------

pub trait Le: Sized {
    fn make(r: &mut Rng) -> Self;
    fn sroot(&self, inh: bool) -> H;
    /// What the tree below `h` says, read independently of the library.
    fn parse(h: &H, n: &mut Nodes) -> P<Self>;
}
/// Basic types that can be packed.
pub trait Packs: Sized { fn bytes(items: &[Self]) -> Vec<u8>; fn item(bytes: &[u8], i: usize) -> Self; const BITS: u64; }

/// A tree says nothing (it is malformed, or a part is missing), or more than the simulation wants to read.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad { Malformed, TooMuch }
pub type P<T> = Result<T, Bad>;

/// The nodes at hand, and how many more of them may be read.
pub struct Nodes<'a> { pub get: &'a mut dyn FnMut(&H) -> Option<(H, H)>, pub left: u32 }
impl<'a> Nodes<'a> {
    pub fn pair(&mut self, h: &H) -> P<(H, H)> {
        if self.left == 0 { return Err(Bad::TooMuch); }
        self.left -= 1;
        (self.get)(h).ok_or(Bad::Malformed)
    }
    /// The `i`-th of the subtrees at `depth`.
    pub fn leaf(&mut self, h: &H, depth: u32, i: u64) -> P<H> {
        if depth >= 64 || (i as u128) >> depth != 0 { return Err(Bad::Malformed); }
        let mut at = *h;
        for d in (0..depth).rev() { let (l, r) = self.pair(&at)?; at = if i >> d & 1 == 1 { r } else { l }; }
        Ok(at)
    }
    /// Something with a number next to it that fits a machine word.
    pub fn mixed(&mut self, h: &H) -> P<(H, u64)> { let (l, r) = self.pair(h)?; Ok((l, word(&r).ok_or(Bad::Malformed)?)) }
}
pub fn word(h: &H) -> Option<u64> { if h[8..].iter().any(|b| *b != 0) { return None; } let mut b = [0; 8]; b.copy_from_slice(&h[..8]); Some(u64::from_le_bytes(b)) }
/// Levels of a tree with room for `n`.
pub fn levels(n: u64) -> u32 { if n <= 1 { 0 } else { 64 - (n - 1).leading_zeros() } }

fn parse_composite<T: Le>(h: &H, len: u64, cap: Option<u64>, n: &mut Nodes) -> P<Vec<T>> {
    let cap = cap.unwrap_or(len);
    if len > cap { return Err(Bad::Malformed); }
    let mut v = Vec::new();
    for i in 0..len { let l = n.leaf(h, levels(cap), i)?; v.push(T::parse(&l, n)?); }
    Ok(v)
}
fn parse_packed<T: Packs>(h: &H, len: u64, cap: Option<u64>, n: &mut Nodes) -> P<Vec<T>> {
    let cap = cap.unwrap_or(len);
    if len > cap { return Err(Bad::Malformed); }
    let hosts = |n: u64| (n as u128 * T::BITS as u128).div_ceil(256) as u64;
    let (mut bytes, mut v) = (Vec::new(), Vec::new());
    for i in 0..hosts(len) {
        bytes.extend_from_slice(&n.leaf(h, levels(hosts(cap)), i)?);
        if bytes.len() > 3_000 { return Err(Bad::TooMuch); }
    }
    for i in 0..len { v.push(T::item(&bytes, i as usize)); }
    Ok(v)
}
fn parse_list<T: Le>(h: &H, cap: Option<u64>, n: &mut Nodes) -> P<Vec<T>> { let (h, len) = n.mixed(h)?; parse_composite(&h, len, cap, n) }
fn parse_packed_list<T: Packs>(h: &H, cap: Option<u64>, n: &mut Nodes) -> P<Vec<T>> { let (h, len) = n.mixed(h)?; parse_packed(&h, len, cap, n) }
/// The `i`-th of `of` fields.
pub fn field<T: Le>(h: &H, i: u64, of: u64, n: &mut Nodes) -> P<T> { let l = n.leaf(h, levels(of), i)?; T::parse(&l, n) }
fn packed_field<T: PackedForm>(h: &H, i: u64, of: u64, n: &mut Nodes) -> P<T> { let l = n.leaf(h, levels(of), i)?; T::pparse(&l, n) }

fn number(r: &mut Rng, bits: u32) -> u128 {
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let x = (r.next() as u128) << 64 | r.next() as u128;
    mask & match r.below(8) { 0 | 1 => 0, 2 => 1, 3 => mask, 4 => x & 0xff, 5 => 1u128 << (x % bits as u128), _ => x }
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; n], 1 => vec![0xff; n],
        2 => { let mut v = vec![0; n]; v[0] = 1; v }
        3 => { let mut v = vec![0; n]; v[n - 1] = 1; v }
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
fn count(r: &mut Rng, max: u64) -> usize {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => max, 3 => max.saturating_sub(1), 4 => r.below(3) + max / 2, _ => r.below(max.min(40) + 1) };
    n.min(max).min(700) as usize
}
fn many<T: Le>(r: &mut Rng, n: usize) -> Vec<T> {
    // sometimes all equal: subtrees coincide
    if r.chance(1, 4) { let s = r.next(); return (0..n).map(|_| T::make(&mut Rng::new(s))).collect(); }
    (0..n).map(|_| T::make(r)).collect()
}

macro_rules! uints { ($($t:ty, $n:expr);*) => { $(
    impl Le for $t {
        fn make(r: &mut Rng) -> Self { number(r, $n * 8) as $t }
        fn sroot(&self, _: bool) -> H { let mut h = [0u8; 32]; h[..$n].copy_from_slice(&self.to_le_bytes()); h }
        fn parse(h: &H, _: &mut Nodes) -> P<Self> { let mut b = [0; $n]; b.copy_from_slice(&h[..$n]); Ok(<$t>::from_le_bytes(b)) }
    }
    impl Packs for $t { const BITS: u64 = $n * 8; fn item(bytes: &[u8], i: usize) -> Self { let mut b = [0; $n]; b.copy_from_slice(&bytes[i * $n..(i + 1) * $n]); <$t>::from_le_bytes(b) } fn bytes(items: &[Self]) -> Vec<u8> { items.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect() } }
)* } }
uints!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16);

impl Le for bool { fn make(r: &mut Rng) -> Self { r.chance(1, 2) } fn sroot(&self, _: bool) -> H { le_chunk(*self as u64) }
    fn parse(h: &H, _: &mut Nodes) -> P<Self> { Ok(h[0] != 0) } }
impl Packs for bool {
    const BITS: u64 = 1;
    fn item(bytes: &[u8], i: usize) -> Self { bytes[i / 8] >> (i % 8) & 1 == 1 }
    fn bytes(items: &[Self]) -> Vec<u8> { let mut v = vec![0u8; items.len().div_ceil(8)]; for (i, b) in items.iter().enumerate() { if *b { v[i / 8] |= 1 << (i % 8); } } v }
}
impl Le for U256 {
    fn make(r: &mut Rng) -> Self { U256::from_little_endian(&bytes(r, 32)) }
    fn sroot(&self, _: bool) -> H { let mut h = [0u8; 32]; for i in 0..32 { h[i] = self.byte(i); } h }
    fn parse(h: &H, _: &mut Nodes) -> P<Self> { Ok(U256::from_little_endian(h)) }
}
impl Packs for U256 { const BITS: u64 = 256; fn item(bytes: &[u8], i: usize) -> Self { U256::from_little_endian(&bytes[i * 32..(i + 1) * 32]) } fn bytes(items: &[Self]) -> Vec<u8> { items.iter().flat_map(|x| x.sroot(true).to_vec()).collect() } }
impl Le for H256 { fn make(r: &mut Rng) -> Self { H256::from_slice(&bytes(r, 32)) } fn sroot(&self, _: bool) -> H { let mut h = [0; 32]; h.copy_from_slice(&self.0[..]); h }
    fn parse(h: &H, _: &mut Nodes) -> P<Self> { Ok(H256::from_slice(h)) } }
impl Le for H512 {
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { let (a, b) = n.pair(h)?; let mut v = a.to_vec(); v.extend_from_slice(&b); Ok(H512::from_slice(&v)) }
    fn make(r: &mut Rng) -> Self { H512::from_slice(&bytes(r, 64)) }
    fn sroot(&self, _: bool) -> H { let (mut a, mut b) = ([0; 32], [0; 32]); a.copy_from_slice(&self.0[..32]); b.copy_from_slice(&self.0[32..]); hash2(&a, &b) }
}
impl Le for V { fn make(r: &mut Rng) -> Self { bm_le::Value(H256::make(r)) } fn sroot(&self, _: bool) -> H { self.0.sroot(true) } fn parse(h: &H, _: &mut Nodes) -> P<Self> { Ok(crate::common::hv(h)) } }
impl Le for () { fn make(_: &mut Rng) -> Self {} fn sroot(&self, _: bool) -> H { [0; 32] } fn parse(h: &H, _: &mut Nodes) -> P<Self> { if *h == [0; 32] { Ok(()) } else { Err(Bad::Malformed) } } }
impl<T: Le> Le for Option<T> {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 3) { None } else { Some(T::make(r)) } }
    fn sroot(&self, inh: bool) -> H { match self { None => hash2(&[0; 32], &[0; 32]), Some(x) => hash2(&x.sroot(inh), &le_chunk(1)) } }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> {
        let (x, ty) = n.mixed(h)?;
        match ty { 0 => { <()>::parse(&x, n)?; Ok(None) } 1 => Ok(Some(T::parse(&x, n)?)), _ => Err(Bad::Malformed) }
    }
}
impl<T: Le> Le for Box<T> { fn make(r: &mut Rng) -> Self { Box::new(T::make(r)) } fn sroot(&self, inh: bool) -> H { (**self).sroot(inh) } fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(Box::new(T::parse(h, n)?)) } }

fn fields(roots: &[H], inh: bool) -> H { let l: Vec<Option<H>> = roots.iter().map(|h| Some(*h)).collect(); merkle(inh, &l, depth_for(l.len() as u64)) }
fn composite<T: Le>(items: &[T], limit: Option<u64>, inh: bool) -> H {
    let l: Vec<Option<H>> = items.iter().map(|x| Some(x.sroot(inh))).collect();
    merkle(inh, &l, depth_for(limit.unwrap_or(l.len() as u64)))
}
fn packed<T: Packs>(items: &[T], limit: Option<u64>, inh: bool) -> H {
    let l = model::chunks(&T::bytes(items));
    merkle(inh, &l, depth_for(limit.map(|n| (n as u128 * T::BITS as u128).div_ceil(256) as u64).unwrap_or(l.len() as u64)))
}

macro_rules! tuples { ($(($($t:ident $i:tt),+));*) => { $(
    impl<$($t: Le),+> Le for ($($t),+) {
        fn make(r: &mut Rng) -> Self { ($($t::make(r)),+) }
        fn sroot(&self, inh: bool) -> H { fields(&[$(self.$i.sroot(inh)),+], inh) }
        fn parse(h: &H, n: &mut Nodes) -> P<Self> { let of = [$($i),+].len() as u64; Ok(($(field::<$t>(h, $i, of, n)?),+)) }
    }
)* } }
tuples!((A 0, B 1); (A 0, B 1, C 2); (A 0, B 1, C 2, D 3); (A 0, B 1, C 2, D 3, E 4); (A 0, B 1, C 2, D 3, E 4, F 5);
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, I 7); (A 0, B 1, C 2, D 3, E 4, F 5, G 6, I 7, J 8));

impl<T: Le, const N: usize> Le for [T; N] {
    fn make(r: &mut Rng) -> Self { match <[T; N]>::try_from(many::<T>(r, N)) { Ok(x) => x, Err(_) => unreachable!() } }
    fn sroot(&self, inh: bool) -> H { composite(&self[..], None, inh) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { match <[T; N]>::try_from(parse_composite::<T>(h, N as u64, None, n)?) { Ok(x) => Ok(x), Err(_) => unreachable!() } }
}
impl<T: Le, L: ArrayLength<T>> Le for GenericArray<T, L> {
    fn make(r: &mut Rng) -> Self { GenericArray::from_exact_iter(many::<T>(r, L::to_usize())).unwrap() }
    fn sroot(&self, inh: bool) -> H { composite(&self[..], None, inh) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(GenericArray::from_exact_iter(parse_composite::<T>(h, L::to_u64(), None, n)?).unwrap()) }
}
impl<T: Le, L: Unsigned> Le for VecArray<T, L> {
    fn make(r: &mut Rng) -> Self { VecArray::try_from(many::<T>(r, L::to_usize())).ok().unwrap() }
    fn sroot(&self, inh: bool) -> H { composite(&self[..], None, inh) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(VecArray::try_from(parse_composite::<T>(h, L::to_u64(), None, n)?).ok().unwrap()) }
}
impl<T: Le, L: Unsigned> Le for MaxVec<T, L> {
    fn make(r: &mut Rng) -> Self { let n = count(r, L::to_u64()); MaxVec::from(many::<T>(r, n)) }
    fn sroot(&self, inh: bool) -> H { mix_in(&composite(&self.0[..], Some(L::to_u64()), inh), self.0.len() as u64) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(MaxVec::from(parse_list::<T>(h, Some(L::to_u64()), n)?)) }
}
impl<T: Le> Le for Vec<T> {
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { parse_list::<T>(h, None, n) }
    fn make(r: &mut Rng) -> Self { 
        // one long list at a time: what is in it stays short
        thread_local! { static LONG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
        let inside = LONG.with(|l| l.get());
        let long = !inside && r.chance(1, 30);
        let n = if long { *r.pick(&[64usize, 65, 128, 255, 256, 257, 300]) } else { let most = if inside { 3 } else { *r.clone().pick(&[3u64, 9, 17, 40]) }; count(r, most) };
        if !long { return many::<T>(r, n); }
        LONG.with(|l| l.set(true));
        let v = many::<T>(r, n);
        LONG.with(|l| l.set(false));
        v
    }
    fn sroot(&self, inh: bool) -> H { mix_in(&composite(&self[..], None, inh), self.len() as u64) }
}

/// Packed forms, by what they hold.
pub trait PackedForm: Sized { fn proot(&self, inh: bool) -> H; fn pparse(h: &H, n: &mut Nodes) -> P<Self>; }
impl<T: Packs, L: ArrayLength<T>> PackedForm for GenericArray<T, L> { fn proot(&self, inh: bool) -> H { packed(&self[..], None, inh) }
    fn pparse(h: &H, n: &mut Nodes) -> P<Self> { Ok(GenericArray::from_exact_iter(parse_packed::<T>(h, L::to_u64(), None, n)?).unwrap()) } }
impl<T: Packs, L: Unsigned> PackedForm for VecArray<T, L> { fn proot(&self, inh: bool) -> H { packed(&self[..], None, inh) }
    fn pparse(h: &H, n: &mut Nodes) -> P<Self> { Ok(VecArray::try_from(parse_packed::<T>(h, L::to_u64(), None, n)?).ok().unwrap()) } }
impl<T: Packs, L: Unsigned> PackedForm for MaxVec<T, L> { fn proot(&self, inh: bool) -> H { mix_in(&packed(&self.0[..], Some(L::to_u64()), inh), self.0.len() as u64) }
    fn pparse(h: &H, n: &mut Nodes) -> P<Self> { Ok(MaxVec::from(parse_packed_list::<T>(h, Some(L::to_u64()), n)?)) } }
impl<T: Le + PackedForm> Le for Compact<T> { fn make(r: &mut Rng) -> Self { Compact(T::make(r)) } fn sroot(&self, inh: bool) -> H { self.0.proot(inh) } fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(Compact(T::pparse(h, n)?)) } }

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Three { a: u32, b: u64, c: u128 }
impl Le for Three { fn make(r: &mut Rng) -> Self { Three { a: Le::make(r), b: Le::make(r), c: Le::make(r) } } fn sroot(&self, inh: bool) -> H { fields(&[self.a.sroot(inh), self.b.sroot(inh), self.c.sroot(inh)], inh) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(Three { a: field(h, 0, 3, n)?, b: field(h, 1, 3, n)?, c: field(h, 2, 3, n)? }) } }

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Conf {
    a: u64,
    #[bm(compact)]
    d: GenericArray<u64, U4>,
    e: Option<Three>,
    #[bm(compact)]
    f: MaxVec<u64, U5>,
    g: MaxVec<Three, U3>,
    #[bm(compact)]
    h: VecArray<bool, U9>,
}
impl Le for Conf {
    fn make(r: &mut Rng) -> Self { Conf { a: Le::make(r), d: Le::make(r), e: Le::make(r), f: Le::make(r), g: Le::make(r), h: Le::make(r) } }
    fn sroot(&self, inh: bool) -> H { fields(&[self.a.sroot(inh), self.d.proot(inh), self.e.sroot(inh), self.f.proot(inh), self.g.sroot(inh), self.h.proot(inh)], inh) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> {
        Ok(Conf { a: field(h, 0, 6, n)?, d: packed_field(h, 1, 6, n)?, e: field(h, 2, 6, n)?, f: packed_field(h, 3, 6, n)?, g: field(h, 4, 6, n)?, h: packed_field(h, 5, 6, n)? })
    }
}

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Single { a: H512 }
impl Le for Single { fn make(r: &mut Rng) -> Self { Single { a: Le::make(r) } } fn sroot(&self, inh: bool) -> H { self.a.sroot(inh) } fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(Single { a: H512::parse(h, n)? }) } }

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub enum Enum {
    A(u128),
    B { c: u64, d: u32 },
    E,
    F(u8, Vec<u16>),
    G { #[bm(compact)] x: MaxVec<u8, U100>, y: Option<u8>, z: H256 },
}
impl Le for Enum {
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => Enum::A(Le::make(r)), 1 => Enum::B { c: Le::make(r), d: Le::make(r) }, 2 => Enum::E,
            3 => Enum::F(Le::make(r), Le::make(r)), _ => Enum::G { x: Le::make(r), y: Le::make(r), z: Le::make(r) },
        }
    }
    fn sroot(&self, inh: bool) -> H {
        let (i, h) = match self {
            Enum::A(x) => (0, x.sroot(inh)),
            Enum::B { c, d } => (1, fields(&[c.sroot(inh), d.sroot(inh)], inh)),
            Enum::E => (2, [0; 32]),
            Enum::F(a, b) => (3, fields(&[a.sroot(inh), b.sroot(inh)], inh)),
            Enum::G { x, y, z } => (4, fields(&[x.proot(inh), y.sroot(inh), z.sroot(inh)], inh)),
        };
        hash2(&h, &le_chunk(i))
    }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> {
        let (h, ty) = n.mixed(h)?;
        Ok(match ty {
            0 => Enum::A(field(&h, 0, 1, n)?),
            1 => Enum::B { c: field(&h, 0, 2, n)?, d: field(&h, 1, 2, n)? },
            2 => { <()>::parse(&h, n)?; Enum::E }
            3 => Enum::F(field(&h, 0, 2, n)?, field(&h, 1, 2, n)?),
            4 => Enum::G { x: packed_field(&h, 0, 3, n)?, y: field(&h, 1, 3, n)?, z: field(&h, 2, 3, n)? },
            _ => return Err(Bad::Malformed),
        })
    }
}

/// A derived struct's reference, field by field (packed ones in brackets).
macro_rules! record { ($t:ident { $($f:tt : $i:tt $(= $c:tt)?),* } of $n:expr) => {
    impl Le for $t {
        fn make(r: &mut Rng) -> Self { $t { $($f: Le::make(r)),* } }
        fn sroot(&self, inh: bool) -> H { let _ = inh; fields(&[$(record!(@root self.$f, inh $(, $c)?)),*], inh) }
        fn parse(h: &H, n: &mut Nodes) -> P<Self> { let _ = (h, &n); Ok($t { $($f: record!(@field h, $i, $n, n $(, $c)?)),* }) }
    }
};
    (@root $e:expr, $inh:expr) => { $e.sroot($inh) }; (@root $e:expr, $inh:expr, packed) => { $e.proot($inh) };
    (@field $h:expr, $i:expr, $of:expr, $n:expr) => { field($h, $i, $of, $n)? }; (@field $h:expr, $i:expr, $of:expr, $n:expr, packed) => { packed_field($h, $i, $of, $n)? };
}

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Bare(u16, #[bm(compact)] MaxVec<u16, U40>, Option<u8>, #[bm(compact)] VecArray<u128, U3>);
record!(Bare { 0: 0, 1: 1 = packed, 2: 2, 3: 3 = packed } of 4);

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Newtype(Vec<u16>);
record!(Newtype { 0: 0 } of 1);

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Nine { a: u8, b: u16, #[bm(compact)] c: GenericArray<u8, U70>, d: bool, e: H512, f: Vec<u8>, g: u64, h: Option<u64>, #[bm(compact)] i: MaxVec<bool, U300> }
record!(Nine { a: 0, b: 1, c: 2 = packed, d: 3, e: 4, f: 5, g: 6, h: 7, i: 8 = packed } of 9);

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Many {
    a: u8, b: u16, c: u32, d: u64, e: u128, f: bool, g: U256, h: H256,
    i: H512, j: (u8, u8), k: [u16; 3], l: Option<u8>, m: Vec<u8>, n: Three, o: Value_, p: (), q: Box<u8>,
}
type Value_ = V;
record!(Many { a: 0, b: 1, c: 2, d: 3, e: 4, f: 5, g: 6, h: 7, i: 8, j: 9, k: 10, l: 11, m: 12, n: 13, o: 14, p: 15, q: 16 } of 17);

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Void;
#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Hollow {}
impl Le for Void { fn make(_: &mut Rng) -> Self { Void } fn sroot(&self, _: bool) -> H { [0; 32] } fn parse(_: &H, _: &mut Nodes) -> P<Self> { Ok(Void) } }
impl Le for Hollow { fn make(_: &mut Rng) -> Self { Hollow {} } fn sroot(&self, _: bool) -> H { [0; 32] } fn parse(_: &H, _: &mut Nodes) -> P<Self> { Ok(Hollow {}) } }

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub struct Gen<T> { t: T, v: Vec<T>, n: u8 }
impl<T: Le> Le for Gen<T> {
    fn make(r: &mut Rng) -> Self { Gen { t: Le::make(r), v: Le::make(r), n: Le::make(r) } }
    fn sroot(&self, inh: bool) -> H { fields(&[self.t.sroot(inh), self.v.sroot(inh), self.n.sroot(inh)], inh) }
    fn parse(h: &H, n: &mut Nodes) -> P<Self> { Ok(Gen { t: field(h, 0, 3, n)?, v: field(h, 1, 3, n)?, n: field(h, 2, 3, n)? }) }
}

/// A derived enum's reference: variants with named or numbered fields, and units.
macro_rules! choice { ($t:ident { $($i:literal $v:ident ($n:tt $(; $($f:tt $b:ident $k:tt $($c:ident)?),*)?)),* }) => {
    impl Le for $t {
        fn make(r: &mut Rng) -> Self { match r.below([$($i),*].len() as u64) { $($i => $t::$v { $($($f: Le::make(r)),*)? },)* _ => unreachable!() } }
        fn sroot(&self, inh: bool) -> H {
            match self { $($t::$v { $($($f: $b),*)? } => {
                let roots: &[H] = &[$($(record!(@root $b, inh $(, $c)?)),*)?];
                hash2(&if $n == 0 { [0; 32] } else { fields(roots, inh) }, &le_chunk($i))
            })* }
        }
        fn parse(h: &H, n: &mut Nodes) -> P<Self> {
            let (h, ty) = n.mixed(h)?;
            Ok(match ty { $($i => { choice!(@unit $n, h, n, $t, $v); $t::$v { $($($f: record!(@field &h, $k, $n, n $(, $c)?)),*)? } })* _ => return Err(Bad::Malformed) })
        }
    }
};
    (@unit 0, $h:expr, $n:expr, $t:ident, $v:ident) => { if !$t::LENIENT.contains(&stringify!($v)) { <()>::parse(&$h, $n)?; } };
    (@unit $x:literal, $h:expr, $n:expr, $t:ident, $v:ident) => {};
}

#[derive(IntoTree, FromTree, PartialEq, Debug)]
pub enum Big {
    A, B(u8), C { x: u16 }, D, E(u8, u16), F { x: H512, y: u8 }, G(), H {}, I(Three), J(Box<Vec<u8>>),
    K { #[bm(compact)] x: VecArray<u8, U40> }, L(#[bm(compact)] MaxVec<u32, U9>, u8), M, N((u8, u16)), O(Option<u8>), P(u8, u8, u8, u8, u8),
    Q { a: u64, b: u64, c: u64 }, R, S(Enum), T,
}
impl Big { const LENIENT: &'static [&'static str] = &["G", "H"]; }
choice!(Big {
    0 A (0), 1 B (1; 0 a 0), 2 C (1; x a 0), 3 D (0), 4 E (2; 0 a 0, 1 b 1), 5 F (2; x a 0, y b 1), 6 G (0), 7 H (0), 8 I (1; 0 a 0), 9 J (1; 0 a 0),
    10 K (1; x a 0 packed), 11 L (2; 0 a 0 packed, 1 b 1), 12 M (0), 13 N (1; 0 a 0), 14 O (1; 0 a 0), 15 P (5; 0 a 0, 1 b 1, 2 c 2, 3 d 3, 4 e 4),
    16 Q (3; a a 0, b b 1, c c 2), 17 R (0), 18 S (1; 0 a 0), 19 T (0)
});

// ---- the same through one face ---------------------------------------------------------------------------------------

/// What decoding some tree came to, compared with what the tree says.
pub enum Judged { Skip, Refused, Read, Failed(Error<SimError>), Wrong(String) }

pub fn judged<T: PartialEq>(want: P<T>, got: impl FnOnce() -> Res<T>) -> Judged {
    if let Err(Bad::TooMuch) = want { return Judged::Skip; }
    match (want, got()) {
        (_, Err(Error::Backend(e))) => Judged::Failed(Error::Backend(e)),
        (Err(_), Err(_)) => Judged::Refused,
        (Ok(a), Ok(b)) => if a == b { Judged::Read } else { Judged::Wrong("another value than it holds".into()) },
        (Err(_), Ok(_)) => Judged::Wrong("a value although it is malformed".into()),
        (Ok(_), Err(e)) => Judged::Wrong(format!("{:?} although it holds a value", e)),
    }
}

pub trait Obj<C: Cons> {
    /// Decode whatever is below `root` as a value of this type.
    fn judge(&self, _root: &V, _n: &mut Nodes, _db: &mut Sized_<C>) -> Judged { Judged::Skip }
    fn name(&self) -> String;
    fn want(&self) -> H;
    fn write(&self, db: &mut Sized_<C>) -> Res<V>;
    /// Reads it back; the result tells whether it equals this value.
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>>;
    /// The root on the discarding store.
    fn discard(&self) -> Option<V>;
    /// The root from the library's function for it, and what it should be.
    fn computed(&self) -> Option<(H, H)> { None }
    /// What must happen when it is read from the discarding store: an error, unless no access is needed.
    fn noop_read(&self, root: &V) -> Option<String>;
}

pub struct Plain<T>(pub T);
impl<T: Le + IntoTree + FromTree + PartialEq, C: Cons> Obj<C> for Plain<T> {
    fn judge(&self, root: &V, n: &mut Nodes, db: &mut Sized_<C>) -> Judged { judged(T::parse(&vh(root), n), || T::from_tree(root, db)) }
    fn name(&self) -> String { std::any::type_name::<T>().replace("typenum::generated::consts::", "").chars().take(60).collect() }
    fn want(&self) -> H { self.0.sroot(C::INHERITED) }
    fn write(&self, db: &mut Sized_<C>) -> Res<V> { self.0.into_tree(db) }
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> {
        let x = T::from_tree(root, db)?;
        Ok(if x == self.0 { Ok(()) } else { Err("another value".into()) })
    }
    fn discard(&self) -> Option<V> { self.0.into_tree(&mut NoopBackend::<C>::default()).ok() }
    fn computed(&self) -> Option<(H, H)> { Some((tree_root::<Sha256, T>(&self.0).0, self.0.sroot(true))) }
    fn noop_read(&self, root: &V) -> Option<String> {
        match T::from_tree(root, &mut NoopBackend::<C>::default()) { Ok(x) => if x == self.0 { None } else { Some("another value".into()) }, Err(_) => None }
    }
}

/// The element-wise functions with a maximum length given at run time.
struct Elemental<T> { items: Vec<T>, max: Option<u64>, list: bool, compact: bool, by_ref: bool }
impl<T: Le + Packs + IntoTree + FromTree + PartialEq, C: Cons> Obj<C> for Elemental<T> where
    for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree,
    ElementalFixedVec<T>: FromCompactVectorTree, T: Clone,
{
    fn judge(&self, root: &V, n: &mut Nodes, db: &mut Sized_<C>) -> Judged {
        let (h, len) = (vh(root), self.items.len());
        match (self.list, self.compact) {
            (true, true) => judged(parse_packed_list::<T>(&h, self.max, n), || Ok(ElementalVariableVec::<T>::from_compact_list_tree(root, db, self.max)?.0)),
            (true, false) => judged(parse_list::<T>(&h, self.max, n), || Ok(ElementalVariableVec::<T>::from_composite_list_tree(root, db, self.max)?.0)),
            (false, true) => judged(parse_packed::<T>(&h, len as u64, self.max, n), || Ok(ElementalFixedVec::<T>::from_compact_vector_tree(root, db, len, self.max)?.0)),
            (false, false) => judged(parse_composite::<T>(&h, len as u64, self.max, n), || Ok(ElementalFixedVec::<T>::from_composite_vector_tree(root, db, len, self.max)?.0)),
        }
    }
    fn name(&self) -> String { format!("{} of {} (max {:?})", if self.list { "list" } else { "vector" }, self.items.len(), self.max) }
    fn want(&self) -> H {
        let h = if self.compact { packed(&self.items, self.max, C::INHERITED) } else { composite(&self.items, self.max, C::INHERITED) };
        if self.list { mix_in(&h, self.items.len() as u64) } else { h }
    }
    fn write(&self, db: &mut Sized_<C>) -> Res<V> { self.write_to(db) }
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> {
        let n = self.items.len();
        let x = match (self.list, self.compact) {
            (true, true) => ElementalVariableVec::<T>::from_compact_list_tree(root, db, self.max)?.0,
            (true, false) => ElementalVariableVec::<T>::from_composite_list_tree(root, db, self.max)?.0,
            (false, true) => ElementalFixedVec::<T>::from_compact_vector_tree(root, db, n, self.max)?.0,
            (false, false) => ElementalFixedVec::<T>::from_composite_vector_tree(root, db, n, self.max)?.0,
        };
        Ok(if x == self.items { Ok(()) } else { Err("another value".into()) })
    }
    fn discard(&self) -> Option<V> { self.write_to(&mut NoopBackend::<C>::default()).ok() }
    fn noop_read(&self, _root: &V) -> Option<String> { None }
}
impl<T: Le + Packs + IntoTree + Clone> Elemental<T> where
    for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree,
{
    fn write_to<DB: WriteBackend>(&self, db: &mut DB) -> Result<V, Error<DB::Error>> where DB::Construct: Construct<Value = V> {
        match (self.list, self.compact, self.by_ref) {
            (true, true, true) => ElementalVariableVecRef(&self.items).into_compact_list_tree(db, self.max),
            (true, false, true) => ElementalVariableVecRef(&self.items).into_composite_list_tree(db, self.max),
            (false, true, true) => ElementalFixedVecRef(&self.items).into_compact_vector_tree(db, self.max),
            (false, false, true) => ElementalFixedVecRef(&self.items).into_composite_vector_tree(db, self.max),
            (true, true, _) => ElementalVariableVec(self.items.clone()).into_compact_list_tree(db, self.max),
            (true, false, _) => ElementalVariableVec(self.items.clone()).into_composite_list_tree(db, self.max),
            (false, true, _) => ElementalFixedVec(self.items.clone()).into_compact_vector_tree(db, self.max),
            (false, false, _) => ElementalFixedVec(self.items.clone()).into_composite_vector_tree(db, self.max),
        }
    }
}

/// Written as a slice, packed by reference, or read with a part ignored.
struct Slice<T>(Vec<T>);
impl<T: Le + IntoTree + FromTree + PartialEq, C: Cons> Obj<C> for Slice<T> {
    fn name(&self) -> String { format!("slice of {}", self.0.len()) }
    fn want(&self) -> H { self.0.sroot(C::INHERITED) }
    fn write(&self, db: &mut Sized_<C>) -> Res<V> { self.0[..].into_tree(db) }
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> {
        let x = Vec::<T>::from_tree(root, db)?;
        Ok(if x == self.0 { Ok(()) } else { Err("another value".into()) })
    }
    fn discard(&self) -> Option<V> { self.0[..].into_tree(&mut NoopBackend::<C>::default()).ok() }
    fn noop_read(&self, _root: &V) -> Option<String> { None }
}
struct ByRef<T>(T);
impl<T: Le + PackedForm + PartialEq, C: Cons> Obj<C> for ByRef<T> where for<'a> CompactRef<'a, T>: IntoTree, Compact<T>: FromTree {
    fn judge(&self, root: &V, n: &mut Nodes, db: &mut Sized_<C>) -> Judged { judged(T::pparse(&vh(root), n), || Ok(Compact::<T>::from_tree(root, db)?.0)) }
    fn name(&self) -> String { "packed by reference".into() }
    fn want(&self) -> H { self.0.proot(C::INHERITED) }
    fn write(&self, db: &mut Sized_<C>) -> Res<V> { CompactRef(&self.0).into_tree(db) }
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> {
        let x = Compact::<T>::from_tree(root, db)?;
        Ok(if x.0 == self.0 { Ok(()) } else { Err("another value".into()) })
    }
    fn discard(&self) -> Option<V> { CompactRef(&self.0).into_tree(&mut NoopBackend::<C>::default()).ok() }
    fn computed(&self) -> Option<(H, H)> { Some((tree_root::<Sha256, CompactRef<T>>(&CompactRef(&self.0)).0, self.0.proot(true))) }
    fn noop_read(&self, _root: &V) -> Option<String> { None }
}
struct Ign(u64, Vec<u16>, u8);
impl<C: Cons> Obj<C> for Ign {
    fn judge(&self, root: &V, n: &mut Nodes, db: &mut Sized_<C>) -> Judged {
        let h = vh(root);
        let want = (|| { let a = field::<u64>(&h, 0, 3, n)?; n.leaf(&h, 2, 1)?; Ok((a, field::<u8>(&h, 2, 3, n)?)) })();
        judged(want, || <(u64, Ignored, u8)>::from_tree(root, db).map(|x| (x.0, x.2)))
    }
    fn name(&self) -> String { "tuple read with a part ignored".into() }
    fn want(&self) -> H { fields(&[self.0.sroot(C::INHERITED), self.1.sroot(C::INHERITED), self.2.sroot(C::INHERITED)], C::INHERITED) }
    fn write(&self, db: &mut Sized_<C>) -> Res<V> { (self.0, self.1.clone(), self.2).into_tree(db) }
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> {
        let x = <(u64, Ignored, u8)>::from_tree(root, db)?;
        Ok(if x == (self.0, Ignored, self.2) { Ok(()) } else { Err("another value".into()) })
    }
    fn discard(&self) -> Option<V> { (self.0, self.1.clone(), self.2).into_tree(&mut NoopBackend::<C>::default()).ok() }
    fn noop_read(&self, _root: &V) -> Option<String> { None }
}

/// A compact proof, expanded into the store; read back node by node.
struct Expanded(bm::CompactValue<V>);
impl Expanded {
    fn make(r: &mut Rng, depth: u64) -> bm::CompactValue<V> {
        if depth == 0 || r.chance(1, 4) { return bm::CompactValue::Single(V::make(r)); }
        let s = r.next();
        let (mut a, mut b) = (Rng::new(s), Rng::new(if r.chance(1, 5) { s } else { r.next() }));
        bm::CompactValue::Combined(Box::new((Self::make(&mut a, depth - 1), Self::make(&mut b, depth - 1))))
    }
    fn root(c: &bm::CompactValue<V>) -> H {
        match c { bm::CompactValue::Single(v) => v.sroot(true), bm::CompactValue::Combined(b) => hash2(&Self::root(&b.0), &Self::root(&b.1)) }
    }
    fn walk<C: Cons>(c: &bm::CompactValue<V>, at: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> {
        let b = match c { bm::CompactValue::Single(_) => return Ok(Ok(())), bm::CompactValue::Combined(b) => b };
        let (l, r) = db.get(at)?.ok_or(Error::CorruptedDatabase)?;
        if crate::common::vh(&l) != Self::root(&b.0) || crate::common::vh(&r) != Self::root(&b.1) { return Ok(Err("other children".into())); }
        if let Err(m) = Self::walk(&b.0, &l, db)? { return Ok(Err(m)); }
        Self::walk(&b.1, &r, db)
    }
}
impl<C: Cons> Obj<C> for Expanded {
    fn name(&self) -> String { format!("compact proof of {}", self.0.len()) }
    fn want(&self) -> H { Self::root(&self.0) }
    fn write(&self, db: &mut Sized_<C>) -> Res<V> { self.0.into_tree(db) }
    fn read(&self, root: &V, db: &mut Sized_<C>) -> Res<Result<(), String>> { Self::walk(&self.0, root, db) }
    fn discard(&self) -> Option<V> { self.0.into_tree(&mut NoopBackend::<C>::default()).ok() }
    fn noop_read(&self, _root: &V) -> Option<String> { None }
}

fn elem<T, C: Cons>(r: &mut Rng) -> Box<dyn Obj<C>> where
    T: Le + Packs + IntoTree + FromTree + PartialEq + Clone + 'static,
    for<'a> ElementalFixedVecRef<'a, T>: IntoCompactVectorTree, for<'a> ElementalVariableVecRef<'a, T>: IntoCompactListTree, ElementalFixedVec<T>: FromCompactVectorTree,
{
    let cap = *r.pick(&[0u64, 1, 2, 3, 5, 8, 16, 17, 31, 32, 33, 64, 65, 255, 257, 1000, 1 << 20, 1 << 40, 1 << 62, 1 << 63, u64::MAX]);
    let compact = r.chance(2, 3);
    // as long as the nodes can be told apart by an index of 64 bits
    let beyond = (cap as u128 * if compact { T::BITS as u128 } else { 256 }).div_ceil(256) > 1 << 63;
    // beyond that there is room for nothing that could be read, but nothing can still be written
    let none = beyond && r.chance(1, 2);
    let cap = if beyond && !none { 1 << 63 } else { cap };
    let n = if none { 0 } else { count(r, cap) };
    let (mut items, mut max) = (many::<T>(r, n.min(300)), if r.chance(1, 3) { None } else { Some(cap) });
    if !none && r.chance(1, 10) {
        // long ones, past the numbers that fit one or two bytes
        let mut n = *r.pick(&[255usize, 256, 257, 511, 512, 1000, 1023, 1024, 1025]);
        if compact { n = match T::BITS { 1 => *r.pick(&[n, 65_535, 65_536, 65_537, 65_600]), 8 => *r.pick(&[n, 2_048, 4_096, 4_097, 8_193]), _ => *r.pick(&[n, 2_048, 2_049]) }; }
        items = many::<T>(r, n);
        max = if r.chance(1, 3) { None } else { Some(n as u64 + *r.pick(&[0, 1, 7, 8, 100, 1000])) };
    }
    Box::new(Elemental { items, max, list: r.chance(1, 2), compact, by_ref: r.chance(1, 2) })
}

macro_rules! kinds { ($r:expr, $k:expr, $($i:expr => $t:ty),* ; $($j:expr => $e:expr),*) => { match $k { $($i => Box::new(Plain(<$t>::make($r))),)* $($j => $e,)* _ => Box::new(Plain(u8::make($r))) } } }

pub const KINDS: u64 = 125;

/// A value of the `k`-th kind.
pub fn make<C: Cons>(k: u64, r: &mut Rng) -> Box<dyn Obj<C>> {
    kinds!(r, k % KINDS,
        0 => bool, 1 => u8, 2 => u16, 3 => u32, 4 => u64, 5 => u128, 6 => U256, 7 => H256, 8 => H512, 9 => V, 10 => (),
        11 => Option<u64>, 12 => Option<Vec<u16>>, 13 => Box<u64>, 14 => Option<()>, 15 => Option<Option<u8>>, 16 => Box<Vec<H256>>,
        17 => (u8, u64), 18 => (u16, H512, Option<u8>), 19 => (u8, bool, u32, Vec<u8>), 20 => (u8, u16, u32, u64, u128),
        21 => (u8, H256, u32, u64, u128, bool, U256, H512, Option<u8>), 22 => ((u8, u8), (u16, (bool, bool))),
        23 => [u64; 1], 24 => [u64; 3], 25 => [H256; 5], 26 => [u16; 32], 27 => [bool; 17], 28 => [U256; 8], 29 => [Option<u8>; 4],
        30 => GenericArray<u64, U7>, 31 => GenericArray<H512, U3>, 32 => GenericArray<u8, U2>, 33 => GenericArray<Vec<u8>, U5>, 34 => GenericArray<bool, U65>,
        35 => VecArray<u32, U9>, 36 => VecArray<H512, U2>, 37 => VecArray<u8, U0>, 38 => VecArray<Vec<u64>, U3>,
        39 => Compact<GenericArray<u8, U5>>, 40 => Compact<GenericArray<u8, U33>>, 41 => Compact<GenericArray<u16, U17>>, 42 => Compact<GenericArray<u32, U9>>,
        43 => Compact<GenericArray<u64, U4>>, 44 => Compact<GenericArray<u128, U3>>, 45 => Compact<GenericArray<U256, U3>>, 46 => Compact<GenericArray<bool, U10>>,
        47 => Compact<GenericArray<bool, U300>>, 48 => Compact<GenericArray<u16, U16>>, 49 => Compact<GenericArray<u8, U255>>,
        50 => Compact<VecArray<u16, U33>>, 51 => Compact<VecArray<bool, U9>>, 52 => Compact<VecArray<u64, U1>>, 53 => Compact<VecArray<U256, U5>>,
        54 => MaxVec<u64, U0>, 55 => MaxVec<u64, U5>, 56 => MaxVec<H256, U16>, 57 => MaxVec<Vec<u16>, U3>, 58 => MaxVec<Option<u8>, U9>, 59 => MaxVec<u8, U1024>,
        60 => MaxVec<(u8, H512), U4>, 61 => MaxVec<bool, U1>, 62 => MaxVec<MaxVec<u8, U3>, U3>,
        63 => Compact<MaxVec<u8, U5>>, 64 => Compact<MaxVec<u16, U33>>, 65 => Compact<MaxVec<u32, U100>>, 66 => Compact<MaxVec<u64, U5>>, 67 => Compact<MaxVec<u128, U7>>,
        68 => Compact<MaxVec<U256, U5>>, 69 => Compact<MaxVec<bool, U8>>, 70 => Compact<MaxVec<bool, U1000>>, 71 => Compact<MaxVec<u8, U4096>>, 72 => Compact<MaxVec<u64, U0>>,
        73 => Compact<MaxVec<u32, U1>>, 74 => Compact<MaxVec<bool, U257>>,
        75 => Vec<u8>, 76 => Vec<u64>, 77 => Vec<bool>, 78 => Vec<H512>, 79 => Vec<Vec<u16>>, 80 => Vec<(u8, u64)>, 81 => Vec<Option<u16>>, 82 => Vec<Compact<MaxVec<u8, U40>>>,
        83 => Three, 84 => Conf, 85 => Single, 86 => Enum, 87 => Vec<Enum>, 88 => Option<Conf>,
        93 => (u8, Vec<u8>, u32, H512, u128, bool), 94 => (u8, u16, Option<u8>, u64, u128, bool, H512), 95 => (H512, u16, u32, Vec<u16>, u128, bool, U256, (u8, u8)),
        96 => Compact<VecArray<u8, U31>>, 97 => Compact<VecArray<u8, U33>>, 98 => Compact<VecArray<u32, U17>>, 99 => Compact<VecArray<u128, U7>>, 100 => Compact<VecArray<bool, typenum::U256>>,
        101 => Compact<VecArray<bool, U257>>, 102 => Compact<VecArray<u16, U0>>, 103 => Bare, 104 => Newtype, 105 => Nine, 106 => Many, 107 => Void, 108 => Hollow, 109 => Gen<u8>,
        110 => Gen<H512>, 111 => Gen<Option<u16>>, 112 => Big, 113 => Vec<Big>, 114 => Option<Void>, 115 => Vec<Void>, 116 => (Void, Hollow), 117 => MaxVec<Big, U5>,
        118 => [u8; 2], 119 => [u128; 16], 120 => [U256; 31], 121 => GenericArray<Big, U3>, 122 => VecArray<Nine, U2>, 123 => Vec<()>, 124 => Vec<Vec<Vec<u8>>>;
        89 => match r.below(7) { 0 => elem::<u8, C>(r), 1 => elem::<u16, C>(r), 2 => elem::<u32, C>(r), 3 => elem::<u64, C>(r), 4 => elem::<u128, C>(r), 5 => elem::<bool, C>(r), _ => elem::<U256, C>(r) },
        90 => if r.chance(1, 2) { Box::new(Slice(Vec::<u64>::make(r))) } else { Box::new(Slice(Vec::<H512>::make(r))) },
        91 => match r.below(4) { 0 => Box::new(ByRef(GenericArray::<u16, U21>::make(r))), 1 => Box::new(ByRef(MaxVec::<u8, U70>::make(r))),
            2 => Box::new(ByRef(VecArray::<u128, U3>::make(r))), _ => Box::new(Ign(Le::make(r), Le::make(r), Le::make(r))) },
        92 => { let d = r.range(0, 5); Box::new(Expanded(Expanded::make(r, d))) }
    )
}

/// Decode through the recording store, then again from nothing but the recorded proof.
pub fn decode_from_proof<C: Cons>(obj: &dyn Obj<C>, root: &V, store: &mut SimStore<C>) -> Result<(), String> {
    let proofs: Proofs<V> = {
        let mut rec = ProvingBackend::new(&mut *store);
        match obj.read(root, &mut Sized_(&mut rec)) { Ok(Ok(())) => {} Ok(Err(m)) => return Err(m), Err(e) => return Err(format!("recorded decoding: {:?}", e)) }
        rec.into()
    };
    let mut fresh = SimStore::<C>::new(false);
    fresh.real.populate(proofs.into());
    match obj.read(root, &mut Sized_(&mut fresh)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(format!("decoding from the proof gives {}", m)),
        Err(e) => Err(format!("decoding from the proof gives {:?}", e)),
    }
}
