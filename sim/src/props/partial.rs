//! C15: partially loaded views of one value in one tree, several at a time, with flushes that fail half way and are
//! repeated, next to other trees that share nodes with it. The model is the plain value.

use crate::common::*;
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::letypes::{field, Le, Nodes, Res, P};
use crate::props::seqworld::{injected, pick_fault};
use crate::rng::{mix, Rng};
use crate::store::{Cons, Inh, SimStore, Unit, V};
use bm::{Dangling, Error, Index, Owned, Raw, ReadBackend, RootStatus, Tree, WriteBackend};
use bm_le::{CompatibleConstruct, FromTree, IntoTree, PartialIndex, PartialItem, PartialValue, PartialVec, Partialable};
use primitive_types::{H256, U256};
use std::collections::BTreeMap;

// ---- the value ---------------------------------------------------------------------------------------------------

macro_rules! list_type { ($name:ident, $t:ty) => {
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct $name(pub Vec<$t>);
    impl IntoTree for $name {
        fn into_tree<DB: WriteBackend>(&self, db: &mut DB) -> Result<V, Error<DB::Error>> where DB::Construct: CompatibleConstruct { self.0.into_tree(db) }
    }
    impl FromTree for $name {
        fn from_tree<DB: ReadBackend>(root: &V, db: &mut DB) -> Result<Self, Error<DB::Error>> where DB::Construct: CompatibleConstruct { Ok($name(Vec::from_tree(root, db)?)) }
    }
    impl Partialable for $name { type Value = PartialVec<$t>; }
} }
list_type!(Items, u64);
list_type!(Recs, Inner);
list_type!(Deeps, Deep);

#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Inner { pub a: u64, pub b: u16, pub c: H256 }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Deep { pub k: u32, pub l: Items }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct One { pub q: u32 }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Four { pub a: u16, pub b: u64, pub i: Inner, pub one: One }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Eight { pub a: u16, pub b: H256, pub c: u8, pub d: U256, pub e: u64, pub f: u128, pub g: u32, pub h: u16 }
/// Structs of one, two, three, four, eight and ten fields, in one another and in lists.
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Full { pub x: u8, pub inner: Inner, pub items: Items, pub recs: Recs, pub n: U256, pub deeps: Deeps, pub y: u128, pub one: One, pub four: Four, pub eight: Eight }

fn few<T>(r: &mut Rng, max: u64, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    let n = match r.below(5) { 0 => 0, 1 => 1, _ => r.below(max + 1) };
    (0..n).map(|_| f(r)).collect()
}
fn inner(r: &mut Rng) -> Inner { Inner { a: small(r), b: small(r) as u16, c: h256(r) } }
fn deep(r: &mut Rng) -> Deep { Deep { k: small(r) as u32, l: Items(few(r, 5, small)) } }
fn full(r: &mut Rng) -> Full {
    let n = if r.chance(1, 16) { 150 } else { *r.pick(&[2u64, 6, 20]) };
    Full { x: small(r) as u8, inner: inner(r), items: Items(few(r, n, small)), recs: Recs(few(r, n, inner)), n: U256::make(r), deeps: Deeps(few(r, 6, deep)), y: u128::make(r), one: One { q: small(r) as u32 },
        four: Four { a: small(r) as u16, b: small(r), i: inner(r), one: One { q: small(r) as u32 } },
        eight: Eight { a: small(r) as u16, b: h256(r), c: small(r) as u8, d: U256::make(r), e: small(r), f: u128::make(r), g: small(r) as u32, h: small(r) as u16 } }
}
fn small(r: &mut Rng) -> u64 { match r.below(4) { 0 => 0, 1 => r.below(4), 2 => r.below(300), _ => r.next() } }
fn h256(r: &mut Rng) -> H256 { if r.chance(1, 2) { H256::zero() } else { H256::make(r) } }

fn struct_root(fields: &[[u8; 32]], inh: bool) -> [u8; 32] {
    let l: Vec<Option<[u8; 32]>> = fields.iter().map(|h| Some(*h)).collect();
    crate::model::merkle(inh, &l, crate::model::depth_for(l.len() as u64))
}
fn list_root<T>(items: &[T], inh: bool, f: impl Fn(&T) -> [u8; 32]) -> [u8; 32] {
    let l: Vec<Option<[u8; 32]>> = items.iter().map(|x| Some(f(x))).collect();
    crate::model::mix_in(&crate::model::merkle(inh, &l, crate::model::depth_for(l.len() as u64)), items.len() as u64)
}
fn inner_root(v: &Inner, inh: bool) -> [u8; 32] { struct_root(&[v.a.sroot(inh), v.b.sroot(inh), v.c.sroot(inh)], inh) }
fn items_root(v: &Items, inh: bool) -> [u8; 32] { list_root(&v.0, inh, |x| x.sroot(inh)) }
fn root_of(v: &Full, inh: bool) -> [u8; 32] {
    struct_root(&[v.x.sroot(inh), inner_root(&v.inner, inh), items_root(&v.items, inh), list_root(&v.recs.0, inh, |x| inner_root(x, inh)), v.n.sroot(inh),
        list_root(&v.deeps.0, inh, |d| struct_root(&[d.k.sroot(inh), items_root(&d.l, inh)], inh)), v.y.sroot(inh),
        one_root(&v.one, inh), struct_root(&[v.four.a.sroot(inh), v.four.b.sroot(inh), inner_root(&v.four.i, inh), one_root(&v.four.one, inh)], inh), eight_root(&v.eight, inh)], inh)
}
fn one_root(v: &One, inh: bool) -> [u8; 32] { struct_root(&[v.q.sroot(inh)], inh) }
fn eight_root(v: &Eight, inh: bool) -> [u8; 32] {
    struct_root(&[v.a.sroot(inh), v.b.sroot(inh), v.c.sroot(inh), v.d.sroot(inh), v.e.sroot(inh), v.f.sroot(inh), v.g.sroot(inh), v.h.sroot(inh)], inh)
}

impl Le for Inner {
    fn make(r: &mut Rng) -> Self { inner(r) }
    fn sroot(&self, inh: bool) -> [u8; 32] { inner_root(self, inh) }
    fn parse(h: &[u8; 32], n: &mut Nodes) -> P<Self> { Ok(Inner { a: field(h, 0, 3, n)?, b: field(h, 1, 3, n)?, c: field(h, 2, 3, n)? }) }
}
impl Le for One {
    fn make(r: &mut Rng) -> Self { One { q: small(r) as u32 } }
    fn sroot(&self, inh: bool) -> [u8; 32] { one_root(self, inh) }
    fn parse(h: &[u8; 32], n: &mut Nodes) -> P<Self> { Ok(One { q: field(h, 0, 1, n)? }) }
}
impl Le for Deep {
    fn make(r: &mut Rng) -> Self { deep(r) }
    fn sroot(&self, inh: bool) -> [u8; 32] { struct_root(&[self.k.sroot(inh), items_root(&self.l, inh)], inh) }
    fn parse(h: &[u8; 32], n: &mut Nodes) -> P<Self> { Ok(Deep { k: field(h, 0, 2, n)?, l: Items(field(h, 1, 2, n)?) }) }
}
impl Le for Four {
    fn make(r: &mut Rng) -> Self { full(r).four }
    fn sroot(&self, _inh: bool) -> [u8; 32] { unreachable!() }
    fn parse(h: &[u8; 32], n: &mut Nodes) -> P<Self> { Ok(Four { a: field(h, 0, 4, n)?, b: field(h, 1, 4, n)?, i: field(h, 2, 4, n)?, one: field(h, 3, 4, n)? }) }
}
impl Le for Eight {
    fn make(r: &mut Rng) -> Self { full(r).eight }
    fn sroot(&self, inh: bool) -> [u8; 32] { eight_root(self, inh) }
    fn parse(h: &[u8; 32], n: &mut Nodes) -> P<Self> {
        Ok(Eight { a: field(h, 0, 8, n)?, b: field(h, 1, 8, n)?, c: field(h, 2, 8, n)?, d: field(h, 3, 8, n)?, e: field(h, 4, 8, n)?, f: field(h, 5, 8, n)?, g: field(h, 6, 8, n)?, h: field(h, 7, 8, n)? })
    }
}
impl Le for Full {
    fn make(r: &mut Rng) -> Self { full(r) }
    fn sroot(&self, inh: bool) -> [u8; 32] { root_of(self, inh) }
    fn parse(h: &[u8; 32], n: &mut Nodes) -> P<Self> {
        Ok(Full { x: field(h, 0, 10, n)?, inner: field(h, 1, 10, n)?, items: Items(field(h, 2, 10, n)?), recs: Recs(field(h, 3, 10, n)?), n: field(h, 4, 10, n)?, deeps: Deeps(field(h, 5, 10, n)?),
            y: field(h, 6, 10, n)?, one: field(h, 7, 10, n)?, four: field(h, 8, 10, n)?, eight: field(h, 9, 10, n)? })
    }
}

// ---- where things are in it -----------------------------------------------------------------------------------------

/// A basic field: which one, and the positions in lists on the way.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Path { X, A, B, C, Item(usize), RecA(usize), RecB(usize), RecC(usize), N, K(usize), L(usize, usize), Y, Q, FA, FB, FC, FQ, EA, EE, EG, EH }
/// A list that can be pushed to.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum ListP { Items, Recs, Deeps, L(usize) }
/// Any basic value, widened.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val { U(u128), W(U256), H(H256) }
#[derive(Clone, PartialEq, Debug)]
pub enum Pushed { U(u64), Rec(Inner), Deep(Deep) }

fn in_range(v: &Full, p: Path) -> bool {
    match p {
        Path::Item(i) => i < v.items.0.len(), Path::RecA(i) | Path::RecB(i) | Path::RecC(i) => i < v.recs.0.len(),
        Path::K(i) => i < v.deeps.0.len(), Path::L(i, j) => v.deeps.0.get(i).map(|d| j < d.l.0.len()).unwrap_or(false), _ => true,
    }
}
fn read(v: &Full, p: Path) -> Option<Val> {
    if !in_range(v, p) { return None; }
    Some(match p {
        Path::X => Val::U(v.x as u128), Path::A => Val::U(v.inner.a as u128), Path::B => Val::U(v.inner.b as u128), Path::C => Val::H(v.inner.c),
        Path::Item(i) => Val::U(v.items.0[i] as u128), Path::RecA(i) => Val::U(v.recs.0[i].a as u128), Path::RecB(i) => Val::U(v.recs.0[i].b as u128), Path::RecC(i) => Val::H(v.recs.0[i].c),
        Path::N => Val::W(v.n), Path::K(i) => Val::U(v.deeps.0[i].k as u128), Path::L(i, j) => Val::U(v.deeps.0[i].l.0[j] as u128), Path::Y => Val::U(v.y),
        Path::Q => Val::U(v.one.q as u128), Path::FA => Val::U(v.four.a as u128), Path::FB => Val::U(v.four.b as u128), Path::FC => Val::H(v.four.i.c), Path::FQ => Val::U(v.four.one.q as u128),
        Path::EA => Val::U(v.eight.a as u128), Path::EE => Val::U(v.eight.e as u128), Path::EG => Val::U(v.eight.g as u128), Path::EH => Val::U(v.eight.h as u128),
    })
}
fn write(v: &mut Full, p: Path, x: Val) {
    let u = match x { Val::U(u) => u, _ => 0 };
    match (p, x) {
        (Path::X, _) => v.x = u as u8, (Path::A, _) => v.inner.a = u as u64, (Path::B, _) => v.inner.b = u as u16, (Path::C, Val::H(h)) => v.inner.c = h,
        (Path::Item(i), _) => v.items.0[i] = u as u64, (Path::RecA(i), _) => v.recs.0[i].a = u as u64, (Path::RecB(i), _) => v.recs.0[i].b = u as u16, (Path::RecC(i), Val::H(h)) => v.recs.0[i].c = h,
        (Path::N, Val::W(w)) => v.n = w, (Path::K(i), _) => v.deeps.0[i].k = u as u32, (Path::L(i, j), _) => v.deeps.0[i].l.0[j] = u as u64, (Path::Y, _) => v.y = u,
        (Path::Q, _) => v.one.q = u as u32, (Path::FA, _) => v.four.a = u as u16, (Path::FB, _) => v.four.b = u as u64, (Path::FC, Val::H(h)) => v.four.i.c = h, (Path::FQ, _) => v.four.one.q = u as u32,
        (Path::EA, _) => v.eight.a = u as u16, (Path::EE, _) => v.eight.e = u as u64, (Path::EG, _) => v.eight.g = u as u32, (Path::EH, _) => v.eight.h = u as u16,
        _ => unreachable!(),
    }
}
fn list_len(v: &Full, l: ListP) -> Option<usize> {
    match l { ListP::Items => Some(v.items.0.len()), ListP::Recs => Some(v.recs.0.len()), ListP::Deeps => Some(v.deeps.0.len()), ListP::L(i) => v.deeps.0.get(i).map(|d| d.l.0.len()) }
}
fn list_items(v: &Full, l: ListP) -> Vec<Pushed> {
    match l {
        ListP::Items => v.items.0.iter().map(|x| Pushed::U(*x)).collect(), ListP::Recs => v.recs.0.iter().cloned().map(Pushed::Rec).collect(),
        ListP::Deeps => v.deeps.0.iter().cloned().map(Pushed::Deep).collect(), ListP::L(i) => v.deeps.0[i].l.0.iter().map(|x| Pushed::U(*x)).collect(),
    }
}
fn list_push(v: &mut Full, l: ListP, x: &Pushed) {
    match (l, x) {
        (ListP::Items, Pushed::U(u)) => v.items.0.push(*u), (ListP::Recs, Pushed::Rec(r)) => v.recs.0.push(r.clone()),
        (ListP::Deeps, Pushed::Deep(d)) => v.deeps.0.push(d.clone()), (ListP::L(i), Pushed::U(u)) => v.deeps.0[i].l.0.push(*u), _ => unreachable!(),
    }
}
fn list_cut(v: &mut Full, l: ListP, n: usize) {
    match l { ListP::Items => v.items.0.truncate(n), ListP::Recs => v.recs.0.truncate(n), ListP::Deeps => v.deeps.0.truncate(n), ListP::L(i) => v.deeps.0[i].l.0.truncate(n) }
}
pub fn make_val(p: Path, r: &mut Rng) -> Val {
    match p {
        Path::C | Path::RecC(_) | Path::FC => Val::H(h256(r)), Path::N => Val::W(U256::make(r)), Path::Y => Val::U(u128::make(r)),
        Path::X => Val::U(small(r) as u8 as u128), Path::B | Path::RecB(_) | Path::FA | Path::EA | Path::EH => Val::U(small(r) as u16 as u128), Path::K(_) | Path::Q | Path::FQ | Path::EG => Val::U(small(r) as u32 as u128), _ => Val::U(small(r) as u128),
    }
}

// ---- the view, by path ------------------------------------------------------------------------------------------------

pub type View = <Full as Partialable>::Value;

fn u<C: Cons, R: RootStatus, T: FromTree + Copy>(p: &mut PartialValue<T>, raw: &Raw<R, C>, db: &mut SimStore<C>) -> Res<T> { Ok(*p.get(raw, db)?) }
fn f<C: Cons, R: RootStatus, T: FromTree + Copy>(p: &mut PartialValue<T>, raw: &Raw<R, C>, db: &mut SimStore<C>) -> Res<T> { p.fetch(raw, db)?; Ok(*p.get(raw, db)?) }

macro_rules! by_path { ($v:expr, $p:expr, $x:ident => $u8:expr, $u16:expr, $u32:expr, $u64:expr, $u128:expr, $w:expr, $h:expr) => {
    match $p {
        Path::X => { let $x = &mut $v.x; $u8 }
        Path::A => { let $x = &mut $v.inner.a; $u64 }
        Path::B => { let $x = &mut $v.inner.b; $u16 }
        Path::C => { let $x = &mut $v.inner.c; $h }
        Path::Item(i) => { let $x = $v.items.at(i); $u64 }
        Path::RecA(i) => { let $x = &mut $v.recs.at(i).a; $u64 }
        Path::RecB(i) => { let $x = &mut $v.recs.at(i).b; $u16 }
        Path::RecC(i) => { let $x = &mut $v.recs.at(i).c; $h }
        Path::N => { let $x = &mut $v.n; $w }
        Path::K(i) => { let $x = &mut $v.deeps.at(i).k; $u32 }
        Path::L(i, j) => { let $x = $v.deeps.at(i).l.at(j); $u64 }
        Path::Y => { let $x = &mut $v.y; $u128 }
        Path::Q => { let $x = &mut $v.one.q; $u32 }
        Path::FA => { let $x = &mut $v.four.a; $u16 }
        Path::FB => { let $x = &mut $v.four.b; $u64 }
        Path::FC => { let $x = &mut $v.four.i.c; $h }
        Path::FQ => { let $x = &mut $v.four.one.q; $u32 }
        Path::EA => { let $x = &mut $v.eight.a; $u16 }
        Path::EE => { let $x = &mut $v.eight.e; $u64 }
        Path::EG => { let $x = &mut $v.eight.g; $u32 }
        Path::EH => { let $x = &mut $v.eight.h; $u16 }
    }
} }

pub fn view_get<C: Cons, R: RootStatus>(v: &mut View, p: Path, raw: &Raw<R, C>, db: &mut SimStore<C>, fetch: bool) -> Res<Val> {
    if fetch {
        return Ok(by_path!(v, p, x => Val::U(f(x, raw, db)? as u128), Val::U(f(x, raw, db)? as u128), Val::U(f(x, raw, db)? as u128), Val::U(f(x, raw, db)? as u128), Val::U(f(x, raw, db)?), Val::W(f(x, raw, db)?), Val::H(f(x, raw, db)?)));
    }
    Ok(by_path!(v, p, x => Val::U(u(x, raw, db)? as u128), Val::U(u(x, raw, db)? as u128), Val::U(u(x, raw, db)? as u128), Val::U(u(x, raw, db)? as u128), Val::U(u(x, raw, db)?), Val::W(u(x, raw, db)?), Val::H(u(x, raw, db)?)))
}
pub fn view_set(v: &mut View, p: Path, val: Val) {
    let n = match val { Val::U(n) => n, _ => 0 };
    by_path!(v, p, x => x.set(n as u8), x.set(n as u16), x.set(n as u32), x.set(n as u64), x.set(n), if let Val::W(w) = val { x.set(w) }, if let Val::H(h) = val { x.set(h) })
}
pub fn view_push(v: &mut View, l: ListP, x: Pushed) {
    match (l, x) {
        (ListP::Items, Pushed::U(n)) => v.items.push(n), (ListP::Recs, Pushed::Rec(r)) => v.recs.push(r), (ListP::Deeps, Pushed::Deep(d)) => v.deeps.push(d),
        (ListP::L(i), Pushed::U(n)) => v.deeps.at(i).l.push(n), _ => unreachable!(),
    }
}

/// The same place, addressed by hand.
pub fn index_of(p: Path) -> PartialIndex {
    let top = |i| PartialIndex::root().vector(i, 10);
    match p {
        Path::X => top(0), Path::A => top(1).vector(0, 3), Path::B => top(1).vector(1, 3), Path::C => top(1).raw(Index::from_one(6).unwrap()),
        Path::Item(i) => top(2).list(i), Path::RecA(i) => top(3).list(i).vector(0, 3), Path::RecB(i) => top(3).list(i).raw(Index::from_one(5).unwrap()), Path::RecC(i) => top(3).list(i).vector(2, 3),
        Path::N => PartialIndex::root().raw(Index::from_one(20).unwrap()), Path::K(i) => top(5).list(i).vector(0, 2), Path::L(i, j) => top(5).list(i).vector(1, 2).list(j), Path::Y => top(6),
        // a struct of one field is that field
        Path::Q => top(7), Path::FA => top(8).vector(0, 4), Path::FB => top(8).vector(1, 4), Path::FC => top(8).vector(2, 4).vector(2, 3), Path::FQ => top(8).raw(Index::from_one(7).unwrap()).vector(0, 1),
        Path::EA => top(9).vector(0, 8), Path::EE => top(9).vector(4, 8), Path::EG => top(9).raw(Index::from_one(14).unwrap()), Path::EH => PartialIndex::root().raw(Index::from_one(25 * 8 + 7).unwrap()),
    }
}
/// A step on the way to a place: a field, or an element of a list.
#[derive(Clone, Copy)]
pub enum Hop { Field(u64, u64), Elem(u64) }
pub fn hops_of(p: Path) -> Vec<Hop> {
    use Hop::*;
    let l = |i: usize| Elem(i as u64);
    match p {
        Path::X => vec![Field(0, 10)], Path::A => vec![Field(1, 10), Field(0, 3)], Path::B => vec![Field(1, 10), Field(1, 3)], Path::C => vec![Field(1, 10), Field(2, 3)],
        Path::Item(i) => vec![Field(2, 10), l(i)], Path::RecA(i) => vec![Field(3, 10), l(i), Field(0, 3)], Path::RecB(i) => vec![Field(3, 10), l(i), Field(1, 3)], Path::RecC(i) => vec![Field(3, 10), l(i), Field(2, 3)],
        Path::N => vec![Field(4, 10)], Path::K(i) => vec![Field(5, 10), l(i), Field(0, 2)], Path::L(i, j) => vec![Field(5, 10), l(i), Field(1, 2), l(j)], Path::Y => vec![Field(6, 10)], Path::Q => vec![Field(7, 10)],
        Path::FA => vec![Field(8, 10), Field(0, 4)], Path::FB => vec![Field(8, 10), Field(1, 4)], Path::FC => vec![Field(8, 10), Field(2, 4), Field(2, 3)], Path::FQ => vec![Field(8, 10), Field(3, 4)],
        Path::EA => vec![Field(9, 10), Field(0, 8)], Path::EE => vec![Field(9, 10), Field(4, 8)], Path::EG => vec![Field(9, 10), Field(6, 8)], Path::EH => vec![Field(9, 10), Field(7, 8)],
    }
}
/// The list itself.
pub fn hops_of_list(l: ListP) -> Vec<Hop> {
    use Hop::*;
    match l { ListP::Items => vec![Field(2, 10)], ListP::Recs => vec![Field(3, 10)], ListP::Deeps => vec![Field(5, 10)], ListP::L(i) => vec![Field(5, 10), Elem(i as u64), Field(1, 2)] }
}
/// The value of a place in a tree that nobody vouches for.
pub fn parse_at(p: Path, h: &[u8; 32], n: &mut Nodes) -> P<Val> {
    Ok(match p {
        Path::X => Val::U(u8::parse(h, n)? as u128), Path::B | Path::RecB(_) | Path::FA | Path::EA | Path::EH => Val::U(u16::parse(h, n)? as u128),
        Path::K(_) | Path::Q | Path::FQ | Path::EG => Val::U(u32::parse(h, n)? as u128), Path::Y => Val::U(u128::parse(h, n)?), Path::N => Val::W(U256::parse(h, n)?),
        Path::C | Path::RecC(_) | Path::FC => Val::H(H256::parse(h, n)?), _ => Val::U(u64::parse(h, n)? as u128),
    })
}
/// Any place, present or not.
pub fn any_path(a: u64, i: usize, j: usize) -> Path {
    match a % 21 {
        0 => Path::X, 1 => Path::A, 2 => Path::B, 3 => Path::C, 4 => Path::Item(i), 5 => Path::RecA(i), 6 => Path::RecB(i), 7 => Path::RecC(i), 8 => Path::N, 9 => Path::K(i), 10 => Path::L(i, j),
        11 => Path::Y, 12 => Path::Q, 13 => Path::FA, 14 => Path::FB, 15 => Path::FC, 16 => Path::FQ, 17 => Path::EA, 18 => Path::EE, 19 => Path::EG, _ => Path::EH,
    }
}
pub fn any_list(a: u64, i: usize) -> ListP { match a % 4 { 0 => ListP::Items, 1 => ListP::Recs, 2 => ListP::Deeps, _ => ListP::L(i) } }
pub fn any_push(l: ListP, r: &mut Rng) -> Pushed {
    match l { ListP::Items | ListP::L(_) => Pushed::U(small(r)), ListP::Recs => Pushed::Rec(inner(r)), ListP::Deeps => Pushed::Deep(deep(r)) }
}

fn lone<T: FromTree + IntoTree + Copy, C: Cons, R: RootStatus>(ix: PartialIndex, set: Option<T>, raw: &mut Raw<R, C>, db: &mut SimStore<C>) -> Res<T> {
    let mut p = PartialValue::<T>::new(ix);
    match set {
        None => Ok(*p.get(raw, db)?),
        Some(x) => {
            p.set(x);
            // keep trying: the store recovers
            let r = p.flush(raw, db);
            if injected(&r) { p.flush(raw, db)?; } else { r?; }
            Ok(*p.get(raw, db)?)
        }
    }
}
fn lone_push<T: Partialable + IntoTree, C: Cons, R: RootStatus>(ix: PartialIndex, vs: Vec<T>, raw: &mut Raw<R, C>, db: &mut SimStore<C>) -> Res<()> {
    let mut p = PartialVec::<T>::new(ix);
    for v in vs { p.push(v); }
    let r = p.flush(raw, db);
    db.ctl.borrow_mut().disarm();
    if injected(&r) { p.flush(raw, db)?; } else { r?; }
    // pushed once, and once only
    p.flush(raw, db)
}
fn lone_any<C: Cons, R: RootStatus>(p: Path, set: Option<Val>, raw: &mut Raw<R, C>, db: &mut SimStore<C>) -> Res<Val> {
    let ix = index_of(p);
    let n = set.map(|v| match v { Val::U(n) => n, _ => 0 });
    Ok(match p {
        Path::X => Val::U(lone(ix, n.map(|n| n as u8), raw, db)? as u128),
        Path::B | Path::RecB(_) | Path::FA | Path::EA | Path::EH => Val::U(lone(ix, n.map(|n| n as u16), raw, db)? as u128),
        Path::K(_) | Path::Q | Path::FQ | Path::EG => Val::U(lone(ix, n.map(|n| n as u32), raw, db)? as u128),
        Path::A | Path::RecA(_) | Path::Item(_) | Path::L(..) | Path::FB | Path::EE => Val::U(lone(ix, n.map(|n| n as u64), raw, db)? as u128),
        Path::Y => Val::U(lone(ix, n, raw, db)?),
        Path::N => Val::W(lone(ix, set.map(|v| match v { Val::W(w) => w, _ => U256::zero() }), raw, db)?),
        Path::C | Path::RecC(_) | Path::FC => Val::H(lone(ix, set.map(|v| match v { Val::H(h) => h, _ => H256::zero() }), raw, db)?),
    })
}

// ---- the world ---------------------------------------------------------------------------------------------------------

const SET: u8 = 0; const GET: u8 = 1; const PUSH: u8 = 2; const FLUSH: u8 = 3; const PAST: u8 = 4; const PASTSET: u8 = 5; const CHECK: u8 = 6; const FRESH: u8 = 7;
const OTHER: u8 = 8; const OTHERDROP: u8 = 9; const LONE: u8 = 10; const FETCH: u8 = 11; const LONEPUSH: u8 = 12;
const NAMES: [&str; 13] = ["set field", "get field", "push to list", "flush", "get past end", "set past end", "check all", "new view", "write other value", "drop other value", "field by index", "fetch field", "push by index"];
const VIEWS: usize = 3;

struct Client {
    view: View,
    sets: BTreeMap<Path, Val>,
    pushes: BTreeMap<ListP, Vec<Pushed>>,
    /// Lengths of lists before the first failed flush.
    base: BTreeMap<ListP, usize>,
    torn: bool,
    /// Values seen in this view: reading them again may give what was seen.
    seen: BTreeMap<Path, Val>,
}
impl Client { fn new() -> Self { Client { view: View::new(PartialIndex::root()), sets: BTreeMap::new(), pushes: BTreeMap::new(), base: BTreeMap::new(), torn: false, seen: BTreeMap::new() } } }

struct World<C: Cons, R: RootStatus> { store: SimStore<C>, raw: Raw<R, C>, model: Full, clients: Vec<Client>, others: Vec<Option<Raw<Owned, C>>>, cx: Ctx }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    match (plan.cfg(0), plan.cfg(1)) {
        (0, 0) => World::<Inh, Owned>::run(plan, verbose), (0, _) => World::<Inh, Dangling>::run(plan, verbose),
        (_, 0) => World::<Unit, Owned>::run(plan, verbose), (_, _) => World::<Unit, Dangling>::run(plan, verbose),
    }
}

impl<C: Cons, R: RootStatus> World<C, R> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        let model = full(&mut Rng::new(plan.cfg(2)));
        let mut w = World::<C, R> { store, raw: Raw::default(), model, clients: (0..VIEWS).map(|_| Client::new()).collect(), others: (0..3).map(|_| None).collect(), cx: Ctx::new(&[Class::Partial, Class::Panic], verbose) };
        let mut flow = w.begin();
        if flow.is_ok() {
            for (i, s) in plan.steps.iter().enumerate() {
                w.cx.step = i;
                w.cx.stats.steps += 1;
                flow = w.step(s);
                if flow.is_err() { break; }
                let h = mix(v8(&w.raw.root()) ^ ((w.store.size() as u64) << 3) ^ w.clients.iter().map(|c| c.sets.len() + 8 * c.pushes.len() + 64 * c.torn as usize).fold(0, |a, b| a * 977 + b as u64));
                w.cx.note(h);
                w.cx.stats.states.insert(h);
            }
        }
        if flow.is_ok() {
            w.cx.step = plan.steps.len();
            for i in 0..VIEWS { if flow.is_ok() { flow = w.flush(i, Fault::NONE, 0); } }
            if flow.is_ok() { flow = w.check(true); }
        }
        w.cx.stats.max_store = w.store.size();
        w.cx.stats.take_ctl(&ctl);
        let t = mix(ctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn begin(&mut self) -> Flow {
        let root = match self.model.into_tree(&mut self.store) { Ok(r) => r, Err(e) => return self.cx.bad(Class::Ssz, format!("writing the value gives {:?}", e)) };
        if let Err(e) = self.raw.set(&mut self.store, Index::root(), root) { return self.cx.bad(Class::Raw, format!("registering the value gives {:?}", e)); }
        Ok(())
    }

    /// The tree is the model's, entirely.
    fn check(&mut self, decode: bool) -> Flow {
        let want = root_of(&self.model, C::INHERITED);
        if vh(&self.raw.root()) != want { return self.cx.bad(Class::Partial, format!("the tree has root {} but the value with the changes made has {}", hx(self.raw.root().as_ref()), hx(&want))); }
        if !decode { return Ok(()); }
        match Full::from_tree(&self.raw.root(), &mut self.store) {
            Ok(x) if x == self.model => Ok(()),
            Ok(x) => self.cx.bad(Class::Partial, format!("the tree holds {:?} instead of {:?}", x, self.model)),
            Err(e) => self.cx.bad(Class::Partial, format!("the tree cannot be decoded: {:?}", e)),
        }
    }

    fn len_for(&self, kind: u64) -> usize { match kind { 0 => self.model.items.0.len(), 1 => self.model.recs.0.len(), _ => self.model.deeps.0.len() } }

    /// A path that exists now.
    fn pick_path(&self, a: u64, b: u64) -> Option<Path> {
        let (i, j) = ((b & 0xffff) as usize, (b >> 16 & 0xffff) as usize);
        let m = |n: usize, i: usize| if n == 0 { None } else { Some(i % n) };
        Some(match a % 21 {
            0 => Path::X, 1 => Path::A, 2 => Path::B, 3 => Path::C, 4 => Path::Item(m(self.len_for(0), i)?), 5 => Path::RecA(m(self.len_for(1), i)?), 6 => Path::RecB(m(self.len_for(1), i)?),
            7 => Path::RecC(m(self.len_for(1), i)?), 8 => Path::N, 9 => Path::K(m(self.len_for(2), i)?), 10 => { let i = m(self.len_for(2), i)?; Path::L(i, m(self.model.deeps.0[i].l.0.len(), j)?) }
            11 => Path::Q, 12 => Path::FA, 13 => Path::FB, 14 => Path::FC, 15 => Path::FQ, 16 => Path::EA, 17 => Path::EE, 18 => Path::EG, 19 => Path::EH, _ => Path::Y,
        })
    }
    /// A path past the end of a list.
    fn pick_past(&self, a: u64, b: u64) -> Path {
        // just past the end, a little further, far away
        let over = match b % 4 { 0 | 1 => 0, 2 => (b >> 8 & 15) as usize, _ => 1 << (b >> 8 & 31) };
        let (n, k) = (self.len_for(a % 3), (b >> 24) as usize);
        match a % 8 {
            0 | 3 => Path::Item(self.len_for(0) + over), 1 => Path::RecA(self.len_for(1) + over), 4 => Path::RecC(self.len_for(1) + over), 2 => Path::K(n + over),
            5 => Path::L(self.len_for(2) + over, 0),
            _ => if self.len_for(2) == 0 { Path::K(over) } else { let i = k % self.len_for(2); Path::L(i, self.model.deeps.0[i].l.0.len() + over) },
        }
    }
    fn pick_list(&self, a: u64, b: u64) -> Option<ListP> {
        Some(match a % 4 { 0 => ListP::Items, 1 => ListP::Recs, 2 => ListP::Deeps, _ => { let n = self.len_for(2); if n == 0 { return None; } ListP::L(b as usize % n) } })
    }

    /// Would this change meet a half-flushed one of another view?
    fn blocked(&self, me: usize, p: Option<Path>, l: Option<ListP>) -> bool {
        self.clients.iter().enumerate().any(|(i, c)| i != me && c.torn && (p.map(|p| c.sets.contains_key(&p)).unwrap_or(false) || l.map(|l| c.pushes.contains_key(&l)).unwrap_or(false)
            || Self::moving(c, p, l)))
    }
    /// Is it about an element that a half-flushed push may have added already, or not?
    fn moving(c: &Client, p: Option<Path>, l: Option<ListP>) -> bool {
        c.torn && (p.map(|p| c.pushes.keys().any(|l| match (l, p) {
            (ListP::Items, Path::Item(_)) | (ListP::Recs, Path::RecA(_) | Path::RecB(_) | Path::RecC(_)) | (ListP::Deeps, Path::K(_) | Path::L(..)) => true,
            (ListP::L(i), Path::L(j, _)) => *i == j,
            _ => false,
        })).unwrap_or(false) || matches!(l, Some(ListP::L(_))) && c.pushes.contains_key(&ListP::Deeps))
    }

    fn flush(&mut self, i: usize, fault: Fault, c: u64) -> Flow {
        {
            let me = &self.clients[i];
            if me.sets.keys().any(|p| self.blocked(i, Some(*p), None)) || me.pushes.keys().any(|l| self.blocked(i, None, Some(*l))) { return Ok(()); }
        }
        let mut fault = fault;
        let mut tries = 0;
        loop {
            let before = self.model.clone();
            let root = self.raw.root();
            self.store.ctl.borrow_mut().arm(fault);
            let r = self.clients[i].view.flush(&mut self.raw, &mut self.store);
            let fired = self.store.ctl.borrow_mut().disarm();
            let me = &mut self.clients[i];
            self.cx.say(|| format!("view {} flush ({} set, {} lists pushed to) -> {:?}{}", i, me.sets.len(), me.pushes.len(), r, if fired > 0 { " [fault]" } else { "" }));
            let base: BTreeMap<ListP, usize> = me.pushes.keys().map(|l| (*l, *me.base.get(l).unwrap_or(&list_len(&before, *l).unwrap_or(0)))).collect();
            let mut after = before.clone();
            for (p, v) in &me.sets { write(&mut after, *p, *v); }
            for (l, vs) in &me.pushes { list_cut(&mut after, *l, base[l]); for v in vs { list_push(&mut after, *l, v); } }
            match r {
                Ok(()) if fired > 0 => return self.cx.bad(Class::Partial, format!("view {}: flush succeeds although the store failed", i)),
                Ok(()) => {
                    if me.sets.is_empty() && me.pushes.is_empty() && self.raw.root() != root { return self.cx.bad(Class::Partial, format!("view {}: a flush of nothing changed the root", i)); }
                    self.model = after;
                    me.sets.clear();
                    me.pushes.clear();
                    me.base.clear();
                    me.seen.clear();
                    if me.torn { self.cx.stats.probe("failed flush completed"); }
                    me.torn = false;
                    return self.check((c >> 40) % 4 == 0);
                }
                Err(_) if fired > 0 && injected(&r) => {
                    self.cx.stats.probe("flush failed");
                    me.base = base;
                    me.torn = true;
                    // some of the changes are there, the others are not, and nothing else changed
                    let now = match Full::from_tree(&self.raw.root(), &mut self.store) { Ok(x) => x, Err(e) => return self.cx.bad(Class::Partial, format!("view {}: after a failed flush the value cannot be decoded: {:?}", i, e)) };
                    if vh(&self.raw.root()) != root_of(&now, C::INHERITED) { return self.cx.bad(Class::Partial, format!("view {}: after a failed flush the tree does not have the root of what it holds", i)); }
                    let mut mixed = before.clone();
                    for l in me.pushes.keys() {
                        let n = list_len(&now, *l).unwrap_or(0).max(list_len(&before, *l).unwrap_or(0));
                        if let (Some(_), Some(_)) = (list_len(&mixed, *l), list_len(&now, *l)) { list_cut(&mut mixed, *l, n.min(list_len(&before, *l).unwrap_or(0))); for x in list_items(&after, *l).into_iter().skip(list_len(&mixed, *l).unwrap_or(0)).take(n.saturating_sub(list_len(&mixed, *l).unwrap_or(0))) { list_push(&mut mixed, *l, &x); } }
                    }
                    for (p, v) in &me.sets { if read(&now, *p) == Some(*v) { write(&mut mixed, *p, *v); } }
                    if mixed != now { return self.cx.bad(Class::Partial, format!("view {}: after a failed flush the tree holds {:?}, which is not {:?} with some of the changes", i, now, before)); }
                    if now != before && now != after { self.cx.stats.probe("flush stopped half way"); }
                    self.model = now;
                    tries += 1;
                    if (c >> 8) % 3 == 0 { return Ok(()); }
                    fault = if tries <= (c >> 4) % 4 { Fault { kind: fault.kind, at: ((c >> (16 + tries)) % 64) as u32, len: fault.len } } else { Fault::NONE };
                }
                r => return self.cx.bad(Class::Partial, format!("view {}: flush gives {:?}", i, r)),
            }
        }
    }

    fn get(&mut self, i: usize, p: Path, fault: Fault, fetch: bool) -> Flow {
        let me = &mut self.clients[i];
        if fetch && me.sets.contains_key(&p) { return Ok(()); }
        self.store.ctl.borrow_mut().arm(fault);
        let mut r = view_get(&mut me.view, p, &self.raw, &mut self.store, fetch);
        if self.store.ctl.borrow_mut().disarm() > 0 {
            if !injected(&r) { return self.cx.bad(Class::Partial, format!("view {}: reading {:?} from a failing store gives {:?}", i, p, r)); }
            self.cx.stats.probe("read failed");
            r = view_get(&mut me.view, p, &self.raw, &mut self.store, fetch);
        }
        self.cx.say(|| format!("view {} {} {:?} -> {:?}", i, if fetch { "fetch" } else { "get" }, p, r));
        let now = read(&self.model, p);
        let mut allowed: Vec<Val> = match me.sets.get(&p) { Some(v) => vec![*v], None => now.into_iter().chain(if fetch { None } else { me.seen.get(&p).copied() }).collect() };
        allowed.dedup();
        match r {
            Ok(v) if allowed.contains(&v) => { if !me.sets.contains_key(&p) { me.seen.insert(p, v); } Ok(()) }
            r => self.cx.bad(Class::Partial, format!("view {}: reading {:?} gives {:?} instead of {:?}", i, p, r, allowed)),
        }
    }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % VIEWS;
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        match st.op {
            SET => {
                let Some(p) = self.pick_path(st.a, st.b) else { return Ok(()) };
                if self.blocked(i, Some(p), None) || Self::moving(&self.clients[i], Some(p), None) { return Ok(()); }
                let v = make_val(p, &mut Rng::new(st.c));
                self.cx.say(|| format!("view {} set {:?} to {:?}", i, p, v));
                let me = &mut self.clients[i];
                view_set(&mut me.view, p, v);
                me.sets.insert(p, v);
                me.seen.remove(&p);
                Ok(())
            }
            PUSH => {
                let Some(l) = self.pick_list(st.a, st.b) else { return Ok(()) };
                if self.blocked(i, None, Some(l)) || Self::moving(&self.clients[i], None, Some(l)) { return Ok(()); }
                for j in 0..(st.c >> 60) % 3 + 1 {
                    let mut r = Rng::new(st.c.wrapping_add(j));
                    let v = match l { ListP::Items | ListP::L(_) => Pushed::U(small(&mut r)), ListP::Recs => Pushed::Rec(inner(&mut r)), ListP::Deeps => Pushed::Deep(deep(&mut r)) };
                    self.cx.say(|| format!("view {} push {:?} to {:?}", i, v, l));
                    let me = &mut self.clients[i];
                    view_push(&mut me.view, l, v.clone());
                    me.pushes.entry(l).or_default().push(v);
                }
                Ok(())
            }
            GET => { let Some(p) = self.pick_path(st.a, st.b) else { return Ok(()) }; self.get(i, p, st.fault, false) }
            FETCH => { let Some(p) = self.pick_path(st.a, st.b) else { return Ok(()) }; self.get(i, p, st.fault, true) }
            FLUSH => self.flush(i, st.fault, st.c),
            PAST => {
                let p = self.pick_past(st.a, st.b);
                if in_range(&self.model, p) { return Ok(()); }
                let me = &mut self.clients[i];
                self.store.ctl.borrow_mut().arm(st.fault);
                let mut r = view_get(&mut me.view, p, &self.raw, &mut self.store, st.c & 1 == 1);
                let fired = self.store.ctl.borrow_mut().disarm();
                if fired > 0 && injected(&r) { r = view_get(&mut me.view, p, &self.raw, &mut self.store, st.c & 1 == 1); }
                if r != Err(Error::AccessOverflowed) { return self.cx.bad(Class::Partial, format!("view {}: reading {:?} past the end gives {:?}", i, p, r)); }
                Ok(())
            }
            PASTSET => {
                // a view of its own: what cannot be written stays pending
                let p = self.pick_past(st.a, st.b);
                if in_range(&self.model, p) { return Ok(()); }
                let mut view = View::new(PartialIndex::root());
                view_set(&mut view, p, make_val(p, &mut Rng::new(st.c)));
                let root = self.raw.root();
                self.store.ctl.borrow_mut().arm(st.fault);
                let mut r = view.flush(&mut self.raw, &mut self.store);
                let fired = self.store.ctl.borrow_mut().disarm();
                if fired > 0 && injected(&r) { r = view.flush(&mut self.raw, &mut self.store); }
                if r != Err(Error::AccessOverflowed) { return self.cx.bad(Class::Partial, format!("writing {:?} past the end gives {:?}", p, r)); }
                if self.raw.root() != root { return self.cx.bad(Class::Partial, format!("writing {:?} past the end is refused but changed the tree", p)); }
                self.check(true)
            }
            CHECK => self.check(true),
            FRESH => {
                // what was pending is given up; what a failed flush had written stays
                if self.clients[i].torn { self.cx.stats.probe("half-flushed view abandoned"); }
                self.clients[i] = Client::new();
                Ok(())
            }
            OTHER => {
                let k = st.a as usize % self.others.len();
                if self.others[k].is_some() { return Ok(()); }
                let mut x = if st.b % 3 == 0 { full(&mut Rng::new(st.c)) } else { self.model.clone() };
                if st.b % 3 == 1 { x.x = x.x.wrapping_add(1); }
                let mut hold = Raw::<Owned, C>::default();
                let r = x.into_tree(&mut self.store).and_then(|root| hold.set(&mut self.store, Index::root(), root));
                if let Err(e) = r { return self.cx.bad(Class::Ssz, format!("writing another value gives {:?}", e)); }
                self.others[k] = Some(hold);
                Ok(())
            }
            OTHERDROP => {
                // a dangling tree is kept alive by nobody
                if !R::is_owned() { return Ok(()); }
                let k = st.a as usize % self.others.len();
                if let Some(h) = self.others[k].take() { if let Err(e) = h.drop(&mut self.store) { return self.cx.bad(Class::Garbage, format!("dropping another value gives {:?}", e)); } }
                Ok(())
            }
            LONE => {
                let Some(p) = self.pick_path(st.a, st.b) else { return Ok(()) };
                let set = if st.c % 2 == 0 && !self.clients.iter().any(|c| c.torn) { Some(make_val(p, &mut Rng::new(st.c))) } else { None };
                let want = set.or(read(&self.model, p));
                self.store.ctl.borrow_mut().arm(st.fault);
                let mut r = lone_any(p, set, &mut self.raw, &mut self.store);
                if self.store.ctl.borrow_mut().disarm() > 0 && injected(&r) { r = lone_any(p, set, &mut self.raw, &mut self.store); }
                if r.clone().ok() != want { return self.cx.bad(Class::Partial, format!("field {:?} by its index gives {:?} instead of {:?}", p, r, want)); }
                if let Some(v) = set { write(&mut self.model, p, v); self.check(false)?; }
                Ok(())
            }
            LONEPUSH => {
                let Some(l) = self.pick_list(st.a, st.b) else { return Ok(()) };
                if self.clients.iter().any(|c| c.torn) { return Ok(()); }
                let ix = match l { ListP::Items => PartialIndex::root().vector(2, 10), ListP::Recs => PartialIndex::root().vector(3, 10), ListP::Deeps => PartialIndex::root().raw(Index::from_one(21).unwrap()), ListP::L(i) => PartialIndex::root().vector(5, 10).list(i).vector(1, 2) };
                let n = st.c % 4 + 1;
                let mut after = self.model.clone();
                let vs: Vec<Pushed> = (0..n).map(|j| { let mut r = Rng::new(st.c.wrapping_add(j)); match l { ListP::Items | ListP::L(_) => Pushed::U(small(&mut r)), ListP::Recs => Pushed::Rec(inner(&mut r)), ListP::Deeps => Pushed::Deep(deep(&mut r)) } }).collect();
                for v in &vs { list_push(&mut after, l, v); }
                self.store.ctl.borrow_mut().arm(st.fault);
                let ctl = self.store.ctl.clone();
                let raw = &mut self.raw;
                let db = &mut self.store;
                let r = match l {
                    ListP::Items | ListP::L(_) => lone_push::<u64, C, R>(ix, vs.iter().map(|v| match v { Pushed::U(u) => *u, _ => unreachable!() }).collect(), raw, db),
                    ListP::Recs => lone_push::<Inner, C, R>(ix, vs.iter().map(|v| match v { Pushed::Rec(u) => u.clone(), _ => unreachable!() }).collect(), raw, db),
                    ListP::Deeps => lone_push::<Deep, C, R>(ix, vs.iter().map(|v| match v { Pushed::Deep(u) => u.clone(), _ => unreachable!() }).collect(), raw, db),
                };
                ctl.borrow_mut().disarm();
                self.cx.say(|| format!("push {} by index to {:?} -> {:?}", n, l, r));
                if r.is_err() { return self.cx.bad(Class::Partial, format!("pushing to {:?} by its index gives {:?} (the store failed at most once)", l, r)); }
                self.model = after;
                self.check(false)
            }
            _ => Ok(()),
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    use FaultKind::*;
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let cfg = vec![r.chance(1, 3) as u64, r.chance(1, 4) as u64, r.next() >> 1];
    //               se ge pu fl pa ps ch fr ot od lo fe lp
    let mut w = [12u64, 6, 6, 5, 1, 1, 1, 1, 1, 2, 2, 3, 1];
    for (j, x) in w.iter_mut().enumerate() { if j != FLUSH as usize && j != 0 && r.chance(1, 6) { *x = 0; } else if r.chance(1, 6) { *x *= 4; } }
    let views = r.range(1, VIEWS as u64);
    let fault_pct = *r.pick(&[0u64, 30, 60]);
    let focus = if r.chance(1, 3) { Some((r.below(21), r.below(4))) } else { Option::None };
    let n = match r.below(8) { 0..=3 => r.range(3, 12), 4..=6 => r.range(12, 30), _ => r.range(30, 60) };
    let mut steps = Vec::new();
    for _ in 0..n {
        let op = r.weighted(&w) as u8;
        let mut s = Step { client: r.below(views) as u8, op, a: if r.chance(2, 3) { r.below(24) % 12 } else { r.below(42) }, b: r.next() >> 1, c: r.next() >> 1, fault: Fault::NONE };
        if let Some((p, l)) = focus { if r.chance(1, 2) { s.a = if op == PUSH { l } else if op == OTHER || op == OTHERDROP { s.a } else { p }; } }
        if r.chance(1, 3) { s.c >>= 4; }
        if r.chance(fault_pct, 100) && matches!(op, FLUSH | GET | FETCH | PAST | PASTSET | LONE | LONEPUSH) {
            s.fault = pick_fault(&mut r, if op == FLUSH || op == LONE || op == LONEPUSH { &[Err, Err, AckLost, Full] } else { &[Err] });
            if op == FLUSH && r.chance(1, 2) { s.fault.at = r.below(200) as u32; }
        }
        steps.push(s);
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps }
}

