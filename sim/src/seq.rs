//! One object-safe face for every sequence type of the library, owned or dangling.

use crate::store::{Cons, Db, SimError, V};
use bm::{Dangling, Error, Index, Leak, LengthMixed, List, Owned, PackedList, PackedVector, Raw, RootStatus, Sequence, Tree, Vector};
use generic_array::{ArrayLength, GenericArray};
use typenum::{U1, U16, U2, U20, U24, U3, U31, U32, U33, U5, U4, U48, U64, U8, U96, U35, U7, U65, U100};

pub type Res<T> = Result<T, Error<SimError>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind { Vector, List, LMix, PVec(u8), PList(u8) }

/// Narrower than, as wide as and wider than a node; with and without items that straddle nodes.
pub const WIDTHS: [u8; 19] = [1, 2, 4, 8, 16, 24, 32, 48, 64, 96, 3, 20, 31, 33, 5, 35, 7, 65, 100];

impl Kind {
    pub fn packed(self) -> bool { matches!(self, Kind::PVec(_) | Kind::PList(_)) }
    /// The length is mixed into the root.
    pub fn mixed(self) -> bool { matches!(self, Kind::List | Kind::LMix | Kind::PList(_)) }
    pub fn width(self) -> usize { match self { Kind::PVec(w) | Kind::PList(w) => w as usize, _ => 32 } }
    pub fn can_create_len(self) -> bool { matches!(self, Kind::Vector | Kind::PVec(_)) }
    /// Can be reopened from nothing but its root hash.
    pub fn from_root(self) -> bool { matches!(self, Kind::List | Kind::LMix) }
    pub fn decode(c: u64) -> Kind {
        match c {
            1 => Kind::List, 2 => Kind::LMix,
            10..=28 => Kind::PVec(WIDTHS[(c - 10) as usize]), 30..=48 => Kind::PList(WIDTHS[(c - 30) as usize]),
            _ => Kind::Vector,
        }
    }
}

/// What a client must remember to reopen a tree.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Meta { Flat(V, usize, Option<u64>), Mixed(V, (V, usize, Option<u64>)) }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum BOp { Push(Vec<u8>), Pop, Set(usize, Vec<u8>) }

pub trait SeqTree<C: Cons> {
    fn len(&self) -> usize;
    fn root(&self) -> V;
    fn meta(&self) -> Meta;
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>>;
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()>;
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()>;
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>>;
    /// Several operations in one `with_mut` (only `LMix`); `fail` makes the closure end in an error.
    fn batch(&mut self, _db: &mut Db<C>, _ops: &[BOp], _fail: bool) -> Res<()> { Ok(()) }
    /// What a vector says about itself: maximum length, room at present, levels.
    fn capacity(&self) -> Option<(Option<u64>, u64, usize)> { None }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()>;
    fn into_root(self: Box<Self>) -> V;
    /// Only lists have this; others just give their root.
    fn deconstruct(self: Box<Self>, _db: &mut Db<C>) -> Res<V> { Ok(self.into_root()) }
}

fn v_of(b: &[u8]) -> V { let mut v = V::default(); v.as_mut().copy_from_slice(b); v }
fn b_of(v: V) -> Vec<u8> { v.as_ref().to_vec() }

impl<R: RootStatus + 'static, C: Cons> SeqTree<C> for Vector<R, C> {
    fn len(&self) -> usize { Sequence::len(self) }
    fn root(&self) -> V { Tree::root(self) }
    fn meta(&self) -> Meta { let (r, l, m) = Leak::metadata(self); Meta::Flat(r, l, m) }
    fn capacity(&self) -> Option<(Option<u64>, u64, usize)> { Some((Vector::max_len(self), self.current_max_len(), self.depth())) }
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { Vector::get(self, db, i).map(b_of) }
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()> { Vector::set(self, db, i, v_of(v)) }
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()> { Vector::push(self, db, v_of(v)) }
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { Ok(Vector::pop(self, db)?.map(b_of)) }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(*self, db) }
    fn into_root(self: Box<Self>) -> V { Tree::into_raw(*self).root() }
}

impl<R: RootStatus + 'static, C: Cons> SeqTree<C> for List<R, C> {
    fn len(&self) -> usize { Sequence::len(self) }
    fn root(&self) -> V { Tree::root(self) }
    fn meta(&self) -> Meta { let (r, i) = Leak::metadata(self); Meta::Mixed(r, i) }
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { List::get(self, db, i).map(b_of) }
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()> { List::set(self, db, i, v_of(v)) }
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()> { List::push(self, db, v_of(v)) }
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { Ok(List::pop(self, db)?.map(b_of)) }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(*self, db) }
    fn into_root(self: Box<Self>) -> V { Tree::into_raw(*self).root() }
    fn deconstruct(self: Box<Self>, db: &mut Db<C>) -> Res<V> { List::deconstruct(*self, db) }
}

pub type LMix<R, C> = LengthMixed<R, C, Vector<Dangling, C>>;
impl<R: RootStatus + 'static, C: Cons> SeqTree<C> for LMix<R, C> {
    fn len(&self) -> usize { Sequence::len(self) }
    fn root(&self) -> V { Tree::root(self) }
    fn meta(&self) -> Meta { let (r, i) = Leak::metadata(self); Meta::Mixed(r, i) }
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { self.with(db, |s, db| s.get(db, i)).map(b_of) }
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()> { let v = v_of(v); self.with_mut(db, |s, db| s.set(db, i, v)) }
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()> { let v = v_of(v); self.with_mut(db, |s, db| s.push(db, v)) }
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { Ok(self.with_mut(db, |s, db| s.pop(db))?.map(b_of)) }
    fn batch(&mut self, db: &mut Db<C>, ops: &[BOp], fail: bool) -> Res<()> {
        self.with_mut(db, |s, db| {
            for op in ops {
                match op {
                    BOp::Push(v) => s.push(db, v_of(v))?,
                    BOp::Pop => { s.pop(db)?; }
                    BOp::Set(i, v) => s.set(db, *i, v_of(v))?,
                }
            }
            if fail { Err(Error::InvalidParameter) } else { Ok(()) }
        })
    }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(*self, db) }
    fn into_root(self: Box<Self>) -> V { Tree::into_raw(*self).root() }
    fn deconstruct(self: Box<Self>, db: &mut Db<C>) -> Res<V> { LengthMixed::deconstruct(*self, db) }
}

pub type Item<W> = GenericArray<u8, W>;
fn item<W: ArrayLength<u8>>(b: &[u8]) -> Item<W> { GenericArray::clone_from_slice(b) }

impl<R: RootStatus + 'static, C: Cons, W: ArrayLength<u8> + 'static> SeqTree<C> for PackedVector<R, C, Item<W>, U32, W> {
    fn len(&self) -> usize { Sequence::len(self) }
    fn root(&self) -> V { Tree::root(self) }
    fn meta(&self) -> Meta { let (r, l, m) = Leak::metadata(self); Meta::Flat(r, l, m) }
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { PackedVector::get(self, db, i).map(|x| x.to_vec()) }
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()> { PackedVector::set(self, db, i, item(v)) }
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()> { PackedVector::push(self, db, item(v)) }
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { Ok(PackedVector::pop(self, db)?.map(|x| x.to_vec())) }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(*self, db) }
    fn into_root(self: Box<Self>) -> V { Tree::into_raw(*self).root() }
}

impl<R: RootStatus + 'static, C: Cons, W: ArrayLength<u8> + 'static> SeqTree<C> for PackedList<R, C, Item<W>, U32, W> {
    fn len(&self) -> usize { Sequence::len(self) }
    fn root(&self) -> V { Tree::root(self) }
    fn meta(&self) -> Meta { let (r, i) = Leak::metadata(self); Meta::Mixed(r, i) }
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { PackedList::get(self, db, i).map(|x| x.to_vec()) }
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()> { PackedList::set(self, db, i, item(v)) }
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()> { PackedList::push(self, db, item(v)) }
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { Ok(PackedList::pop(self, db)?.map(|x| x.to_vec())) }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(*self, db) }
    fn into_root(self: Box<Self>) -> V { Tree::into_raw(*self).root() }
}

/// A packed vector with its length mixed in, which the library can reopen from a root but not create.
impl<C: Cons, W: ArrayLength<u8> + 'static> SeqTree<C> for LengthMixed<Dangling, C, PackedVector<Dangling, C, Item<W>, U32, W>> {
    fn len(&self) -> usize { Sequence::len(self) }
    fn root(&self) -> V { Tree::root(self) }
    fn meta(&self) -> Meta { let (r, i) = Leak::metadata(self); Meta::Mixed(r, i) }
    fn get(&self, db: &mut Db<C>, i: usize) -> Res<Vec<u8>> { self.with(db, |s, db| s.get(db, i)).map(|x| x.to_vec()) }
    fn set(&mut self, db: &mut Db<C>, i: usize, v: &[u8]) -> Res<()> { self.with_mut(db, |s, db| s.set(db, i, item(v))) }
    fn push(&mut self, db: &mut Db<C>, v: &[u8]) -> Res<()> { self.with_mut(db, |s, db| s.push(db, item(v))) }
    fn pop(&mut self, db: &mut Db<C>) -> Res<Option<Vec<u8>>> { Ok(self.with_mut(db, |s, db| s.pop(db))?.map(|x| x.to_vec())) }
    fn drop_tree(self: Box<Self>, db: &mut Db<C>) -> Res<()> { Tree::drop(*self, db) }
    fn into_root(self: Box<Self>) -> V { Tree::into_raw(*self).root() }
}

macro_rules! by_width {
    ($w:expr, $W:ident => $e:expr) => {
        match $w {
            1 => { type $W = U1; $e } 2 => { type $W = U2; $e } 4 => { type $W = U4; $e } 8 => { type $W = U8; $e }
            16 => { type $W = U16; $e } 24 => { type $W = U24; $e } 32 => { type $W = U32; $e } 48 => { type $W = U48; $e }
            64 => { type $W = U64; $e } 3 => { type $W = U3; $e } 5 => { type $W = U5; $e } 20 => { type $W = U20; $e } 31 => { type $W = U31; $e } 33 => { type $W = U33; $e } 35 => { type $W = U35; $e } 7 => { type $W = U7; $e } 65 => { type $W = U65; $e } 100 => { type $W = U100; $e } _ => { type $W = U96; $e }
        }
    };
}

type Boxed<C> = Box<dyn SeqTree<C>>;

pub fn create<C: Cons>(kind: Kind, db: &mut Db<C>, len: usize, max: Option<u64>) -> Res<Boxed<C>> {
    Ok(match kind {
        Kind::Vector => Box::new(Vector::<Owned, C>::create(db, len, max)?),
        Kind::List => Box::new(List::<Owned, C>::create(db, max)?),
        Kind::LMix => Box::new(LMix::<Owned, C>::create(db, |db| Vector::<Owned, C>::create(db, len, max))?),
        Kind::PVec(w) => by_width!(w, W => Box::new(PackedVector::<Owned, C, Item<W>, U32, W>::create(db, len, max)?)),
        Kind::PList(w) => by_width!(w, W => Box::new(PackedList::<Owned, C, Item<W>, U32, W>::create(db, max)?)),
    })
}

/// A list that holds `len` elements from the start: the library has no function for it, but the parts are all there
/// (a vector, and a raw tree with the vector on the left and its length on the right).
pub fn assemble<C: Cons>(kind: Kind, db: &mut Db<C>, len: usize, max: Option<u64>) -> Res<Boxed<C>> {
    let inner = create::<C>(match kind { Kind::PList(w) => Kind::PVec(w), _ => Kind::Vector }, db, len, max)?;
    let mut raw = Raw::<Owned, C>::default();
    raw.set(db, Index::root().left(), inner.root())?;
    raw.set(db, Index::root().right(), V::from(len))?;
    let inner_root = inner.root();
    inner.drop_tree(db)?;
    Ok(from_meta::<C>(kind, true, Meta::Mixed(raw.root(), (inner_root, len, max))))
}

fn from_meta_r<R: RootStatus + 'static, C: Cons>(kind: Kind, m: Meta) -> Boxed<C> {
    match (kind, m) {
        (Kind::Vector, Meta::Flat(r, l, x)) => Box::new(Vector::<R, C>::from_leaked((r, l, x))),
        (Kind::PVec(w), Meta::Flat(r, l, x)) => by_width!(w, W => Box::new(PackedVector::<R, C, Item<W>, U32, W>::from_leaked((r, l, x)))),
        (Kind::List, Meta::Mixed(r, i)) => Box::new(List::<R, C>::from_leaked((r, i))),
        (Kind::LMix, Meta::Mixed(r, i)) => Box::new(LMix::<R, C>::from_leaked((r, i))),
        (Kind::PList(w), Meta::Mixed(r, i)) => by_width!(w, W => Box::new(PackedList::<R, C, Item<W>, U32, W>::from_leaked((r, i)))),
        _ => unreachable!("metadata of another kind"),
    }
}
pub fn from_meta<C: Cons>(kind: Kind, owned: bool, m: Meta) -> Boxed<C> {
    if owned { from_meta_r::<Owned, C>(kind, m) } else { from_meta_r::<Dangling, C>(kind, m) }
}

fn from_root_r<R: RootStatus + 'static, C: Cons>(kind: Kind, root: V, db: &mut Db<C>, max: Option<u64>) -> Res<Boxed<C>> {
    Ok(match kind {
        Kind::List => Box::new(List::<R, C>::reconstruct(root, db, max)?),
        _ => Box::new(LMix::<R, C>::reconstruct(root, db, |raw, _db, len| Ok(Vector::<Dangling, C>::from_raw(raw, len, max)))?),
    })
}
/// Reopen a list from its root hash.
pub fn from_root<C: Cons>(kind: Kind, owned: bool, root: V, db: &mut Db<C>, max: Option<u64>) -> Res<Boxed<C>> {
    if owned { from_root_r::<Owned, C>(kind, root, db, max) } else { from_root_r::<Dangling, C>(kind, root, db, max) }
}

fn from_raw_r<R: RootStatus + 'static, C: Cons>(kind: Kind, root: V, len: usize, max: Option<u64>, convert: bool) -> Boxed<C> {
    let raw = Raw::<R, C>::new(root);
    match kind {
        Kind::PVec(w) => by_width!(w, W => Box::new(PackedVector::<R, C, Item<W>, U32, W>::from_raw(raw, len, max))),
        _ if convert => Box::new(raw.into_vector(len, max)),
        _ => Box::new(Vector::<R, C>::from_raw(raw, len, max)),
    }
}
/// Reopen a vector from its raw tree.
pub fn from_raw<C: Cons>(kind: Kind, owned: bool, root: V, len: usize, max: Option<u64>, convert: bool) -> Boxed<C> {
    if owned { from_raw_r::<Owned, C>(kind, root, len, max, convert) } else { from_raw_r::<Dangling, C>(kind, root, len, max, convert) }
}
/// The library's conversion of a raw tree to a list (a recorded finding: it mistakes the list's root for its items).
pub fn list_from_raw<C: Cons>(root: V, len: usize, max: Option<u64>) -> Boxed<C> {
    Box::new(Raw::<Owned, C>::new(root).into_list(len, max))
}

/// A list, or a packed vector with a length next to it, from nothing but its root.
pub fn reopen_any<C: Cons>(width: Option<u8>, root: V, db: &mut Db<C>, max: Option<u64>) -> Res<Boxed<C>> {
    Ok(match width {
        None => Box::new(List::<Dangling, C>::reconstruct(root, db, max)?),
        Some(w) => by_width!(w, W => Box::new(LengthMixed::<Dangling, C, PackedVector<Dangling, C, Item<W>, U32, W>>::reconstruct(root, db, |raw, _, len| Ok(PackedVector::from_raw(raw, len, max)))?)),
    })
}
