//! The library is generic over the hash function and the width of a node. This world runs histories of lists, vectors
//! and their packed forms over SHA-224, SHA-384 and SHA-512 trees (28, 48 and 64 byte nodes) next to each other in one
//! store. A part of the runs of C01, C02, C03, C05 and C06.

use crate::common::*;
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::seqworld;
use crate::rng::{mix, Rng};
use bm::{Backend, Construct, Error, InMemoryBackend, InMemoryBackendError, InheritedDigestConstruct, Leak, List, Owned, PackedList, PackedVector, ReadBackend, Sequence, Tree, UnitDigestConstruct, Vector, WriteBackend};
use generic_array::{ArrayLength, GenericArray};
use sha2::{Digest, Sha224, Sha384, Sha512};
use std::collections::BTreeSet;
use std::hash::Hash;
use typenum::{U1, U100, U12, U28, U3, U40, U48, U64, U8};

/// First configuration word of a plan of this world.
pub const MARK: u64 = 20;
const CREATE: u8 = 0; const PUSH: u8 = 1; const POP: u8 = 2; const SET: u8 = 3; const GET: u8 = 4; const DROP: u8 = 5; const REOPEN: u8 = 6; const OUTSIDE: u8 = 7;
const NAMES: [&str; 8] = ["create", "push", "pop", "set", "get", "drop", "reopen", "outside"];
const SLOTS: usize = 4;

pub trait Node: Clone + Default + Eq + Ord + Hash + std::fmt::Debug + AsRef<[u8]> + AsMut<[u8]> + From<GenericArray<u8, <Self as Node>::Size>> + From<usize> + Into<usize> + 'static {
    type Size: ArrayLength<u8> + 'static;
    type Dig: Digest<OutputSize = Self::Size> + 'static;
}

macro_rules! node {
    ($v:ident, $n:expr, $u:ident, $d:ident) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        pub struct $v([u8; $n]);
        impl Default for $v { fn default() -> Self { $v([0; $n]) } }
        impl AsRef<[u8]> for $v { fn as_ref(&self) -> &[u8] { &self.0 } }
        impl AsMut<[u8]> for $v { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
        impl From<GenericArray<u8, $u>> for $v { fn from(x: GenericArray<u8, $u>) -> Self { let mut v = $v::default(); v.0.copy_from_slice(&x); v } }
        impl From<usize> for $v { fn from(x: usize) -> Self { let mut v = $v::default(); v.0[..8].copy_from_slice(&(x as u64).to_le_bytes()); v } }
        impl From<$v> for usize { fn from(x: $v) -> usize { let mut b = [0; 8]; b.copy_from_slice(&x.0[..8]); u64::from_le_bytes(b) as usize } }
        impl Node for $v { type Size = $u; type Dig = $d; }
    };
}
node!(N28, 28, U28, Sha224);
node!(N48, 48, U48, Sha384);
node!(N64, 64, U64, Sha512);

#[derive(Debug, PartialEq, Eq, Clone)]
enum WErr { Injected, Store(InMemoryBackendError) }

struct WStore<C: Construct> { real: InMemoryBackend<C>, fault: Option<(u32, u32)>, calls: u32, fired: u32, inserts: u64, gets: u64, trace: u64 }
impl<C: Construct> WStore<C> where C::Value: Node {
    fn gate(&mut self, key: &C::Value, kind: u64) -> Result<(), WErr> {
        let k = key.as_ref();
        self.trace = mix(self.trace ^ u64::from_le_bytes([k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]]) ^ (kind << 56));
        let n = self.calls;
        self.calls += 1;
        match self.fault {
            Some((at, len)) if n >= at && (len == 0 || n < at + len) => { self.fired += 1; self.trace = mix(self.trace); Err(WErr::Injected) }
            _ => Ok(()),
        }
    }
    fn arm(&mut self, f: Fault) { self.calls = 0; self.fired = 0; self.fault = if f.kind == FaultKind::Err { Some((f.at, f.len)) } else { None }; }
    fn disarm(&mut self) -> u32 { self.fault = None; self.fired }
}
impl<C: Construct> Backend for WStore<C> { type Construct = C; type Error = WErr; }
impl<C: Construct> ReadBackend for WStore<C> where C::Value: Node {
    fn get(&mut self, key: &C::Value) -> Result<Option<(C::Value, C::Value)>, WErr> { self.gets += 1; self.gate(key, 1)?; self.real.get(key).map_err(WErr::Store) }
}
impl<C: Construct> WriteBackend for WStore<C> where C::Value: Node {
    fn rootify(&mut self, key: &C::Value) -> Result<(), WErr> { self.gate(key, 2)?; self.real.rootify(key).map_err(WErr::Store) }
    fn unrootify(&mut self, key: &C::Value) -> Result<(), WErr> { self.gate(key, 3)?; self.real.unrootify(key).map_err(WErr::Store) }
    fn insert(&mut self, key: C::Value, value: (C::Value, C::Value)) -> Result<(), WErr> { self.inserts += 1; self.gate(&key, 4)?; self.real.insert(key, value).map_err(WErr::Store) }
}

type R<T> = Result<T, Error<WErr>>;

trait WTree<C: Construct> where C::Value: Node {
    fn len(&self) -> usize;
    fn root(&self) -> C::Value;
    fn get(&self, db: &mut WStore<C>, i: usize) -> R<Vec<u8>>;
    fn set(&mut self, db: &mut WStore<C>, i: usize, v: &[u8]) -> R<()>;
    fn push(&mut self, db: &mut WStore<C>, v: &[u8]) -> R<()>;
    fn pop(&mut self, db: &mut WStore<C>) -> R<Option<Vec<u8>>>;
    fn gone(self: Box<Self>, db: &mut WStore<C>) -> R<()>;
    fn again(self: Box<Self>) -> Box<dyn WTree<C>>;
}
fn n_of<N: Node>(b: &[u8]) -> N { let mut v = N::default(); v.as_mut().copy_from_slice(b); v }

macro_rules! wtree {
    ($t:ty, [$($g:tt)*], $from:expr, $to:expr) => {
        impl<$($g)*> WTree<C> for $t where C::Value: Node {
            fn len(&self) -> usize { Sequence::len(self) }
            fn root(&self) -> C::Value { Tree::root(self) }
            fn get(&self, db: &mut WStore<C>, i: usize) -> R<Vec<u8>> { <$t>::get(self, db, i).map($to) }
            fn set(&mut self, db: &mut WStore<C>, i: usize, v: &[u8]) -> R<()> { <$t>::set(self, db, i, $from(v)) }
            fn push(&mut self, db: &mut WStore<C>, v: &[u8]) -> R<()> { <$t>::push(self, db, $from(v)) }
            fn pop(&mut self, db: &mut WStore<C>) -> R<Option<Vec<u8>>> { Ok(<$t>::pop(self, db)?.map($to)) }
            fn gone(self: Box<Self>, db: &mut WStore<C>) -> R<()> { Tree::drop(*self, db) }
            fn again(self: Box<Self>) -> Box<dyn WTree<C>> { Box::new(<$t>::from_leaked(self.metadata())) }
        }
    };
}
type Item<W> = GenericArray<u8, W>;
fn item<W: ArrayLength<u8>>(b: &[u8]) -> Item<W> { GenericArray::clone_from_slice(b) }
wtree!(Vector<Owned, C>, [C: Construct + 'static], n_of, |x| x.as_ref().to_vec());
wtree!(List<Owned, C>, [C: Construct + 'static], n_of, |x| x.as_ref().to_vec());
// the width of a node is the type parameter of packed sequences
struct PV<C: Construct, W: ArrayLength<u8>>(PackedVector<Owned, C, Item<W>, <C::Value as Node>::Size, W>) where C::Value: Node;
struct PL<C: Construct, W: ArrayLength<u8>>(PackedList<Owned, C, Item<W>, <C::Value as Node>::Size, W>) where C::Value: Node;
macro_rules! packed {
    ($p:ident, $q:ident) => {
        impl<C: Construct + 'static, W: ArrayLength<u8> + 'static> WTree<C> for $p<C, W> where C::Value: Node {
            fn len(&self) -> usize { Sequence::len(&self.0) }
            fn root(&self) -> C::Value { Tree::root(&self.0) }
            fn get(&self, db: &mut WStore<C>, i: usize) -> R<Vec<u8>> { self.0.get(db, i).map(|x| x.to_vec()) }
            fn set(&mut self, db: &mut WStore<C>, i: usize, v: &[u8]) -> R<()> { self.0.set(db, i, item(v)) }
            fn push(&mut self, db: &mut WStore<C>, v: &[u8]) -> R<()> { self.0.push(db, item(v)) }
            fn pop(&mut self, db: &mut WStore<C>) -> R<Option<Vec<u8>>> { Ok(self.0.pop(db)?.map(|x| x.to_vec())) }
            fn gone(self: Box<Self>, db: &mut WStore<C>) -> R<()> { Tree::drop(self.0, db) }
            fn again(self: Box<Self>) -> Box<dyn WTree<C>> { Box::new($p::<C, W>($q::from_leaked(self.0.metadata()))) }
        }
    };
}
packed!(PV, PackedVector);
packed!(PL, PackedList);

const WIDTHS: [usize; 9] = [1, 3, 8, 12, 28, 40, 48, 64, 100];
macro_rules! by_width {
    ($w:expr, $W:ident => $e:expr) => {
        match $w {
            1 => { type $W = U1; $e } 3 => { type $W = U3; $e } 8 => { type $W = U8; $e } 12 => { type $W = U12; $e } 28 => { type $W = U28; $e }
            40 => { type $W = U40; $e } 48 => { type $W = U48; $e } 64 => { type $W = U64; $e } _ => { type $W = U100; $e }
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum WKind { Vector, List, PVec(usize), PList(usize) }
impl WKind {
    fn decode(a: u64) -> WKind {
        let w = WIDTHS[(a / 4) as usize % WIDTHS.len()];
        match a % 4 { 0 => WKind::Vector, 1 => WKind::List, 2 => WKind::PVec(w), _ => WKind::PList(w) }
    }
    fn packed(self) -> bool { matches!(self, WKind::PVec(_) | WKind::PList(_)) }
    fn mixed(self) -> bool { matches!(self, WKind::List | WKind::PList(_)) }
    fn width(self, host: usize) -> usize { match self { WKind::PVec(w) | WKind::PList(w) => w, _ => host } }
}

fn create<C: Construct + 'static>(k: WKind, db: &mut WStore<C>, len: usize, max: Option<u64>) -> R<Box<dyn WTree<C>>> where C::Value: Node {
    Ok(match k {
        WKind::Vector => Box::new(Vector::<Owned, C>::create(db, len, max)?),
        WKind::List => Box::new(List::<Owned, C>::create(db, max)?),
        WKind::PVec(w) => by_width!(w, W => Box::new(PV::<C, W>(PackedVector::create(db, len, max)?))),
        WKind::PList(w) => by_width!(w, W => Box::new(PL::<C, W>(PackedList::create(db, max)?))),
    })
}

// ---- reference -------------------------------------------------------------------------------------------------

fn hash2<N: Node>(l: &N, r: &N) -> N {
    let mut d = N::Dig::new();
    d.input(l.as_ref());
    d.input(r.as_ref());
    N::from(d.result())
}
fn merkle<N: Node>(inherited: bool, leaves: &[N], depth: usize) -> N {
    if leaves.is_empty() {
        let mut z = N::default();
        if inherited { for _ in 0..depth { z = hash2(&z, &z); } }
        return z;
    }
    if depth == 0 { return leaves[0].clone(); }
    let half = 1usize << (depth - 1);
    let (l, r) = if leaves.len() > half { leaves.split_at(half) } else { (leaves, &leaves[..0]) };
    hash2(&merkle(inherited, l, depth - 1), &merkle(inherited, r, depth - 1))
}
fn root_of<N: Node>(inherited: bool, k: WKind, host: usize, items: &[Vec<u8>], max: Option<u64>) -> N {
    let (leaves, cap): (Vec<N>, u64) = if k.packed() {
        let bytes: Vec<u8> = items.iter().flatten().copied().collect();
        let leaves: Vec<N> = bytes.chunks(host).map(|c| { let mut v = N::default(); v.as_mut()[..c.len()].copy_from_slice(c); v }).collect();
        let n = leaves.len() as u64;
        (leaves, max.map(|m| (m * k.width(host) as u64).div_ceil(host as u64)).unwrap_or(n))
    } else { (items.iter().map(|b| n_of(b)).collect(), max.unwrap_or(items.len() as u64)) };
    let inner = merkle(inherited, &leaves, crate::model::depth_for(cap));
    if k.mixed() {
        let mut n = N::default();
        n.as_mut()[..8].copy_from_slice(&(items.len() as u64).to_le_bytes());
        hash2(&inner, &n)
    } else { inner }
}

// ---- world -----------------------------------------------------------------------------------------------------

struct Slot<C: Construct> where C::Value: Node { tree: Box<dyn WTree<C>>, kind: WKind, items: Vec<Vec<u8>>, max: Option<u64>, /// Length it was created with and never written under the unit convention: no canonical root.
    created: bool }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    match (plan.cfg(1) % 3, plan.cfg(0) == MARK) {
        (0, true) => run::<InheritedDigestConstruct<Sha224, N28>, N28>(plan, verbose, true),
        (0, false) => run::<UnitDigestConstruct<Sha224, N28>, N28>(plan, verbose, false),
        (1, true) => run::<InheritedDigestConstruct<Sha384, N48>, N48>(plan, verbose, true),
        (1, false) => run::<UnitDigestConstruct<Sha384, N48>, N48>(plan, verbose, false),
        (_, true) => run::<InheritedDigestConstruct<Sha512, N64>, N64>(plan, verbose, true),
        (_, false) => run::<UnitDigestConstruct<Sha512, N64>, N64>(plan, verbose, false),
    }
}

fn run<C: Construct<Value = N> + 'static, N: Node>(plan: &Plan, verbose: bool, inherited: bool) -> Outcome {
    let mut w = World::<C, N> {
        store: WStore { real: InMemoryBackend::default(), fault: None, calls: 0, fired: 0, inserts: 0, gets: 0, trace: 3 }, slots: (0..SLOTS).map(|_| None).collect(),
        cx: Ctx::new(seqworld::classes(&plan.prop), verbose), inherited, host: N::default().as_ref().len(), garbage: plan.prop == "C05", roots: plan.prop == "C02",
    };
    let mut flow = Ok(());
    for (i, s) in plan.steps.iter().enumerate() {
        w.cx.step = i;
        w.cx.stats.steps += 1;
        flow = w.step(s);
        if flow.is_err() { break; }
        let mut h = 5u64;
        for s in w.slots.iter().flatten() { let r = s.tree.root(); let r = r.as_ref(); h = mix(h ^ u64::from_le_bytes([r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]])); }
        let h = mix(h ^ w.store.real.as_ref().len() as u64);
        w.cx.stats.states.insert(h);
        w.cx.note(h);
    }
    if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.finale(); }
    *w.cx.stats.calls.entry("insert").or_insert(0) += w.store.inserts;
    *w.cx.stats.calls.entry("get").or_insert(0) += w.store.gets;
    w.cx.stats.max_store = w.store.real.as_ref().len();
    let t = mix(w.store.trace ^ w.cx.trace);
    let mut o = w.cx.finish(flow);
    o.trace = t;
    o
}

struct World<C: Construct<Value = N>, N: Node> { store: WStore<C>, slots: Vec<Option<Slot<C>>>, cx: Ctx, inherited: bool, host: usize, garbage: bool, roots: bool }

impl<C: Construct<Value = N> + 'static, N: Node> World<C, N> {
    fn value(&self, width: usize, code: u64) -> Vec<u8> {
        match code % 6 {
            0 => vec![0; width],
            1 => (0..width).map(|j| (code as u8 / 6 % 3).wrapping_mul(j as u8 + 1)).collect(),
            2 => vec![(code / 6 % 4) as u8; width],
            _ => { let mut x = code / 6 % 9; (0..width).map(|j| { if j % 8 == 0 { x = mix(x); } (x >> (8 * (j % 8))) as u8 }).collect() }
        }
    }

    fn after(&mut self, i: usize) -> Flow {
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        if s.tree.len() != s.items.len() { return self.cx.bad(if s.max.is_some() { Class::Bounds } else { Class::Content }, format!("slot {} {:?}: length {} instead of {}", i, s.kind, s.tree.len(), s.items.len())); }
        if self.roots && !s.created {
            let want: N = root_of(self.inherited, s.kind, self.host, &s.items, s.max);
            if want != s.tree.root() { return self.cx.bad(Class::Root, format!("slot {} {:?}: root {} but its contents have root {} ({} byte nodes)", i, s.kind, hx(s.tree.root().as_ref()), hx(want.as_ref()), self.host)); }
        }
        self.store_checks()
    }

    fn store_checks(&mut self) -> Flow {
        if !self.garbage { return Ok(()); }
        let map = self.store.real.as_ref();
        let mut seen: BTreeSet<N> = BTreeSet::new();
        let mut todo: Vec<N> = self.slots.iter().flatten().map(|s| s.tree.root()).collect();
        todo.push(N::default());
        while let Some(k) = todo.pop() {
            if !seen.insert(k.clone()) { continue; }
            match map.get(&k) {
                Some((Some((l, r)), _)) => { todo.push(l.clone()); todo.push(r.clone()); }
                Some(_) => {}
                None => return self.cx.bad(Class::Reach, format!("node {} of a live tree is not in the store", hx(k.as_ref()))),
            }
        }
        if let Some(k) = map.keys().find(|k| !seen.contains(k)) { return self.cx.bad(Class::Garbage, format!("node {} belongs to no live tree", hx(k.as_ref()))); }
        Ok(())
    }

    fn known(&mut self, i: usize, e: &Error<WErr>) -> bool {
        let s = self.slots[i].as_ref().unwrap();
        s.created && *e == Error::CorruptedDatabase
    }

    fn read_all(&mut self, i: usize, class: Class) -> Flow {
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        for j in 0..s.items.len() {
            let s = self.slots[i].as_ref().unwrap();
            let want = s.items[j].clone();
            match s.tree.get(&mut self.store, j) {
                Ok(v) if v == want => {}
                Err(e) if self.known(i, &e) => return Ok(()),
                r => return self.cx.bad(class, format!("slot {} {:?}: element {} reads as {:?} instead of {} ({} byte nodes)", i, self.slots[i].as_ref().unwrap().kind, j, r.map(|b| hx(&b)), hx(&want), self.host)),
            }
        }
        Ok(())
    }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % SLOTS;
        self.cx.stats.probe(NAMES[st.op as usize % NAMES.len()]);
        if st.op == CREATE {
            if self.slots[i].is_some() { return Ok(()); }
            let kind = WKind::decode(st.a);
            let max = if st.c == 0 { None } else { Some(st.c) };
            let len = match kind { WKind::Vector | WKind::PVec(_) => (st.b % 40).min(st.c.wrapping_sub(1).saturating_add(1)) as usize, _ => 0 };
            let len = if let Some(m) = max { len.min(m as usize) } else { len };
            return match create::<C>(kind, &mut self.store, len, max) {
                Ok(tree) => {
                    self.cx.say(|| format!("slot {} created {:?} len {} max {:?}, {} byte nodes", i, kind, len, max, self.host));
                    let items = vec![vec![0; kind.width(self.host)]; len];
                    self.slots[i] = Some(Slot { tree, kind, items, max, created: !self.inherited && len > 0 });
                    self.after(i)
                }
                Err(e) => self.cx.bad(Class::Bounds, format!("creating {:?} with length {} and maximum {:?} fails: {:?}", kind, len, max, e)),
            };
        }
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        let (kind, n, max, root) = (s.kind, s.items.len(), s.max, s.tree.root());
        let v = self.value(kind.width(self.host), st.a);
        if st.op == DROP {
            let s = self.slots[i].take().unwrap();
            if let Err(e) = s.tree.gone(&mut self.store) { return self.cx.bad(Class::Content, format!("dropping slot {} fails: {:?}", i, e)); }
            return self.store_checks();
        }
        if st.op == REOPEN {
            let mut s = self.slots[i].take().unwrap();
            s.tree = s.tree.again();
            let same = s.tree.root() == root && s.tree.len() == n;
            self.slots[i] = Some(s);
            if !same { return self.cx.bad(Class::Reopen, format!("slot {} reopened from its metadata differs", i)); }
            return self.read_all(i, Class::Content);
        }
        let at = match st.op { OUTSIDE => n + [0, 1, 5, 40, usize::MAX / 512][st.b as usize % 5], _ if n == 0 => return if st.op == PUSH || st.op == POP { self.go(i, st, 0, v, n, max, root) } else { Ok(()) }, _ => st.b as usize % n };
        self.go(i, st, at, v, n, max, root)
    }

    fn go(&mut self, i: usize, st: &Step, at: usize, v: Vec<u8>, n: usize, max: Option<u64>, root: N) -> Flow {
        let full = max.map(|m| n as u64 >= m).unwrap_or(false);
        let mut fault = st.fault;
        let mut tries = 0;
        loop {
            self.store.arm(fault);
            let s = self.slots[i].as_mut().unwrap();
            let r: R<Option<Vec<u8>>> = match st.op {
                PUSH => s.tree.push(&mut self.store, &v).map(|_| None),
                POP => s.tree.pop(&mut self.store),
                GET => s.tree.get(&mut self.store, at).map(Some),
                OUTSIDE if st.c % 2 == 0 => s.tree.get(&mut self.store, at).map(Some),
                _ => s.tree.set(&mut self.store, at, &v).map(|_| None),
            };
            let fired = self.store.disarm();
            let s = self.slots[i].as_mut().unwrap();
            let kind = s.kind;
            self.cx.say(|| format!("slot {} {:?} {} at {} -> {:?} (fired {})", i, kind, NAMES[st.op as usize % NAMES.len()], at, r.as_ref().map(|x| x.as_ref().map(|b| hx(b))), fired));
            let same = s.tree.root() == root && s.tree.len() == n;
            if fired > 0 {
                self.cx.stats.fire("err:wide");
                if r != Err(Error::Backend(WErr::Injected)) { return self.cx.bad(Class::Atomic, format!("slot {} {:?}: {} ignored a failed store call", i, kind, NAMES[st.op as usize])); }
                if !same { return self.cx.bad(Class::Atomic, format!("slot {} {:?}: failed {} changed the handle", i, kind, NAMES[st.op as usize])); }
                self.read_all(i, Class::Atomic)?;
                tries += 1;
                fault = if tries < 3 && st.c % 3 == 0 { Fault { at: fault.at + 2, ..fault } } else { Fault::NONE };
                continue;
            }
            let refused = st.op == OUTSIDE || (st.op == PUSH && full);
            if let Err(e) = &r { let e = e.clone(); if !refused && self.known(i, &e) { if same { return Ok(()); } return self.cx.bad(Class::Content, "a refused operation changed the handle".into()); } }
            let s = self.slots[i].as_mut().unwrap();
            let class = if refused || r == Err(Error::AccessOverflowed) { Class::Bounds } else if tries > 0 { Class::Atomic } else { Class::Content };
            let want: R<Option<Vec<u8>>> = if refused { Err(Error::AccessOverflowed) } else {
                match st.op {
                    PUSH => { s.items.push(v.clone()); Ok(None) }
                    POP => Ok(s.items.pop()),
                    GET => Ok(Some(s.items[at].clone())),
                    _ => { s.items[at] = v.clone(); Ok(None) }
                }
            };
            if r != want { return self.cx.bad(class, format!("slot {} {:?}: {} at {} gives {:?} instead of {:?} ({} byte nodes)", i, kind, NAMES[st.op as usize], at, r, want, self.host)); }
            if refused && !same { return self.cx.bad(Class::Bounds, format!("slot {} {:?}: a refused operation changed the handle", i, kind)); }
            // neighbours that share a node
            if st.op == SET { self.read_all(i, Class::Content)?; }
            return self.after(i);
        }
    }

    fn finale(&mut self) -> Flow {
        for i in 0..SLOTS { self.read_all(i, Class::Content)?; }
        for i in 0..SLOTS {
            if let Some(s) = self.slots[i].take() { if let Err(e) = s.tree.gone(&mut self.store) { return self.cx.bad(Class::Content, format!("dropping slot {} fails: {:?}", i, e)); } }
            self.store_checks()?;
        }
        let n = self.store.real.as_ref().len();
        if self.garbage && n != 1 { return self.cx.bad(Class::Garbage, format!("{} nodes are left after all trees were dropped", n - 1)); }
        self.cx.stats.probe("wide run finished");
        Ok(())
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let unit = r.chance(1, 3) as u64;
    let cfg = vec![MARK + unit, r.below(3)];
    let packed = prop == "C03" || (prop != "C01" && r.chance(1, 2));
    let kinds: Vec<u64> = (0..2).map(|_| r.below(WIDTHS.len() as u64) * 4 + r.below(2) + if packed { 2 } else { 0 }).collect();
    let alphabet = *r.pick(&[3u64, 12, 60]);
    let mut steps = Vec::new();
    let clients = r.range(1, 3);
    let mut w = [3u64, 14, 10, 8, 4, 1, 1, 1];
    for x in w.iter_mut().skip(1) { if r.chance(1, 6) { *x = 0; } }
    for j in 0..r.range(8, 60) {
        let client = if j < clients { j } else { r.below(clients) };
        let op = if j < clients { CREATE } else { r.weighted(&w) as u8 };
        let fault = if prop == "C06" && op != CREATE && r.chance(1, 2) { Fault { kind: FaultKind::Err, at: r.below(12) as u32, len: r.below(2) as u32 } } else { Fault::NONE };
        let (a, b, c) = match op {
            CREATE => (*r.pick(&kinds), if r.chance(1, 3) && prop != "C06" { r.below(20) } else { 0 }, if r.chance(1, 3) { *r.pick(&[1u64, 2, 3, 5, 8, 9, 16, 30, 100]) } else { 0 }),
            _ => (r.below(alphabet), r.next() >> 1, r.next() >> 1),
        };
        steps.push(Step { client: client as u8, op, a, b, c, fault });
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps }
}
