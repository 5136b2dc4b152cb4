//! Many trees of all sequence kinds (and raw trees) sharing one simulated store, driven by several clients.
//! Decides C01-C10 and the tree part of C14: the classes a property accepts decide what is a violation.

use crate::common::*;
use crate::model::{self, leaves_for, MSeq, Want};
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::values;
use crate::rng::{mix, Rng};
use crate::seq::{self, BOp, Kind, Meta, SeqTree, WIDTHS};
use crate::store::{Cons, Ctl, CtlRef, Db, Inh, SimError, SimStore, Unit, V};
use bm::{Dangling, Error, Index, Owned, Raw, Tree, WriteBackend};
use std::collections::{BTreeMap, BTreeSet};

pub const CREATE: u8 = 0; pub const PUSH: u8 = 1; pub const POP: u8 = 2; pub const SET: u8 = 3; pub const GET: u8 = 4;
pub const READALL: u8 = 5; pub const PUSHN: u8 = 6; pub const POPN: u8 = 7; pub const REOPEN: u8 = 8; pub const PARK: u8 = 9;
pub const DROP: u8 = 10; pub const MIRROR: u8 = 11; pub const DANGLE: u8 = 12; pub const OUTSIDE: u8 = 13; pub const BATCH: u8 = 14;
pub const BADCREATE: u8 = 15; pub const KILL: u8 = 16; pub const LOSE: u8 = 17; pub const FOUND: u8 = 18; pub const REBUILD: u8 = 19;
pub const RSUB: u8 = 20; pub const POPULATE: u8 = 21; pub const STORM: u8 = 22;
const NAMES: [&str; 23] = ["create", "push", "pop", "set", "get", "readall", "pushn", "popn", "reopen", "park", "drop", "mirror", "dangle",
    "outside", "batch", "badcreate", "kill", "lose", "found", "rebuild", "rawsub", "populate", "many holders"];

pub const F_UNIT: &str = "unit-created-elements-unreadable";
pub const F_BATCH: &str = "lengthmixed-batch-leaves-nodes";
pub const F_RAWLIST: &str = "list-from-raw-mistakes-root";

pub fn classes(prop: &str) -> &'static [Class] {
    use Class::*;
    match prop {
        "C01" => &[Content, Bounds, Panic],
        "C02" => &[Root, Panic],
        "C03" => &[Content, Bounds, Panic],
        "C04" => &[Reach, Panic],
        "C05" => &[Garbage, Reach, Panic],
        "C06" => &[Atomic, Panic],
        "C07" => &[Crash, Panic],
        "C08" => &[Raw, Atomic, Panic],
        "C09" => &[Reopen, Panic],
        "C10" => &[Bounds, Panic],
        "C20" => &[Cost, Panic],
        _ => &[Lost, Panic],
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out { Done, Popped(Option<Vec<u8>>), Got(Vec<u8>), RGot(Option<V>) }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum No { Overflow, Corrupted, Invalid }

#[derive(Clone, Debug)]
pub enum Op { Get(usize), Set(usize, Vec<u8>), Push(Vec<u8>), Pop, Batch(Vec<BOp>, bool), RGet(usize), RSub(usize, usize), RSet(usize, V) }

/// Explicit model of a raw tree: what was written where.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RNode { Leaf(V), Pair(Box<RNode>, Box<RNode>) }

pub fn route(mut i: usize) -> Vec<bool> {
    let mut r = Vec::new();
    while i > 1 { r.push(i & 1 == 1); i >>= 1; }
    r.reverse();
    r
}

impl RNode {
    fn root(&self) -> V {
        match self { RNode::Leaf(v) => v.clone(), RNode::Pair(l, r) => hv(&model::hash2(&vh(&l.root()), &vh(&r.root()))) }
    }
    fn get<C: Cons>(&self, store: &mut SimStore<C>, path: &[bool]) -> Option<V> {
        match (self, path.split_first()) {
            (_, None) => Some(self.root()),
            (RNode::Pair(l, r), Some((s, rest))) => if *s { r.get(store, rest) } else { l.get(store, rest) },
            (RNode::Leaf(v), Some((s, rest))) => {
                let (l, r) = store.peek(v)?;
                RNode::Leaf(if *s { r } else { l }).get(store, rest)
            }
        }
    }
    fn set<C: Cons>(&mut self, store: &mut SimStore<C>, path: &[bool], value: V) {
        let (s, rest) = match path.split_first() { None => { *self = RNode::Leaf(value); return; } Some(x) => x };
        if let RNode::Leaf(v) = self {
            let (l, r) = store.peek(v).unwrap_or_default();
            *self = RNode::Pair(Box::new(RNode::Leaf(l)), Box::new(RNode::Leaf(r)));
        }
        if let RNode::Pair(l, r) = self { if *s { r.set(store, rest, value) } else { l.set(store, rest, value) } }
    }
}

pub enum RawT<C: Cons> { O(Raw<Owned, C>), D(Raw<Dangling, C>) }
impl<C: Cons> RawT<C> {
    pub fn root(&self) -> V { match self { RawT::O(r) => r.root(), RawT::D(r) => r.root() } }
}

pub enum Tr<C: Cons> { Seq(Box<dyn SeqTree<C>>), Raw(RawT<C>) }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Model { Seq(MSeq), Raw(RNode) }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Snap { Seq(usize, V, Meta), Raw(V) }
impl Snap {
    pub fn root(&self) -> &V { match self { Snap::Seq(_, r, _) => r, Snap::Raw(r) => r } }
}

pub struct Slot<C: Cons> {
    /// None while parked.
    tree: Option<Tr<C>>,
    /// What is durable: enough to reopen the tree.
    snap: Snap,
    model: Model,
    owned: bool,
    /// Keeps the nodes of a dangling tree alive.
    guard: Option<Raw<Owned, C>>,
    /// Created with elements under the unit convention (recorded finding; no canonical root).
    unit_created: bool,
    reopened: bool,
}

impl<C: Cons> Slot<C> {
    fn kind(&self) -> Option<Kind> { match &self.model { Model::Seq(m) => Some(m.kind), Model::Raw(_) => None } }
    fn take_snap(&self) -> Snap {
        match self.tree.as_ref() {
            Some(Tr::Seq(t)) => Snap::Seq(t.len(), t.root(), t.meta()),
            Some(Tr::Raw(r)) => Snap::Raw(r.root()),
            None => self.snap.clone(),
        }
    }
}

pub fn reopen_tree<C: Cons>(kind: Option<Kind>, owned: bool, s: &Snap) -> Tr<C> {
    match (kind, s) {
        (Some(k), Snap::Seq(_, _, m)) => Tr::Seq(seq::from_meta::<C>(k, owned, m.clone())),
        (_, s) => Tr::Raw(if owned { RawT::O(Raw::<Owned, C>::new(s.root().clone()).into_raw()) } else { RawT::D(Raw::<Owned, C>::new(s.root().clone()).as_dangling()) }),
    }
}

pub fn apply<C: Cons>(t: &mut Tr<C>, db: &mut Db<C>, op: &Op) -> Result<Out, Error<SimError>> {
    match t {
        Tr::Seq(t) => Ok(match op {
            Op::Get(i) => Out::Got(t.get(db, *i)?),
            Op::Set(i, v) => { t.set(db, *i, v)?; Out::Done }
            Op::Push(v) => { t.push(db, v)?; Out::Done }
            Op::Pop => Out::Popped(t.pop(db)?),
            Op::Batch(ops, fail) => { t.batch(db, ops, *fail)?; Out::Done }
            _ => Out::Done,
        }),
        Tr::Raw(r) => {
            let ix = |i: usize| Index::from_one(i.max(1)).unwrap();
            Ok(match op {
                Op::RGet(i) => Out::RGot(match r { RawT::O(r) => r.get(db, ix(*i))?, RawT::D(r) => r.get(db, ix(*i))? }),
                Op::RSub(i, j) => {
                    let sub = match r { RawT::O(r) => r.subtree(db, ix(*i))?, RawT::D(r) => r.subtree(db, ix(*i))? };
                    Out::RGot(sub.get(db, ix(*j))?)
                }
                Op::RSet(i, v) => { match r { RawT::O(r) => r.set(db, ix(*i), v.clone())?, RawT::D(r) => r.set(db, ix(*i), v.clone())? }; Out::Done }
                _ => Out::Done,
            })
        }
    }
}

fn model_apply<C: Cons>(m: &mut Model, store: &mut SimStore<C>, op: &Op) -> Result<Out, No> {
    let w = |w: Want| match w {
        Want::Done => Ok(Out::Done), Want::Popped(x) => Ok(Out::Popped(x)), Want::Got(x) => Ok(Out::Got(x)), Want::Refused => Err(No::Overflow),
    };
    match m {
        Model::Seq(m) => match op {
            Op::Get(i) => w(m.get(*i)),
            Op::Set(i, v) => w(m.set(*i, v)),
            Op::Push(v) => w(m.push(v)),
            Op::Pop => w(m.pop()),
            Op::Batch(ops, fail) => {
                let mut c = m.clone();
                for op in ops {
                    let r = match op { BOp::Push(v) => c.push(v), BOp::Pop => c.pop(), BOp::Set(i, v) => c.set(*i, v) };
                    if r == Want::Refused { return Err(No::Overflow); }
                }
                if *fail { return Err(No::Invalid); }
                *m = c;
                Ok(Out::Done)
            }
            _ => Ok(Out::Done),
        },
        Model::Raw(n) => Ok(match op {
            Op::RGet(i) => Out::RGot(n.get(store, &route(*i))),
            Op::RSub(i, j) => {
                let mut p = route(*i);
                if n.get(store, &p).is_none() { return Err(No::Corrupted); }
                p.extend(route(*j));
                Out::RGot(n.get(store, &p))
            }
            Op::RSet(i, v) => { n.set(store, &route(*i), v.clone()); Out::Done }
            _ => Out::Done,
        }),
    }
}

fn same(r: &Result<Out, Error<SimError>>, e: &Result<Out, No>) -> bool {
    match (r, e) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Error::AccessOverflowed), Err(No::Overflow)) => true,
        (Err(Error::CorruptedDatabase), Err(No::Corrupted)) => true,
        (Err(Error::InvalidParameter), Err(No::Invalid)) => true,
        _ => false,
    }
}

pub fn injected<T>(r: &Result<T, Error<SimError>>) -> bool { matches!(r, Err(Error::Backend(SimError::Injected))) }

/// Positions inside a sequence: everywhere in short ones; in very long ones mostly near the ends and the middle.
fn position(x: u64, len: usize) -> usize {
    let y = (x % (1 << 48)) as usize;
    if len <= 4096 { return x as usize % len; }
    match x >> 60 { 0 => y % len, 1 | 2 => len - 1 - y % 5, 3 => y % 5, 4 | 5 => (1 << (usize::BITS - 1 - (len - 1).leading_zeros())) + y % 5 - 2, _ => (y % 3) * (len / 3) + y % 2 }
}

/// Generalized indices of raw trees: mostly shallow, sometimes at the end of one of a few deep paths.
pub fn raw_index(x: u64, shallow: u64) -> usize {
    if x % 29 != 7 { return (x / 29 % shallow) as usize + 1; }
    let y = x / 29;
    let path = mix(y % 3) as usize;
    let depth = [9, 17, 31, 32, 33, 62, 63][(y / 3 % 7) as usize];
    let i = (1usize << depth) | (path & ((1usize << depth) - 1));
    if y / 21 % 3 == 0 { i ^ 1 } else { i }
}

/// How many store calls an operation may take on a tree with leaves at depth `d`, when an item lies in `k` nodes.
pub fn read_cost(d: u64, k: u64) -> u64 { 4 * k * (d + 2) }
pub fn write_cost(d: u64, k: u64) -> u64 { 8 * k * (d + 2) + 2 * (d + 2) * (d + 2) }

struct World<C: Cons> {
    prop: String,
    store: SimStore<C>,
    ctl: CtlRef,
    slots: Vec<Option<Slot<C>>>,
    cx: Ctx,
    needed: Needed,
    want_needed: bool,
    want_garbage: bool,
    want_root: bool,
    /// Compare against a fault-free twin execution (C06, C07).
    twin: bool,
    /// Some node is in the store although no live tree owns it, for a reason the property does not cover.
    garbage_ok: bool,
    lost: bool,
    /// Every node that was ever written or populated (C04).
    known: BTreeMap<V, (V, V)>,
}

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) == 0 { World::<Inh>::run(plan, verbose) } else { World::<Unit>::run(plan, verbose) }
}

impl<C: Cons> World<C> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        let prop = plan.prop.clone();
        let p = prop.as_str();
        let mut w = World {
            store, ctl, slots: (0..8).map(|_| None).collect(), cx: Ctx::new(classes(p), verbose), needed: Needed::default(),
            want_needed: matches!(p, "C04" | "C05"), want_garbage: p == "C05",
            want_root: matches!(p, "C02"), twin: matches!(p, "C06" | "C07"), garbage_ok: false, lost: false, known: BTreeMap::new(), prop,
        };
        w.ctl.borrow_mut().keep_log = w.want_needed;
        let mut flow = w.prelude(plan);
        if flow.is_ok() {
            for (i, s) in plan.steps.iter().enumerate() {
                w.cx.step = i;
                w.cx.stats.steps += 1;
                flow = w.step(s);
                if flow.is_err() { break; }
                let t = w.state_hash();
                w.cx.note(t);
                w.cx.stats.states.insert(t);
                let n = w.store.size();
                if n > w.cx.stats.max_store { w.cx.stats.max_store = n; }
            }
        }
        if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.finale(); }
        w.cx.stats.take_ctl(&w.ctl);
        let t = mix(w.ctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn state_hash(&self) -> u64 {
        let mut h = 0x77u64;
        for s in &self.slots {
            h = mix(h ^ match s { None => 1, Some(s) => v8(s.snap.root()) ^ ((s.tree.is_some() as u64) << 1) ^ s.owned as u64 });
        }
        mix(h ^ self.store.size() as u64)
    }

    fn live_roots(&self) -> Vec<V> {
        self.slots.iter().flatten().filter_map(|s| match &s.guard {
            Some(g) => Some(g.root()),
            None if s.owned => Some(s.snap.root().clone()),
            None => None,
        }).collect()
    }

    /// Content class of a slot: what a wrong result on it means.
    fn content_class(&self, i: usize) -> Class {
        match &self.slots[i] {
            Some(s) if s.reopened && self.prop == "C09" => Class::Reopen,
            Some(Slot { model: Model::Raw(_), .. }) => Class::Raw,
            _ => Class::Content,
        }
    }

    // ---- values ----------------------------------------------------------------------------------------------

    fn value(&mut self, width: usize, code: u64) -> Vec<u8> {
        if self.prop == "C04" && width == 32 && code % 16 == 14 && (code >> 44) & 1 == 1 && !self.known.is_empty() {
            // the hash of a node that some tree had, now or in the past
            let j = (mix(code) % self.known.len() as u64) as usize;
            return self.known.keys().nth(j).unwrap().as_ref().to_vec();
        }
        let roots = self.live_roots();
        values::value(C::INHERITED, width, code, &roots, &mut self.store)
    }
    fn vvalue(&mut self, code: u64) -> V { let b = self.value(32, code); let mut v = V::default(); v.as_mut().copy_from_slice(&b); v }

    // ---- checks ----------------------------------------------------------------------------------------------

    fn after(&mut self, i: usize) -> Flow {
        // the durable record follows the handle
        if let Some(s) = self.slots[i].as_mut() {
            s.snap = s.take_snap();
            let root = s.snap.root().clone();
            if let Some(g) = s.guard.as_mut() {
                if g.root() != root { if let Err(e) = g.set(&mut self.store, Index::root(), root) { return Err(self.cx.stop(Class::Content, format!("guard: {:?}", e))); } }
            }
        }
        self.lens(i)?;
        if self.want_root { self.root_of(i)?; }
        self.store_checks()
    }

    fn lens(&mut self, i: usize) -> Flow {
        let cc = self.content_class(i);
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        if let (Model::Seq(m), Snap::Seq(len, root, meta)) = (&s.model, &s.snap) {
            if m.len() != *len { return self.cx.bad(if m.max.is_some() { Class::Bounds } else { cc }, format!("slot {} {:?}: len {} but should be {}", i, m.kind, len, m.len())); }
            let (r2, l2, m2) = match meta { Meta::Flat(r, l, m) => (r, l, m), Meta::Mixed(r, (_, l, m)) => (r, l, m) };
            if let Some(Tr::Seq(t)) = &s.tree {
                if let Some((max, now, depth)) = t.capacity() {
                    let want = (m.max, m.max.unwrap_or((m.len() as u64).max(1).checked_next_power_of_two().unwrap_or(u64::MAX)));
                    if (max, now) != want || depth != model::depth_for(now) {
                        return self.cx.bad(Class::Bounds, format!("slot {} {:?}: maximum {:?}, current {} and depth {} for {} elements of at most {:?}", i, m.kind, max, now, depth, m.len(), m.max));
                    }
                }
            }
            if r2 != root || l2 != len || *m2 != m.max {
                return self.cx.bad(Class::Reopen, format!("slot {}: metadata {:?} do not describe root {} len {} max {:?}", i, meta, hx(root.as_ref()), len, m.max));
            }
        }
        Ok(())
    }

    fn root_of(&mut self, i: usize) -> Flow {
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        if s.unit_created { return Ok(()); }
        let want = match &s.model { Model::Seq(m) => hv(&m.root(C::INHERITED)), Model::Raw(n) => n.root() };
        let class = if s.kind().is_none() { Class::Raw } else { Class::Root };
        if want != *s.snap.root() {
            return self.cx.bad(class, format!("slot {} {:?}: root {} but its contents have root {}", i, s.kind(), hx(s.snap.root().as_ref()), hx(want.as_ref())));
        }
        Ok(())
    }

    fn store_checks(&mut self) -> Flow {
        if self.prop == "C04" { for (k, p) in self.ctl.borrow().log.iter() { self.known.insert(k.clone(), p.clone()); } }
        if self.want_needed {
            let roots = self.live_roots();
            if let Err(m) = self.needed.advance(&mut self.store, roots.iter()) { return self.cx.bad(Class::Reach, m); }
        }
        if self.want_garbage && !self.garbage_ok {
            let roots = self.live_roots();
            let (mut want, absent) = self.store.closure(roots.iter());
            let zero = V::default();
            want.insert(zero.clone());
            if let Some(k) = absent.iter().find(|k| **k != zero) {
                return self.cx.bad(Class::Reach, format!("root or node {} of a live tree is not in the store", hx(k.as_ref())));
            }
            let have = self.store.keys();
            if let Some(k) = have.difference(&want).next() {
                return self.cx.bad(Class::Garbage, format!("{} of {} nodes belong to no live tree, e.g. {}", have.difference(&want).count(), have.len(), hx(k.as_ref())));
            }
            if !have.contains(&zero) { return self.cx.bad(Class::Reach, "the zero value was removed".into()); }
        }
        Ok(())
    }

    fn is_finding(&mut self, i: usize, r: &Result<Out, Error<SimError>>, what: &str) -> bool {
        let unit = match &self.slots[i] { Some(s) => s.unit_created && matches!(&s.model, Model::Seq(m) if m.unwritten()), None => false };
        if unit && !C::INHERITED && matches!(r, Err(Error::CorruptedDatabase)) {
            if matches!(self.prop.as_str(), "C01" | "C03") { self.cx.findings.entry(F_UNIT).or_insert_with(|| format!("{} fails with CorruptedDatabase", what)); }
            self.cx.stats.probe("known:unit-created");
            return true;
        }
        false
    }

    /// Read everything (or a sample of a large tree) and compare with the model.
    fn read_all(&mut self, i: usize, class: Class) -> Flow {
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        if s.tree.is_none() { return Ok(()); }
        let ops: Vec<Op> = match &s.model {
            Model::Seq(m) => m.sample().into_iter().map(Op::Get).collect(),
            Model::Raw(_) => (1..32).map(Op::RGet).chain((0..63).step_by(5).map(|y| Op::RGet(raw_index(y * 29 + 7, 1)))).collect(),
        };
        for op in ops {
            let s = self.slots[i].as_mut().unwrap();
            let want = model_apply(&mut s.model, &mut self.store, &op);
            self.ctl.borrow_mut().step_calls = 0;
            let r = apply(s.tree.as_mut().unwrap(), &mut self.store, &op);
            if !same(&r, &want) && !self.is_finding(i, &r, "reading a never written element") {
                return self.cx.bad(class, format!("slot {} {:?}: {:?} gives {} instead of {}", i, self.slots[i].as_ref().unwrap().kind(), op, show(&r), showw(&want)));
            }
        }
        Ok(())
    }

    fn read_others(&mut self, i: usize, class: Class) -> Flow {
        for j in 0..self.slots.len() { if j != i { self.read_all(j, class)?; } }
        Ok(())
    }

    // ---- operations ------------------------------------------------------------------------------------------

    fn twin_run(&mut self, i: usize, op: &Op) -> (Result<Out, Error<SimError>>, Snap) {
        let s = self.slots[i].as_ref().unwrap();
        let mut t: Tr<C> = reopen_tree(s.kind(), s.owned, &s.take_snap());
        let mut copy = SimStore::<C> { real: self.store.real.clone(), ctl: Ctl::new(false) };
        let r = apply(&mut t, &mut copy, op);
        let snap = match &t { Tr::Seq(t) => Snap::Seq(t.len(), t.root(), t.meta()), Tr::Raw(r) => Snap::Raw(r.root()) };
        (r, snap)
    }

    fn do_op(&mut self, i: usize, op: Op, fault: Fault, c: u64) -> Flow {
        let before = {
            let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
            if s.tree.is_none() { return Ok(()); }
            s.take_snap()
        };
        let mut post = self.slots[i].as_ref().unwrap().model.clone();
        let want = model_apply(&mut post, &mut self.store, &op);
        let has_max = matches!(&post, Model::Seq(m) if m.max.is_some());
        let refused = want.is_err();
        let cc = self.content_class(i);
        let bclass = |r: &Result<Out, Error<SimError>>| -> Class {
            if refused || matches!(r, Err(Error::AccessOverflowed)) { if cc == Class::Content { Class::Bounds } else { cc } }
            else if want == Ok(Out::Popped(None)) && cc == Class::Content { Class::Bounds }
            else { cc }
        };
        let map_before = if self.prop == "C10" && !matches!(op, Op::Batch(..)) && (refused || want == Ok(Out::Popped(None))) { Some(self.store.real.clone()) } else { None };
        let twin = if self.twin && fault.kind != FaultKind::None {
            let t = self.twin_run(i, &op);
            if !same(&t.0, &want) {
                if self.is_finding(i, &t.0, "an operation") { return Ok(()); }
                return self.cx.bad(cc, format!("slot {}: {:?} without fault gives {} instead of {}", i, op, show(&t.0), showw(&want)));
            }
            Some(t)
        } else { None };

        self.ctl.borrow_mut().arm(fault);
        let mut r = apply(self.slots[i].as_mut().unwrap().tree.as_mut().unwrap(), &mut self.store, &op);
        let mut fired = self.ctl.borrow_mut().disarm();
        let on = self.ctl.borrow().fired_on;
        self.cx.say(|| format!("slot {} {:?} {:?} -> {}{}", i, self.slots[i].as_ref().unwrap().kind(), op, show(&r), if fired > 0 { format!(" [{} fired on {:?}]", fault.kind.name(), on) } else { String::new() }));
        if self.ctl.borrow().crashed { return self.recover(i, before, post, twin, c); }
        self.cost_of(i, &op)?;

        let mut tries = 0;
        while fired > 0 {
            self.cx.stats.probe("op with failed store call");
            if !injected(&r) {
                return self.cx.bad(Class::Atomic, format!("slot {}: {:?} answered {} although the store failed ({:?})", i, op, show(&r), on));
            }
            let now = self.slots[i].as_ref().unwrap().take_snap();
            if now != before {
                return self.cx.bad(Class::Atomic, format!("slot {}: failed {:?} changed the handle from {:?} to {:?}", i, op, before, now));
            }
            self.read_all(i, Class::Atomic)?;
            if c % 4 == 0 { self.read_others(i, Class::Atomic)?; }
            tries += 1;
            if fault.kind != FaultKind::None && (c >> 8) % 3 == 2 && tries == 1 {
                return self.after(i); // abandoned
            }
            let again = if tries <= (c >> 4) % 3 { Fault { kind: fault.kind, at: ((c >> 16) % 24) as u32, len: (c >> 24) as u32 % 3 } } else { Fault::NONE };
            self.ctl.borrow_mut().arm(again);
            r = apply(self.slots[i].as_mut().unwrap().tree.as_mut().unwrap(), &mut self.store, &op);
            fired = self.ctl.borrow_mut().disarm();
            self.cost_of(i, &op)?;
            self.cx.say(|| format!("   retry -> {} (fired {})", show(&r), fired));
        }

        if tries > 0 {
            if let Some((tr, ts)) = &twin {
                let now = self.slots[i].as_ref().unwrap().take_snap();
                if r != *tr || now != *ts {
                    return self.cx.bad(Class::Atomic, format!("slot {}: {:?} retried after a store failure gives {} and {:?}, without the failure {} and {:?}", i, op, show(&r), now, show(tr), ts));
                }
                self.cx.stats.probe("retry equals fault-free twin");
            }
        }
        if !same(&r, &want) {
            if self.is_finding(i, &r, "an operation on an element that was created but never written") {
                let now = self.slots[i].as_ref().unwrap().take_snap();
                if now != before { return self.cx.bad(cc, format!("slot {}: refused {:?} changed the handle", i, op)); }
                self.batch_leftovers(i, &op);
                return self.after(i);
            }
            let class = if tries > 0 && twin.is_none() && cc != Class::Reopen && self.prop == "C08" { Class::Atomic } else { bclass(&r) };
            return self.cx.bad(class, format!("slot {} {:?}: {:?} gives {} instead of {}", i, self.slots[i].as_ref().unwrap().kind(), op, show(&r), showw(&want)));
        }
        let s = self.slots[i].as_mut().unwrap();
        if want.is_ok() { s.model = post; }
        if refused || want == Ok(Out::Popped(None)) {
            self.cx.stats.probe("operation refused");
            let now = self.slots[i].as_ref().unwrap().take_snap();
            if now != before {
                return self.cx.bad(Class::Bounds, format!("slot {}: refused {:?} changed the handle from {:?} to {:?}", i, op, before, now));
            }
            if let Some(old) = map_before {
                if old.as_ref() != self.store.real.as_ref() && tries == 0 {
                    let (a, b): (BTreeSet<_>, BTreeSet<_>) = (old.as_ref().keys().collect(), self.store.real.as_ref().keys().collect());
                    if a != b { return self.cx.bad(Class::Bounds, format!("slot {}: refused {:?} changed the store from {} to {} nodes", i, op, a.len(), b.len())); }
                }
            }
        }
        if has_max && tries == 0 { self.cx.stats.probe("op on bounded sequence"); }
        self.batch_leftovers(i, &op);
        if self.prop == "C20" { self.proof_of(i, &op)?; }
        self.after(i)
    }

    // ---- cost (C20) ------------------------------------------------------------------------------------------

    /// Depth of the leaves of slot `i`, before or after an element more, and how many nodes one item touches.
    fn shape(&self, i: usize) -> (u64, u64) {
        match self.slots[i].as_ref().map(|s| &s.model) {
            Some(Model::Seq(m)) => {
                let cap = m.max.unwrap_or((m.len() as u64).saturating_add(2));
                let leaves = leaves_for(m.kind, cap).min(1 << 63) as u64;
                let nodes = if m.kind.packed() { m.kind.width() as u64 / 32 + 2 } else { 1 };
                (model::depth_for(leaves) as u64 + m.kind.mixed() as u64, nodes)
            }
            _ => (0, 1),
        }
    }

    /// The last operation made no more store calls than its depth justifies, with a wide margin.
    fn cost_of(&mut self, i: usize, op: &Op) -> Flow {
        if self.prop != "C20" { return Ok(()); }
        let (d, k) = self.shape(i);
        let bits = |j: usize| route(j).len() as u64;
        let (read, d, n) = match op {
            Op::Get(_) => (true, d, 1),
            Op::RGet(j) => (true, bits(*j), 1),
            Op::RSub(j, l) => (true, bits(*j) + bits(*l), 1),
            Op::RSet(j, _) => (false, bits(*j), 1),
            Op::Batch(ops, _) => (false, d, ops.len() as u64 + 1),
            Op::Set(..) => (false, d, 1), Op::Push(_) => (false, d, 1), Op::Pop => (false, d, 1),
        };
        let most = n * if read { read_cost(d, k) } else { write_cost(d, k) };
        self.cost(most, || format!("slot {}: {:?} (leaves at depth {})", i, op, d))
    }

    fn cost<S: FnOnce() -> String>(&mut self, most: u64, what: S) -> Flow {
        if self.prop != "C20" { return Ok(()); }
        let spent = self.ctl.borrow().spent as u64;
        if spent > most { return self.cx.bad(Class::Cost, format!("{} makes {} store calls; {} would do several times over", what(), spent, most)); }
        Ok(())
    }

    /// What is recorded while one element is read lies on the paths from the root to it.
    fn proof_of(&mut self, i: usize, op: &Op) -> Flow {
        let (first, last, d) = match (op, &self.slots[i].as_ref().unwrap().model) {
            (Op::Get(j), Model::Seq(m)) if *j < m.len() => {
                let w = m.kind.width() as u128;
                let (a, b) = if m.kind.packed() { (*j as u128 * w / 32, ((*j as u128 + 1) * w - 1) / 32) } else { (*j as u128, *j as u128) };
                let leaves = leaves_for(m.kind, m.max.unwrap_or(m.len() as u64)) as u64;
                let depth = model::depth_for(leaves);
                // a list keeps its elements left of the root
                (a, b, depth + m.kind.mixed() as usize)
            }
            (Op::RGet(j), _) => { let n = route(*j).len(); (*j as u128 & ((1u128 << n) - 1), *j as u128 & ((1u128 << n) - 1), n) }
            _ => return Ok(()),
        };
        self.ctl.borrow_mut().arm(Fault::NONE);
        let s = self.slots[i].as_mut().unwrap();
        let root = s.take_snap().root().clone();
        let mut rec = bm::ProvingBackend::new(&mut self.store);
        let r = apply(s.tree.as_mut().unwrap(), &mut rec, op);
        let got: std::collections::HashMap<V, (V, V)> = bm::Proofs::from(rec).into();
        self.ctl.borrow_mut().disarm();
        if r.is_err() { return Ok(()); }
        let mut path = BTreeSet::new();
        for leaf in first..=last {
            let mut at = root.clone();
            for h in (0..d).rev() {
                path.insert(at.clone());
                match self.store.peek(&at) { Some((l, r)) => at = if (leaf >> h) & 1 == 1 { r } else { l }, None => break }
            }
        }
        self.cx.stats.probe("proof of one element");
        if let Some(x) = got.keys().find(|x| !path.contains(*x)) {
            return self.cx.bad(Class::Cost, format!("slot {}: the proof of {:?} has {} nodes, of which {} is not on the way from the root to what was read ({} nodes)", i, op, got.len(), hx(x.as_ref()), path.len()));
        }
        Ok(())
    }

    /// The recorded finding about several operations inside one `with_mut`.
    fn batch_leftovers(&mut self, i: usize, op: &Op) {
        if !matches!(op, Op::Batch(ops, fail) if ops.len() > 1 || *fail) || !self.want_garbage { return; }
        let slot = self.slots[i].as_mut().unwrap();
        slot.snap = slot.take_snap();
        let roots = self.live_roots();
        let (want, _) = self.store.closure(roots.iter());
        let zero = V::default();
        if self.store.keys().iter().any(|k| *k != zero && !want.contains(k)) {
            self.cx.findings.entry(F_BATCH).or_insert_with(|| "several operations in one with_mut leave the nodes of the intermediate states behind".into());
            self.garbage_ok = true;
        }
    }

    /// The process died inside an operation on slot `i`: only the store survives, and what clients noted durably.
    fn recover(&mut self, i: usize, before: Snap, post: Model, twin: Option<(Result<Out, Error<SimError>>, Snap)>, c: u64) -> Flow {
        self.ctl.borrow_mut().crashed = false;
        self.cx.stats.probe("crash inside operation");
        let roots = self.ctl.borrow().roots.clone();
        let zero = V::default();
        let mut used: std::collections::BTreeMap<V, i64> = Default::default();
        for (j, s) in self.slots.iter().enumerate() {
            if j == i { continue; }
            if let Some(s) = s { if s.owned { *used.entry(s.snap.root().clone()).or_insert(0) += 1; } }
        }
        for (k, n) in &used {
            if *k != zero && roots.get(k).copied().unwrap_or(0) < *n {
                return self.cx.bad(Class::Crash, format!("after the crash, root {} of another tree is registered {} times but {} trees own it", hx(k.as_ref()), roots.get(k).copied().unwrap_or(0), n));
            }
        }
        let free = |k: &V| *k == zero || roots.get(k).copied().unwrap_or(0) > used.get(k).copied().unwrap_or(0);
        let after_snap = twin.map(|t| t.1).unwrap_or_else(|| before.clone());
        let (pre_ok, post_ok) = (free(before.root()), free(after_snap.root()));
        if !pre_ok && !post_ok {
            return self.cx.bad(Class::Crash, format!("after the crash, neither the old root {} nor the new root {} of slot {} is registered", hx(before.root().as_ref()), hx(after_snap.root().as_ref()), i));
        }
        if pre_ok && post_ok && before != after_snap { self.cx.stats.probe("crash: both versions registered"); }
        let take_post = post_ok && (!pre_ok || (c & 1 == 1 && before.root() != after_snap.root()));
        self.cx.stats.probe(if take_post { "crash: recovered new version" } else { "crash: recovered old version" });
        self.cx.say(|| format!("   crash; recovering the {} version", if take_post { "new" } else { "old" }));
        // everything in memory is gone
        for j in 0..self.slots.len() {
            if let Some(s) = self.slots[j].as_mut() {
                if j == i {
                    s.snap = if take_post { after_snap.clone() } else { before.clone() };
                    if take_post { s.model = post.clone(); }
                }
                s.tree = Some(reopen_tree(s.kind(), s.owned, &s.snap));
            }
        }
        for j in 0..self.slots.len() { self.read_all(j, Class::Crash)?; }
        self.lens(i)?;
        Ok(())
    }

    /// A failed store call that was not reported concerns C06 as much as C09.
    fn store_class(&self) -> Class { if self.prop == "C06" { Class::Atomic } else { Class::Reopen } }

    fn reopen(&mut self, i: usize, how: u64, fault: Fault) -> Flow {
        let Some(s) = self.slots[i].as_mut() else { return Ok(()) };
        let kind = s.kind();
        let snap = s.take_snap();
        let owned = s.owned;
        let old = s.tree.take();
        // give up (by one of the ways the library offers)
        match old {
            Some(Tr::Seq(t)) if how % 5 == 4 => {
                self.ctl.borrow_mut().arm(fault);
                let r = t.deconstruct(&mut self.store);
                let fired = self.ctl.borrow_mut().disarm();
                self.cost(read_cost(2, 1), || format!("taking slot {} apart", i))?;
                match r {
                    _ if fired > 0 => {
                        self.cx.stats.probe("deconstruct attempt failed");
                        if !injected(&r) { return self.cx.bad(self.store_class(), format!("slot {}: deconstruct ignored a failed store call", i)); }
                    }
                    Ok(v) if v == *snap.root() => {}
                    other => return self.cx.bad(Class::Reopen, format!("slot {}: deconstruct gives {:?} instead of root {}", i, other, hx(snap.root().as_ref()))),
                }
            }
            Some(Tr::Seq(t)) if how % 5 == 2 || how % 5 == 3 => {
                let v = t.into_root();
                if v != *snap.root() { return self.cx.bad(Class::Reopen, format!("slot {}: raw tree has root {} instead of {}", i, hx(v.as_ref()), hx(snap.root().as_ref()))); }
            }
            _ => {}
        }
        let max = match &snap { Snap::Seq(_, _, Meta::Flat(_, _, m)) => *m, Snap::Seq(_, _, Meta::Mixed(_, (_, _, m))) => *m, _ => None };
        let len = match &snap { Snap::Seq(l, _, _) => *l, _ => 0 };
        if kind == Some(Kind::List) {
            // what it takes for the root of the items is a recorded finding; the rest is as it was told
            let t = seq::list_from_raw::<C>(snap.root().clone(), len, max);
            let said = match t.meta() { Meta::Mixed(r, (_, l, m)) => r == *snap.root() && l == len && m == max, _ => false };
            if !said || t.len() != len { return self.cx.bad(Class::Reopen, format!("slot {}: a list made from the raw tree {} with {} elements of {:?} is {:?}", i, hx(snap.root().as_ref()), len, max, t.meta())); }
        }
        let tree: Tr<C> = match kind {
            Some(k) if k.from_root() && (how % 5 == 1 || how % 5 >= 3) => {
                self.ctl.borrow_mut().arm(fault);
                let mut r = seq::from_root::<C>(k, owned, snap.root().clone(), &mut self.store, max);
                let fired = self.ctl.borrow_mut().disarm();
                self.cost(read_cost(2, 1), || format!("reopening slot {}", i))?;
                if fired > 0 {
                    self.cx.stats.probe("reopen attempt failed");
                    if !injected(&r) { return self.cx.bad(self.store_class(), format!("slot {}: reopening ignored a failed store call", i)); }
                    r = seq::from_root::<C>(k, owned, snap.root().clone(), &mut self.store, max);
                }
                match r {
                    Ok(t) => Tr::Seq(t),
                    Err(e) => return self.cx.bad(Class::Reopen, format!("slot {}: reopening from root {} fails with {:?}", i, hx(snap.root().as_ref()), e)),
                }
            }
            Some(k @ (Kind::Vector | Kind::PVec(_))) if how % 5 != 0 => Tr::Seq(seq::from_raw::<C>(k, owned, snap.root().clone(), len, max, how % 2 == 0)),
            _ => reopen_tree(kind, owned, &snap),
        };
        let s = self.slots[i].as_mut().unwrap();
        s.tree = Some(tree);
        s.reopened = true;
        let now = s.take_snap();
        self.cx.say(|| format!("slot {} reopened (way {})", i, how % 5));
        if now != snap { return self.cx.bad(Class::Reopen, format!("slot {}: reopened as {:?}, given up as {:?}", i, now, snap)); }
        self.cx.stats.probe("reopened");
        self.read_all(i, Class::Reopen)?;
        self.after(i)
    }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % self.slots.len();
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        let kind = self.slots[i].as_ref().map(|s| s.kind());
        let is_raw = kind == Some(None);
        let len = match self.slots[i].as_ref().map(|s| &s.model) { Some(Model::Seq(m)) => m.len(), _ => 0 };
        let width = match kind { Some(Some(k)) => k.width(), _ => 32 };
        if self.lost {
            // while nodes are missing only reading, popping and reopening say anything
            return match st.op {
                LOSE => { self.lose(st.a, st.b); Ok(()) }
                FOUND => self.found(),
                REOPEN => self.reopen_lossy(i),
                GET | SET if is_raw => self.read_lossy(i, Op::RGet(raw_index(st.b, 127))),
                RSUB if is_raw => self.read_lossy(i, Op::RSub((st.a % 31) as usize + 1, (st.b % 15) as usize + 1)),
                GET if len > 0 => self.read_lossy(i, Op::Get(position(st.b, len))),
                POP if !is_raw => self.read_lossy(i, Op::Pop),
                READALL => {
                    for x in 0..len.min(64) { self.read_lossy(i, Op::Get(x))?; }
                    if is_raw { for x in 1..32 { self.read_lossy(i, Op::RGet(x))?; } }
                    Ok(())
                }
                _ => Ok(()),
            };
        }
        match st.op {
            CREATE => {
                if self.slots[i].is_some() { return Ok(()); }
                if st.a == 99 {
                    self.slots[i] = Some(Slot {
                        tree: Some(Tr::Raw(RawT::O(Raw::default()))), snap: Snap::Raw(V::default()), model: Model::Raw(RNode::Leaf(V::default())),
                        owned: true, guard: None, unit_created: false, reopened: false,
                    });
                    return self.after(i);
                }
                let kind = Kind::decode(st.a);
                // lists are assembled from a vector and its length
                let made = C::INHERITED && (st.b >= 4096 || st.b % 3 == 2);
                let len = if kind.can_create_len() || kind == Kind::LMix || made { st.b as usize } else { 0 };
                let max = if st.c == 0 { None } else { Some(st.c) };
                self.create(i, kind, len, max, st.fault)
            }
            BADCREATE => {
                // longer than the maximum, or a maximum of zero
                if self.slots[i].is_some() { return Ok(()); }
                let kind = Kind::decode(st.a);
                let (len, max) = if (kind.can_create_len() || kind == Kind::LMix) && st.b > 0 { ((st.c + st.b) as usize, st.c) } else { (0, 0) };
                let before = self.store.real.clone();
                let r = seq::create::<C>(kind, &mut self.store, len, Some(max));
                let ok = matches!(r, Err(Error::InvalidParameter));
                if !ok { return self.cx.bad(Class::Bounds, format!("creating {:?} with length {} and maximum {} is not refused", kind, len, max)); }
                self.cx.stats.probe("creation refused");
                if before.as_ref() != self.store.real.as_ref() { return self.cx.bad(Class::Bounds, "a refused creation changed the store".into()); }
                Ok(())
            }
            PUSH => {
                if is_raw { return self.raw_set(i, st); }
                let v = self.value(width, st.a);
                self.do_op(i, Op::Push(v), st.fault, st.c)
            }
            POP => {
                if is_raw { return self.raw_set(i, st); }
                if len == 0 { self.cx.stats.probe("pop on empty"); }
                self.do_op(i, Op::Pop, st.fault, st.c)
            }
            SET => {
                if is_raw { return self.raw_set(i, st); }
                if len == 0 { return Ok(()); }
                let v = self.value(width, st.a);
                self.do_op(i, Op::Set(position(st.b, len), v), st.fault, st.c)
            }
            GET => {
                if is_raw { return self.do_op(i, Op::RGet(raw_index(st.b, 127)), st.fault, st.c); }
                if len == 0 { return Ok(()); }
                self.do_op(i, Op::Get(position(st.b, len)), st.fault, st.c)
            }
            RSUB => {
                if !is_raw { return Ok(()); }
                self.do_op(i, Op::RSub((st.a % 31) as usize + 1, (st.b % 15) as usize + 1), st.fault, st.c)
            }
            READALL => { let c = self.content_class(i); self.read_all(i, c) }
            PUSHN | POPN => {
                if is_raw { return Ok(()); }
                for j in 0..(st.a % 48) {
                    let op = if st.op == PUSHN { let v = self.value(width, mix(st.b.wrapping_add(j)) % (st.c.max(1) * 16)); Op::Push(v) } else { Op::Pop };
                    self.do_op(i, op, Fault::NONE, 0)?;
                }
                Ok(())
            }
            OUTSIDE => {
                if is_raw { return Ok(()); }
                let far = [len, len.saturating_add(1), len.saturating_add(31), usize::MAX / [256, 1][len % 2], len.checked_next_power_of_two().unwrap_or(usize::MAX), len.saturating_add(st.a as usize % 40)][st.b as usize % 6];
                let far = far.max(len);
                let v = self.value(width, st.a);
                self.do_op(i, if st.c & 1 == 0 { Op::Get(far) } else { Op::Set(far, v) }, Fault::NONE, 0)
            }
            BATCH => {
                if kind != Some(Some(Kind::LMix)) { return Ok(()); }
                let mut ops = Vec::new();
                for j in 0..(st.a % 5) {
                    let x = mix(st.b.wrapping_add(j * 7919));
                    let v = self.value(32, (x >> 8) % 9);
                    ops.push(match x % 4 { 0 | 1 => BOp::Push(v), 2 => BOp::Pop, _ => BOp::Set((x >> 40) as usize % len.saturating_add(1), v) });
                }
                self.do_op(i, Op::Batch(ops, (st.b >> 60) & 3 == 0), st.fault, st.c)
            }
            REOPEN => self.reopen(i, st.a, st.fault),
            PARK => {
                if let Some(s) = self.slots[i].as_mut() { s.snap = s.take_snap(); s.tree = None; }
                Ok(())
            }
            KILL => {
                // a process dies between operations: all handles are gone at once
                for j in 0..self.slots.len() { if let Some(s) = self.slots[j].as_mut() { s.snap = s.take_snap(); s.tree = None; } }
                for j in 0..self.slots.len() { self.reopen(j, st.a.wrapping_add(mix(j as u64)), Fault::NONE)?; }
                Ok(())
            }
            DROP => self.drop_slot(i),
            MIRROR => {
                let j = (st.a as usize) % self.slots.len();
                if j == i || self.slots[j].is_some() { return Ok(()); }
                let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
                if !s.owned { return Ok(()); }
                let (kind, snap, model, uc) = (s.kind(), s.take_snap(), s.model.clone(), s.unit_created);
                if let Err(e) = self.store.rootify(snap.root()) { return self.cx.bad(Class::Content, format!("rootify: {:?}", e)); }
                self.slots[j] = Some(Slot { tree: Some(reopen_tree(kind, true, &snap)), snap, model, owned: true, guard: None, unit_created: uc, reopened: false });
                self.after(j)
            }
            DANGLE => {
                let j = (st.a as usize) % self.slots.len();
                if j == i || self.slots[j].is_some() || self.want_garbage { return Ok(()); }
                let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
                let (kind, snap, model, uc) = (s.kind(), s.take_snap(), s.model.clone(), s.unit_created);
                let mut guard = Raw::<Owned, C>::default();
                if let Err(e) = guard.set(&mut self.store, Index::root(), snap.root().clone()) { return self.cx.bad(Class::Content, format!("guard: {:?}", e)); }
                self.slots[j] = Some(Slot { tree: Some(reopen_tree(kind, false, &snap)), snap, model, owned: false, guard: Some(guard), unit_created: uc, reopened: false });
                self.cx.stats.probe("dangling tree");
                self.after(j)
            }
            REBUILD => {
                // a new tree with the contents of another one, element by element (shares all its nodes)
                let j = (st.a as usize) % self.slots.len();
                if j == i || self.slots[j].is_some() { return Ok(()); }
                let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
                let Model::Seq(m) = s.model.clone() else { return Ok(()) };
                if m.len() > 600 { return Ok(()); }
                self.create(j, m.kind, 0, m.max, Fault::NONE)?;
                for x in 0..m.len() { self.do_op(j, Op::Push(m.at(x)), Fault::NONE, 0)?; }
                if self.cx.classes.contains(&Class::Root) && !s_unit(&self.slots[i]) {
                    let (a, b) = (self.slots[i].as_ref().unwrap().snap.root().clone(), self.slots[j].as_ref().unwrap().snap.root().clone());
                    if a != b { return self.cx.bad(Class::Root, format!("slots {} and {} have equal contents but roots {} and {}", i, j, hx(a.as_ref()), hx(b.as_ref()))); }
                }
                Ok(())
            }
            LOSE => { self.lose(st.a, st.b); Ok(()) }
            FOUND => self.found(),
            POPULATE => self.populate(st.a, st.b),
            STORM => self.storm(i, st.a, st.b, st.c),
            _ => Ok(()),
        }
    }

    /// Nodes known from a proof arrive in the store while trees live in it.
    fn populate(&mut self, seed: u64, density: u64) -> Flow {
        if self.prop != "C04" { return Ok(()); }
        let mut proof = std::collections::HashMap::new();
        for (k, p) in &self.known {
            if mix(seed ^ v8(k)) % 100 < [2, 10, 30, 100][density as usize % 4] { proof.insert(k.clone(), p.clone()); }
        }
        if proof.is_empty() { return Ok(()); }
        self.cx.stats.probe("populated live store");
        self.cx.say(|| format!("populated with {} nodes", proof.len()));
        // known from now on, and needed where a live tree reaches it
        for (k, p) in &proof { self.ctl.borrow_mut().log.push((k.clone(), p.clone())); }
        self.store.real.populate(proof);
        self.store_checks()
    }

    /// The tree of slot `i` is held by hundreds of other trees for a while: as their root, or as a part of them.
    fn storm(&mut self, i: usize, a: u64, b: u64, c: u64) -> Flow {
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        if !s.owned { return Ok(()); }
        let root = s.take_snap().root().clone();
        let n = if b % 97 == 5 { 65_600 } else { [257u64, 300, 513, 1030][(b >> 8) as usize % 4] };
        self.cx.stats.probe(if n > 2000 { "held by 65600 trees" } else { "held by hundreds of trees" });
        self.cx.say(|| format!("slot {} is held by {} trees", i, n));
        let mut hold = Vec::new();
        for j in 0..n {
            self.ctl.borrow_mut().arm(Fault::NONE);
            let mut t = Raw::<Owned, C>::default();
            let r = if a % 2 == 0 { t.set(&mut self.store, Index::root(), root.clone()) } else {
                let mut leaf = V::default();
                leaf.as_mut()[..8].copy_from_slice(&(j + 1).to_le_bytes());
                leaf.as_mut()[31] = 0x5a;
                // on either side, in nodes that nobody else has
                let (l, r) = if c >> 40 & 1 == 0 { (root.clone(), leaf) } else { (leaf, root.clone()) };
                t.set(&mut self.store, Index::root().left(), l).and_then(|_| t.set(&mut self.store, Index::root().right(), r))
            };
            if let Err(e) = r { return self.cx.bad(Class::Content, format!("holding a tree gives {:?}", e)); }
            hold.push(t);
        }
        // released in another order
        if c % 3 == 1 { hold.reverse(); }
        if c % 3 == 2 { let k = hold.len() / 3; hold.rotate_left(k); }
        for (j, t) in hold.into_iter().enumerate() {
            self.ctl.borrow_mut().arm(Fault::NONE);
            if let Err(e) = t.drop(&mut self.store) { return self.cx.bad(Class::Content, format!("dropping a holder gives {:?}", e)); }
            if j == (c >> 8) as usize % n as usize && !self.want_garbage { self.read_all(i, Class::Reach)?; }
        }
        self.store_checks()
    }

    fn raw_set(&mut self, i: usize, st: &Step) -> Flow {
        let v = self.vvalue(st.a);
        let idx = if st.b % 23 == 0 { 1 } else { raw_index(st.b / 23, 63) };
        self.do_op(i, Op::RSet(idx, v), st.fault, st.c)
    }

    fn create(&mut self, i: usize, kind: Kind, len: usize, max: Option<u64>, fault: Fault) -> Flow {
        let len = match max { Some(m) => len.min(m as usize), None => len };
        let too_large = leaves_for(kind, max.unwrap_or(len as u64)) > 1 << 63;
        let before = if too_large { Some(self.store.real.clone()) } else { None };
        let assemble = len > 0 && !kind.can_create_len() && kind != Kind::LMix;
        self.ctl.borrow_mut().arm(if assemble { Fault::NONE } else { fault });
        let mut r = if assemble { seq::assemble::<C>(kind, &mut self.store, len, max) } else { seq::create::<C>(kind, &mut self.store, len, max) };
        if assemble { self.cx.stats.probe(if len >= 4096 { "long list assembled" } else { "list assembled" }); }
        let fired = self.ctl.borrow_mut().disarm();
        let depth = model::depth_for(leaves_for(kind, max.unwrap_or(len as u64)).min(1 << 63) as u64) as u64 + 1;
        self.cost(write_cost(depth, 1), || format!("creating {:?} with length {} and maximum {:?}", kind, len, max))?;
        if fired > 0 {
            if !injected(&r) { return self.cx.bad(Class::Atomic, format!("creating {:?} ignored a failed store call", kind)); }
            self.read_others(99, Class::Atomic)?;
            self.cx.stats.probe("create with failed store call");
            r = seq::create::<C>(kind, &mut self.store, len, max);
        }
        if let Some(before) = before {
            if !matches!(r, Err(Error::InvalidParameter)) { return self.cx.bad(Class::Bounds, format!("creating {:?} with length {} and maximum {:?}, which no index reaches, is not refused", kind, len, max)); }
            if before.as_ref() != self.store.real.as_ref() { return self.cx.bad(Class::Bounds, "a refused creation changed the store".into()); }
            self.cx.stats.probe("creation beyond the range of indices refused");
            return Ok(());
        }
        match r {
            Ok(t) => {
                self.cx.say(|| format!("slot {} created {:?} len {} max {:?}", i, kind, len, max));
                let snap = Snap::Seq(t.len(), t.root(), t.meta());
                self.slots[i] = Some(Slot { tree: Some(Tr::Seq(t)), snap, model: Model::Seq(MSeq::new(kind, len, max)), owned: true, guard: None, unit_created: !C::INHERITED && len > 0, reopened: false });
                self.after(i)
            }
            Err(e) => self.cx.bad(Class::Bounds, format!("creating {:?} with length {} and maximum {:?} fails with {:?}", kind, len, max, e)),
        }
    }

    fn drop_slot(&mut self, i: usize) -> Flow {
        let Some(mut s) = self.slots[i].take() else { return Ok(()) };
        let t = s.tree.take().unwrap_or_else(|| reopen_tree(s.kind(), s.owned, &s.snap));
        self.ctl.borrow_mut().arm(Fault::NONE);
        let r = match t {
            Tr::Seq(t) => t.drop_tree(&mut self.store),
            Tr::Raw(RawT::O(t)) => t.drop(&mut self.store),
            Tr::Raw(RawT::D(t)) => t.drop(&mut self.store),
        };
        self.ctl.borrow_mut().disarm();
        self.cost(read_cost(0, 1), || format!("dropping slot {}", i))?;
        if let Err(e) = r { return self.cx.bad(Class::Content, format!("dropping slot {} fails with {:?}", i, e)); }
        if let Some(g) = s.guard { if let Err(e) = g.drop(&mut self.store) { return self.cx.bad(Class::Content, format!("guard: {:?}", e)); } }
        self.store_checks()
    }

    // ---- lost nodes (C14) ------------------------------------------------------------------------------------

    fn lose(&mut self, seed: u64, density: u64) {
        let keys: Vec<V> = self.store.keys().into_iter().collect();
        let mut c = self.ctl.borrow_mut();
        let mut n = 0;
        for k in keys {
            if k == V::default() { continue; }
            let hit = mix(seed ^ v8(&k)) % 100 < [3, 10, 30, 70, 100][density as usize % 5];
            if hit && c.lost.insert(k) { n += 1; }
        }
        drop(c);
        if n > 0 { self.lost = true; self.cx.stats.fire("lost:nodes"); }
    }

    fn found(&mut self) -> Flow {
        self.ctl.borrow_mut().lost.clear();
        self.lost = false;
        for j in 0..self.slots.len() { self.read_all(j, Class::Lost)?; }
        Ok(())
    }

    /// Reads while nodes are missing: the exact value or an error, and the handle stays as it was.
    fn read_lossy(&mut self, i: usize, op: Op) -> Flow {
        let Some(s) = self.slots[i].as_mut() else { return Ok(()) };
        if s.tree.is_none() { return Ok(()); }
        let before = s.take_snap();
        let mut post = s.model.clone();
        let want = model_apply(&mut post, &mut self.store, &op);
        self.ctl.borrow_mut().arm(Fault::NONE);
        let s = self.slots[i].as_mut().unwrap();
        let r = apply(s.tree.as_mut().unwrap(), &mut self.store, &op);
        self.cx.say(|| format!("slot {} {:?} with lost nodes -> {}", i, op, show(&r)));
        let s = self.slots[i].as_mut().unwrap();
        let now = s.take_snap();
        match &r {
            Ok(Out::RGot(None)) => self.cx.stats.probe("lost: absent"),
            Ok(_) if same(&r, &want) => { self.cx.stats.probe("lost: exact value"); if matches!(op, Op::Pop) { s.model = post; return self.after(i); } }
            Ok(_) => return self.cx.bad(Class::Lost, format!("slot {} {:?}: with lost nodes {:?} gives {} instead of {} or an error", i, self.slots[i].as_ref().unwrap().kind(), op, show(&r), showw(&want))),
            Err(Error::CorruptedDatabase) | Err(Error::Backend(_)) => self.cx.stats.probe("lost: reported"),
            Err(_) if same(&r, &want) => {}
            Err(e) => return self.cx.bad(Class::Lost, format!("slot {}: with lost nodes {:?} is refused with {:?}", i, op, e)),
        }
        if now != before { return self.cx.bad(Class::Lost, format!("slot {}: {:?} with lost nodes changed the handle from {:?} to {:?}", i, op, before, now)); }
        Ok(())
    }

    fn reopen_lossy(&mut self, i: usize) -> Flow {
        let Some(s) = self.slots[i].as_mut() else { return Ok(()) };
        let Some(k) = s.kind() else { return Ok(()) };
        if !k.from_root() { return Ok(()); }
        let snap = s.take_snap();
        let owned = s.owned;
        let max = match &s.model { Model::Seq(m) => m.max, _ => None };
        match seq::from_root::<C>(k, owned, snap.root().clone(), &mut self.store, max) {
            Ok(t) => {
                let now = Snap::Seq(t.len(), t.root(), t.meta());
                if now != snap { return self.cx.bad(Class::Lost, format!("slot {}: reopened with lost nodes as {:?}, given up as {:?}", i, now, snap)); }
                self.slots[i].as_mut().unwrap().tree = Some(Tr::Seq(t));
                self.cx.stats.probe("lost: reopened");
            }
            Err(_) => self.cx.stats.probe("lost: reopen reported"),
        }
        Ok(())
    }

    // ---- begin and end ---------------------------------------------------------------------------------------

    /// Some C04 runs start on a store that was populated from a proof: nodes known only as unexplored hashes.
    fn prelude(&mut self, plan: &Plan) -> Flow {
        if plan.cfg(1) == 0 { return Ok(()); }
        let seed = plan.cfg(2);
        let kind = Kind::decode(plan.cfg(1) - 1);
        let mut donor = SimStore::<C>::new(false);
        let mut t = match seq::create::<C>(kind, &mut donor, 0, None) { Ok(t) => t, Err(e) => return self.cx.bad(Class::Content, format!("{:?}", e)) };
        let mut m = MSeq::new(kind, 0, None);
        for j in 0..(seed % 13 + 1) {
            let v = self.value(kind.width(), mix(seed.wrapping_add(j)) % 9);
            if let Err(e) = t.push(&mut donor, &v) { return self.cx.bad(Class::Content, format!("{:?}", e)); }
            m.push(&v);
        }
        let mut known = std::collections::HashMap::new();
        for (k, e) in donor.real.as_ref() {
            if let (Some(p), true) = (&e.0, mix(seed ^ v8(k)) % 100 < plan.cfg(3)) { known.insert(k.clone(), p.clone()); }
        }
        self.cx.stats.probe("populated store");
        for (k, p) in &known { self.needed.map.insert(k.clone(), p.clone()); }
        self.store.real.populate(known);
        let snap = Snap::Seq(t.len(), t.root(), t.meta());
        // the tree is registered, and a second client rebuilds it element by element
        if self.store.rootify(snap.root()).is_err() { return Ok(()); }
        self.slots[0] = Some(Slot { tree: None, snap, model: Model::Seq(m.clone()), owned: true, guard: None, unit_created: false, reopened: false });
        self.create(1, kind, 0, None, Fault::NONE)?;
        for x in 0..m.len() { self.do_op(1, Op::Push(m.at(x)), Fault::NONE, 0)?; }
        // now every node has been written while the first tree was alive
        let s = self.slots[0].as_mut().unwrap();
        s.tree = Some(reopen_tree(Some(kind), true, &s.snap));
        let root = s.snap.root().clone();
        if root != *self.slots[1].as_ref().unwrap().snap.root() { return self.cx.bad(Class::Root, "rebuilt tree has another root".into()); }
        self.read_all(0, Class::Reach)
    }

    fn finale(&mut self) -> Flow {
        self.ctl.borrow_mut().lost.clear();
        self.lost = false;
        for i in 0..self.slots.len() {
            if self.slots[i].as_ref().map(|s| s.tree.is_none()).unwrap_or(false) { self.reopen(i, i as u64, Fault::NONE)?; }
            let c = self.content_class(i);
            let c = match self.prop.as_str() { "C06" if c == Class::Content => Class::Content, "C14" => Class::Lost, "C07" => Class::Crash, _ => c };
            self.read_all(i, c)?;
            if self.slots[i].is_some() && !matches!(self.prop.as_str(), "C14") && self.want_root { self.root_of(i)?; }
        }
        if self.want_garbage {
            for i in 0..self.slots.len() { self.drop_slot(i)?; }
            if !self.garbage_ok && self.store.size() != 1 {
                return self.cx.bad(Class::Garbage, format!("{} nodes are left after all trees were dropped", self.store.size() - 1));
            }
            self.cx.stats.probe("store empty at the end");
        }
        Ok(())
    }
}

fn s_unit<C: Cons>(s: &Option<Slot<C>>) -> bool { s.as_ref().map(|s| s.unit_created).unwrap_or(false) }

pub fn show(r: &Result<Out, Error<SimError>>) -> String {
    match r { Ok(o) => showo(o), Err(e) => format!("{:?}", e) }
}
fn showw(r: &Result<Out, No>) -> String { match r { Ok(o) => showo(o), Err(e) => format!("refusal ({:?})", e) } }
fn showo(o: &Out) -> String {
    match o {
        Out::Done => "ok".into(), Out::Popped(Some(b)) => format!("popped {}", hx(b)), Out::Popped(None) => "nothing".into(),
        Out::Got(b) => hx(b), Out::RGot(Some(v)) => hx(v.as_ref()), Out::RGot(None) => "absent".into(),
    }
}

// ---- plans -----------------------------------------------------------------------------------------------------

pub fn pick_kind(r: &mut Rng, pool: &[u64]) -> u64 {
    let k = *r.pick(pool);
    match k {
        10 => 10 + r.below(WIDTHS.len() as u64),
        30 => 30 + r.below(WIDTHS.len() as u64),
        // often: items that share or straddle nodes
        11 => 10 + *r.pick(&[0, 2, 4, 5, 7, 9, 5, 9, 10, 11, 12, 13, 14]),
        31 => 30 + *r.pick(&[0, 2, 4, 5, 7, 9, 5, 9, 10, 11, 12, 13, 14]),
        k => k,
    }
}

pub fn pick_fault(r: &mut Rng, kinds: &[FaultKind]) -> Fault {
    if kinds.is_empty() { return Fault::NONE; }
    let kind = *r.pick(kinds);
    let at = match r.below(20) { 0..=9 => r.below(7), 10..=16 => r.below(18), _ => r.below(60) } as u32;
    let len = match r.below(10) { 0..=3 => 0, 4..=8 => 1, _ => r.range(2, 6) } as u32;
    Fault { kind, at, len }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    use FaultKind::*;
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let mut cfg = vec![r.chance(1, 3) as u64, 0, 0, 0];
    let seqs: &[u64] = &[0, 1, 2];
    let packed: &[u64] = &[10, 11, 30, 31];
    let every: &[u64] = &[0, 1, 2, 10, 11, 30, 31];
    let mixed: &[u64] = &[0, 1, 2, 10, 11, 30, 31, 99];
    //                        cr pu po se ge ra pn pp ro pk dr mi da ou ba bc ki lo fo rb rs pl st
    let (pool, mut w, faults, fault_pct): (&[u64], [u64; 23], &[FaultKind], u64) = match prop {
        "C01" => (seqs,     [3, 14, 10, 8, 6, 4, 4, 3, 1, 1, 2, 2, 2, 2, 3, 0, 0, 0, 0, 1, 0, 0, 0], &[], 0),
        "C02" => (every,    [3, 14, 10, 8, 1, 0, 4, 3, 1, 0, 2, 2, 1, 1, 2, 0, 0, 0, 0, 3, 0, 0, 0], &[Err], 5),
        "C03" => (packed,   [3, 14, 10, 9, 6, 5, 4, 3, 1, 1, 2, 2, 2, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0], &[], 0),
        "C04" => (mixed,    [5, 12, 9, 8, 1, 1, 2, 2, 1, 1, 6, 5, 3, 0, 2, 0, 1, 0, 0, 4, 0, 3, 1], &[Err, AckLost, Full], 10),
        "C05" => (mixed,    [5, 12, 9, 8, 1, 0, 3, 2, 1, 1, 6, 5, 0, 1, 2, 1, 1, 0, 0, 4, 0, 0, 1], &[], 0),
        "C06" => (mixed,    [3, 16, 14, 10, 4, 0, 2, 1, 1, 0, 1, 2, 1, 0, 3, 0, 0, 0, 0, 1, 1, 0, 0], &[Err, Err, AckLost, Full], 60),
        "C07" => (mixed,    [3, 16, 14, 10, 0, 0, 2, 1, 0, 1, 1, 3, 0, 0, 3, 0, 1, 0, 0, 1, 0, 0, 0], &[Crash], 55),
        "C08" => (&[99],    [4, 3, 0, 20, 12, 3, 0, 0, 1, 1, 2, 3, 2, 0, 0, 0, 1, 0, 0, 0, 8, 0, 0], &[Err, AckLost, Full], 20),
        "C09" => (mixed,    [4, 12, 9, 6, 2, 0, 2, 1, 16, 8, 3, 3, 3, 1, 1, 0, 3, 0, 0, 1, 0, 0, 0], &[Err], 30),
        "C20" => (mixed,    [6, 12, 9, 8, 8, 0, 3, 3, 2, 1, 2, 1, 2, 2, 2, 0, 0, 0, 0, 1, 2, 0, 0], &[Err, AckLost], 15),
        "C10" => (every,    [3, 18, 12, 3, 1, 1, 3, 2, 1, 0, 2, 1, 1, 14, 2, 6, 0, 0, 0, 0, 0, 0, 0], &[], 0),
        _ =>     (mixed,    [4, 10, 9, 5, 8, 4, 3, 1, 5, 0, 1, 1, 2, 0, 0, 0, 0, 8, 5, 1, 3, 0, 0], &[], 0),
    };
    // swarm: every run has its own operation mix, clients, kinds, sizes and value alphabet
    for (j, x) in w.iter_mut().enumerate() { if j != CREATE as usize && r.chance(1, 6) { *x = 0; } else if r.chance(1, 6) { *x *= 4; } }
    if prop == "C10" { w[OUTSIDE as usize] = w[OUTSIDE as usize].max(3); w[PUSH as usize] = w[PUSH as usize].max(6); }
    if prop == "C14" { w[LOSE as usize] = w[LOSE as usize].max(4); w[GET as usize] = w[GET as usize].max(4); w[FOUND as usize] = w[FOUND as usize].max(2); }
    let clients = r.range(1, 5);
    let kinds: Vec<u64> = (0..r.range(1, 3)).map(|_| pick_kind(&mut r, pool)).collect();
    let alphabet = *r.pick(&[2u64, 4, 9, 16, 16, 64, 1 << 40]);
    let bounded = if prop == "C10" { 80 } else { *r.pick(&[0u64, 30, 60]) };
    let batch = *r.pick(&[3u64, 9, 40]);
    let steps = match r.below(10) { 0..=4 => r.range(4, 16), 5..=8 => r.range(16, 48), _ => r.range(48, 140) };
    let fault_pct = if fault_pct > 0 && r.chance(1, 12) { 0 } else { fault_pct };
    if prop == "C04" && r.chance(1, 5) {
        cfg[1] = pick_kind(&mut r, every) + 1;
        cfg[2] = r.below(1 << 40);
        cfg[3] = *r.pick(&[10, 40, 70, 100]);
    }
    let maxes: [u64; 32] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 33, 64, 65, 100, 256, 127, 255, 65_536, 1 << 20, 1 << 40, (1 << 32) + 1, (1 << 33) - 1, 1 << 56, 1 << 63, (1 << 63) + 1, u64::MAX, 1 << 60, (1 << 62) + 1];
    let mut out = Vec::new();
    let create = |r: &mut Rng, client: u64| -> Step {
        let a = *r.pick(&kinds);
        let c = if r.chance(bounded, 100) { let n = if prop == "C10" && r.chance(9, 10) { 19 } else { 32 }; maxes[r.below(n) as usize] } else { 0 };
        // beyond the range of indices: a matter for C10
        let reach = |n: u64| prop == "C10" || leaves_for(Kind::decode(a), n) <= 1 << 63;
        let c = if reach(c) { c } else { 1 << 56 };
        let b = if r.chance(1, 3) { match r.below(4) { 0 => r.below(4), 1 => r.below(20), 2 => if c > 0 { c.min(60) } else { r.below(9) }, _ => r.below(70) } } else { 0 };
        let long = a < 99 && if prop == "C20" { r.chance(1, 2) } else { r.chance(1, 14) };
        let b = if long && (c == 0 || c > 100) {
            let l = *r.pick(&[252u64, 508, 65_532, (1 << 24) - 4, 1u64 << 12, 1 << 20, 1 << 31, 1 << 32, 1 << 33, 1 << 40, (1 << 32) - 6, (1 << 31) - 6, 1 << 50, 1 << 58, (1 << 59) - 4, 1 << 62, (1 << 63) - 4, u64::MAX - 8]) + r.below(9);
            let l = if reach(l) { l } else { 1 << 40 };
            if c > 0 { l.min(c) } else { l }
        } else { b };
        // created without ever being written: nothing to read back with the unit convention (recorded finding)
        let b = if matches!(prop, "C06" | "C07" | "C09" | "C14") && cfg[0] == 1 { 0 } else { b };
        let fault = if !faults.is_empty() && prop == "C06" && r.chance(1, 6) { pick_fault(r, faults) } else { Fault::NONE };
        Step { client: client as u8, op: CREATE, a, b, c, fault }
    };
    for c in 0..clients { let s = create(&mut r, c); out.push(s); }
    // start from some contents
    if r.chance(2, 3) { for c in 0..clients { if r.chance(2, 3) { out.push(Step { client: c as u8, op: PUSHN, a: r.below(batch) + 1, b: r.next(), c: alphabet.min(1 << 20), fault: Fault::NONE }); } } }
    for _ in 0..steps {
        let client = r.below(clients);
        let op = r.weighted(&w) as u8;
        if op == CREATE { let s = create(&mut r, client); out.push(s); continue; }
        let (mut a, mut b, mut c) = (r.below(alphabet) | (r.below(1 << 20) << 44), r.next() >> 1, r.next() >> 1);
        if alphabet > 16 && a % 16 > 8 { a = a / 16 * 16 + 8; }
        if alphabet == 16 && r.chance(1, 2) { a = a & !0xf | r.below(9); }
        match op {
            PUSHN | POPN => { a = r.below(batch) + 1; c = alphabet.min(1 << 20) / 16 + 1; }
            MIRROR | DANGLE | REBUILD => { a = if r.chance(2, 3) { r.below(clients) } else { r.below(8) }; }
            BATCH => { a = r.range(1, 4); }
            REOPEN => { a = r.below(60); }
            BADCREATE => { a = pick_kind(&mut r, every); b = r.below(4); c = r.range(1, 40); }
            OUTSIDE => { b = r.below(6); }
            LOSE => { a = r.next(); b = r.below(5); }
            POPULATE => { a = r.next(); b = r.below(4); }
            _ => {}
        }
        let fault = if r.chance(fault_pct, 100) { pick_fault(&mut r, faults) } else { Fault::NONE };
        // DANGLE and MIRROR targets are slots too: let all of them work
        let client = if r.chance(1, 5) { r.below(8) } else { client };
        out.push(Step { client: client as u8, op, a, b, c, fault });
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps: out }
}

/// Deterministic demonstrations of the recorded findings: does the code still behave that way?
pub fn probe(id: &str) -> Option<String> {
    let c = SimStore::<Unit>::new(false);
    let mut db = c;
    match id {
        F_UNIT => {
            let t = seq::create::<Unit>(Kind::Vector, &mut db, 2, None).ok()?;
            match t.get(&mut db, 0) { Err(Error::CorruptedDatabase) => Some("get of a never written element of a unit-convention vector created with a length fails with CorruptedDatabase".into()), _ => None }
        }
        F_BATCH => {
            let mut t = seq::create::<Unit>(Kind::LMix, &mut db, 0, None).ok()?;
            let v = |x: u8| vec![x; 32];
            t.batch(&mut db, &[BOp::Push(v(1)), BOp::Push(v(2)), BOp::Push(v(3)), BOp::Push(v(4))], false).ok()?;
            let root = t.root();
            let (want, _) = db.closure([&root]);
            let zero = V::default();
            let n = db.keys().iter().filter(|k| **k != zero && !want.contains(*k)).count();
            if n > 0 { Some(format!("four pushes in one LengthMixed::with_mut leave {} unreachable nodes in the store", n)) } else { None }
        }
        F_RAWLIST => {
            let mut t = seq::create::<Unit>(Kind::List, &mut db, 0, None).ok()?;
            for x in 1..4u8 { t.push(&mut db, &[x; 32]).ok()?; }
            let root = t.into_root();
            let t = seq::list_from_raw::<Unit>(root, 3, None);
            match t.get(&mut db, 0) { Ok(x) if x == vec![1u8; 32] => None, other => Some(format!("element 0 of Raw::into_list of a list's own raw tree reads as {:?}", other.map(|x| hx(&x)))) }
        }
        _ => None,
    }
}
