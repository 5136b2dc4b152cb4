//! C19: trees that nobody vouches for. Valid values are written, and then nodes, lengths and variant numbers of their
//! trees are replaced, trees are read as something else than they were written as, and parts are lost. Whatever is
//! decoded, fetched or reopened is compared with what the tree says by an independent reading of it.

use crate::common::*;
use crate::model::{hash2, le_chunk, H};
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::letypes::{self, levels, Bad, Judged, Nodes, Obj, Plain, Sized_, P};
use crate::props::partial::{self, Full, Hop, Val};
use crate::props::seqworld::{injected, pick_fault};
use crate::rng::{mix, Rng};
use crate::seq::{self, WIDTHS};
use crate::store::{Cons, Inh, SimStore, Unit, V};
use bm::{Dangling, Error, Index, Owned, Raw, Tree, WriteBackend};
use bm_le::{PartialIndex, PartialItem, Partialable};
use std::collections::{BTreeMap, BTreeSet};

const WRITE: u8 = 0; const ALTER: u8 = 1; const GRAFT: u8 = 2; const DECODE: u8 = 3; const DECODEAS: u8 = 4; const REOPEN: u8 = 5; const FETCH: u8 = 6; const LOSE: u8 = 7; const FOUND: u8 = 8; const DROP: u8 = 9; const SUBTREE: u8 = 10;
const NAMES: [&str; 11] = ["write value", "alter tree", "graft list", "decode", "decode as another type", "reopen as list", "access field", "lose", "found", "drop", "decode a subtree"];
const SLOTS: usize = 5;
/// Nodes read per decoding by the reference reading.
const READS: u32 = 2_500;

struct Slot<C: Cons> { obj: Box<dyn Obj<C>>, hold: Raw<Owned, C> }
struct World<C: Cons> { store: SimStore<C>, slots: Vec<Option<Slot<C>>>, cx: Ctx }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) == 0 { World::<Inh>::run(plan, verbose) } else { World::<Unit>::run(plan, verbose) }
}

fn obj<C: Cons>(kind: u64, seed: u64) -> Box<dyn Obj<C>> {
    let mut r = Rng::new(seed);
    if kind >= letypes::KINDS { Box::new(Plain(<Full as letypes::Le>::make(&mut r))) } else { letypes::make::<C>(kind, &mut r) }
}
const KINDS: u64 = letypes::KINDS + 6;

/// A number as it may stand where a length or a variant number is expected.
fn numeral(r: &mut Rng, near: u64) -> H {
    let k = r.below(64);
    let n = match r.below(14) {
        0 => 0, 1 => r.below(8), 2 | 3 => near.wrapping_add(1), 4 => near.wrapping_sub(1), 5 => near.wrapping_mul(2), 6 => 1u64 << k, 7 => (1u64 << k) + 1, 8 => (1u64 << k) - 1,
        9 => u64::MAX, 10 => u64::MAX - r.below(64), 11 => (1 << 63) + r.below(3), 12 => near, _ => r.next(),
    };
    let mut h = le_chunk(n);
    // more than a machine word holds
    match r.below(12) { 0 => h[8] = 1, 1 => h[31] = 0x80, 2 => for b in h[8..].iter_mut() { *b = r.next() as u8; }, _ => {} }
    h
}

/// What a list says: its items, length, and levels of its tree.
fn list_at(h: &H, width: Option<u8>, max: Option<u64>, n: &mut Nodes) -> P<(H, u64, u32)> {
    // only the low bytes of the length are looked at here
    let (items, word) = n.pair(h)?;
    let mut b = [0; 8];
    b.copy_from_slice(&word[..8]);
    let len = u64::from_le_bytes(b);
    let cap = max.unwrap_or(len);
    if len > cap { return Err(Bad::Malformed); }
    Ok((items, len, match width { None => levels(cap), Some(w) => hosts(cap, w).map(levels).unwrap_or(64) }))
}
fn hosts(n: u64, w: u8) -> Option<u64> { let h = (n as u128 * w as u128).div_ceil(32); if h > u64::MAX as u128 { None } else { Some(h as u64) } }
fn item_at(items: &H, i: u64, width: Option<u8>, depth: u32, n: &mut Nodes) -> P<Vec<u8>> {
    let Some(w) = width else { return Ok(n.leaf(items, depth, i)?.to_vec()) };
    let (from, to) = (i as u128 * w as u128, (i as u128 + 1) * w as u128);
    let mut out = Vec::new();
    for at in from / 32..to.div_ceil(32) {
        if at > u64::MAX as u128 { return Err(Bad::Malformed); }
        let leaf = n.leaf(items, depth, at as u64)?;
        for j in 0..32u128 { let p = at * 32 + j; if p >= from && p < to { out.push(leaf[j as usize]); } }
    }
    Ok(out)
}
/// Where a place is: its node, or why there is none. An index can tell 63 levels apart.
fn resolve(hops: &[Hop], root: &H, n: &mut Nodes) -> P<(H, u32)> {
    let (mut at, mut depth) = (Ok(*root), 0);
    for hop in hops {
        let (i, d) = match hop {
            Hop::Field(i, of) => (*i, levels(*of)),
            Hop::Elem(i) => {
                if depth >= 63 { return Err(Bad::Malformed); }
                let (items, len) = n.mixed(&at?)?;
                if *i >= len { return Err(Bad::Malformed); }
                at = Ok(items);
                depth += 1;
                (*i, levels(len))
            }
        };
        depth += d;
        if depth >= 64 { return Err(Bad::Malformed); }
        // a place may be resolved although there is nothing at it
        at = match at { Ok(h) => match n.leaf(&h, d, i) { Err(Bad::TooMuch) => return Err(Bad::TooMuch), x => x }, e => e };
    }
    match at { Ok(h) => Ok((h, depth)), Err(e) => Err(e) }
}

impl<C: Cons> World<C> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        let mut w = World { store, slots: (0..SLOTS).map(|_| None).collect(), cx: Ctx::new(&[Class::Hostile, Class::Panic], verbose) };
        let mut flow = Ok(());
        for (i, s) in plan.steps.iter().enumerate() {
            w.cx.step = i;
            w.cx.stats.steps += 1;
            flow = w.step(s);
            if flow.is_err() { break; }
            let mut h = 3;
            for s in w.slots.iter() { h = mix(h ^ s.as_ref().map(|s| v8(&s.hold.root())).unwrap_or(1)); }
            h = mix(h ^ w.store.size() as u64);
            w.cx.note(h);
            w.cx.stats.states.insert(h);
        }
        w.cx.stats.max_store = w.store.size();
        w.cx.stats.take_ctl(&ctl);
        let t = mix(ctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn root(&self, i: usize) -> Option<V> { self.slots[i].as_ref().map(|s| s.hold.root()) }

    /// The nodes below `root` that can be read now.
    fn below(&self, root: &V) -> BTreeMap<H, (H, H)> {
        let ctl = self.store.ctl.borrow();
        let map = self.store.real.as_ref();
        let (mut out, mut todo) = (BTreeMap::new(), vec![root.clone()]);
        while let Some(k) = todo.pop() {
            if out.contains_key(&vh(&k)) || ctl.lost.contains(&k) { continue; }
            if let Some((l, r)) = map.get(&k).and_then(|e| e.0.as_ref()) {
                out.insert(vh(&k), (vh(l), vh(r)));
                todo.push(l.clone());
                todo.push(r.clone());
            }
        }
        out
    }

    fn decode(&mut self, obj: &dyn Obj<C>, root: &V, fault: Fault) -> Flow {
        let map = self.below(root);
        let mut get = |h: &H| map.get(h).copied();
        for fault in [fault, Fault::NONE] {
            if fault == Fault::NONE { self.store.ctl.borrow_mut().disarm(); }
            self.store.ctl.borrow_mut().arm(fault);
            let j = obj.judge(root, &mut Nodes { get: &mut get, left: READS }, &mut Sized_(&mut self.store));
            let fired = self.store.ctl.borrow_mut().disarm();
            self.cx.say(|| format!("decode {} as {} -> {}", hx(root.as_ref()), obj.name(), match &j { Judged::Skip => "skipped".into(), Judged::Refused => "refused".into(), Judged::Read => "read".into(), Judged::Failed(e) => format!("{:?}", e), Judged::Wrong(m) => m.clone() }));
            match j {
                Judged::Skip => { self.cx.stats.probe("tree too large to read"); return Ok(()); }
                Judged::Failed(_) if fired > 0 => { self.cx.stats.probe("decoding failed with the store"); continue; }
                _ if fired > 0 => return self.cx.bad(Class::Hostile, format!("decoding a tree as {} from a failing store succeeds, or gives another error", obj.name())),
                Judged::Refused => self.cx.stats.probe("malformed tree refused"),
                Judged::Read => self.cx.stats.probe("tree read"),
                Judged::Failed(e) => return self.cx.bad(Class::Hostile, format!("decoding a tree as {} gives {:?}", obj.name(), e)),
                Judged::Wrong(m) => return self.cx.bad(Class::Hostile, format!("decoding a tree as {} gives {}", obj.name(), m)),
            }
            return Ok(());
        }
        Ok(())
    }

    /// Some node of the tree, and the way to it.
    fn place(&mut self, root: &V, r: &mut Rng) -> (Index, V, Vec<V>) {
        let (mut ix, mut at, mut way) = (Index::root(), root.clone(), Vec::new());
        let stop = *r.pick(&[2u64, 4, 12]);
        let right = *r.pick(&[1u64, 2, 3]);
        for _ in 0..60 {
            let Some((a, b)) = self.store.peek(&at) else { break };
            if !way.is_empty() && r.chance(1, stop) { break; }
            way.push(at.clone());
            if r.chance(right, 4) { ix = ix.right(); at = b; } else { ix = ix.left(); at = a; }
        }
        (ix, at, way)
    }

    /// A subtree of which all leaves are zero, with all its nodes.
    fn tower(&mut self, d: u64) -> Result<V, Stop> {
        let mut v = V::default();
        for _ in 0..d {
            let k = hv(&hash2(&vh(&v), &vh(&v)));
            self.put(&k, &v, &v)?;
            v = k;
        }
        Ok(v)
    }
    fn put(&mut self, k: &V, l: &V, r: &V) -> Flow {
        match self.store.insert(k.clone(), (l.clone(), r.clone())) { Ok(()) => Ok(()), Err(e) => self.cx.bad(Class::Raw, format!("inserting a node gives {:?}", e)) }
    }
    /// A list with room for what it says, or not.
    fn list(&mut self, r: &mut Rng) -> Result<V, Stop> {
        let d = match r.below(4) { 0 => r.below(4), 1 => r.below(12), 2 => 60 + r.below(5), _ => r.below(64) };
        let items = if r.chance(1, 8) { self.any_node(r) } else { self.tower(d)? };
        let near = if d < 64 { 1u64 << d } else { u64::MAX };
        let len = if r.chance(1, 4) { le_chunk(r.below(near.max(1))) } else { numeral(r, near) };
        let k = hv(&hash2(&vh(&items), &len));
        self.put(&k, &items, &hv(&len))?;
        Ok(k)
    }
    fn any_node(&mut self, r: &mut Rng) -> V {
        let i = r.below(SLOTS as u64) as usize;
        match self.root(i) { Some(root) => self.place(&root, r).1, None => V::default() }
    }
    fn foreign_value(&mut self, old: &V, way: &[V], r: &mut Rng) -> Result<V, Stop> {
        let mut near = [0; 8];
        near.copy_from_slice(&old.as_ref()[..8]);
        Ok(match r.below(16) {
            0..=6 => hv(&numeral(r, u64::from_le_bytes(near))),
            7 => V::default(),
            8 => { let mut h = vh(old); h[r.below(32) as usize] ^= 1 << r.below(8); hv(&h) }
            9 | 10 => self.any_node(r),
            11 => way.last().cloned().unwrap_or_default(),
            12 => match way.last().and_then(|p| self.store.peek(p)) { Some((a, b)) => if a == *old { b } else { a }, None => V::default() },
            13 => { let d = r.below(6); self.tower(d)? }
            14 => self.list(r)?,
            _ => { let mut h = [0; 32]; for b in h.iter_mut() { *b = r.next() as u8; } hv(&h) }
        })
    }
    fn hold(&mut self, i: usize, at: Index, v: V) -> Flow {
        let Some(s) = self.slots[i].as_mut() else { return Ok(()) };
        match s.hold.set(&mut self.store, at, v) { Ok(()) => Ok(()), Err(e) => self.cx.bad(Class::Raw, format!("setting a node gives {:?}", e)) }
    }

    /// Reopen something as a list, and work with it.
    fn reopen(&mut self, root: V, b: u64, fault: Fault) -> Flow {
        let mut r = Rng::new(b);
        let width = if r.chance(1, 2) { None } else { Some(*r.pick(&WIDTHS)) };
        let map = self.below(&root);
        let mut get = |h: &H| map.get(h).copied();
        let len = list_at(&vh(&root), None, None, &mut Nodes { get: &mut get, left: READS }).map(|x| x.1).unwrap_or(0);
        let mut max = match r.below(6) { 0 | 1 => None, 2 => Some(len), 3 => Some(len.saturating_add(r.below(5))), 4 => Some(len.saturating_sub(1 + r.below(3))), _ => Some(u64::from_le_bytes(numeral(&mut r, len)[..8].try_into().unwrap())) };
        // a packed vector is told its bounds by whoever opens it
        if width.is_some() { max = max.map(|m| m.max(len)); }
        let want = list_at(&vh(&root), width, max, &mut Nodes { get: &mut get, left: READS });
        self.store.ctl.borrow_mut().arm(fault);
        let mut got = seq::reopen_any::<C>(width, root.clone(), &mut self.store, max);
        if self.store.ctl.borrow_mut().disarm() > 0 {
            if !injected(&got) { return self.cx.bad(Class::Hostile, "reopening a list from a failing store does not give its error".into()); }
            got = seq::reopen_any::<C>(width, root.clone(), &mut self.store, max);
        }
        self.cx.say(|| format!("reopen {} width {:?} max {:?}: {:?} -> {:?}", hx(root.as_ref()), width, max, want.map(|x| (x.1, x.2)), got.as_ref().map(|t| t.len())));
        let mut t = match (want, got) {
            (Err(_), Err(_)) => { self.cx.stats.probe("malformed list refused"); return Ok(()); }
            (Ok((_, len, _)), Ok(t)) if t.len() as u64 == len => t,
            (Ok((_, len, _)), Ok(t)) => return self.cx.bad(Class::Hostile, format!("a list of {} elements is reopened with {}", len, t.len())),
            (Ok((_, len, _)), Err(e)) => return self.cx.bad(Class::Hostile, format!("reopening a list of {} elements (maximum {:?}) gives {:?}", len, max, e)),
            (Err(_), Ok(t)) => return self.cx.bad(Class::Hostile, format!("something that is no list of at most {:?} elements is reopened as a list of {}", max, t.len())),
        };
        self.cx.stats.probe("list reopened");
        let w = width.unwrap_or(32) as usize;
        for _ in 0..r.range(1, 8) {
            let before = t.root();
            let map = self.below(&before);
            let mut get = |h: &H| map.get(h).copied();
            let mut n = Nodes { get: &mut get, left: 40 * READS };
            let (items, len, depth) = match list_at(&vh(&before), width, max, &mut n) { Ok(x) => x, Err(e) => return self.cx.bad(Class::Hostile, format!("the root of a reopened list is no list any more: {:?}", e)) };
            if t.len() as u64 != len { return self.cx.bad(Class::Hostile, format!("a list says it has {} elements but its root says {}", t.len(), len)); }
            let i = match r.below(6) { 0 => 0, 1 => len.wrapping_sub(1), 2 => len, 3 => len / 2, 4 => r.below(len.min(40).max(1)), _ => r.next() };
            let v: Vec<u8> = (0..w).map(|_| r.next() as u8).collect();
            let fine = |m: &mut Nodes, i: u64| item_at(&items, i, width, depth, m);
            match r.below(6) {
                0..=2 => {
                    let want = if i < len { fine(&mut n, i) } else { Err(Bad::Malformed) };
                    match (want, t.get(&mut self.store, i as usize)) {
                        (Ok(x), Ok(y)) if x == y => self.cx.stats.probe("element of a reopened list"),
                        (Err(_), Err(Error::CorruptedDatabase)) | (Err(_), Err(Error::AccessOverflowed)) => self.cx.stats.probe("element refused"),
                        (x, y) => return self.cx.bad(Class::Hostile, format!("element {} of a list of {} (levels {}) reads as {:?} instead of {:?}", i, len, depth, y, x)),
                    }
                }
                3 => {
                    let whole = i < len && fine(&mut n, i).is_ok();
                    match t.set(&mut self.store, i as usize, &v) {
                        Ok(()) if i >= len || depth >= 64 => return self.cx.bad(Class::Hostile, format!("element {} of a list of {} (levels {}) can be set", i, len, depth)),
                        Ok(()) => match t.get(&mut self.store, i as usize) { Ok(x) if x == v => {} x => return self.cx.bad(Class::Hostile, format!("element {} of a list of {} reads as {:?} after it was set", i, len, x)) },
                        Err(e) if whole => return self.cx.bad(Class::Hostile, format!("setting element {} of a list of {} gives {:?}", i, len, e)),
                        Err(_) => if t.root() != before { return self.cx.bad(Class::Hostile, format!("setting element {} of a list of {} fails but changes the list", i, len)); }
                    }
                }
                4 => match t.push(&mut self.store, &v) {
                    Ok(()) if max == Some(len) => return self.cx.bad(Class::Hostile, format!("pushing to a full list of {}", len)),
                    Ok(()) => {
                        if t.len() as u64 != len + 1 { return self.cx.bad(Class::Hostile, format!("a list of {} has {} elements after one was pushed", len, t.len())); }
                        match t.get(&mut self.store, len as usize) { Ok(x) if x == v => {} x => return self.cx.bad(Class::Hostile, format!("element {} reads as {:?} after it was pushed", len, x)) }
                        self.cx.stats.probe("pushed to a reopened list");
                    }
                    Err(_) => if t.root() != before || t.len() as u64 != len { return self.cx.bad(Class::Hostile, format!("pushing to a list of {} fails but changes the list", len)); }
                },
                _ => {
                    let last = if len == 0 { Ok(None) } else { fine(&mut n, len - 1).map(Some) };
                    match (last, t.pop(&mut self.store)) {
                        (Ok(x), Ok(y)) if x == y => {
                            if t.len() as u64 != len.saturating_sub(1) { return self.cx.bad(Class::Hostile, format!("a list of {} has {} elements after one was popped", len, t.len())); }
                            self.cx.stats.probe("popped from a reopened list");
                        }
                        (Ok(_), Err(_)) | (Err(_), Err(_)) => if t.root() != before || t.len() as u64 != len { return self.cx.bad(Class::Hostile, format!("popping from a list of {} fails but changes the list", len)); }
                        (x, y) => return self.cx.bad(Class::Hostile, format!("popping from a list of {} (levels {}) gives {:?} instead of {:?}", len, depth, y, x)),
                    }
                }
            }
        }
        Ok(())
    }

    /// Read, write or push through a partially loaded view.
    fn access(&mut self, root: V, st: &Step) -> Flow {
        let mut r = Rng::new(st.b);
        let position = |r: &mut Rng| match r.below(6) { 0 | 1 => r.below(4) as usize, 2 => r.below(20) as usize, 3 => 1usize << r.below(64), 4 => usize::MAX - r.below(3) as usize, _ => r.next() as usize };
        let (i, j) = (position(&mut r), position(&mut r));
        let map = self.below(&root);
        let mut get = |h: &H| map.get(h).copied();
        let mut n = Nodes { get: &mut get, left: 40 * READS };
        let mut raw = Raw::<Dangling, C>::new(root.clone());
        let mut view = <Full as Partialable>::Value::new(PartialIndex::root());
        match r.below(6) {
            0..=3 => {
                let p = partial::any_path(r.next(), i, j);
                let want = resolve(&partial::hops_of(p), &vh(&root), &mut n).and_then(|(h, _)| partial::parse_at(p, &h, &mut n));
                let again = r.chance(1, 2);
                self.store.ctl.borrow_mut().arm(st.fault);
                let mut got = partial::view_get(&mut view, p, &raw, &mut self.store, again);
                if self.store.ctl.borrow_mut().disarm() > 0 {
                    if !injected(&got) { return self.cx.bad(Class::Hostile, format!("fetching {:?} from a failing store gives {:?}", p, got)); }
                    got = partial::view_get(&mut view, p, &raw, &mut self.store, again);
                }
                self.cx.say(|| format!("fetch {:?} of {}: {:?} -> {:?}", p, hx(root.as_ref()), want, got));
                match (want, got) {
                    (Ok(x), Ok(y)) if x == y => self.cx.stats.probe("field fetched"),
                    (Err(_), Err(Error::CorruptedDatabase)) | (Err(_), Err(Error::AccessOverflowed)) => self.cx.stats.probe("field refused"),
                    (x, y) => return self.cx.bad(Class::Hostile, format!("fetching {:?} gives {:?} instead of {:?}", p, y, x)),
                }
            }
            4 => {
                let p = partial::any_path(r.next(), i, j);
                let val = partial::make_val(p, &mut r);
                partial::view_set(&mut view, p, val);
                let there = resolve(&partial::hops_of(p), &vh(&root), &mut n).is_ok();
                let got = view.flush(&mut raw, &mut self.store);
                self.cx.say(|| format!("set {:?} of {} ({}) -> {:?}", p, hx(root.as_ref()), there, got));
                match got {
                    Ok(()) => match self.value_at(p, &raw.root()) { Ok(x) if x == val => self.cx.stats.probe("field set"), x => return self.cx.bad(Class::Hostile, format!("{:?} is {:?} after it was set to {:?}", p, x, val)) },
                    Err(e) if there => return self.cx.bad(Class::Hostile, format!("setting {:?}, which is there, gives {:?}", p, e)),
                    Err(_) => if raw.root() != root { return self.cx.bad(Class::Hostile, format!("setting {:?} fails but changes the tree", p)); }
                }
            }
            _ => {
                let l = partial::any_list(r.next(), i);
                let at = |w: &Self, root: &V| { let map = w.below(root); let mut get = |h: &H| map.get(h).copied(); let mut n = Nodes { get: &mut get, left: 40 * READS };
                    resolve(&partial::hops_of_list(l), &vh(root), &mut n).and_then(|(h, _)| list_at(&h, None, None, &mut n)).map(|x| x.1) };
                let before = at(self, &root);
                partial::view_push(&mut view, l, partial::any_push(l, &mut r));
                let got = view.flush(&mut raw, &mut self.store);
                self.cx.say(|| format!("push to {:?} of {} ({:?}) -> {:?}", l, hx(root.as_ref()), before, got));
                match (before, got) {
                    (Ok(len), Ok(())) => { let now = at(self, &raw.root()); if now != Ok(len + 1) { return self.cx.bad(Class::Hostile, format!("{:?} has {:?} elements after one was pushed to {}", l, now, len)); } self.cx.stats.probe("pushed to a list field"); }
                    (Err(_), Ok(())) => return self.cx.bad(Class::Hostile, format!("something that is no list at {:?} is pushed to", l)),
                    (_, Err(_)) => if raw.root() != root { return self.cx.bad(Class::Hostile, format!("pushing to {:?} fails but changes the tree", l)); }
                }
            }
        }
        Ok(())
    }
    fn value_at(&self, p: partial::Path, root: &V) -> P<Val> {
        let map = self.below(root);
        let mut get = |h: &H| map.get(h).copied();
        let mut n = Nodes { get: &mut get, left: 40 * READS };
        let (h, _) = resolve(&partial::hops_of(p), &vh(root), &mut n)?;
        partial::parse_at(p, &h, &mut n)
    }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % SLOTS;
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        let mut r = Rng::new(st.b);
        match st.op {
            WRITE => {
                if self.slots[i].is_some() { return Ok(()); }
                let obj = obj::<C>(st.a, st.b);
                let root = match obj.write(&mut Sized_(&mut self.store)) { Ok(v) => v, Err(e) => return self.cx.bad(Class::Ssz, format!("writing {} gives {:?}", obj.name(), e)) };
                self.cx.say(|| format!("slot {} write {} -> {}", i, obj.name(), hx(root.as_ref())));
                self.slots[i] = Some(Slot { obj, hold: Raw::default() });
                self.hold(i, Index::root(), root)
            }
            ALTER => {
                let Some(root) = self.root(i) else { return Ok(()) };
                for _ in 0..r.range(1, 3) {
                    let (at, old, way) = self.place(&root, &mut r);
                    let v = self.foreign_value(&old, &way, &mut r)?;
                    self.cx.say(|| format!("slot {} node {:?}: {} -> {}", i, at, hx(old.as_ref()), hx(v.as_ref())));
                    self.hold(i, at, v)?;
                }
                Ok(())
            }
            GRAFT => {
                if self.root(i).is_none() { return Ok(()); }
                let v = self.list(&mut r)?;
                self.cx.say(|| format!("slot {} is now the list {}", i, hx(v.as_ref())));
                self.hold(i, Index::root(), v)
            }
            DECODE | DECODEAS | SUBTREE => {
                let Some(mut root) = self.root(i) else { return Ok(()) };
                if st.op == SUBTREE { root = self.place(&root, &mut r).1; }
                if st.op == DECODE {
                    let s = self.slots[i].take().unwrap();
                    let f = self.decode(&*s.obj, &root, st.fault);
                    self.slots[i] = Some(s);
                    return f;
                }
                let o = obj::<C>(st.a, st.c);
                self.decode(&*o, &root, st.fault)
            }
            REOPEN => {
                let Some(mut root) = self.root(i) else { return Ok(()) };
                if st.a % 3 == 0 { root = self.place(&root, &mut r).1; }
                self.reopen(root, st.b, st.fault)
            }
            FETCH => { let Some(root) = self.root(i) else { return Ok(()) }; self.access(root, st) }
            LOSE => {
                let Some(root) = self.root(i) else { return Ok(()) };
                let inner: Vec<V> = self.below(&root).keys().map(hv).collect();
                if inner.is_empty() { return Ok(()); }
                let mut lost = BTreeSet::new();
                for j in 0..(st.a % 4 + 1) { lost.insert(inner[(mix(st.b ^ j) % inner.len() as u64) as usize].clone()); }
                self.cx.stats.fire("lost:nodes");
                self.store.ctl.borrow_mut().lost.extend(lost);
                Ok(())
            }
            FOUND => { self.store.ctl.borrow_mut().lost.clear(); Ok(()) }
            DROP => {
                if let Some(s) = self.slots[i].take() {
                    if let Err(e) = s.hold.drop(&mut self.store) { return self.cx.bad(Class::Raw, format!("dropping gives {:?}", e)); }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let cfg = vec![r.chance(1, 4) as u64];
    //               wr al gr de as ro fe lo fo dr su
    let mut w = [4u64, 8, 2, 8, 3, 4, 4, 1, 1, 1, 3];
    for (j, x) in w.iter_mut().enumerate() { if j > 1 && r.chance(1, 5) { *x = 0; } }
    let slots = r.range(1, SLOTS as u64);
    let fault_pct = *r.pick(&[0u64, 0, 20, 50]);
    let mut kinds: Vec<u64> = (0..r.range(1, 5)).map(|_| r.below(KINDS)).collect();
    if w[FETCH as usize] > 0 && r.chance(1, 2) { kinds.push(KINDS - 1); }
    let seeds = *r.pick(&[2u64, 8, 1 << 40]);
    let n = match r.below(8) { 0..=3 => r.range(3, 10), 4..=6 => r.range(10, 24), _ => r.range(24, 60) };
    let mut steps = Vec::new();
    for j in 0..n {
        let op = if j == 0 { WRITE } else { r.weighted(&w) as u8 };
        let mut s = Step { client: r.below(slots) as u8, op, a: r.below(64), b: r.next() >> 1, c: r.next() >> 1, fault: Fault::NONE };
        match op {
            WRITE => { s.a = if r.chance(1, 4) { r.below(KINDS) } else { *r.pick(&kinds) }; s.b = r.below(seeds); }
            DECODEAS | SUBTREE => s.a = if r.chance(1, 2) { r.below(KINDS) } else { *r.pick(&kinds) },
            _ => {}
        }
        if matches!(op, DECODE | DECODEAS | SUBTREE | REOPEN | FETCH) && r.chance(fault_pct, 100) { s.fault = pick_fault(&mut r, &[FaultKind::Err]); }
        steps.push(s);
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps }
}
