//! Partially loaded views of a value with lists that are far too long to load: what a view reads, sets and pushes is
//! judged against sparse arrays, and so are the store calls it takes. A part of the runs of C15 and of C20.

use crate::common::*;
use crate::model::{self, MSeq, Want};
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::partial::Items;
use crate::props::seqworld::{injected, pick_fault, read_cost, write_cost};
use crate::rng::{mix, Rng};
use crate::seq::Kind;
use crate::store::{Cons, Inh, SimError, SimStore, V};
use bm::{Dangling, Error, Index, Owned, ProvingBackend, Proofs, Raw, RootStatus, Tree, WriteBackend};
use bm_le::{FromTree, IntoTree, PartialIndex, PartialItem, Partialable};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// First configuration word of a plan of this world.
pub const MARK: u64 = 30;
const GET: u8 = 0; const SET: u8 = 1; const PUSH: u8 = 2; const FLUSH: u8 = 3; const PAST: u8 = 4; const FRESH: u8 = 5; const FIELD: u8 = 6; const FETCH: u8 = 8;
const NAMES: [&str; 9] = ["long get", "long set", "long push", "long flush", "long get past end", "long new view", "long get field", "long set field", "long fetch"];

#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Tail { pub w: u16, pub items: Items }
#[derive(IntoTree, FromTree, Partialable, Clone, PartialEq, Debug)]
pub struct Long { pub a: u64, pub items: Items, pub y: u64, pub tail: Tail }
type View = <Long as Partialable>::Value;

fn chunk(n: u64) -> Vec<u8> { model::le_chunk(n).to_vec() }
fn number(b: &[u8]) -> u64 { let mut x = [0; 8]; x.copy_from_slice(&b[..8]); u64::from_le_bytes(x) }

struct World<C: Cons, R: RootStatus> { store: SimStore<C>, raw: Raw<R, C>, lists: [MSeq; 2], a: u64, y: u64, view: View, sets: [BTreeMap<usize, u64>; 2], pushes: [Vec<u64>; 2], fields: [Option<u64>; 2], seen: BTreeMap<(usize, usize), u64>, cx: Ctx, cost: bool }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) % MARK == 0 { World::<Inh, Owned>::run(plan, verbose) } else { World::<Inh, Dangling>::run(plan, verbose) }
}

impl<C: Cons, R: RootStatus> World<C, R> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        let cost = plan.prop == "C20";
        let classes: &'static [Class] = if cost { &[Class::Cost, Class::Panic] } else { &[Class::Partial, Class::Panic] };
        let mut w = World::<C, R> {
            store, raw: Raw::default(), lists: [1, 2].map(|i| MSeq::new(Kind::List, plan.cfg(i).min(1 << 58) as usize, None)), a: plan.cfg(3), y: plan.cfg(4), view: View::new(PartialIndex::root()),
            sets: Default::default(), pushes: Default::default(), fields: [None, None], seen: BTreeMap::new(), cx: Ctx::new(classes, verbose), cost,
        };
        let mut flow = w.begin();
        if flow.is_ok() {
            for (i, s) in plan.steps.iter().enumerate() {
                w.cx.step = i;
                w.cx.stats.steps += 1;
                flow = w.step(s);
                if flow.is_err() { break; }
                let h = mix(v8(&w.raw.root()) ^ ((w.store.size() as u64) << 3) ^ (w.sets[0].len() + 31 * w.sets[1].len() + 977 * w.pushes[0].len() + 9973 * w.pushes[1].len()) as u64);
                w.cx.note(h);
                w.cx.stats.states.insert(h);
            }
        }
        if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.flush(Fault::NONE); }
        w.cx.stats.max_store = w.store.size();
        w.cx.stats.take_ctl(&ctl);
        let t = mix(ctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn begin(&mut self) -> Flow {
        let r = self.build();
        if let Err(e) = r { return self.cx.bad(Class::Raw, format!("building the value gives {:?}", e)); }
        self.root()
    }
    fn build(&mut self) -> Result<(), Error<SimError>> {
        let db = &mut self.store;
        let mut roots = Vec::new();
        for l in &self.lists {
            let inner = C::empty_at(db, model::depth_for(l.len() as u64)).map_err(Error::Backend)?;
            let len = V::from(l.len());
            let root = C::intermediate_of(&inner, &len);
            db.insert(root.clone(), (inner, len)).map_err(Error::Backend)?;
            roots.push(root);
        }
        // bottom up, and registered at the end: nothing is let go in between
        let mut join = |l: V, r: V| -> Result<V, Error<SimError>> {
            let k = C::intermediate_of(&l, &r);
            db.insert(k.clone(), (l, r)).map_err(Error::Backend)?;
            Ok(k)
        };
        let leaf = |x: u64| hv(&model::le_chunk(x));
        let tail = join(leaf(7), roots[1].clone())?;
        let right = join(leaf(self.y), tail)?;
        let left = join(leaf(self.a), roots[0].clone())?;
        let root = join(left, right)?;
        self.raw.set(db, Index::root(), root)?;
        Ok(())
    }

    fn root(&mut self) -> Flow {
        let inh = C::INHERITED;
        let tail = model::hash2(&model::le_chunk(7), &self.lists[1].root(inh));
        let want = model::hash2(&model::hash2(&model::le_chunk(self.a), &self.lists[0].root(inh)), &model::hash2(&model::le_chunk(self.y), &tail));
        if vh(&self.raw.root()) != want { return self.cx.bad(Class::Partial, format!("the tree has root {} but the value with the changes made has {}", hx(self.raw.root().as_ref()), hx(&want))); }
        Ok(())
    }

    /// Depth of the elements of a list, below the root.
    fn depth(&self, l: usize) -> u64 { model::depth_for(self.lists[l].len() as u64) as u64 + 3 + l as u64 }

    fn spent(&self, most: u64, what: String) -> Flow {
        let spent = self.store.ctl.borrow().spent as u64;
        if self.cost && spent > most { return self.cx.bad(Class::Cost, format!("{} makes {} store calls; {} would do several times over", what, spent, most)); }
        Ok(())
    }

    /// The nodes on the way to some places: element lists, their lengths, fields.
    fn nodes(&mut self, places: &[usize]) -> BTreeSet<V> {
        let mut path = BTreeSet::new();
        for p in places {
            let mut at = self.raw.root();
            for side in crate::props::seqworld::route(*p) {
                path.insert(at.clone());
                match self.store.peek(&at) { Some((l, r)) => at = if side { r } else { l }, None => break }
            }
        }
        path
    }

    fn read(&mut self, l: usize, i: usize, fetch: bool, fault: Fault) -> Flow {
        let past = i >= self.lists[l].len();
        let want = match self.lists[l].get(i) { Want::Got(b) => Some(number(&b)), _ => None };
        let buffered = self.sets[l].get(&i).copied();
        self.store.ctl.borrow_mut().arm(fault);
        let item = if l == 0 { self.view.items.at(i) } else { self.view.tail.items.at(i) };
        let mut rec = ProvingBackend::new(&mut self.store);
        let r = if fetch { item.fetch(&self.raw, &mut rec).and_then(|_| item.get(&self.raw, &mut rec).map(|x| *x)) } else { item.get(&self.raw, &mut rec).map(|x| *x) };
        let proof: HashMap<V, (V, V)> = Proofs::from(rec).into();
        let fired = self.store.ctl.borrow_mut().disarm();
        if fetch && r.is_ok() { self.sets[l].remove(&i); }
        let buffered = if fetch { None } else { buffered };
        self.cx.say(|| format!("list {} of {} read at {} -> {:?} (fired {}, {} nodes recorded)", l, self.lists[l].len(), i, r, fired, proof.len()));
        let d = self.depth(l);
        self.spent(2 * read_cost(d, 1), format!("reading element {} of a list at depth {}", i, d))?;
        if self.cost {
            let list = [5usize, 15][l];
            let depth = model::depth_for(self.lists[l].len() as u64);
            let mut places = vec![2 * list + 1];
            if !past { places.push((((list * 2) as u64) << depth) as usize + i); }
            let path = self.nodes(&places);
            self.cx.stats.probe("proof of one element of a view");
            if let Some(x) = proof.keys().find(|x| !path.contains(*x)) {
                return self.cx.bad(Class::Cost, format!("reading element {} of a list with {} elements through a view loads {} nodes, of which {} is not on the way to it or to the length", i, self.lists[l].len(), proof.len(), hx(x.as_ref())));
            }
        }
        match r {
            _ if fired > 0 => {
                self.cx.stats.probe("view read with failed store call");
                if !injected(&r) { return self.cx.bad(Class::Partial, format!("reading element {} gives {:?} although the store failed", i, r)); }
            }
            Err(Error::AccessOverflowed) if past => self.cx.stats.probe("view past end refused"),
            Ok(x) if buffered == Some(x) => {}
            Ok(x) if buffered.is_none() && !past && (want == Some(x) || (!fetch && self.seen.get(&(l, i)) == Some(&x))) => { self.seen.insert((l, i), x); self.cx.stats.probe("element of a long list"); }
            other => return self.cx.bad(Class::Partial, format!("element {} of a list of {} reads as {:?} instead of {:?} (set to {:?})", i, self.lists[l].len(), other, want, buffered)),
        }
        Ok(())
    }

    fn forget(&mut self) {
        self.view = View::new(PartialIndex::root());
        self.sets = Default::default();
        self.pushes = Default::default();
        self.fields = [None, None];
        self.seen.clear();
    }

    fn flush(&mut self, fault: Fault) -> Flow {
        let mut most = write_cost(4, 1) * 2;
        for l in 0..2 {
            let d = self.depth(l) + 1;
            // elements that were merely read are looked up once more at most
            let looked = self.seen.keys().filter(|k| k.0 == l).count() as u64;
            most += (self.sets[l].len() + self.pushes[l].len() + 1) as u64 * (write_cost(d, 1) + read_cost(d, 1)) + looked * read_cost(d, 1);
        }
        let mut fault = fault;
        for attempt in 0..6 {
            self.store.ctl.borrow_mut().arm(fault);
            let r = self.view.flush(&mut self.raw, &mut self.store);
            let fired = self.store.ctl.borrow_mut().disarm();
            let n = (self.sets[0].len() + self.sets[1].len(), self.pushes[0].len() + self.pushes[1].len());
            self.cx.say(|| format!("flush of {:?} -> {:?} (fired {})", n, r, fired));
            self.spent(most, format!("flushing {} set and {} pushed elements", n.0, n.1))?;
            if fired > 0 {
                self.cx.stats.probe("long flush with failed store call");
                if !injected(&r) { return self.cx.bad(Class::Partial, format!("a flush gives {:?} although the store failed", r)); }
                fault = if attempt % 2 == 0 { Fault { at: fault.at * 2 + 1, ..fault } } else { Fault::NONE };
                continue;
            }
            if let Err(e) = r { return self.cx.bad(Class::Partial, format!("a flush gives {:?}", e)); }
            break;
        }
        for l in 0..2 {
            for (i, x) in std::mem::take(&mut self.sets[l]) { self.lists[l].set(i, &chunk(x)); }
            for x in std::mem::take(&mut self.pushes[l]) { self.lists[l].push(&chunk(x)); }
        }
        if let Some(x) = self.fields[0].take() { self.a = x; }
        if let Some(x) = self.fields[1].take() { self.y = x; }
        self.seen.clear();
        self.cx.stats.probe("long view flushed");
        self.root()
    }

    fn step(&mut self, s: &Step) -> Flow {
        self.cx.stats.probe(NAMES[(s.op as usize).min(NAMES.len() - 1)]);
        let l = s.client as usize % 2;
        let len = self.lists[l].len();
        match s.op {
            GET | FETCH => { if len > 0 { self.read(l, place(s.a, len), s.op == FETCH, s.fault)?; } }
            SET => {
                if len == 0 { return Ok(()); }
                let i = place(s.a, len);
                let x = s.b >> (s.c % 64);
                if l == 0 { self.view.items.at(i).set(x) } else { self.view.tail.items.at(i).set(x) }
                self.sets[l].insert(i, x);
            }
            PUSH => {
                let x = s.b >> (s.c % 64);
                if l == 0 { self.view.items.push(x) } else { self.view.tail.items.push(x) }
                self.pushes[l].push(x);
            }
            FLUSH => self.flush(s.fault)?,
            PAST => {
                let i = [len, len + 1, len + (s.a % 64) as usize, (s.a >> 8) as usize | 1 << 62, usize::MAX, len.next_power_of_two()][s.b as usize % 6];
                if i >= self.lists[l].len() { self.read(l, i, false, Fault::NONE)?; }
            }
            FRESH => self.forget(),
            FIELD => {
                let k = s.a as usize % 2;
                self.store.ctl.borrow_mut().arm(s.fault);
                let mut rec = ProvingBackend::new(&mut self.store);
                let r = if k == 0 { self.view.a.get(&self.raw, &mut rec) } else { self.view.y.get(&self.raw, &mut rec) }.map(|x| *x);
                let proof: HashMap<V, (V, V)> = Proofs::from(rec).into();
                let fired = self.store.ctl.borrow_mut().disarm();
                self.spent(read_cost(2, 1), "reading a field".into())?;
                let path = self.nodes(&[[4, 6][k]]);
                if self.cost && proof.keys().any(|x| !path.contains(x)) { return self.cx.bad(Class::Cost, format!("reading a field of four loads {} nodes, {} are on the way to it", proof.len(), path.len())); }
                if fired > 0 { return if injected(&r) { Ok(()) } else { self.cx.bad(Class::Partial, format!("a field reads as {:?} although the store failed", r)) }; }
                let want = self.fields[k].unwrap_or([self.a, self.y][k]);
                if r != Ok(want) { return self.cx.bad(Class::Partial, format!("field {} reads as {:?} instead of {}", k, r, want)); }
            }
            _ => {
                let k = s.a as usize % 2;
                if k == 0 { self.view.a.set(s.b) } else { self.view.y.set(s.b) }
                self.fields[k] = Some(s.b);
            }
        }
        Ok(())
    }
}

/// Near both ends, around powers of two, in the middle, anywhere.
fn place(x: u64, len: usize) -> usize {
    let y = x >> 8;
    let i = match x % 8 {
        0 | 1 => y as usize % 5,
        2 | 3 => len - 1 - (y as usize % 5).min(len - 1),
        4 | 5 => (1usize << (y % 60)).wrapping_sub(2).wrapping_add(y as usize / 64 % 5),
        6 => len / 2 + y as usize % 3,
        _ => y as usize,
    };
    i % len
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let len = |r: &mut Rng| match r.below(6) { 0 => r.below(4), 1 => r.below(70), 2 => 1 << r.range(2, 59), 3 => (1u64 << r.range(3, 59)) - 1 - r.below(3), 4 => (1u64 << r.range(3, 58)) + r.below(3), _ => r.below(1 << 59) };
    let (n, m) = (len(&mut r), len(&mut r));
    let cfg = vec![MARK + r.chance(1, 3) as u64, n, m, r.next() >> r.below(64), r.next() >> r.below(64)];
    let w: Vec<u64> = [14u64, 10, 10, 6, 2, 2, 3, 3, 4].iter().map(|x| if r.chance(1, 6) { x * 4 } else { *x }).collect();
    let pct = *r.pick(&[0, 10, 30]);
    let steps = match r.below(3) { 0 => r.range(3, 12), 1 => r.range(10, 30), _ => r.range(20, 70) };
    let mut out = Vec::new();
    for _ in 0..steps {
        let op = r.weighted(&w) as u8;
        let fault = if r.chance(pct, 100) { pick_fault(&mut r, &[FaultKind::Err, FaultKind::AckLost]) } else { Fault::NONE };
        let fault = if op == FLUSH || op == GET || op == FIELD || op == FETCH { fault } else { Fault::NONE };
        out.push(Step { client: r.below(2) as u8, op, a: r.next(), b: r.next(), c: r.below(64), fault });
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps: out }
}
