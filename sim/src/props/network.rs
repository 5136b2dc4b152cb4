//! C12: a prover with an evolving store sends compact and single-branch proofs over a lossy, reordering,
//! corrupting network to a verifier that knows nothing but the announced roots.

use crate::common::*;
use crate::model::{self, MSeq, Want, H};
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::seqworld::{apply, injected, pick_kind, raw_index, reopen_tree, show, Op, Out, RawT, Snap, Tr};
use crate::props::values;
use crate::rng::{mix, Rng};
use crate::seq::{self, Kind};
use crate::store::{Cons, Inh, SimError, SimStore, Unit, V};
use bm_le::IntoTree;
use bm::{CompactValue, Error, Index, Proofs, ProvingBackend, Raw};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const CREATE: u8 = 0; const MUTATE: u8 = 1; const MUTATEN: u8 = 2; const SEND: u8 = 3; const BRANCH: u8 = 4; const DELIVER: u8 = 5;
const REDELIVER: u8 = 6; const DROP: u8 = 7; const PARTITION: u8 = 8; const CORRUPT: u8 = 9; const READ: u8 = 10; const VCRASH: u8 = 11;
const REOPEN: u8 = 12; const HEAL: u8 = 13; const RAWREAD: u8 = 14;
const NAMES: [&str; 15] = ["create", "mutate", "mutate many", "send", "send branch", "deliver", "deliver, keep a copy", "drop", "partition",
    "corrupt", "verifier reads", "verifier crashes", "verifier reopens from root", "heal", "verifier reads raw"];
const SLOTS: usize = 3;

/// What travels: an independent form of `CompactValue`.
#[derive(Clone, PartialEq, Eq, Debug)]
enum T { S(H), C(Box<(T, T)>) }

impl T {
    fn of(c: &CompactValue<V>) -> T {
        match c { CompactValue::Single(v) => T::S(vh(v)), CompactValue::Combined(b) => T::C(Box::new((T::of(&b.0), T::of(&b.1)))) }
    }
    fn compact(&self) -> CompactValue<V> {
        match self { T::S(h) => CompactValue::Single(hv(h)), T::C(b) => CompactValue::Combined(Box::new((b.0.compact(), b.1.compact()))) }
    }
    fn root(&self) -> H { match self { T::S(h) => *h, T::C(b) => model::hash2(&b.0.root(), &b.1.root()) } }
    fn leaves(&self) -> usize { match self { T::S(_) => 1, T::C(b) => b.0.leaves() + b.1.leaves() } }
    fn nodes(&self, out: &mut BTreeMap<H, (H, H)>) -> H {
        match self {
            T::S(h) => *h,
            T::C(b) => { let (l, r) = (b.0.nodes(out), b.1.nodes(out)); let k = model::hash2(&l, &r); out.insert(k, (l, r)); k }
        }
    }
    fn encode(&self, out: &mut Vec<u8>) {
        match self { T::S(h) => { out.push(0); out.extend_from_slice(h); } T::C(b) => { out.push(1); b.0.encode(out); b.1.encode(out); } }
    }
    fn decode(b: &mut &[u8], depth: usize) -> Option<T> {
        let (t, rest) = b.split_first()?;
        *b = rest;
        match t {
            0 => { if b.len() < 32 { return None; } let mut h = [0; 32]; h.copy_from_slice(&b[..32]); *b = &b[32..]; Some(T::S(h)) }
            1 if depth < 200 => { let l = T::decode(b, depth + 1)?; let r = T::decode(b, depth + 1)?; Some(T::C(Box::new((l, r)))) }
            _ => None,
        }
    }
    /// The n-th leaf (inner nodes: the n-th node) in preorder.
    fn leaf_mut(&mut self, n: &mut usize) -> Option<&mut T> {
        match self {
            T::S(_) => { if *n == 0 { Some(self) } else { *n -= 1; None } }
            T::C(b) => { let b = &mut **b; if let Some(x) = b.0.leaf_mut(n) { return Some(x); } b.1.leaf_mut(n) }
        }
    }
    fn inner_mut(&mut self, n: &mut usize) -> Option<&mut T> {
        if let T::S(_) = self { return None; }
        if *n == 0 { return Some(self); }
        *n -= 1;
        if let T::C(b) = self { let b = &mut **b; if let Some(x) = b.0.inner_mut(n) { return Some(x); } return b.1.inner_mut(n); }
        None
    }
    fn inner(&self) -> usize { self.leaves() - 1 }
}

#[derive(Clone, Debug)]
enum Wire { Tree(Vec<u8>), Branch { index: u64, leaf: H, path: Vec<H> } }

#[derive(Clone)]
struct Packet { wire: Wire, vid: usize, covers: BTreeSet<usize>, root_open: bool, altered: bool, pruned: bool, shape: i32, writes: Vec<Write> }

/// An operation the prover tried while recording, what came of it, and the tree afterwards.
#[derive(Clone)]
struct Write { op: Op, result: Result<Out, Error<SimError>>, snap: Snap }

struct Version { kind: Option<Kind>, max: Option<u64>, snap: Snap, model: MSeq, deep: Vec<usize>, full: Wire }

struct Slot<C: Cons> { kind: Option<Kind>, max: Option<u64>, tree: Tr<C>, model: MSeq, deep: Vec<usize> }

struct World<C: Cons> {
    store: SimStore<C>, slots: Vec<Option<Slot<C>>>, cx: Ctx,
    /// Every node that ever existed.
    all: BTreeMap<H, (H, H)>,
    versions: Vec<Version>,
    net: Vec<Packet>,
    verifier: SimStore<C>,
    /// What accepted, unaltered messages since the verifier's last crash entitle it to read.
    entitled: BTreeSet<(usize, usize)>,
    open_ok: BTreeSet<usize>,
}

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) == 0 { World::<Inh>::run(plan, verbose) } else { World::<Unit>::run(plan, verbose) }
}

fn my_branch(index: u64, leaf: H, path: &[H]) -> Option<T> {
    let mut depth = 0; let mut i = index;
    while i > 1 { depth += 1; i >>= 1; }
    if index == 0 || path.len() != depth { return None; }
    let mut t = T::S(leaf); let mut i = index;
    for p in path { t = if i & 1 == 0 { T::C(Box::new((t, T::S(*p)))) } else { T::C(Box::new((T::S(*p), t))) }; i >>= 1; }
    Some(t)
}

impl<C: Cons> World<C> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        ctl.borrow_mut().keep_log = true;
        let mut w = World {
            store, slots: (0..SLOTS).map(|_| None).collect(), cx: Ctx::new(&[Class::Proof, Class::Panic], verbose), all: BTreeMap::new(),
            versions: Vec::new(), net: Vec::new(), verifier: SimStore::new(verbose), entitled: BTreeSet::new(), open_ok: BTreeSet::new(),
        };
        let mut flow = Ok(());
        for (i, s) in plan.steps.iter().enumerate() {
            w.cx.step = i;
            w.cx.stats.steps += 1;
            flow = w.step(s);
            if flow.is_err() { break; }
            let mut h = 9;
            for s in w.slots.iter().flatten() { h = mix(h ^ match &s.tree { Tr::Seq(t) => v8(&t.root()), Tr::Raw(r) => v8(&r.root()) }); }
            for p in &w.net { h = mix(h ^ p.vid as u64 ^ ((p.altered as u64) << 8) ^ match &p.wire { Wire::Tree(b) => b.len() as u64, Wire::Branch { index, .. } => index << 20 }); }
            h = mix(h ^ w.verifier.size() as u64);
            w.cx.note(h);
            w.cx.stats.states.insert(h);
        }
        if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.heal(); }
        w.cx.stats.max_store = w.store.size().max(w.verifier.size());
        w.cx.stats.take_ctl(&ctl);
        let vctl = w.verifier.ctl.clone();
        w.cx.stats.take_ctl(&vctl);
        let t = mix(ctl.borrow().trace ^ vctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn learn(&mut self) {
        let log = std::mem::take(&mut self.store.ctl.borrow_mut().log);
        for (k, (l, r)) in log { self.all.insert(vh(&k), (vh(&l), vh(&r))); }
    }

    fn value(&mut self, width: usize, code: u64) -> Vec<u8> {
        let roots: Vec<V> = self.slots.iter().flatten().map(|s| match &s.tree { Tr::Seq(t) => t.root(), Tr::Raw(r) => r.root() }).collect();
        values::value(C::INHERITED, width, code, &roots, &mut self.store)
    }

    fn mutate(&mut self, i: usize, st: &Step) -> Flow {
        let Some(s) = &self.slots[i] else { return Ok(()) };
        let (raw, width, len) = (s.kind.is_none(), s.kind.map(|k| k.width()).unwrap_or(32), s.model.len());
        let at = place(&s.model, len, st.b);
        let v = self.value(width, st.a);
        let op = if raw { Op::RSet(if st.b % 31 == 0 { 1 } else { raw_index(st.b / 31, 31) }, hv(&to32(&v))) } else {
            match st.c % 4 { 0 | 1 => Op::Push(v), 2 => Op::Pop, _ => Op::Set(at, v) }
        };
        let s = self.slots[i].as_mut().unwrap();
        if let Op::RSet(i, _) = &op { if *i > 63 { s.deep.push(*i); if s.deep.len() > 6 { s.deep.remove(0); } } }
        let r = apply(&mut s.tree, &mut self.store, &op);
        let want = match &op { Op::Push(v) => s.model.push(v), Op::Pop => s.model.pop(), Op::Set(i, v) => s.model.set(*i, v), _ => Want::Done };
        let ok = match (&r, &want) {
            (Ok(Out::Done), Want::Done) | (Err(Error::AccessOverflowed), Want::Refused) => true,
            (Ok(Out::Popped(a)), Want::Popped(b)) => a == b,
            _ => false,
        };
        self.cx.say(|| format!("prover slot {} {:?} -> {:?}", i, op, r.is_ok()));
        if !ok { return self.cx.bad(Class::Content, format!("prover: {:?} gives {:?} instead of {:?}", op, r, want)); }
        self.learn();
        Ok(())
    }

    fn snap(&self, i: usize) -> Snap { snap_of(&self.slots[i].as_ref().unwrap().tree) }

    /// Writes for the prover to record; of elements that are no nodes, so that both stores know the same about them.
    fn ops(&mut self, i: usize, b: u64, n: u64) -> Vec<Op> {
        let s = self.slots[i].as_ref().unwrap();
        let (raw, width, len) = (s.kind.is_none(), s.kind.map(|k| k.width()).unwrap_or(32), s.model.len());
        if width == 32 && s.model.sample().into_iter().any(|j| self.all.contains_key(&to32(&s.model.at(j)))) { return Vec::new(); }
        if raw { return Vec::new(); }
        (0..n).map(|j| {
            let x = mix(b.wrapping_add(j * 977));
            let v = values::value(C::INHERITED, width, x % 9 + (x >> 20) / 16 * 16, &[], &mut self.store);
            match x >> 8 & 7 { 0..=3 => Op::Push(v), 4 | 5 => Op::Pop, 6 => Op::Set(place(&self.slots[i].as_ref().unwrap().model, len, x >> 16), v), _ => Op::Get(place(&self.slots[i].as_ref().unwrap().model, len, x >> 16)) }
        }).collect()
    }

    /// Proof of some reads of the current tree of slot `i`, through the recording store.
    fn record(&mut self, i: usize, want: &BTreeSet<usize>, open: bool, ops: Vec<Op>, fault: Fault) -> Result<(T, BTreeSet<usize>, bool, Vec<Write>), Stop> {
        let snap = self.snap(i);
        let kind = self.slots[i].as_ref().unwrap().kind;
        let max = self.slots[i].as_ref().unwrap().max;
        let mut covers = BTreeSet::new();
        let mut opened = false;
        let mut writes = Vec::new();
        self.store.ctl.borrow_mut().arm(fault);
        let proofs: Proofs<V> = {
            let mut tree: Tr<C> = reopen_tree(kind, false, &snap);
            let mut rec = ProvingBackend::new(&mut self.store);
            if let (true, Some(k)) = (open, kind) {
                if k.from_root() { opened = seq::from_root::<C>(k, false, snap.root().clone(), &mut rec, max).is_ok(); }
            }
            let mut rooted = true;
            if kind.map(|k| k.mixed()).unwrap_or(false) {
                // items are read below the root of the items: the step from the list's root belongs to the proof, too
                rooted = matches!((kind, open), (Some(k), false) if k.from_root()) && {
                    match reopen_tree::<C>(kind, false, &snap) { Tr::Seq(t) => t.deconstruct(&mut rec).is_ok(), _ => false }
                };
                if !rooted { rooted = matches!(Raw::<bm::Dangling, C>::new(snap.root().clone()).get(&mut rec, Index::root().left()), Ok(Some(_))); }
            }
            for j in want {
                if !rooted { break; }
                let op = if kind.is_some() { Op::Get(*j) } else { Op::RGet(*j) };
                match apply(&mut tree, &mut rec, &op) { Ok(Out::RGot(None)) => {} Ok(_) => { covers.insert(*j); } Err(_) => {} }
            }
            for op in ops {
                if !rooted { break; }
                let result = apply(&mut tree, &mut rec, &op);
                if injected(&result) { break; }
                writes.push(Write { op, result, snap: snap_of(&tree) });
            }
            rec.into()
        };
        self.learn();
        if self.store.ctl.borrow_mut().disarm() > 0 { self.cx.stats.probe("recording met a failing store"); }
        let root = snap.root().clone();
        self.sized(&proofs, &root)?;
        let compact = proofs.into_compact(root.clone());
        let t = T::of(&compact);
        // exactness of the compact form
        let mut reach: BTreeMap<H, (H, H)> = BTreeMap::new();
        let mut todo = vec![root.clone()];
        while let Some(k) = todo.pop() {
            if reach.contains_key(&vh(&k)) { continue; }
            if let Some((l, r)) = proofs.get(&k) { reach.insert(vh(&k), (vh(l), vh(r))); todo.push(l.clone()); todo.push(r.clone()); }
        }
        if t.root() != vh(&root) { return Err(self.cx.stop(Class::Proof, format!("compacting the proof of {} gives a value with root {}", hx(root.as_ref()), hx(&t.root())))); }
        if compact.len() != t.leaves() { return Err(self.cx.stop(Class::Proof, format!("compact proof of {} leaves has length {}", t.leaves(), compact.len()))); }
        let bmroot = compact.clone().root::<C>();
        let (p2, r2) = Proofs::from_compact::<C>(compact.clone());
        if bmroot != root || r2 != root { return Err(self.cx.stop(Class::Proof, format!("compact proof of {} has root {} and expands to root {}", hx(root.as_ref()), hx(bmroot.as_ref()), hx(r2.as_ref())))); }
        let back: BTreeMap<H, (H, H)> = p2.iter().map(|(k, (l, r))| (vh(k), (vh(l), vh(r)))).collect();
        if back != reach { return Err(self.cx.stop(Class::Proof, format!("the proof has {} nodes under its root, but its compact form expands to {}", reach.len(), back.len()))); }
        if p2.into_compact(root) != compact { return Err(self.cx.stop(Class::Proof, "compacting the expanded proof gives another compact proof".into())); }
        Ok((t, covers, opened, writes))
    }

    /// The compact form of a proof is about as big as the proof, also when subtrees repeat: a part of it first, which
    /// would not be too big in any case.
    fn sized(&mut self, proofs: &Proofs<V>, root: &V) -> Flow {
        fn naive(p: &Proofs<V>, k: &V, memo: &mut HashMap<V, u64>) -> u64 {
            if let Some(n) = memo.get(k) { return *n; }
            let n = match p.get(k) { Some((l, r)) => naive(p, l, memo).saturating_add(naive(p, r, memo)), None => 1 };
            memo.insert(k.clone(), n);
            n
        }
        let mut memo = HashMap::new();
        let all = naive(proofs, root, &mut memo);
        if all <= 1 << 12 { return Ok(()); }
        let mut k = root.clone();
        while naive(proofs, &k, &mut memo) > 1 << 16 {
            let (l, r) = proofs.get(&k).cloned().unwrap();
            k = if naive(proofs, &l, &mut memo) > naive(proofs, &r, &mut memo) { l } else { r };
        }
        let n = proofs.into_compact(k.clone()).len();
        let mut reach: BTreeSet<V> = BTreeSet::new();
        let mut todo = vec![k];
        while let Some(k) = todo.pop() { if let Some((l, r)) = proofs.get(&k) { if reach.insert(k) { todo.push(l.clone()); todo.push(r.clone()); } } }
        self.cx.stats.probe("proof with many repeated subtrees");
        if n > 4 * reach.len() + 64 { return self.cx.bad(Class::Proof, format!("the compact form of {} proof nodes has {} leaves, and that of the whole proof of {} nodes would have {}", reach.len(), n, proofs.len(), all)); }
        Ok(())
    }

    /// The version of the current tree; the root reaches the verifier over a channel it trusts.
    fn announce(&mut self, i: usize) -> Result<usize, Stop> {
        let snap = self.snap(i);
        let (kind, max) = { let s = self.slots[i].as_ref().unwrap(); (s.kind, s.max) };
        if let Some(v) = self.versions.iter().position(|v| v.snap == snap && v.kind == kind && v.max == max) { return Ok(v); }
        let s = self.slots[i].as_ref().unwrap();
        let (model, deep) = (s.model.clone(), s.deep.clone());
        let want = if kind.is_some() { model.sample().into_iter().collect() } else { (1..64).chain(deep.iter().copied()).collect() };
        let (t, _, _, _) = self.record(i, &want, true, Vec::new(), Fault::NONE)?;
        let mut b = Vec::new();
        t.encode(&mut b);
        self.versions.push(Version { kind, max, snap, model, deep, full: Wire::Tree(b) });
        Ok(self.versions.len() - 1)
    }

    fn deliver(&mut self, p: &Packet) -> Flow {
        let (t, compact) = match &p.wire {
            Wire::Tree(b) => {
                let mut cur = &b[..];
                let Some(t) = T::decode(&mut cur, 0) else { self.cx.stats.fire("net:torn message refused"); return Ok(()) };
                if !cur.is_empty() { self.cx.stats.fire("net:torn message refused"); return Ok(()); }
                let c = t.compact();
                (t, c)
            }
            Wire::Branch { index, leaf, path } => {
                let Some(ix) = Index::from_one(*index as usize) else { return Ok(()) };
                let got = CompactValue::from_plain(hv(leaf), path.iter().map(hv), ix);
                let want = my_branch(*index, *leaf, path);
                match (got, want) {
                    (Some(c), Some(t)) => {
                        if T::of(&c) != t { return self.cx.bad(Class::Proof, format!("branch for index {} with {} steps became another compact proof", index, path.len())); }
                        (t, c)
                    }
                    (None, None) => { self.cx.stats.fire("net:branch with wrong number of steps refused"); return Ok(()); }
                    (g, _) => return self.cx.bad(Class::Proof, format!("a branch for index {} with {} steps was {}", index, path.len(), if g.is_some() { "accepted" } else { "refused" })),
                }
            }
        };
        let root = compact.clone().root::<C>();
        if vh(&root) != t.root() { return self.cx.bad(Class::Proof, format!("a compact proof with root {} claims root {}", hx(&t.root()), hx(root.as_ref()))); }
        let accepted = self.versions.iter().any(|v| v.snap.root() == &root);
        let honest = vh(self.versions[p.vid].snap.root()) == t.root();
        self.cx.say(|| format!("verifier {} a message of version {} ({} leaves){}", if accepted { "accepts" } else { "rejects" }, p.vid, t.leaves(), if p.altered { " altered" } else { "" }));
        if !accepted { self.cx.stats.fire("net:altered message rejected"); if !p.altered { return self.cx.bad(Class::Proof, format!("an unaltered proof of version {} is rejected", p.vid)); } return Ok(()); }
        if p.altered && honest { self.cx.stats.probe("altered message with the same root"); }
        if mix(t.leaves() as u64 ^ p.vid as u64) % 3 == 0 { self.expand(&t, &compact)?; }
        let (proofs, r2) = Proofs::from_compact::<C>(compact);
        if vh(&r2) != t.root() { return self.cx.bad(Class::Proof, "expanding a compact proof gives another root".into()); }
        let mut want = BTreeMap::new();
        t.nodes(&mut want);
        let got: BTreeMap<H, (H, H)> = proofs.iter().map(|(k, (l, r))| (vh(k), (vh(l), vh(r)))).collect();
        if got != want { return self.cx.bad(Class::Proof, format!("a compact proof of {} nodes expands to {} nodes, or others", want.len(), got.len())); }
        let map: HashMap<V, (V, V)> = proofs.into();
        if !p.altered && !p.writes.is_empty() { self.replay(p, map.clone())?; }
        self.verifier.real.populate(map);
        if !p.altered {
            for j in &p.covers { self.entitled.insert((p.vid, *j)); }
            if p.root_open { self.open_ok.insert(p.vid); }
        }
        self.cx.stats.probe("message accepted");
        Ok(())
    }

    /// The message alone is enough to do what the prover did.
    fn replay(&mut self, p: &Packet, map: HashMap<V, (V, V)>) -> Flow {
        let (kind, snap) = (self.versions[p.vid].kind, self.versions[p.vid].snap.clone());
        let mut store = SimStore::<C>::new(false);
        store.real.populate(map);
        let mut tree: Tr<C> = reopen_tree(kind, false, &snap);
        self.cx.stats.probe("writes replayed from a message");
        for w in &p.writes {
            let r = apply(&mut tree, &mut store, &w.op);
            if r != w.result || snap_of(&tree) != w.snap {
                return self.cx.bad(Class::Proof, format!("from the proof sent, {:?} on version {} gives {} and {:?} instead of {} and {:?}", w.op, p.vid, show(&r), snap_of(&tree), show(&w.result), w.snap));
            }
        }
        Ok(())
    }

    /// The other way to expand a compact proof: write it to a store.
    fn expand(&mut self, t: &T, compact: &CompactValue<V>) -> Flow {
        let mut store = SimStore::<C>::new(false);
        let x = mix(t.leaves() as u64 ^ v8(&hv(&t.root())));
        store.ctl.borrow_mut().arm(if x % 2 == 0 { Fault { kind: [FaultKind::Err, FaultKind::AckLost][(x >> 8) as usize % 2], at: (x >> 16) as u32 % t.leaves() as u32, len: 0 } } else { Fault::NONE });
        let mut r = compact.into_tree(&mut store);
        if store.ctl.borrow_mut().disarm() > 0 {
            self.cx.stats.probe("expanding to a store failed");
            if !injected(&r) { return self.cx.bad(Class::Proof, format!("expanding a compact proof to a failing store gives {:?}", r)); }
            r = compact.into_tree(&mut store);
        }
        self.cx.stats.take_ctl(&store.ctl);
        let mut want = BTreeMap::new();
        t.nodes(&mut want);
        if r.as_ref().map(vh) != Ok(t.root()) { return self.cx.bad(Class::Proof, format!("expanding a compact proof with root {} to a store gives {:?}", hx(&t.root()), r)); }
        for (k, (l, r)) in &want {
            match store.peek(&hv(k)) {
                Some((a, b)) if vh(&a) == *l && vh(&b) == *r => {}
                o => return self.cx.bad(Class::Proof, format!("expanding a compact proof to a store leaves {:?} for node {}", o, hx(k))),
            }
        }
        Ok(())
    }

    fn truth(&self, root: &V, mut ix: u64) -> Option<H> {
        let mut path = Vec::new();
        while ix > 1 { path.push(ix & 1); ix >>= 1; }
        let mut h = vh(root);
        for s in path.iter().rev() { let (l, r) = self.all.get(&h)?; h = if *s == 0 { *l } else { *r }; }
        Some(h)
    }

    fn vread(&mut self, vid: usize, j: usize, fault: Fault) -> Flow {
        let v = &self.versions[vid];
        let (kind, snap) = (v.kind, v.snap.clone());
        if kind.is_none() { return self.vraw(vid, j as u64 % 127 + 1, fault); }
        let n = v.model.len();
        let j = if n <= 80 { j % (n + 1) } else { j.min(n) };
        let want = if j < n { Some(v.model.at(j)) } else { None };
        let mut tree: Tr<C> = reopen_tree(kind, false, &snap);
        self.verifier.ctl.borrow_mut().arm(fault);
        let mut r = apply(&mut tree, &mut self.verifier, &Op::Get(j));
        if self.verifier.ctl.borrow_mut().disarm() > 0 && injected(&r) {
            self.cx.stats.probe("verifier's store failed");
            r = apply(&mut tree, &mut self.verifier, &Op::Get(j));
        }
        match (&r, &want) {
            (Ok(Out::Got(a)), Some(b)) if a == b => { self.cx.stats.probe("verifier read the true value"); }
            (Ok(o), _) => return self.cx.bad(Class::Proof, format!("verifier reads {:?} from version {} element {}, whose value is {:?}", o, vid, j, want.as_ref().map(|b| hx(b)))),
            (Err(e), Some(_)) => {
                if self.entitled.contains(&(vid, j)) {
                    return self.cx.bad(Class::Proof, format!("verifier has an accepted proof of version {} element {} but reads {:?}", vid, j, e));
                }
                self.cx.stats.probe("verifier knows that it does not know");
            }
            (Err(_), None) => {}
        }
        Ok(())
    }

    fn vraw(&mut self, vid: usize, ix: u64, fault: Fault) -> Flow {
        let root = self.versions[vid].snap.root().clone();
        let mut tree: Tr<C> = Tr::Raw(RawT::D(Raw::new(root.clone())));
        self.verifier.ctl.borrow_mut().arm(fault);
        let mut r = apply(&mut tree, &mut self.verifier, &Op::RGet(ix as usize));
        if self.verifier.ctl.borrow_mut().disarm() > 0 && injected(&r) { r = apply(&mut tree, &mut self.verifier, &Op::RGet(ix as usize)); }
        let want = self.truth(&root, ix);
        match r {
            Ok(Out::RGot(Some(v))) => {
                if want != Some(vh(&v)) { return self.cx.bad(Class::Proof, format!("verifier reads {} at index {} of version {}, where there is {:?}", hx(v.as_ref()), ix, vid, want.map(|h| hx(&h)))); }
                self.cx.stats.probe("verifier read a true node");
            }
            r => {
                if self.versions[vid].kind.is_none() && want.is_some() && self.entitled.contains(&(vid, ix as usize)) {
                    return self.cx.bad(Class::Proof, format!("verifier has an accepted proof of version {} index {} but reads {:?}", vid, ix, r));
                }
            }
        }
        Ok(())
    }

    fn vopen(&mut self, vid: usize, fault: Fault) -> Flow {
        let v = &self.versions[vid];
        let Some(k) = v.kind else { return Ok(()) };
        if !k.from_root() { return Ok(()); }
        let (root, max, n) = (v.snap.root().clone(), v.max, v.model.len());
        self.verifier.ctl.borrow_mut().arm(fault);
        let mut r = seq::from_root::<C>(k, false, root.clone(), &mut self.verifier, max);
        if self.verifier.ctl.borrow_mut().disarm() > 0 && matches!(r, Err(Error::Backend(SimError::Injected))) { r = seq::from_root::<C>(k, false, root, &mut self.verifier, max); }
        match r {
            Ok(t) => {
                if t.len() != n || Snap::Seq(t.len(), t.root(), t.meta()) != self.versions[vid].snap {
                    return self.cx.bad(Class::Proof, format!("version {} with {} elements reopens from its root with {}", vid, n, t.len()));
                }
                self.cx.stats.probe("verifier reopened from the root");
            }
            Err(e) => if self.open_ok.contains(&vid) { return self.cx.bad(Class::Proof, format!("verifier has a proof to reopen version {} but gets {:?}", vid, e)); },
        }
        Ok(())
    }

    fn heal(&mut self) -> Flow {
        self.net.clear();
        for vid in 0..self.versions.len() {
            let covers = self.versions[vid].model.sample().into_iter().collect();
            let p = Packet { wire: self.versions[vid].full.clone(), vid, covers, root_open: true, altered: false, pruned: false, shape: 0, writes: Vec::new() };
            let p = if self.versions[vid].kind.is_none() { Packet { covers: BTreeSet::new(), ..p } } else { p };
            self.deliver(&p)?;
        }
        for vid in 0..self.versions.len() {
            let n = self.versions[vid].model.len();
            for j in self.versions[vid].model.sample().into_iter().chain(Some(n)) { self.vread(vid, j, Fault::NONE)?; }
            for ix in self.versions[vid].deep.clone() { self.vraw(vid, ix as u64, Fault::NONE)?; }
            self.vopen(vid, Fault::NONE)?;
        }
        Ok(())
    }

    fn corrupt(&mut self, st: &Step) {
        if self.net.is_empty() { return; }
        let n = self.net.len();
        let other: Vec<H> = match &self.net[(st.b >> 8) as usize % n].wire {
            Wire::Tree(b) => { let mut c = &b[..]; let mut m = BTreeMap::new(); T::decode(&mut c, 0).map(|t| { t.nodes(&mut m); m.values().map(|p| p.0).collect() }).unwrap_or_default() }
            Wire::Branch { leaf, path, .. } => path.iter().cloned().chain(Some(*leaf)).collect(),
        };
        let p = &mut self.net[st.client as usize % n];
        let (x, y) = (st.b as usize & 0xffffff, mix(st.b));
        let subst = if other.is_empty() || y & 1 == 0 { [0u8; 32] } else { other[(y >> 8) as usize % other.len()] };
        let mut fired = "net:nothing";
        match &mut p.wire {
            Wire::Tree(bytes) => {
                let mut cur = &bytes[..];
                match (st.a % 9, T::decode(&mut cur, 0)) {
                    (0, _) => { if !bytes.is_empty() { let k = x % bytes.len(); bytes[k] ^= 1 << (y % 8); fired = "net:bit flip"; } }
                    (1, _) => { bytes.truncate(x % (bytes.len() + 1)); fired = "net:truncation"; }
                    (2, _) => { let k = x % (bytes.len() + 1); let tail = bytes[k..].to_vec(); bytes.extend(tail); fired = "net:duplicated tail"; }
                    (k, Some(mut t)) => {
                        let (nl, ni) = (t.leaves(), t.inner());
                        match k {
                            3 => { let mut q = x % nl; if let Some(l) = t.leaf_mut(&mut q) { *l = T::S(subst); fired = "net:substituted hash"; } }
                            4 if ni > 0 => { let mut q = x % ni; if let Some(T::C(b)) = t.inner_mut(&mut q) { let b = &mut **b; std::mem::swap(&mut b.0, &mut b.1); fired = "net:swapped children"; } }
                            5 if ni > 0 => { let mut q = x % ni; if let Some(c) = t.inner_mut(&mut q) { *c = T::S(c.root()); fired = "net:pruned"; } }
                            6 => { let mut q = x % nl; if let Some(l) = t.leaf_mut(&mut q) { *l = T::C(Box::new((T::S(subst), T::S([0; 32])))); fired = "net:grown leaf"; } }
                            7 if nl > 1 => {
                                let (mut q, mut q2) = (x % nl, (y % nl as u64) as usize);
                                let a = t.leaf_mut(&mut q).map(|l| l.root());
                                let b = t.leaf_mut(&mut q2).map(|l| l.root());
                                if let (Some(a), Some(b)) = (a, b) {
                                    let (mut q, mut q2) = (x % nl, (y % nl as u64) as usize);
                                    *t.leaf_mut(&mut q).unwrap() = T::S(b);
                                    *t.leaf_mut(&mut q2).unwrap() = T::S(a);
                                    fired = "net:exchanged leaves";
                                }
                            }
                            8 if ni > 0 => {
                                let mut q = x % ni;
                                if let Some(c) = t.inner_mut(&mut q) {
                                    if let T::C(b) = c.clone() { if let T::C(r) = &b.1 { *c = T::C(Box::new((T::C(Box::new((b.0.clone(), r.0.clone()))), r.1.clone()))); fired = "net:rotated"; } }
                                }
                            }
                            _ => {}
                        }
                        bytes.clear();
                        t.encode(bytes);
                    }
                    _ => {}
                }
            }
            Wire::Branch { index, leaf, path } => match st.a % 7 {
                0 => { let k = x % (path.len() + 1); let h = if k == path.len() { leaf } else { &mut path[k] }; h[(y % 32) as usize] ^= 1 << ((y >> 8) % 8); fired = "net:bit flip"; }
                1 => { if !path.is_empty() { path.remove(x % path.len()); fired = "net:lost step"; } }
                2 => { path.insert(x % (path.len() + 1), subst); fired = "net:extra step"; }
                3 => { if path.len() > 1 { let k = x % (path.len() - 1); path.swap(k, k + 1); fired = "net:swapped steps"; } }
                4 => { *index ^= 1 << (y % 4); if *index == 0 { *index = 1; } fired = "net:changed index"; }
                5 => { *leaf = subst; fired = "net:substituted hash"; }
                _ => { if !path.is_empty() { let k = x % path.len(); path[k] = subst; fired = "net:substituted hash"; } }
            },
        }
        if fired != "net:nothing" { p.altered = true; p.pruned |= fired == "net:pruned"; p.shape += 1; }
        self.cx.stats.fire(fired);
        self.cx.say(|| fired.to_string());
    }

    fn step(&mut self, st: &Step) -> Flow {
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        let i = st.client as usize % SLOTS;
        let nv = self.versions.len();
        match st.op {
            CREATE => {
                if self.slots[i].is_some() { return Ok(()); }
                if st.a == 99 {
                    self.slots[i] = Some(Slot { kind: None, max: None, tree: Tr::Raw(RawT::O(Raw::default())), model: MSeq::new(Kind::List, 0, None), deep: Vec::new() });
                    return Ok(());
                }
                let kind = Kind::decode(st.a);
                let max = if st.c == 0 { None } else { Some(st.c) };
                let mut len = if kind.can_create_len() && C::INHERITED { if st.b >= 1 << 32 { 1 << (st.b % 41) } else { (st.b % 40) as usize } } else { 0 };
                if let Some(m) = max { len = len.min(m as usize); }
                match seq::create::<C>(kind, &mut self.store, len, max) {
                    Ok(t) => self.slots[i] = Some(Slot { kind: Some(kind), max, tree: Tr::Seq(t), model: MSeq::new(kind, len, max), deep: Vec::new() }),
                    Err(e) => return self.cx.bad(Class::Content, format!("create: {:?}", e)),
                }
                self.learn();
                Ok(())
            }
            MUTATE => self.mutate(i, st),
            MUTATEN => {
                for j in 0..st.a % 32 {
                    let x = mix(st.b.wrapping_add(j));
                    self.mutate(i, &Step { a: x % 16, b: x >> 8, c: st.c & (x >> 50), ..*st })?;
                }
                Ok(())
            }
            SEND => {
                if self.slots[i].is_none() { return Ok(()); }
                let vid = self.announce(i)?;
                let v = &self.versions[vid];
                let from: Vec<usize> = if v.kind.is_none() { (1..64).chain(v.deep.iter().copied()).collect() } else { v.model.sample() };
                let want: BTreeSet<usize> = from.into_iter().filter(|j| mix(st.b ^ *j as u64) % 100 < st.a).collect();
                let ops = if (st.c >> 1) % 3 == 0 { self.ops(i, st.b, (st.c >> 4) % 4 + 1) } else { Vec::new() };
                let (t, covers, opened, writes) = self.record(i, &want, st.c & 1 == 1, ops, st.fault)?;
                let mut b = Vec::new();
                t.encode(&mut b);
                self.cx.say(|| format!("prover sends a proof of version {} covering {:?}", vid, covers));
                self.net.push(Packet { wire: Wire::Tree(b), vid, covers, root_open: opened, altered: false, pruned: false, shape: 0, writes });
                Ok(())
            }
            BRANCH => {
                if self.slots[i].is_none() { return Ok(()); }
                let vid = self.announce(i)?;
                let mut cur = self.versions[vid].snap.root().clone();
                let deep = &self.versions[vid].deep;
                let aim = if deep.is_empty() || st.b % 2 == 0 { None } else { Some(deep[(st.b >> 8) as usize % deep.len()]) };
                let (mut index, mut path) = (1u64, Vec::new());
                for d in 0..(st.a % 64) {
                    let Some((l, r)) = self.store.peek(&cur) else { break };
                    // mostly towards the elements
                    let right = match aim { Some(ix) => { let n = 63 - (ix as u64).leading_zeros() as u64; if d >= n { break; } (ix as u64 >> (n - 1 - d)) & 1 == 1 } None => (mix(st.b) >> d) & 1 == 1 };
                    index = index * 2 + right as u64;
                    path.push(vh(if right { &l } else { &r }));
                    cur = if right { r } else { l };
                }
                path.reverse();
                self.net.push(Packet { wire: Wire::Branch { index, leaf: vh(&cur), path }, vid, covers: BTreeSet::new(), root_open: false, altered: false, pruned: false, shape: 0, writes: Vec::new() });
                Ok(())
            }
            DELIVER | REDELIVER => {
                if self.net.is_empty() { return Ok(()); }
                let k = st.a as usize % self.net.len();
                if k != 0 { self.cx.stats.fire("net:reordered"); }
                let p = if st.op == DELIVER { self.net.remove(k) } else { self.cx.stats.fire("net:duplicated"); self.net[k].clone() };
                if p.vid + 1 < nv { self.cx.stats.probe("delayed past a newer version"); }
                self.deliver(&p)
            }
            DROP => { if !self.net.is_empty() { let k = st.a as usize % self.net.len(); self.net.remove(k); self.cx.stats.fire("net:dropped"); } Ok(()) }
            PARTITION => { if !self.net.is_empty() { self.net.clear(); self.cx.stats.fire("net:partition"); } Ok(()) }
            CORRUPT => { self.corrupt(st); Ok(()) }
            READ => { if nv > 0 { let v = pick_version(st.a, nv); let j = place(&self.versions[v].model, self.versions[v].model.len(), st.b); self.vread(v, if self.versions[v].kind.is_some() { j } else { st.b as usize }, st.fault) } else { Ok(()) } }
            RAWREAD => {
                if nv == 0 { return Ok(()); }
                let v = pick_version(st.a, nv);
                let deep = &self.versions[v].deep;
                let ix = if !deep.is_empty() && st.b % 3 == 0 { deep[(st.b >> 8) as usize % deep.len()] as u64 ^ ((st.b >> 40) % 4 == 0) as u64 } else { st.b % 127 + 1 };
                self.vraw(v, ix, st.fault)
            }
            REOPEN => { if nv > 0 { self.vopen(pick_version(st.a, nv), st.fault) } else { Ok(()) } }
            VCRASH => {
                let ctl = self.verifier.ctl.clone();
                self.verifier = SimStore::with_ctl(ctl);
                self.entitled.clear();
                self.open_ok.clear();
                self.cx.stats.fire("crash:verifier");
                Ok(())
            }
            HEAL => self.heal(),
            _ => Ok(()),
        }
    }
}

fn snap_of<C: Cons>(t: &Tr<C>) -> Snap { match t { Tr::Seq(t) => Snap::Seq(t.len(), t.root(), t.meta()), Tr::Raw(r) => Snap::Raw(r.root()) } }
/// A position in a sequence, or just past its end.
fn place(m: &MSeq, len: usize, x: u64) -> usize {
    if len <= 80 { return x as usize % (len + 1); }
    let s = m.sample();
    match x % 8 { 0 => len, 1 => len - 1, _ => s[(x >> 3) as usize % s.len()] }
}
fn pick_version(a: u64, n: usize) -> usize { if a % 2 == 0 { n - 1 } else { (a / 2) as usize % n } }
fn to32(b: &[u8]) -> [u8; 32] { let mut h = [0; 32]; h.copy_from_slice(&b[..32]); h }

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let cfg = vec![r.chance(1, 3) as u64];
    let pool: &[u64] = &[0, 1, 2, 10, 11, 30, 31, 99, 13, 22, 33, 40];
    //               cr mu mn se br de re dr pa co rd vc ro he rr
    let mut w = [1u64, 4, 1, 7, 4, 9, 3, 2, 1, 8, 8, 1, 2, 0, 3];
    for (j, x) in w.iter_mut().enumerate() { if j != SEND as usize && j != DELIVER as usize && r.chance(1, 7) { *x = 0; } else if r.chance(1, 7) { *x *= 4; } }
    if r.chance(1, 8) { w[HEAL as usize] = 1; }
    let clients = r.range(1, SLOTS as u64);
    let maxes = [1u64, 2, 3, 5, 8, 9, 17, 33, 100, 256, 1 << 20, 1 << 33, 1 << 40, 1 << 56];
    let fault_pct = *r.pick(&[0u64, 0, 20]);
    let alphabet = *r.pick(&[2u64, 4, 9, 16, 1 << 40]);
    let mut out = Vec::new();
    let create = |r: &mut Rng, client: u64| -> Step {
        let c = if r.chance(2, 5) { *r.pick(&maxes) } else { 0 };
        Step { client: client as u8, op: CREATE, a: pick_kind(r, pool), b: match r.below(12) { 0..=3 => r.below(24), 4 => (1 << 32) + r.below(41), _ => 0 }, c, fault: Fault::NONE }
    };
    for c in 0..clients {
        out.push(create(&mut r, c));
        if r.chance(4, 5) { out.push(Step { client: c as u8, op: MUTATEN, a: r.below(32), b: r.next(), c: if r.chance(1, 3) { 3 } else { 0 }, fault: Fault::NONE }); }
    }
    let steps = match r.below(10) { 0..=3 => r.range(4, 12), 4..=8 => r.range(12, 40), _ => r.range(40, 100) };
    for _ in 0..steps {
        let op = r.weighted(&w) as u8;
        let client = r.below(clients);
        if op == CREATE { let s = create(&mut r, client); out.push(s); continue; }
        let mut s = Step { client: client as u8, op, a: r.below(alphabet), b: r.next() >> 1, c: r.next() >> 1, fault: Fault::NONE };
        match op {
            MUTATEN => { s.a = r.below(8) + 1; s.c = 3; }
            SEND => s.a = *r.pick(&[3, 10, 10, 30, 60, 100, 101]),
            BRANCH => s.a = if r.chance(2, 3) { r.below(24) } else { r.below(64) },
            DELIVER | REDELIVER | DROP => s.a = if r.chance(1, 2) { 0 } else { r.below(8) },
            CORRUPT => { s.a = r.next() >> 1; s.client = r.below(16) as u8; }
            READ | RAWREAD | REOPEN => s.a = r.below(16),
            _ => {}
        }
        if matches!(op, SEND | READ | RAWREAD | REOPEN) && r.chance(fault_pct, 100) { s.fault = Fault { kind: FaultKind::Err, at: r.below(10) as u32, len: r.below(2) as u32 }; }
        out.push(s);
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps: out }
}
