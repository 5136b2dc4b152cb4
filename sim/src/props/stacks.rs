//! C16: the same history runs in lock step on five stacks of backends, each over a disk of its own; results, roots,
//! handles and disks are compared after every operation. The discarding store is asked on the side.

use crate::common::*;
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::prover::{run_op, snap_of, LOp, Slot, R};
use crate::props::seqworld::{apply, pick_fault, pick_kind, reopen_tree, show, Op, Snap, Tr};
use crate::props::values;
use crate::rng::{mix, Rng};
use crate::seq::{self, BOp, Kind};
use crate::store::{Cons, CtlRef, Db, Inh, Mapped, SimError, SimStore, Unit, V};
use bm::{Backend, DynBackend, Error, NoopBackend, ProvingBackend, ProvingState, ReadBackend, WriteBackend};
use std::collections::{BTreeMap, BTreeSet};

const CREATE: u8 = 0; const PUSH: u8 = 1; const POP: u8 = 2; const SET: u8 = 3; const GET: u8 = 4; const RSUB: u8 = 5; const READALL: u8 = 6;
const PUSHN: u8 = 7; const POPN: u8 = 8; const REOPEN: u8 = 9; const DROP: u8 = 10; const BATCH: u8 = 11; const VIEW: u8 = 12; const RESET: u8 = 13;
const LOSE: u8 = 14; const FOUND: u8 = 15;
const NAMES: [&str; 16] = ["create", "push", "pop", "set", "get", "subtree", "readall", "pushn", "popn", "reopen", "drop", "batch", "view", "new recording", "lose", "found"];
const SLOTS: usize = 6;
const STACKS: usize = 5;
const LABEL: [&str; STACKS] = ["directly", "through the error-erasing wrapper", "through the recording wrapper", "recording over error-erasing", "error-erasing over recording"];

pub enum Stack<C: Cons> {
    Direct(SimStore<C>),
    Dyn(Mapped<DynBackend<SimStore<C>>>),
    Rec(SimStore<C>, ProvingState<V>),
    RecDyn(Mapped<DynBackend<SimStore<C>>>, ProvingState<V>),
    DynRec(SimStore<C>, ProvingState<V>),
}

impl<C: Cons> Stack<C> {
    pub fn new(i: usize) -> Self {
        let s = SimStore::<C>::new(false);
        match i {
            0 => Stack::Direct(s), 1 => Stack::Dyn(Mapped(DynBackend(s))), 2 => Stack::Rec(s, Default::default()),
            3 => Stack::RecDyn(Mapped(DynBackend(s)), Default::default()), _ => Stack::DynRec(s, Default::default()),
        }
    }
    pub fn store(&mut self) -> &mut SimStore<C> {
        match self { Stack::Direct(s) | Stack::Rec(s, _) | Stack::DynRec(s, _) => s, Stack::Dyn(m) | Stack::RecDyn(m, _) => &mut (m.0).0 }
    }
    pub fn ctl(&mut self) -> CtlRef { self.store().ctl.clone() }
    /// What has been recorded since the last reset.
    pub fn recorded(&self) -> Option<BTreeMap<V, (V, V)>> {
        match self { Stack::Rec(_, p) | Stack::RecDyn(_, p) | Stack::DynRec(_, p) => Some(p.proofs.iter().map(|(k, v)| (k.clone(), v.clone())).collect()), _ => None }
    }
    pub fn reset(&mut self) { match self { Stack::Rec(_, p) | Stack::RecDyn(_, p) | Stack::DynRec(_, p) => *p = Default::default(), _ => {} } }
    pub fn with<T>(&mut self, f: impl FnOnce(&mut Db<C>) -> T) -> T {
        match self {
            Stack::Direct(s) => f(s),
            Stack::Dyn(m) => f(m),
            Stack::Rec(s, p) => { let mut b = ProvingBackend::from_state(std::mem::take(p), s); let r = f(&mut b); *p = b.into_state(); r }
            Stack::RecDyn(m, p) => { let mut b = ProvingBackend::from_state(std::mem::take(p), m); let r = f(&mut b); *p = b.into_state(); r }
            Stack::DynRec(s, p) => {
                let mut b = Mapped(DynBackend(ProvingBackend::from_state(std::mem::take(p), s)));
                let r = f(&mut b);
                *p = (b.0).0.into_state();
                r
            }
        }
    }
    /// Stacks that make the same store calls for the same operation.
    pub fn group(i: usize) -> usize { if i < 2 { 0 } else { 1 } }
    fn erases(i: usize) -> bool { matches!(i, 1 | 3 | 4) }
}

/// What must agree between the stacks: a wrapper may erase which error the store reported, not that it did.
pub fn norm<T: Clone>(r: &Result<T, Error<SimError>>) -> Result<T, Error<()>> {
    match r {
        Ok(x) => Ok(x.clone()),
        Err(Error::Backend(_)) => Err(Error::Backend(())),
        Err(Error::CorruptedDatabase) => Err(Error::CorruptedDatabase),
        Err(Error::AccessOverflowed) => Err(Error::AccessOverflowed),
        Err(Error::InvalidParameter) => Err(Error::InvalidParameter),
    }
}

/// The error a failing store call must surface as, on this stack.
pub fn surfaces<T>(i: usize, r: &Result<T, Error<SimError>>) -> bool {
    match r { Err(Error::Backend(SimError::Erased)) => Stack::<Inh>::erases(i), Err(Error::Backend(SimError::Injected)) => !Stack::<Inh>::erases(i), _ => false }
}

/// Everything durable on both disks is equal.
pub fn same_disk<C: Cons>(a: &mut SimStore<C>, b: &mut SimStore<C>) -> Result<(), String> {
    let (x, y) = (a.real.as_ref(), b.real.as_ref());
    if x != y {
        let d: Vec<String> = x.keys().filter(|k| x.get(*k) != y.get(*k)).chain(y.keys().filter(|k| !x.contains_key(*k))).map(|k| format!("{} ({:?} / {:?})", hx(k.as_ref()), x.get(k).map(|e| (e.0.is_some(), e.1)), y.get(k).map(|e| (e.0.is_some(), e.1)))).collect::<BTreeSet<_>>().into_iter().take(3).collect();
        return Err(format!("the stores differ at {}", d.join(", ")));
    }
    Ok(())
}

/// Counts reads, and passes everything on.
struct CountGets<B>(B, u64);
impl<B: Backend> Backend for CountGets<B> { type Construct = B::Construct; type Error = B::Error; }
impl<C: Cons, B: ReadBackend<Construct = C>> ReadBackend for CountGets<B> {
    fn get(&mut self, k: &V) -> Result<Option<(V, V)>, B::Error> { self.1 += 1; self.0.get(k) }
}
impl<C: Cons, B: WriteBackend<Construct = C>> WriteBackend for CountGets<B> {
    fn rootify(&mut self, k: &V) -> Result<(), B::Error> { self.0.rootify(k) }
    fn unrootify(&mut self, k: &V) -> Result<(), B::Error> { self.0.unrootify(k) }
    fn insert(&mut self, k: V, v: (V, V)) -> Result<(), B::Error> { self.0.insert(k, v) }
}

struct World<C: Cons> { stacks: Vec<Stack<C>>, slots: Vec<Vec<Option<Slot<C>>>>, dangling: [bool; SLOTS], cx: Ctx, drift: bool, lost: bool, plain: bool }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) == 0 { World::<Inh>::run(plan, verbose) } else { World::<Unit>::run(plan, verbose) }
}

impl<C: Cons> World<C> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let mut w = World {
            stacks: (0..STACKS).map(Stack::<C>::new).collect(), slots: (0..STACKS).map(|_| (0..SLOTS).map(|_| None).collect()).collect(),
            dangling: [false; SLOTS], cx: Ctx::new(&[Class::Backend, Class::Panic], verbose), drift: false, lost: false, plain: plan.cfg(1) != 0,
        };
        let mut flow = Ok(());
        for (i, s) in plan.steps.iter().enumerate() {
            w.cx.step = i;
            w.cx.stats.steps += 1;
            flow = w.step(s);
            if flow.is_err() { break; }
            let mut h = 17;
            for s in w.slots[0].iter() { h = mix(h ^ s.as_ref().map(|s| v8(snap_of(&s.tree).root())).unwrap_or(1)); }
            h = mix(h ^ w.stacks[0].store().size() as u64);
            w.cx.note(h);
            w.cx.stats.states.insert(h);
        }
        if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.finish(); }
        let mut t = w.cx.trace;
        for s in w.stacks.iter_mut() {
            w.cx.stats.max_store = w.cx.stats.max_store.max(s.store().size());
            let ctl = s.ctl();
            w.cx.stats.take_ctl(&ctl);
            t = mix(t ^ ctl.borrow().trace);
        }
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn finish(&mut self) -> Flow {
        self.found();
        for i in 0..SLOTS { if self.slots[0][i].is_some() { self.read_all(i)?; } }
        for i in 0..SLOTS { if self.slots[0][i].is_some() { self.execute(i, LOp::Drop, Fault::NONE, 0)?; } }
        Ok(())
    }

    fn found(&mut self) { for s in self.stacks.iter_mut() { s.ctl().borrow_mut().lost.clear(); } self.lost = false; }

    fn value(&mut self, width: usize, code: u64) -> Vec<u8> {
        // where the disks may come to differ in leftovers of failed operations, no element is the hash of a node
        let code = if self.plain && code % 16 > 8 { code / 16 * 16 + 8 } else { code };
        let roots: Vec<V> = self.slots[0].iter().flatten().map(|s| snap_of(&s.tree).root().clone()).collect();
        values::value(C::INHERITED, width, code, &roots, self.stacks[0].store())
    }

    /// Stack 0 may break other properties; what this one is about is that the others do as it does.
    fn class(i: usize) -> Class { if i == 0 { Class::Atomic } else { Class::Backend } }

    fn execute(&mut self, slot: usize, op: LOp, fault: Fault, c: u64) -> Flow {
        if self.drift && self.dangling[slot] {
            // a view may see leftovers that only one disk has
            for k in 0..STACKS { self.slots[k][slot] = None; }
            self.dangling[slot] = false;
            return Ok(());
        }
        let before = self.slots[0][slot].as_ref().map(|s| snap_of(&s.tree));
        if let (LOp::Op(Op::Batch(..)), true) = (&op, fault.kind != FaultKind::None) { return Ok(()); }
        // a drop consumes its handle, so it cannot be retried
        let fault = if matches!(op, LOp::Drop) || fault.kind == FaultKind::Err && (self.lost || !self.plain || self.dangling[slot]) { Fault::NONE } else { fault };
        let mut results: Vec<R> = Vec::new();
        let mut fired = Vec::new();
        for i in 0..STACKS {
            let ctl = self.stacks[i].ctl();
            ctl.borrow_mut().arm(fault);
            let slots = &mut self.slots[i];
            let r = self.stacks[i].with(|db| run_op(slots, db, slot, &op));
            fired.push(ctl.borrow_mut().disarm());
            self.cx.say(|| format!("slot {} {:?} {} -> {}{}", slot, op, LABEL[i], show(&r), if fired[i] > 0 { " [fault]" } else { "" }));
            results.push(r);
        }
        if fired.iter().any(|f| *f > 0) {
            self.cx.stats.probe("operation failed on some stack");
            if fault.kind == FaultKind::Err { self.drift = true; }
            for i in 0..STACKS {
                if fired[i] == 0 { continue; }
                if !surfaces(i, &results[i]) {
                    return self.cx.bad(Self::class(i), format!("slot {} {:?}: the store failed, and the operation run {} gives {}", slot, op, LABEL[i], show(&results[i])));
                }
                let now = self.slots[i][slot].as_ref().map(|s| snap_of(&s.tree));
                if now != before { return self.cx.bad(Self::class(i), format!("slot {}: {:?} failed {} but changed the handle to {:?}", slot, op, LABEL[i], now)); }
            }
            for i in 0..STACKS { for j in 0..i {
                if Stack::<C>::group(i) != Stack::<C>::group(j) && fault.kind == FaultKind::Err { continue; }
                if fired[i] != fired[j] { return self.cx.bad(Class::Backend, format!("slot {} {:?}: {} store calls failed {} but {} {}", slot, op, fired[i], LABEL[i], fired[j], LABEL[j])); }
            } }
            if fired.iter().all(|f| *f > 0) && (c >> 8) % 3 == 0 {
                self.cx.stats.probe("failed operation abandoned");
                return self.disks(&op);
            }
            for i in 0..STACKS {
                if fired[i] == 0 { continue; }
                let slots = &mut self.slots[i];
                results[i] = self.stacks[i].with(|db| run_op(slots, db, slot, &op));
                self.cx.say(|| format!("slot {} {:?} retried {} -> {}", slot, op, LABEL[i], show(&results[i])));
            }
        }
        let snap = self.slots[0][slot].as_ref().map(|s| snap_of(&s.tree));
        for i in 1..STACKS {
            if norm(&results[i]) != norm(&results[0]) {
                return self.cx.bad(Class::Backend, format!("slot {} {:?} gives {} {} but {} {}", slot, op, show(&results[i]), LABEL[i], show(&results[0]), LABEL[0]));
            }
            let s = self.slots[i][slot].as_ref().map(|s| snap_of(&s.tree));
            if s != snap { return self.cx.bad(Class::Backend, format!("slot {} after {:?} is {:?} {} but {:?} {}", slot, op, s, LABEL[i], snap, LABEL[0])); }
        }
        if results[0].is_err() { self.cx.stats.probe("operation refused on all stacks"); }
        self.disks(&op)?;
        self.discarding(slot, &op, &results[0], before)
    }

    fn disks(&mut self, op: &LOp) -> Flow {
        for (a, b) in [(0, 1), (2, 3), (2, 4), (0, 2)] {
            if self.drift && Stack::<C>::group(a) != Stack::<C>::group(b) { continue; }
            let (x, y) = self.stacks.split_at_mut(b);
            if let Err(m) = same_disk(x[a].store(), y[0].store()) {
                return self.cx.bad(Class::Backend, format!("after {:?} {} and {}: {}", op, LABEL[a], LABEL[b], m));
            }
            if x[a].ctl().borrow().roots != y[0].ctl().borrow().roots {
                return self.cx.bad(Class::Backend, format!("after {:?} {} and {}: other roots are registered", op, LABEL[a], LABEL[b]));
            }
            if let (Some(p), Some(q)) = (x[a].recorded(), y[0].recorded()) {
                self.cx.stats.probe("recordings compared");
                if p != q { return self.cx.bad(Class::Backend, format!("after {:?} {} and {}: {} and {} nodes are recorded, and not the same ones", op, LABEL[a], LABEL[b], p.len(), q.len())); }
            }
        }
        Ok(())
    }

    /// The same operation on the discarding store: computing gives the same root, reading fails.
    fn discarding(&mut self, slot: usize, op: &LOp, result: &R, before: Option<Snap>) -> Flow {
        let mut noop = Mapped(NoopBackend::<C>::default());
        match op {
            LOp::Create(Some(kind), len, max) => {
                let r = seq::create::<C>(*kind, &mut noop, *len, *max);
                let want = self.slots[0][slot].as_ref().map(|s| snap_of(&s.tree).root().clone());
                match (r, result) {
                    (Ok(t), Ok(_)) => if Some(t.root()) != want { return self.cx.bad(Class::Backend, format!("{:?} on the discarding store gives root {} instead of {:?}", op, hx(t.root().as_ref()), want.map(|v| hx(v.as_ref())))); },
                    (Err(Error::Backend(_)), _) => {}
                    (Err(e), Err(f)) if norm::<()>(&Err(e.clone())) == norm::<()>(&Err(f.clone())) => {}
                    (x, y) => return self.cx.bad(Class::Backend, format!("{:?} on the discarding store gives {:?} but on a real one {}", op, x.map(|t| t.root()), show(y))),
                }
            }
            LOp::Op(op @ (Op::Get(_) | Op::RGet(_) | Op::RSub(..) | Op::Pop)) => {
                let (Some(snap), Some(kind)) = (before, self.slots[0][slot].as_ref().map(|s| s.kind)) else { return Ok(()) };
                if result.is_err() { return Ok(()); }
                let mut t = reopen_tree::<C>(kind, false, &snap);
                let mut noop = CountGets(noop, 0);
                let r = apply(&mut t, &mut noop, op);
                // what needs no store (a tree of one node is its root) is the same on every store
                if noop.1 == 0 {
                    if norm(&r) != norm(result) { return self.cx.bad(Class::Backend, format!("{:?} without any read of the discarding store gives {} (on a real store {})", op, show(&r), show(result))); }
                    return Ok(());
                }
                self.cx.stats.probe("read from the discarding store");
                if !matches!(r, Err(Error::Backend(SimError::Noop))) { return self.cx.bad(Class::Backend, format!("{:?} on the discarding store gives {} (on a real store {})", op, show(&r), show(result))); }
            }
            _ => {}
        }
        Ok(())
    }

    fn read_all(&mut self, i: usize) -> Flow {
        let Some(s) = self.slots[0][i].as_ref() else { return Ok(()) };
        match &s.tree {
            Tr::Raw(_) => { for x in 1..16 { self.execute(i, LOp::Op(Op::RGet(x)), Fault::NONE, 0)?; } }
            Tr::Seq(t) => { let n = t.len().min(24); for x in 0..n { self.execute(i, LOp::Op(Op::Get(x)), Fault::NONE, 0)?; } }
        }
        Ok(())
    }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % SLOTS;
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        let (is_some, is_raw, len, width) = match &self.slots[0][i] {
            Some(s) => (true, s.kind.is_none(), match &s.tree { Tr::Seq(t) => t.len(), _ => 0 }, s.kind.map(|k| k.width()).unwrap_or(32)),
            None => (false, false, 0, 32),
        };
        match st.op {
            CREATE => {
                if is_some { return Ok(()); }
                self.dangling[i] = false;
                if st.a == 99 { return self.execute(i, LOp::Create(None, 0, None), Fault::NONE, 0); }
                let kind = Kind::decode(st.a);
                let max = if st.c == 0 { None } else { Some(st.c) };
                let len = if kind.can_create_len() { (st.b % 64) as usize } else { 0 };
                // sometimes longer than the bound: refused
                let len = if st.b % 64 == 63 { len } else { max.map(|m| len.min(m as usize)).unwrap_or(len) };
                self.execute(i, LOp::Create(Some(kind), len, max), st.fault, st.b)
            }
            VIEW => {
                if is_some || self.drift { return Ok(()); }
                let j = st.a as usize % SLOTS;
                let Some(snap) = self.slots[0][j].as_ref().map(|s| (s.kind, s.max, snap_of(&s.tree))) else { return Ok(()) };
                for k in 0..STACKS { self.slots[k][i] = Some(Slot { kind: snap.0, max: snap.1, tree: reopen_tree::<C>(snap.0, false, &snap.2) }); }
                self.dangling[i] = true;
                Ok(())
            }
            RESET => { for s in self.stacks.iter_mut() { s.reset(); } Ok(()) }
            FOUND => { self.found(); Ok(()) }
            _ if !is_some => Ok(()),
            LOSE => {
                if self.drift { return Ok(()); }
                let root = snap_of(&self.slots[0][i].as_ref().unwrap().tree).root().clone();
                let store = self.stacks[0].store();
                let (all, _) = store.closure([&root]);
                let inner: Vec<V> = all.into_iter().filter(|k| store.peek(k).is_some()).collect();
                if inner.is_empty() { return Ok(()); }
                self.cx.stats.fire("lost:nodes");
                for j in 0..(st.a % 3 + 1) {
                    let k = inner[(mix(st.b ^ j) % inner.len() as u64) as usize].clone();
                    for s in self.stacks.iter_mut() { s.ctl().borrow_mut().lost.insert(k.clone()); }
                }
                self.lost = true;
                Ok(())
            }
            PUSH | POP | SET if is_raw => {
                let v = self.value(32, st.a);
                self.execute(i, LOp::Op(Op::RSet(if st.b % 23 == 0 { 1 } else { (st.b / 23 % 63) as usize + 1 }, hv(&to32(&v)))), st.fault, st.c)
            }
            GET if is_raw => self.execute(i, LOp::Op(Op::RGet((st.b % 127) as usize + 1)), st.fault, st.c),
            RSUB if is_raw => self.execute(i, LOp::Op(Op::RSub((st.a % 31) as usize + 1, (st.b % 15) as usize + 1)), st.fault, st.c),
            PUSH => { let v = self.value(width, st.a); self.execute(i, LOp::Op(Op::Push(v)), st.fault, st.c) }
            POP => self.execute(i, LOp::Op(Op::Pop), st.fault, st.c),
            SET => { let v = self.value(width, st.a); self.execute(i, LOp::Op(Op::Set(st.b as usize % (len + 1), v)), st.fault, st.c) }
            GET => self.execute(i, LOp::Op(Op::Get(st.b as usize % (len + 1))), st.fault, st.c),
            READALL => self.read_all(i),
            PUSHN | POPN => {
                if is_raw { return Ok(()); }
                for j in 0..(st.a % 24) {
                    let op = if st.op == PUSHN { let v = self.value(width, mix(st.b.wrapping_add(j)) % (st.c.max(1) * 16)); Op::Push(v) } else { Op::Pop };
                    self.execute(i, LOp::Op(op), Fault::NONE, 0)?;
                }
                Ok(())
            }
            BATCH => {
                if self.slots[0][i].as_ref().and_then(|s| s.kind) != Some(Kind::LMix) { return Ok(()); }
                let mut ops = Vec::new();
                for j in 0..(st.a % 5) {
                    let x = mix(st.b.wrapping_add(j * 7919));
                    let v = self.value(32, (x >> 8) % 9);
                    ops.push(match x % 4 { 0 | 1 => BOp::Push(v), 2 => BOp::Pop, _ => BOp::Set((x >> 40) as usize % (len + 1), v) });
                }
                self.execute(i, LOp::Op(Op::Batch(ops, (st.b >> 60) & 3 == 0)), Fault::NONE, st.c)
            }
            REOPEN => if self.dangling[i] { Ok(()) } else { self.execute(i, LOp::Reopen, st.fault, 16) },
            DROP => {
                if self.lost { return Ok(()); }
                self.execute(i, LOp::Drop, Fault::NONE, 0)
            }
            _ => Ok(()),
        }
    }
}

fn to32(b: &[u8]) -> [u8; 32] { let mut h = [0; 32]; h.copy_from_slice(&b[..32]); h }

pub fn gen(prop: &str, seed: u64) -> Plan {
    use FaultKind::*;
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let pool: &[u64] = &[0, 1, 2, 10, 11, 30, 31, 99];
    let fault_pct = *r.pick(&[0u64, 15, 40]);
    // failing reads meet the stacks at different places; without them the disks stay comparable throughout
    let plain = r.chance(1, 3);
    let faults: &[FaultKind] = if plain { &[Err, AckLost, Full] } else { &[AckLost, Full] };
    let cfg = vec![r.chance(1, 3) as u64, plain as u64];
    //               cr pu  po  se ge rs ra pn pp ro dr ba vi re lo fo
    let mut w = [3u64, 10, 8, 8, 7, 2, 1, 2, 2, 3, 3, 2, 2, 1, 0, 0];
    for (j, x) in w.iter_mut().enumerate() { if j > 0 && r.chance(1, 6) { *x = 0; } else if r.chance(1, 6) { *x *= 4; } }
    if r.chance(1, 4) { w[LOSE as usize] = 2; w[FOUND as usize] = 2; }
    let clients = r.range(1, SLOTS as u64);
    let kinds: Vec<u64> = (0..r.range(1, 3)).map(|_| pick_kind(&mut r, pool)).collect();
    let alphabet = *r.pick(&[2u64, 4, 9, 16, 64, 1 << 40]);
    let bounded = *r.pick(&[0u64, 30, 60]);
    let maxes = [1u64, 2, 3, 5, 8, 9, 17, 33, 100, 1 << 20];
    let mut out = Vec::new();
    let create = |r: &mut Rng, client: u64| -> Step {
        let c = if r.chance(bounded, 100) { *r.pick(&maxes) } else { 0 };
        Step { client: client as u8, op: CREATE, a: *r.pick(&kinds), b: if r.chance(1, 3) { r.below(64) } else { 0 }, c, fault: Fault::NONE }
    };
    for c in 0..r.range(1, clients) {
        let mut s = create(&mut r, c);
        if r.chance(fault_pct, 100) { s.fault = pick_fault(&mut r, faults); }
        out.push(s);
        if r.chance(3, 4) { out.push(Step { client: c as u8, op: PUSHN, a: r.below(23) + 1, b: r.next(), c: 1, fault: Fault::NONE }); }
    }
    let steps = match r.below(10) { 0..=4 => r.range(3, 14), 5..=8 => r.range(14, 40), _ => r.range(40, 90) };
    for _ in 0..steps {
        let op = r.weighted(&w) as u8;
        let client = r.below(clients);
        let fault = if r.chance(fault_pct, 100) { pick_fault(&mut r, faults) } else { Fault::NONE };
        if op == CREATE { let mut s = create(&mut r, client); s.fault = fault; out.push(s); continue; }
        let (mut a, b, mut c) = (r.below(alphabet), r.next() >> 1, r.next() >> 1);
        match op {
            PUSHN | POPN => { a = r.below(12) + 1; c = 1; }
            VIEW => a = r.below(SLOTS as u64),
            BATCH => a = r.range(1, 4),
            _ => {}
        }
        out.push(Step { client: client as u8, op, a, b, c, fault });
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps: out }
}
