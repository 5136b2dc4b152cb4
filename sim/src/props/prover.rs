//! C11: a prover records operations on a store with failing calls, next to clients that are not recorded;
//! verifiers that know only the starting roots and the recorded proof replay the operations.

use crate::common::*;
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::seqworld::{apply, injected, pick_fault, pick_kind, raw_index, reopen_tree, show, Op, Out, RawT, Snap, Tr};
use crate::props::values;
use crate::rng::{mix, Rng};
use crate::seq::{self, BOp, Kind, Meta};
use crate::store::{Cons, Db, Inh, SimError, SimStore, Unit, V};
use bm::{Error, ProvingBackend, ProvingState, Proofs, Raw, Tree, WriteBackend};
use std::collections::BTreeMap;

const CREATE: u8 = 0; const PUSH: u8 = 1; const POP: u8 = 2; const SET: u8 = 3; const GET: u8 = 4; const RSUB: u8 = 5; const READALL: u8 = 6;
const PUSHN: u8 = 7; const POPN: u8 = 8; const REOPEN: u8 = 9; const DROP: u8 = 10; const BATCH: u8 = 11; const START: u8 = 12; const END: u8 = 13;
const REBUILD: u8 = 14;
const NAMES: [&str; 15] = ["create", "push", "pop", "set", "get", "subtree", "readall", "pushn", "popn", "reopen", "drop", "batch", "start recording", "end recording", "rebuild"];
const SLOTS: usize = 8;
/// Slots below this one belong to the prover.
const MINE: usize = 4;

#[derive(Clone, Debug)]
pub enum LOp { Create(Option<Kind>, usize, Option<u64>), Op(Op), Reopen, Drop }
pub type R = Result<Out, Error<SimError>>;

struct Entry { slot: usize, op: LOp, result: R, snap: Option<Snap> }

struct Session { start: Vec<Option<(Option<Kind>, Snap)>>, state: ProvingState<V>, log: Vec<Entry>, allowed: BTreeMap<V, (V, V)> }

pub struct Slot<C: Cons> { pub kind: Option<Kind>, pub max: Option<u64>, pub tree: Tr<C> }

pub fn snap_of<C: Cons>(t: &Tr<C>) -> Snap {
    match t { Tr::Seq(t) => Snap::Seq(t.len(), t.root(), t.meta()), Tr::Raw(r) => Snap::Raw(r.root()) }
}

fn max_of(s: &Snap) -> Option<u64> {
    match s { Snap::Seq(_, _, Meta::Flat(_, _, m)) => *m, Snap::Seq(_, _, Meta::Mixed(_, (_, _, m))) => *m, Snap::Raw(_) => None }
}

/// One logged operation on the trees of one party, on any store.
pub fn run_op<C: Cons>(slots: &mut [Option<Slot<C>>], db: &mut Db<C>, slot: usize, op: &LOp) -> R {
    match op {
        LOp::Create(kind, len, max) => {
            let tree = match kind { Some(k) => Tr::Seq(seq::create::<C>(*k, db, *len, *max)?), None => Tr::Raw(RawT::O(Raw::default())) };
            slots[slot] = Some(Slot { kind: *kind, max: *max, tree });
            Ok(Out::Done)
        }
        LOp::Op(op) => match slots[slot].as_mut() { Some(s) => apply(&mut s.tree, db, op), None => Ok(Out::Done) },
        LOp::Reopen => {
            if let Some(s) = slots[slot].as_mut() {
                if let (Some(k), snap) = (s.kind, snap_of(&s.tree)) {
                    if k.from_root() { s.tree = Tr::Seq(seq::from_root::<C>(k, true, snap.root().clone(), db, s.max)?); }
                }
            }
            Ok(Out::Done)
        }
        LOp::Drop => {
            if let Some(s) = slots[slot].take() {
                match s.tree { Tr::Seq(t) => t.drop_tree(db)?, Tr::Raw(RawT::O(t)) => t.drop(db)?, Tr::Raw(RawT::D(t)) => t.drop(db)? }
            }
            Ok(Out::Done)
        }
    }
}

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) == 0 { World::<Inh>::run(plan, verbose) } else { World::<Unit>::run(plan, verbose) }
}

struct World<C: Cons> { store: SimStore<C>, slots: Vec<Option<Slot<C>>>, cx: Ctx, session: Option<Session>, verifier_faults: u64 }

impl<C: Cons> World<C> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        ctl.borrow_mut().keep_log = true;
        let mut w = World {
            store, slots: (0..SLOTS).map(|_| None).collect(), cx: Ctx::new(&[Class::Proof, Class::Panic], verbose), session: None,
            verifier_faults: plan.cfg(1),
        };
        let mut flow = Ok(());
        for (i, s) in plan.steps.iter().enumerate() {
            w.cx.step = i;
            w.cx.stats.steps += 1;
            flow = w.step(s);
            if flow.is_err() { break; }
            let mut h = 5;
            for s in w.slots.iter() { h = mix(h ^ s.as_ref().map(|s| v8(snap_of(&s.tree).root())).unwrap_or(1)); }
            if let Some(s) = &w.session { h = mix(h ^ s.state.proofs.len() as u64 ^ ((s.state.inserts.len() as u64) << 20)); }
            w.cx.note(h);
            w.cx.stats.states.insert(h);
        }
        if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.end(); }
        w.cx.stats.max_store = w.store.size();
        w.cx.stats.take_ctl(&ctl);
        let t = mix(ctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn value(&mut self, width: usize, code: u64) -> Vec<u8> {
        // no element is itself the hash of a node: the two stores may know different things about such a leaf
        let code = if code % 16 > 8 { code / 16 * 16 + 8 } else { code };
        values::value(C::INHERITED, width, code, &[], &mut self.store)
    }

    fn execute(&mut self, slot: usize, op: LOp, fault: Fault, c: u64) -> Flow {
        let recording = slot < MINE && self.session.is_some();
        let before = self.slots[slot].as_ref().map(|s| snap_of(&s.tree));
        let mut fault = if matches!(op, LOp::Create(..) | LOp::Drop) { Fault::NONE } else { fault };
        let mut tries = 0;
        let (result, abandoned) = loop {
            self.store.ctl.borrow_mut().log.clear();
            self.store.ctl.borrow_mut().arm(fault);
            let r = if recording {
                let s = self.session.as_mut().unwrap();
                let state = std::mem::take(&mut s.state);
                let mut rec = ProvingBackend::from_state(state, &mut self.store);
                let r = run_op(&mut self.slots, &mut rec, slot, &op);
                s.state = rec.into_state();
                r
            } else {
                run_op(&mut self.slots, &mut self.store, slot, &op)
            };
            let fired = self.store.ctl.borrow_mut().disarm();
            self.cx.say(|| format!("slot {}{} {:?} -> {}{}", slot, if recording { " (recorded)" } else { "" }, op, show(&r), if fired > 0 { " [fault]" } else { "" }));
            if fired == 0 || !injected(&r) { break (r, false); }
            self.cx.stats.probe(if recording { "recorded operation failed" } else { "operation failed" });
            let now = self.slots[slot].as_ref().map(|s| snap_of(&s.tree));
            if now != before { return self.cx.bad(Class::Atomic, format!("slot {}: failed {:?} changed the handle", slot, op)); }
            tries += 1;
            if (c >> 8) % 3 == 0 { self.cx.stats.probe("failed operation abandoned"); break (r, true); }
            fault = if tries <= (c >> 4) % 3 { Fault { kind: fault.kind, at: ((c >> 16) % 24) as u32, len: 1 } } else { Fault::NONE };
        };
        let log = std::mem::take(&mut self.store.ctl.borrow_mut().log);
        if let Some(s) = self.session.as_mut() {
            if !recording { for (k, p) in log { s.allowed.insert(k, p); } }
            else if !abandoned {
                if result.is_err() { self.cx.stats.probe("recorded operation refused"); }
                let snap = self.slots[slot].as_ref().map(|s| snap_of(&s.tree));
                s.log.push(Entry { slot, op, result, snap });
            }
        }
        Ok(())
    }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % SLOTS;
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        let (is_some, is_raw, len, width) = match &self.slots[i] {
            Some(s) => (true, s.kind.is_none(), match &s.tree { Tr::Seq(t) => t.len(), _ => 0 }, s.kind.map(|k| k.width()).unwrap_or(32)),
            None => (false, false, 0, 32),
        };
        match st.op {
            CREATE => {
                if is_some { return Ok(()); }
                if st.a == 99 { return self.execute(i, LOp::Create(None, 0, None), Fault::NONE, 0); }
                let kind = Kind::decode(st.a);
                let max = if st.c == 0 { None } else { Some(st.c) };
                let len = if kind.can_create_len() && C::INHERITED { if st.b >= 1 << 32 { 1 << (st.b % 41) } else { (st.b % 64) as usize } } else { 0 };
                self.execute(i, LOp::Create(Some(kind), max.map(|m| len.min(m as usize)).unwrap_or(len), max), Fault::NONE, 0)
            }
            _ if !is_some && st.op < START => Ok(()),
            PUSH | POP | SET if is_raw => {
                let v = self.value(32, st.a);
                self.execute(i, LOp::Op(Op::RSet(if st.b % 23 == 0 { 1 } else { raw_index(st.b / 23, 63) }, hv(&to32(&v)))), st.fault, st.c)
            }
            GET if is_raw => self.execute(i, LOp::Op(Op::RGet(raw_index(st.b, 127))), st.fault, st.c),
            RSUB if is_raw => self.execute(i, LOp::Op(Op::RSub(if st.b % 7 == 0 { raw_index(st.b / 7, 31) } else { (st.a % 31) as usize + 1 }, (st.b % 15) as usize + 1)), st.fault, st.c),
            PUSH => { let v = self.value(width, st.a); self.execute(i, LOp::Op(Op::Push(v)), st.fault, st.c) }
            POP => self.execute(i, LOp::Op(Op::Pop), st.fault, st.c),
            SET => { let v = self.value(width, st.a); self.execute(i, LOp::Op(Op::Set(place(len, st.b), v)), st.fault, st.c) }
            GET => self.execute(i, LOp::Op(Op::Get(place(len, st.b))), st.fault, st.c),
            READALL => {
                if is_raw { for x in 1..16 { self.execute(i, LOp::Op(Op::RGet(x)), Fault::NONE, 0)?; } return Ok(()); }
                for x in 0..len.min(40) { self.execute(i, LOp::Op(Op::Get(x)), Fault::NONE, 0)?; }
                Ok(())
            }
            PUSHN | POPN => {
                if is_raw { return Ok(()); }
                for j in 0..(st.a % 40) {
                    let op = if st.op == PUSHN { let v = self.value(width, mix(st.b.wrapping_add(j)) % (st.c.max(1) * 16)); Op::Push(v) } else { Op::Pop };
                    self.execute(i, LOp::Op(op), Fault::NONE, 0)?;
                }
                Ok(())
            }
            REBUILD => {
                // another tree with the same contents, element by element: it writes nodes that exist already
                let j = st.a as usize % MINE;
                if j == i || is_raw || self.slots[j].is_some() || (self.session.is_some() && i >= MINE) { return Ok(()); }
                let Some(s) = self.slots[i].as_mut() else { return Ok(()) };
                let (kind, max) = (s.kind, s.max);
                let mut items = Vec::new();
                if let Tr::Seq(t) = &s.tree { for x in 0..t.len().min(40) { if let Ok(v) = t.get(&mut self.store, x) { items.push(v); } } }
                self.execute(j, LOp::Create(kind, 0, max), Fault::NONE, 0)?;
                for v in items { self.execute(j, LOp::Op(Op::Push(v)), Fault::NONE, 0)?; }
                Ok(())
            }
            BATCH => {
                if self.slots[i].as_ref().and_then(|s| s.kind) != Some(Kind::LMix) { return Ok(()); }
                let mut ops = Vec::new();
                for j in 0..(st.a % 5) {
                    let x = mix(st.b.wrapping_add(j * 7919));
                    let v = self.value(32, (x >> 8) % 9);
                    ops.push(match x % 4 { 0 | 1 => BOp::Push(v), 2 => BOp::Pop, _ => BOp::Set((x >> 40) as usize % (len + 1), v) });
                }
                self.execute(i, LOp::Op(Op::Batch(ops, (st.b >> 60) & 3 == 0)), st.fault, st.c)
            }
            REOPEN => self.execute(i, LOp::Reopen, st.fault, 16),
            DROP => self.execute(i, LOp::Drop, Fault::NONE, 0),
            START => {
                if self.session.is_some() { return Ok(()); }
                let start = self.slots[..MINE].iter().map(|s| s.as_ref().map(|s| (s.kind, snap_of(&s.tree)))).collect();
                let allowed = self.store.real.as_ref().iter().filter_map(|(k, e)| e.0.clone().map(|p| (k.clone(), p))).collect();
                self.store.ctl.borrow_mut().unacked.clear();
                self.session = Some(Session { start, state: ProvingState::default(), log: Vec::new(), allowed });
                Ok(())
            }
            END => self.end(),
            _ => Ok(()),
        }
    }

    /// The recording ends: check the proof and let a verifier replay everything from it.
    fn end(&mut self) -> Flow {
        let Some(s) = self.session.take() else { return Ok(()) };
        let proofs: Proofs<V> = s.state.clone().into();
        for (k, p) in proofs.iter() {
            match s.allowed.get(k) {
                Some(q) if q == p => {}
                Some(_) => return self.cx.bad(Class::Proof, format!("the proof has other children for node {} than the store", hx(k.as_ref()))),
                // it is nobody's node: the store has it, and said that it has not
                None if self.store.ctl.borrow().unacked.contains(k) => self.cx.stats.probe("a node with a lost acknowledgement in the proof"),
                None => return self.cx.bad(Class::Proof, format!("the proof contains node {} that did not exist before the recording began", hx(k.as_ref()))),
            }
        }
        if s.log.is_empty() { return Ok(()); }
        self.cx.stats.probe("recording replayed");
        *self.cx.stats.calls.entry("work").or_insert(0) += s.log.len() as u64;
        if !proofs.is_empty() { self.cx.stats.probe("recording with a proof"); }
        let mut store = SimStore::<C>::new(false);
        store.real.populate(proofs.into());
        let mut slots: Vec<Option<Slot<C>>> = Vec::new();
        for x in &s.start {
            slots.push(match x {
                Some((kind, snap)) => {
                    if let Err(e) = store.rootify(snap.root()) { return self.cx.bad(Class::Proof, format!("verifier: {:?}", e)); }
                    Some(Slot { kind: *kind, max: max_of(snap), tree: reopen_tree(*kind, true, snap) })
                }
                None => None,
            });
        }
        for (n, e) in s.log.iter().enumerate() {
            // the verifier's store fails now and then, too
            let mut fault = Fault::NONE;
            if self.verifier_faults > 0 && matches!(e.op, LOp::Op(_) | LOp::Reopen) && mix(self.verifier_faults ^ n as u64) % 8 == 0 {
                fault = Fault { kind: FaultKind::Err, at: (mix(self.verifier_faults ^ n as u64) >> 8) as u32 % 12, len: 0 };
            }
            store.ctl.borrow_mut().arm(fault);
            let mut r = run_op(&mut slots, &mut store, e.slot, &e.op);
            if store.ctl.borrow_mut().disarm() > 0 {
                self.cx.stats.probe("verifier's store failed");
                if injected(&r) { r = run_op(&mut slots, &mut store, e.slot, &e.op); }
            }
            let snap = slots[e.slot].as_ref().map(|s| snap_of(&s.tree));
            if r != e.result {
                return self.cx.bad(Class::Proof, format!("replaying recorded operation {} (slot {} {:?}) from the proof gives {} instead of {}", n, e.slot, e.op, show(&r), show(&e.result)));
            }
            if snap != e.snap {
                return self.cx.bad(Class::Proof, format!("after replaying recorded operation {} (slot {} {:?}) from the proof, the tree is {:?} instead of {:?}", n, e.slot, e.op, snap, e.snap));
            }
        }
        self.cx.stats.take_ctl(&store.ctl);
        self.cx.note(store.ctl.borrow().trace);
        Ok(())
    }
}

/// A position in a sequence, or just past its end.
fn place(len: usize, x: u64) -> usize {
    if len <= 80 { return x as usize % (len + 1); }
    let y = (x >> 8) as usize;
    match x % 8 { 0 => len, 1 => len - 1, 2 => len / 2, 3 => len / 2 - 1, 4 => y % 40, 5 => len - 1 - y % 40, 6 => (1 << (y % 41)).min(len - 1), _ => y % len }
}
fn to32(b: &[u8]) -> [u8; 32] { let mut h = [0; 32]; h.copy_from_slice(&b[..32]); h }

pub fn gen(prop: &str, seed: u64) -> Plan {
    use FaultKind::*;
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let cfg = vec![r.chance(1, 3) as u64, if r.chance(1, 3) { r.next() } else { 0 }];
    let pool: &[u64] = &[0, 1, 2, 10, 11, 30, 31, 99, 13, 22, 33, 40];
    let fault_pct = *r.pick(&[0, 10, 40]);
    //               cr pu  po  se ge rs ra pn pp ro dr ba st en rb
    let mut w = [2u64, 10, 9, 9, 7, 2, 2, 2, 2, 3, 2, 2, 2, 1, 3];
    for (j, x) in w.iter_mut().enumerate() { if j != START as usize && r.chance(1, 6) { *x = 0; } else if r.chance(1, 6) { *x *= 4; } }
    let clients = r.range(1, MINE as u64);
    let others = r.below(3);
    let kinds: Vec<u64> = (0..r.range(1, 3)).map(|_| pick_kind(&mut r, pool)).collect();
    let alphabet = *r.pick(&[2u64, 4, 9, 16, 64, 1 << 40]);
    let bounded = *r.pick(&[0u64, 30, 60]);
    let maxes = [1u64, 2, 3, 5, 8, 9, 17, 33, 100, 1 << 20, 1 << 33, 1 << 40, 1 << 56];
    let mut out = Vec::new();
    let create = |r: &mut Rng, client: u64| -> Step {
        let c = if r.chance(bounded, 100) { *r.pick(&maxes) } else { 0 };
        let mut a = *r.pick(&kinds);
        if client >= MINE as u64 && a == 99 { a = 0; }
        Step { client: client as u8, op: CREATE, a, b: match r.below(12) { 0..=3 => r.below(20), 4 => (1 << 32) + r.below(41), _ => 0 }, c, fault: Fault::NONE }
    };
    for c in (0..clients).chain((0..others).map(|x| x + MINE as u64)) {
        out.push(create(&mut r, c));
        if r.chance(3, 4) { out.push(Step { client: c as u8, op: PUSHN, a: r.below(39) + 1, b: r.next(), c: 1, fault: Fault::NONE }); }
        if r.chance(1, 4) { out.push(Step { client: c as u8, op: PUSH, a: r.below(alphabet), b: r.next(), c: 1, fault: Fault::NONE }); }
    }
    let steps = match r.below(10) { 0..=4 => r.range(3, 14), 5..=8 => r.range(14, 40), _ => r.range(40, 90) };
    let pre = r.below(6);
    for n in 0..steps {
        if n == pre { out.push(Step { client: 0, op: START, a: 0, b: 0, c: 0, fault: Fault::NONE }); }
        let op = r.weighted(&w) as u8;
        let client = if others > 0 && r.chance(1, 5) { MINE as u64 + r.below(others) } else { r.below(clients) };
        if op == CREATE { let s = create(&mut r, client); out.push(s); continue; }
        let (mut a, b, mut c) = (r.below(alphabet), r.next() >> 1, r.next() >> 1);
        match op {
            PUSHN | POPN => { a = r.below(12) + 1; c = 1; }
            REBUILD => a = r.below(MINE as u64),
            BATCH => a = r.range(1, 4),
            _ => {}
        }
        let fault = if r.chance(fault_pct, 100) { pick_fault(&mut r, &[Err, AckLost, Full]) } else { Fault::NONE };
        out.push(Step { client: client as u8, op, a, b, c, fault });
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps: out }
}
