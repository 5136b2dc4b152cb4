//! Values of all bm-le types written to and read from one simulated store. Decides C13 and the decoding part of C14;
//! C11 uses it for recorded decoding.

use crate::common::*;
use crate::plan::{Fault, FaultKind, Plan, Step};
use crate::props::letypes::{self, Obj, Sized_};
use crate::props::seqworld::pick_fault;
use crate::props::stacks::{norm, same_disk, surfaces, Stack};
use crate::rng::{mix, Rng};
use crate::store::{Cons, Inh, SimError, SimStore, Unit, V};
use bm::{Error, Index, Owned, Raw, Tree};
use std::collections::BTreeSet;

const WRITE: u8 = 0; const READ: u8 = 1; const DROP: u8 = 2; const READALL: u8 = 3; const LOSE: u8 = 4; const FOUND: u8 = 5; const PROVE: u8 = 6; const GROW: u8 = 7;
const NAMES: [&str; 8] = ["write value", "read value", "drop value", "read all values", "lose", "found", "read from proof", "write fragment"];
const SLOTS: usize = 6;

/// Marks plans of this world among those of a property shared with another one.
pub const MARK: u64 = 10;

struct Slot<C: Cons> { obj: Box<dyn Obj<C>>, root: V, hold: Raw<Owned, C> }

struct World<C: Cons> { store: SimStore<C>, slots: Vec<Option<Slot<C>>>, cx: Ctx, lost: bool, twins: Vec<Stack<C>>, drift: bool }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    if plan.cfg(0) % MARK == 0 { World::<Inh>::run(plan, verbose) } else { World::<Unit>::run(plan, verbose) }
}

fn classes(prop: &str) -> &'static [Class] {
    match prop { "C13" => &[Class::Ssz, Class::Panic], "C14" => &[Class::Lost, Class::Panic], "C11" => &[Class::Proof, Class::Panic], _ => &[Class::Backend, Class::Panic] }
}

fn injected<T>(r: &Result<T, Error<SimError>>) -> bool { matches!(r, Err(Error::Backend(SimError::Injected))) }

impl<C: Cons> World<C> {
    fn run(plan: &Plan, verbose: bool) -> Outcome {
        let store = SimStore::<C>::new(verbose);
        let ctl = store.ctl.clone();
        let mut w = World { store, slots: (0..SLOTS).map(|_| None).collect(), cx: Ctx::new(classes(&plan.prop), verbose), lost: false,
            twins: if plan.prop == "C16" { (0..5).map(Stack::<C>::new).collect() } else { Vec::new() }, drift: false };
        let mut flow = Ok(());
        for (i, s) in plan.steps.iter().enumerate() {
            w.cx.step = i;
            w.cx.stats.steps += 1;
            flow = w.step(s);
            if flow.is_err() { break; }
            let mut h = 3;
            for s in w.slots.iter() { h = mix(h ^ s.as_ref().map(|s| v8(&s.root)).unwrap_or(1)); }
            h = mix(h ^ w.store.size() as u64);
            w.cx.note(h);
            w.cx.stats.states.insert(h);
        }
        if flow.is_ok() {
            w.cx.step = plan.steps.len();
            ctl.borrow_mut().lost.clear();
            w.lost = false;
            flow = w.read_all();
        }
        w.cx.stats.max_store = w.store.size();
        w.cx.stats.take_ctl(&ctl);
        let t = mix(ctl.borrow().trace ^ w.cx.trace);
        let mut o = w.cx.finish(flow);
        o.trace = t;
        o
    }

    fn write(&mut self, i: usize, kind: u64, seed: u64, fault: Fault, c: u64) -> Flow {
        if self.slots[i].is_some() { return Ok(()); }
        let obj = letypes::make::<C>(kind, &mut Rng::new(seed));
        let want = hv(&obj.want());
        self.lockstep(&*obj, fault, c)?;
        let mut fault = fault;
        let mut tries = 0;
        let root = loop {
            self.store.ctl.borrow_mut().arm(fault);
            let r = obj.write(&mut Sized_(&mut self.store));
            let fired = self.store.ctl.borrow_mut().disarm();
            self.cx.say(|| format!("slot {} write {} -> {}{}", i, obj.name(), match &r { Ok(v) => hx(v.as_ref()), Err(e) => format!("{:?}", e) }, if fired > 0 { " [fault]" } else { "" }));
            match &r {
                Ok(_) if fired > 0 => return self.cx.bad(Class::Ssz, format!("writing {} succeeds although the store failed", obj.name())),
                Ok(v) => {
                    if *v != want { return self.cx.bad(Class::Ssz, format!("writing {} gives root {} but its hash tree root is {}", obj.name(), hx(v.as_ref()), hx(want.as_ref()))); }
                    break v.clone();
                }
                Err(_) if fired > 0 && injected(&r) => {
                    self.cx.stats.probe("write of a value failed");
                    tries += 1;
                    if (c >> 8) % 4 == 0 { return Ok(()); }
                    fault = if tries <= (c >> 4) % 3 { Fault { kind: fault.kind, at: ((c >> 16) % 32) as u32, len: 1 } } else { Fault::NONE };
                }
                Err(e) => return self.cx.bad(Class::Ssz, format!("writing {} gives {:?}", obj.name(), e)),
            }
        };
        let noop = obj.discard();
        if noop.as_ref() != Some(&want) {
            return self.cx.bad(if self.cx.classes.contains(&Class::Backend) { Class::Backend } else { Class::Ssz }, format!("computing the root of {} without a store gives {:?} instead of {}", obj.name(), noop.map(|v| hx(v.as_ref())), hx(want.as_ref())));
        }
        if let Some((got, want)) = obj.computed() {
            if got != want { return self.cx.bad(if self.cx.classes.contains(&Class::Backend) { Class::Backend } else { Class::Ssz }, format!("the tree root of {} is computed as {} instead of {}", obj.name(), hx(&got), hx(&want))); }
        }
        if let Some(m) = obj.noop_read(&root) { return self.cx.bad(Class::Backend, format!("reading {} from the discarding store gives {}", obj.name(), m)); }
        let mut hold = Raw::<Owned, C>::default();
        if let Err(e) = hold.set(&mut self.store, Index::root(), root.clone()) { return self.cx.bad(Class::Ssz, format!("the root of {} cannot be registered: {:?}", obj.name(), e)); }
        self.slots[i] = Some(Slot { obj, root, hold });
        Ok(())
    }

    /// The value written and read through every stack of backends, each over a disk of its own.
    fn lockstep(&mut self, obj: &dyn Obj<C>, fault: Fault, c: u64) -> Flow {
        if self.twins.is_empty() { return Ok(()); }
        let mut roots = Vec::new();
        for i in 0..self.twins.len() {
            let ctl = self.twins[i].ctl();
            ctl.borrow_mut().arm(fault);
            let mut r = self.twins[i].with(|db| obj.write(&mut Sized_(db)));
            if ctl.borrow_mut().disarm() > 0 {
                if !surfaces(i, &r) { return self.cx.bad(if i == 0 { Class::Ssz } else { Class::Backend }, format!("writing {} on stack {} whose store failed gives {:?}", obj.name(), i, r)); }
                self.cx.stats.probe("write through a stack failed");
                if fault.kind == FaultKind::Err { self.drift = true; }
                r = self.twins[i].with(|db| obj.write(&mut Sized_(db)));
            }
            roots.push(r);
        }
        for i in 1..self.twins.len() {
            if norm(&roots[i]) != norm(&roots[0]) { return self.cx.bad(Class::Backend, format!("writing {} on stack {} gives {:?} instead of {:?}", obj.name(), i, roots[i], roots[0])); }
        }
        for (a, b) in [(0, 1), (2, 3), (2, 4), (0, 2)] {
            if self.drift && Stack::<C>::group(a) != Stack::<C>::group(b) { continue; }
            let (x, y) = self.twins.split_at_mut(b);
            if let Err(m) = same_disk(x[a].store(), y[0].store()) { return self.cx.bad(Class::Backend, format!("after writing {} on stacks {} and {}: {}", obj.name(), a, b, m)); }
            if let (Some(p), Some(q)) = (x[a].recorded(), y[0].recorded()) {
                if p != q { return self.cx.bad(Class::Backend, format!("after writing {} on stacks {} and {}: {} and {} nodes are recorded, and not the same ones", obj.name(), a, b, p.len(), q.len())); }
            }
        }
        let Ok(root) = &roots[0] else { return Ok(()) };
        let fail = Fault { kind: FaultKind::Err, at: ((c >> 24) % 16) as u32, len: 1 };
        let mut first = None;
        for i in 0..self.twins.len() {
            let ctl = self.twins[i].ctl();
            ctl.borrow_mut().arm(if (c >> 32) % 2 == 0 { fail } else { Fault::NONE });
            let mut r = self.twins[i].with(|db| obj.read(root, &mut Sized_(db)));
            if ctl.borrow_mut().disarm() > 0 {
                if !surfaces(i, &r) { return self.cx.bad(if i == 0 { Class::Ssz } else { Class::Backend }, format!("reading {} on stack {} whose store failed gives {:?}", obj.name(), i, r)); }
                self.cx.stats.probe("read through a stack failed");
                r = self.twins[i].with(|db| obj.read(root, &mut Sized_(db)));
            }
            match &first {
                None => first = Some(norm(&r)),
                Some(f) => if norm(&r) != *f { return self.cx.bad(Class::Backend, format!("reading {} on stack {} gives {:?} instead of {:?}", obj.name(), i, r, f)); }
            }
        }
        Ok(())
    }

    fn read(&mut self, i: usize, fault: Fault) -> Flow {
        let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
        self.store.ctl.borrow_mut().arm(fault);
        let hits = self.store.ctl.borrow().lost_hits;
        let mut r = s.obj.read(&s.root, &mut Sized_(&mut self.store));
        let fired = self.store.ctl.borrow_mut().disarm();
        if fired > 0 {
            if !injected(&r) { return self.cx.bad(Class::Ssz, format!("reading {} from a failing store gives {:?}", s.obj.name(), r)); }
            self.cx.stats.probe("read of a value failed");
            r = s.obj.read(&s.root, &mut Sized_(&mut self.store));
        }
        let hit = self.store.ctl.borrow().lost_hits > hits;
        let class = if hit { Class::Lost } else { Class::Ssz };
        match r {
            Ok(Ok(())) => { if hit { self.cx.stats.probe("value read in spite of lost nodes"); } Ok(()) }
            Ok(Err(m)) => self.cx.bad(class, format!("reading {} gives {}{}", s.obj.name(), m, if hit { " while nodes are lost" } else { "" })),
            Err(_) if hit => { self.cx.stats.probe("lost nodes reported"); Ok(()) }
            Err(e) => self.cx.bad(class, format!("reading {} gives {:?}", s.obj.name(), e)),
        }
    }

    fn read_all(&mut self) -> Flow { for i in 0..SLOTS { self.read(i, Fault::NONE)?; } Ok(()) }

    fn step(&mut self, st: &Step) -> Flow {
        let i = st.client as usize % SLOTS;
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        match st.op {
            WRITE => self.write(i, st.a, st.b, st.fault, st.c),
            GROW => {
                // a value written by somebody who never registers it
                let obj = letypes::make::<C>(st.a, &mut Rng::new(st.b));
                self.store.ctl.borrow_mut().arm(st.fault);
                let _ = obj.write(&mut Sized_(&mut self.store));
                self.store.ctl.borrow_mut().disarm();
                Ok(())
            }
            READ => self.read(i, st.fault),
            READALL => self.read_all(),
            DROP => {
                if self.lost { return Ok(()); }
                if let Some(s) = self.slots[i].take() {
                    if let Err(e) = s.hold.drop(&mut self.store) { return self.cx.bad(Class::Ssz, format!("dropping a value gives {:?}", e)); }
                }
                Ok(())
            }
            PROVE => {
                if self.lost { return Ok(()); }
                let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
                let (root, name) = (s.root.clone(), s.obj.name());
                if let Err(m) = letypes::decode_from_proof(&*s.obj, &root, &mut self.store) { return self.cx.bad(Class::Proof, format!("{}: {}", name, m)); }
                Ok(())
            }
            LOSE => {
                let Some(s) = self.slots[i].as_ref() else { return Ok(()) };
                let (all, _) = self.store.closure([&s.root]);
                let inner: Vec<V> = all.into_iter().filter(|k| self.store.peek(k).is_some()).collect();
                if inner.is_empty() { return Ok(()); }
                let mut lost = BTreeSet::new();
                for j in 0..(st.a % 4 + 1) { lost.insert(inner[(mix(st.b ^ j) % inner.len() as u64) as usize].clone()); }
                if st.a % 16 == 15 { lost = inner.iter().cloned().collect(); }
                self.cx.stats.fire("lost:nodes");
                self.lost = true;
                self.store.ctl.borrow_mut().lost.extend(lost);
                Ok(())
            }
            FOUND => { self.store.ctl.borrow_mut().lost.clear(); self.lost = false; self.read_all() }
            _ => Ok(()),
        }
    }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
    use FaultKind::*;
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let cfg = vec![MARK + r.chance(1, 4) as u64];
    //               wr re dr ra lo fo pr gr
    let mut w = [8u64, 6, 4, 1, 0, 0, 1, 1];
    match prop { "C14" => { w[LOSE as usize] = 5; w[FOUND as usize] = 2; w[READ as usize] = 9; w[PROVE as usize] = 0; } "C11" => w[PROVE as usize] = 8, _ => {} }
    for (j, x) in w.iter_mut().enumerate() { if j > 0 && r.chance(1, 6) { *x = 0; } }
    let slots = r.range(1, SLOTS as u64);
    let fault_pct = if prop == "C14" { *r.pick(&[0u64, 0, 10]) } else { *r.pick(&[0u64, 20, 50]) };
    let kinds: Vec<u64> = (0..r.range(1, 6)).map(|_| r.below(letypes::KINDS)).collect();
    let seeds = *r.pick(&[2u64, 8, 1 << 40]);
    let n = match r.below(8) { 0..=3 => r.range(2, 8), 4..=6 => r.range(8, 20), _ => r.range(20, 50) };
    let mut steps = Vec::new();
    for j in 0..n {
        let op = if j == 0 { WRITE } else { r.weighted(&w) as u8 };
        let mut s = Step { client: r.below(slots) as u8, op, a: r.below(64), b: r.next() >> 1, c: r.next() >> 1, fault: Fault::NONE };
        if op == WRITE || op == GROW { s.a = if r.chance(1, 4) { r.below(letypes::KINDS) } else { *r.pick(&kinds) }; s.b = r.below(seeds); }
        if r.chance(fault_pct, 100) {
            match op {
                WRITE | GROW => s.fault = pick_fault(&mut r, &[Err, AckLost, Full]),
                READ => s.fault = pick_fault(&mut r, &[Err]),
                _ => {}
            }
        }
        steps.push(s);
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps }
}
