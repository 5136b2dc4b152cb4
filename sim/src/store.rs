//! The simulated disk: the real `InMemoryBackend` behind the store traits, with every call going
//! through a gate that the plan controls (failures, lost acknowledgements, full disk, lost nodes,
//! crash at a call boundary).

use crate::plan::{Fault, FaultKind};
use crate::rng::mix;
use bm::{Backend, Construct, InMemoryBackend, InMemoryBackendError, ReadBackend, WriteBackend};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type V = bm_le::Value;
pub type Inh = bm::InheritedDigestConstruct<sha2::Sha256, V>;
pub type Unit = bm::UnitDigestConstruct<sha2::Sha256, V>;

pub trait Cons: Construct<Value = V> + 'static { const INHERITED: bool; }
impl Cons for Inh { const INHERITED: bool = true; }
impl Cons for Unit { const INHERITED: bool = false; }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SimError { Injected, Crashed, Store(InMemoryBackendError), Noop, Erased }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call { Get, Rootify, Unrootify, Insert }

/// A run that makes more store calls than this inside one step is livelocked.
pub const STEP_CALL_BUDGET: u32 = 1_000_000;

#[derive(Default)]
pub struct Counters { pub get: u64, pub rootify: u64, pub unrootify: u64, pub insert: u64, pub fired: BTreeMap<&'static str, u64> }

pub struct Ctl {
    pub fault: Fault,
    /// Calls of the current step that were eligible for the current fault.
    pub eligible: u32,
    pub step_calls: u32,
    /// Store calls of the last finished operation.
    pub spent: u32,
    pub fired: u32,
    pub fired_on: Option<Call>,
    /// Nodes whose insertion took place but was reported as failed.
    pub unacked: BTreeSet<V>,
    pub crashed: bool,
    pub lost: BTreeSet<V>,
    pub lost_hits: u64,
    /// Registered roots: successful rootify minus unrootify calls. This is the durable record of roots.
    pub roots: BTreeMap<V, i64>,
    pub trace: u64,
    pub counters: Counters,
    /// Successful inserts, for the reachability oracle.
    pub log: Vec<(V, (V, V))>,
    pub keep_log: bool,
}

pub type CtlRef = Rc<RefCell<Ctl>>;

enum Gate { Pass, FailBefore(SimError), FailAfter(SimError) }

impl Ctl {
    pub fn new(_verbose: bool) -> CtlRef {
        Rc::new(RefCell::new(Ctl {
            fault: Fault::NONE, eligible: 0, step_calls: 0, spent: 0, fired: 0, fired_on: None, crashed: false, unacked: BTreeSet::new(), lost: BTreeSet::new(), lost_hits: 0,
            roots: BTreeMap::new(), trace: 0x1234_5678, counters: Counters::default(), log: Vec::new(), keep_log: false,
        }))
    }
    pub fn arm(&mut self, f: Fault) { self.fault = f; self.eligible = 0; self.step_calls = 0; self.fired = 0; self.fired_on = None; }
    /// Ends the fault window of the step and tells how often it fired.
    pub fn disarm(&mut self) -> u32 { self.fault = Fault::NONE; self.spent = self.step_calls; self.step_calls = 0; self.fired }
    pub fn note(&mut self, x: u64) { self.trace = mix(self.trace ^ x); }

    fn gate(&mut self, call: Call, key: &V) -> Gate {
        self.step_calls += 1;
        if self.step_calls > STEP_CALL_BUDGET { panic!("livelock: more than {} store calls in one operation", STEP_CALL_BUDGET); }
        match call {
            Call::Get => self.counters.get += 1,
            Call::Rootify => self.counters.rootify += 1,
            Call::Unrootify => self.counters.unrootify += 1,
            Call::Insert => self.counters.insert += 1,
        }
        let k = key.as_ref();
        let k8 = u64::from_le_bytes([k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]]);
        self.note(k8 ^ ((call as u64 + 1) << 56));
        if self.crashed { return Gate::FailBefore(SimError::Crashed); }
        let f = self.fault;
        let eligible = match f.kind {
            FaultKind::Err | FaultKind::Crash => true,
            FaultKind::AckLost => call == Call::Insert || call == Call::Rootify,
            FaultKind::Full => call == Call::Insert,
            _ => false,
        };
        if !eligible { return Gate::Pass; }
        let n = self.eligible;
        self.eligible += 1;
        if n < f.at || (f.len > 0 && n >= f.at + f.len) { return Gate::Pass; }
        self.fired += 1;
        if self.fired_on.is_none() { self.fired_on = Some(call); }
        *self.counters.fired.entry(fired_name(f.kind, call)).or_insert(0) += 1;
        self.note(0xfa00 + f.kind as u64);
        match f.kind {
            FaultKind::AckLost => Gate::FailAfter(SimError::Injected),
            FaultKind::Crash => { self.crashed = true; Gate::FailBefore(SimError::Crashed) }
            _ => Gate::FailBefore(SimError::Injected),
        }
    }
}

fn fired_name(k: FaultKind, c: Call) -> &'static str {
    match (k, c) {
        (FaultKind::Err, Call::Get) => "err:get", (FaultKind::Err, Call::Insert) => "err:insert",
        (FaultKind::Err, Call::Rootify) => "err:rootify", (FaultKind::Err, Call::Unrootify) => "err:unrootify",
        (FaultKind::Crash, Call::Get) => "crash:get", (FaultKind::Crash, Call::Insert) => "crash:insert",
        (FaultKind::Crash, Call::Rootify) => "crash:rootify", (FaultKind::Crash, Call::Unrootify) => "crash:unrootify",
        (FaultKind::AckLost, Call::Insert) => "acklost:insert", (FaultKind::AckLost, _) => "acklost:rootify",
        (FaultKind::Full, _) => "full:insert",
        _ => "other",
    }
}

pub struct SimStore<C: Construct<Value = V>> { pub real: InMemoryBackend<C>, pub ctl: CtlRef }

impl<C: Construct<Value = V>> SimStore<C> {
    pub fn new(verbose: bool) -> Self { SimStore { real: InMemoryBackend::default(), ctl: Ctl::new(verbose) } }
    pub fn with_ctl(ctl: CtlRef) -> Self { SimStore { real: InMemoryBackend::default(), ctl } }

    /// Look at the store without going through the gate (the oracle's own eyes).
    pub fn peek(&mut self, key: &V) -> Option<(V, V)> { self.real.get(key).unwrap_or(None) }
    pub fn keys(&self) -> BTreeSet<V> { self.real.as_ref().keys().cloned().collect() }
    pub fn size(&self) -> usize { self.real.as_ref().len() }

    /// Everything reachable from `roots` in the store (roots included), and keys that are reachable but absent.
    pub fn closure<'a, I: IntoIterator<Item = &'a V>>(&self, roots: I) -> (BTreeSet<V>, BTreeSet<V>) {
        let map = self.real.as_ref();
        let (mut seen, mut absent) = (BTreeSet::new(), BTreeSet::new());
        let mut todo: Vec<V> = roots.into_iter().cloned().collect();
        while let Some(k) = todo.pop() {
            if !seen.insert(k.clone()) { continue; }
            match map.get(&k) {
                Some(entry) => if let Some((l, r)) = &entry.0 { todo.push(l.clone()); todo.push(r.clone()); },
                None => { absent.insert(k); }
            }
        }
        (seen, absent)
    }
}

impl<C: Construct<Value = V>> Backend for SimStore<C> { type Construct = C; type Error = SimError; }

impl<C: Construct<Value = V>> ReadBackend for SimStore<C> {
    fn get(&mut self, key: &V) -> Result<Option<(V, V)>, SimError> {
        let g = self.ctl.borrow_mut().gate(Call::Get, key);
        match g {
            Gate::Pass => {
                let mut c = self.ctl.borrow_mut();
                if c.lost.contains(key) { c.lost_hits += 1; c.note(0x1057); return Ok(None); }
                drop(c);
                self.real.get(key).map_err(SimError::Store)
            }
            Gate::FailBefore(e) | Gate::FailAfter(e) => Err(e),
        }
    }
}

impl<C: Construct<Value = V>> SimStore<C> {
    fn apply(&mut self, call: Call, key: &V, value: Option<(V, V)>) -> Result<(), SimError> {
        let g = self.ctl.borrow_mut().gate(call, key);
        if let Gate::FailBefore(e) = g { return Err(e); }
        match call {
            Call::Rootify => self.real.rootify(key),
            Call::Unrootify => self.real.unrootify(key),
            _ => {
                let value = value.expect("insert has a value");
                let mut c = self.ctl.borrow_mut();
                if c.keep_log { c.log.push((key.clone(), value.clone())); }
                if let Gate::FailAfter(_) = g { c.unacked.insert(key.clone()); }
                drop(c);
                self.real.insert(key.clone(), value)
            }
        }.map_err(SimError::Store)?;
        let mut c = self.ctl.borrow_mut();
        match call {
            Call::Rootify => *c.roots.entry(key.clone()).or_insert(0) += 1,
            Call::Unrootify => *c.roots.entry(key.clone()).or_insert(0) -= 1,
            _ => {}
        }
        match g { Gate::FailAfter(e) => Err(e), _ => Ok(()) }
    }
}

impl<C: Construct<Value = V>> WriteBackend for SimStore<C> {
    fn rootify(&mut self, key: &V) -> Result<(), SimError> { self.apply(Call::Rootify, key, None) }
    fn unrootify(&mut self, key: &V) -> Result<(), SimError> { self.apply(Call::Unrootify, key, None) }
    fn insert(&mut self, key: V, value: (V, V)) -> Result<(), SimError> {
        // a node written again is no longer lost
        self.ctl.borrow_mut().lost.remove(&key);
        self.apply(Call::Insert, &key, Some(value))
    }
}

/// Any store of the simulation, as the library sees it.
pub type Db<'a, C> = dyn WriteBackend<Construct = C, Error = SimError> + 'a;

/// Gives the error-erasing and the discarding backend of the library the simulation's error type, and nothing else.
pub struct Mapped<B>(pub B);
impl<B: Backend> Backend for Mapped<B> where B::Error: IntoSim { type Construct = B::Construct; type Error = SimError; }
pub trait IntoSim { fn sim(self) -> SimError; }
impl IntoSim for () { fn sim(self) -> SimError { SimError::Erased } }
impl IntoSim for bm::NoopBackendError { fn sim(self) -> SimError { SimError::Noop } }
impl IntoSim for InMemoryBackendError { fn sim(self) -> SimError { SimError::Store(self) } }
impl<C: Construct<Value = V>, B: ReadBackend<Construct = C>> ReadBackend for Mapped<B> where B::Error: IntoSim {
    fn get(&mut self, key: &V) -> Result<Option<(V, V)>, SimError> { self.0.get(key).map_err(|e| e.sim()) }
}
impl<C: Construct<Value = V>, B: WriteBackend<Construct = C>> WriteBackend for Mapped<B> where B::Error: IntoSim {
    fn rootify(&mut self, key: &V) -> Result<(), SimError> { self.0.rootify(key).map_err(|e| e.sim()) }
    fn unrootify(&mut self, key: &V) -> Result<(), SimError> { self.0.unrootify(key).map_err(|e| e.sim()) }
    fn insert(&mut self, key: V, value: (V, V)) -> Result<(), SimError> { self.0.insert(key, value).map_err(|e| e.sim()) }
}
