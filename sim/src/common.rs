//! What every world reports back to the runner.

use crate::store::{CtlRef, SimStore, Cons, V};
use std::collections::{BTreeMap, BTreeSet};

/// Kinds of disagreement between the code and an oracle. A check accepts the classes that its property is
/// about; a run that hits another class ends early and is counted, but says nothing about this property.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Class { Content, Bounds, Root, Garbage, Reach, Atomic, Crash, Reopen, Lost, Raw, Proof, Ssz, Partial, Backend, Wire, Hostile, Cost, Panic }

#[derive(Clone, Debug)]
pub enum Stop { Violation(Class, String), Foreign(Class, String) }
pub type Flow = Result<(), Stop>;

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub calls: BTreeMap<&'static str, u64>,
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub max_store: usize,
}

impl Stats {
    pub fn probe(&mut self, k: &'static str) { *self.probes.entry(k).or_insert(0) += 1; }
    pub fn fire(&mut self, k: &'static str) { *self.fired.entry(k).or_insert(0) += 1; }
    pub fn take_ctl(&mut self, ctl: &CtlRef) {
        let c = ctl.borrow();
        for (k, n) in [("get", c.counters.get), ("rootify", c.counters.rootify), ("unrootify", c.counters.unrootify), ("insert", c.counters.insert)] {
            *self.calls.entry(k).or_insert(0) += n;
        }
        for (k, n) in &c.counters.fired { *self.fired.entry(k).or_insert(0) += n; }
        if c.lost_hits > 0 { *self.fired.entry("lost:get").or_insert(0) += c.lost_hits; }
    }
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub violation: Option<(Class, String)>,
    pub foreign: Option<(Class, String)>,
    pub findings: BTreeMap<&'static str, String>,
    pub trace: u64,
    pub stats: Stats,
}

/// Bookkeeping of one run.
pub struct Ctx {
    pub classes: &'static [Class],
    pub stats: Stats,
    pub findings: BTreeMap<&'static str, String>,
    pub trace: u64,
    pub verbose: bool,
    pub step: usize,
}

impl Ctx {
    pub fn new(classes: &'static [Class], verbose: bool) -> Self {
        Ctx { classes, stats: Stats::default(), findings: BTreeMap::new(), trace: 0, verbose, step: 0 }
    }
    pub fn stop(&self, class: Class, msg: String) -> Stop {
        let msg = format!("step {}: {}", self.step, msg);
        if self.classes.contains(&class) { Stop::Violation(class, msg) } else { Stop::Foreign(class, msg) }
    }
    pub fn bad(&self, class: Class, msg: String) -> Flow { Err(self.stop(class, msg)) }
    pub fn say(&self, f: impl FnOnce() -> String) { if self.verbose { println!("[{}] {}", self.step, f()); } }
    pub fn note(&mut self, x: u64) { self.trace = crate::rng::mix(self.trace ^ x); }
    pub fn finish(self, flow: Flow) -> Outcome {
        let (violation, foreign) = match flow {
            Ok(()) => (None, None),
            Err(Stop::Violation(c, m)) => (Some((c, m)), None),
            Err(Stop::Foreign(c, m)) => (None, Some((c, m))),
        };
        Outcome { violation, foreign, findings: self.findings, trace: self.trace, stats: self.stats }
    }
}

pub fn v8(v: &V) -> u64 { let k = v.as_ref(); u64::from_le_bytes([k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7]]) }
pub fn hx(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(10) { s.push_str(&format!("{:02x}", x)); } if b.len() > 10 { s.push('~'); } s }
pub fn vh(v: &V) -> [u8; 32] { let mut h = [0; 32]; h.copy_from_slice(v.as_ref()); h }
pub fn hv(h: &[u8; 32]) -> V { let mut v = V::default(); v.as_mut().copy_from_slice(h); v }

/// The nodes that must be readable: written or known, and reachable from a registered tree ever since.
#[derive(Default, Clone)]
pub struct Needed { pub map: BTreeMap<V, (V, V)> }

impl Needed {
    /// Advance to the current set of live roots, after the inserts logged since the last call.
    pub fn advance<'a, C: Cons>(&mut self, store: &mut SimStore<C>, roots: impl IntoIterator<Item = &'a V>) -> Result<(), String> {
        let log = std::mem::take(&mut store.ctl.borrow_mut().log);
        let mut next = BTreeMap::new();
        let mut todo: Vec<V> = roots.into_iter().cloned().collect();
        let mut fresh: BTreeMap<V, (V, V)> = BTreeMap::new();
        for (k, p) in log { fresh.insert(k, p); }
        while let Some(k) = todo.pop() {
            if next.contains_key(&k) { continue; }
            if let Some(p) = self.map.get(&k).or_else(|| fresh.get(&k)) {
                todo.push(p.0.clone());
                todo.push(p.1.clone());
                next.insert(k, p.clone());
            }
        }
        self.map = next;
        let real = store.real.as_ref();
        for (k, p) in &self.map {
            match real.get(k).and_then(|e| e.0.as_ref()) {
                Some(q) if q == p => {}
                Some(_) => return Err(format!("node {} has other children than were written", hx(k.as_ref()))),
                None => return Err(format!("node {} is needed by a live tree but cannot be read", hx(k.as_ref()))),
            }
        }
        Ok(())
    }
}
