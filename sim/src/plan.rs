//! A plan is one complete, explicit execution: configuration, schedule, operations and faults.
//! Executing a plan is a pure function of the plan and the code under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind { None, Err, AckLost, Full, Crash, Lost, Net }

impl FaultKind {
    pub const ALL: [FaultKind; 7] = [FaultKind::None, FaultKind::Err, FaultKind::AckLost, FaultKind::Full, FaultKind::Crash, FaultKind::Lost, FaultKind::Net];
    pub fn name(self) -> &'static str {
        match self {
            FaultKind::None => "none", FaultKind::Err => "err", FaultKind::AckLost => "acklost", FaultKind::Full => "full",
            FaultKind::Crash => "crash", FaultKind::Lost => "lost", FaultKind::Net => "net",
        }
    }
    pub fn parse(s: &str) -> Option<Self> { Self::ALL.iter().copied().find(|k| k.name() == s) }
}

/// A fault inside one step. `at` is the number of store calls of the step that still succeed,
/// `len` how many calls from there on are hit (0 = all until the end of the step).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fault { pub kind: FaultKind, pub at: u32, pub len: u32 }
impl Fault { pub const NONE: Fault = Fault { kind: FaultKind::None, at: 0, len: 0 }; }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Step { pub client: u8, pub op: u8, pub a: u64, pub b: u64, pub c: u64, pub fault: Fault }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Plan { pub prop: String, pub seed: u64, pub hash_seed: u64, pub cfg: Vec<u64>, pub steps: Vec<Step> }

impl Plan {
    pub fn cfg(&self, i: usize) -> u64 { self.cfg.get(i).copied().unwrap_or(0) }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("property {}\nseed {}\nhash_seed {}\ncfg", self.prop, self.seed, self.hash_seed));
        for c in &self.cfg { s.push_str(&format!(" {}", c)); }
        s.push('\n');
        for t in &self.steps {
            s.push_str(&format!("step {} {} {} {} {} {} {} {}\n", t.client, t.op, t.a, t.b, t.c, t.fault.kind.name(), t.fault.at, t.fault.len));
        }
        s
    }

    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan { prop: String::new(), seed: 0, hash_seed: 0, cfg: vec![], steps: vec![] };
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first().copied() {
                Some("property") => p.prop = w.get(1)?.to_string(),
                Some("seed") => p.seed = w.get(1)?.parse().ok()?,
                Some("hash_seed") => p.hash_seed = w.get(1)?.parse().ok()?,
                Some("cfg") => p.cfg = w[1..].iter().map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?,
                Some("step") => p.steps.push(Step {
                    client: w.get(1)?.parse().ok()?, op: w.get(2)?.parse().ok()?,
                    a: w.get(3)?.parse().ok()?, b: w.get(4)?.parse().ok()?, c: w.get(5)?.parse().ok()?,
                    fault: Fault { kind: FaultKind::parse(w.get(6)?)?, at: w.get(7)?.parse().ok()?, len: w.get(8)?.parse().ok()? },
                }),
                _ => {}
            }
        }
        if p.prop.is_empty() { None } else { Some(p) }
    }
}
