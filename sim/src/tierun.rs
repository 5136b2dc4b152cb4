//! The campaign: worker processes, aggregation, minimisation, replay files, known findings, evidence.

use crate::common::{Class, Outcome, Stats};
use crate::plan::{Fault, FaultKind, Plan};
use crate::rng::mix;
use crate::{props, run};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

fn root() -> PathBuf { std::env::var("BMSIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
fn base_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }
fn tier() -> &'static str { if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" } }

fn plan_of(prop: &str, seed: u64, n: u64) -> Plan {
    let p = prop.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
    props::gen(prop, mix(mix(seed ^ p).wrapping_add(n)))
}

// ---- worker --------------------------------------------------------------------------------------------------------

/// work <prop> <seed> <index> <workers> <total> [<skip>...]
pub fn work(a: &[String]) -> i32 {
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let (prop, seed, index, workers, total, from) = (a[0].as_str(), num(1), num(2), num(3), num(4), num(5));
    run::install_panic_hook();
    let out = std::io::stdout();
    let mut out = out.lock();
    let (mut traces, mut states) = (BTreeSet::new(), BTreeSet::new());
    let mut sum = Stats::default();
    let (mut runs, mut foreign, mut redone, mut drift, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut n = index;
    while n < from { n += workers; }
    while n < total {
        let _ = writeln!(out, "R {}", n);
        let _ = out.flush();
        let plan = plan_of(prop, seed, n);
        let o = run::run(&plan, false);
        runs += 1;
        if (n / workers) % 32 == 0 {
            redone += 1;
            let p = run::run(&plan, false);
            if p.trace != o.trace || p.violation.is_some() != o.violation.is_some() { drift += 1; let _ = writeln!(out, "D {}", n); }
        }
        if let Some((c, m)) = &o.violation {
            let _ = writeln!(out, "V {} {:?} {}", n, c, m.replace('\n', " "));
            let _ = out.flush();
            break;
        }
        if let Some((c, m)) = &o.foreign {
            foreign += 1;
            if foreign <= 3 { let _ = writeln!(out, "F {} {:?} {}", n, c, m.replace('\n', " ")); }
        }
        let mut unlisted = false;
        for (k, d) in &o.findings {
            if sum.probes.get(k).is_none() { let _ = writeln!(out, "K {} {} {}", n, k, d.replace('\n', " ")); }
            if !listed(prop, k) {
                let _ = writeln!(out, "V {} Unlisted {}: {}", n, k, d.replace('\n', " "));
                unlisted = true;
                break;
            }
            *sum.probes.entry(k).or_insert(0) += 1;
        }
        if unlisted { let _ = out.flush(); break; }
        let writes = o.stats.calls.get("insert").copied().unwrap_or(0) + o.stats.calls.get("work").copied().unwrap_or(0);
        let fresh = traces.insert(o.trace);
        if fresh && o.stats.steps >= 3 && writes > 0 { nontrivial += 1; }
        sum.steps += o.stats.steps;
        for (k, v) in &o.stats.calls { *sum.calls.entry(k).or_insert(0) += v; }
        for (k, v) in &o.stats.fired { *sum.fired.entry(k).or_insert(0) += v; }
        for (k, v) in &o.stats.probes { *sum.probes.entry(k).or_insert(0) += v; }
        if states.len() < 2_000_000 { for s in &o.stats.states { states.insert(*s); } }
        sum.max_store = sum.max_store.max(o.stats.max_store);
        n += workers;
    }
    // distinct states and executions of this worker, for exact union counting in the parent
    let dir = a.get(6).cloned().unwrap_or_default();
    if !dir.is_empty() {
        let dump = |name: &str, set: &BTreeSet<u64>| {
            let mut b = Vec::with_capacity(set.len() * 8);
            for x in set { b.extend_from_slice(&x.to_le_bytes()); }
            let _ = std::fs::write(Path::new(&dir).join(format!("{}.{}", name, index)), b);
        };
        dump("traces", &traces);
        dump("states", &states);
    }
    let _ = writeln!(out, "N runs {}", runs);
    let _ = writeln!(out, "N foreign {}", foreign);
    let _ = writeln!(out, "N redone {}", redone);
    let _ = writeln!(out, "N drift {}", drift);
    let _ = writeln!(out, "N nontrivial {}", nontrivial);
    let _ = writeln!(out, "N steps {}", sum.steps);
    let _ = writeln!(out, "N maxstore {}", sum.max_store);
    for (tag, m) in [("calls", &sum.calls), ("fired", &sum.fired), ("probe", &sum.probes)] {
        for (k, v) in m { let _ = writeln!(out, "M {} {} {}", tag, v, k); }
    }
    let _ = writeln!(out, "E");
    let _ = out.flush();
    0
}

// ---- known findings ------------------------------------------------------------------------------------------------

struct Known { id: String, text: String }

fn known(prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let Some((p, rest)) = rest.split_once(' ') else { continue };
        let Some(rest) = rest.trim().strip_prefix("id=") else { continue };
        let (id, text) = rest.split_once(' ').unwrap_or((rest, ""));
        if p == prop { v.push(Known { id: id.to_string(), text: text.trim().to_string() }); }
    }
    v
}
fn listed(prop: &str, id: &str) -> bool { known(prop).iter().any(|k| k.id == id) }

// ---- parent --------------------------------------------------------------------------------------------------------

enum Msg { Line(u64, String), Gone(u64) }

pub fn check(prop: &str) -> i32 {
    if !props::ALL.contains(&prop) { eprintln!("unknown property {}", prop); return 2; }
    let t0 = Instant::now();
    let (seed, tier) = (base_seed(), tier());
    let total = std::env::var("BMSIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| props::runs(prop, tier));
    let total = match std::env::var("BMSIM_RUNS_SCALE").ok().and_then(|x| x.parse::<u64>().ok()) { Some(n) if n > 0 => (total / n).max(1), _ => total };
    let workers: u64 = std::env::var("BMSIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let wall = Duration::from_secs(if tier == "thorough" { 640 } else { 420 });
    println!("bmsim {} tier={} seed={} runs={} workers={}", prop, tier, seed, total, workers);
    let exe = match std::env::current_exe() { Ok(e) => e, Err(e) => { eprintln!("{}", e); return 2; } };
    let scratch = std::env::temp_dir().join(format!("bmsim.{}.{}", prop, std::process::id()));
    if std::fs::create_dir_all(&scratch).is_err() { eprintln!("no scratch directory"); return 2; }

    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids: BTreeMap<u64, std::process::Child> = BTreeMap::new();
    let start = |w: u64, from: u64, tx: &mpsc::Sender<Msg>| -> Option<std::process::Child> {
        let mut k = Command::new(&exe)
            .args(["work", prop, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string(), &from.to_string(), &scratch.to_string_lossy()])
            .stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().ok()?;
        let o = k.stdout.take()?;
        let tx = tx.clone();
        std::thread::spawn(move || {
            for line in BufReader::new(o).lines() { match line { Ok(l) => { if tx.send(Msg::Line(w, l)).is_err() { return; } } Err(_) => break } }
            let _ = tx.send(Msg::Gone(w));
        });
        Some(k)
    };
    for w in 0..workers { match start(w, 0, &tx) { Some(k) => { kids.insert(w, k); } None => { eprintln!("cannot start worker"); return 2; } } }

    let mut at: BTreeMap<u64, (u64, Instant, f64)> = BTreeMap::new();
    let mut slow: Option<Instant> = None;
    let mut done: BTreeSet<u64> = BTreeSet::new();
    let mut ended: BTreeSet<u64> = BTreeSet::new();
    let mut viol: BTreeMap<u64, String> = BTreeMap::new();
    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let mut maps: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut foreign_notes = Vec::new();
    let mut finding_notes: BTreeMap<String, String> = BTreeMap::new();
    let mut cut_short = false;
    while done.len() < workers as usize {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Msg::Line(w, l)) => {
                let mut it = l.splitn(4, ' ');
                match it.next() {
                    Some("R") => { let n = it.next().and_then(|x| x.parse().ok()).unwrap_or(0); at.insert(w, (n, Instant::now(), f64::NAN)); }
                    Some("V") => {
                        let n: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        viol.insert(n, format!("{} {}", it.next().unwrap_or(""), it.next().unwrap_or("")));
                    }
                    Some("F") => foreign_notes.push(l.clone()),
                    Some("D") => eprintln!("note: run {} did not repeat exactly", it.next().unwrap_or("?")),
                    Some("K") => { let _ = it.next(); finding_notes.insert(it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string()); }
                    Some("N") => {
                        let k = it.next().unwrap_or("").to_string();
                        let v: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let e = nums.entry(k.clone()).or_insert(0);
                        if k == "maxstore" { *e = (*e).max(v) } else { *e += v }
                    }
                    Some("M") => {
                        let tag = it.next().unwrap_or("").to_string();
                        let v: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        *maps.entry(tag).or_default().entry(it.next().unwrap_or("").to_string()).or_insert(0) += v;
                    }
                    Some("E") => { ended.insert(w); }
                    _ => {}
                }
            }
            Ok(Msg::Gone(w)) => {
                if let Some(mut k) = kids.remove(&w) { let _ = k.wait(); }
                done.insert(w);
                if !ended.contains(&w) && !cut_short {
                    // the worker died inside a run: stack overflow, abort, or it was killed for hanging
                    if let Some((n, _, _)) = at.get(&w) { viol.entry(*n).or_insert_with(|| "Panic the process died or hung in this run".into()); }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        // a run that uses up a minute and a half of processor time does not come to an end (the machine may be slow, so
        // the time on the clock says little)
        if slow.map(|s| s.elapsed() > Duration::from_secs(1)).unwrap_or(true) {
            slow = Some(Instant::now());
            for (w, (_, since, used)) in at.iter_mut() {
                if done.contains(w) || since.elapsed() < Duration::from_secs(5) { continue; }
                let Some(k) = kids.get_mut(w) else { continue };
                let now = cpu_s(k.id());
                if used.is_nan() { *used = now; }
                if now - *used > 85.0 || since.elapsed() > Duration::from_secs(360) { let _ = k.kill(); }
            }
        }
        if t0.elapsed() > wall && !cut_short {
            cut_short = true;
            for (_, k) in kids.iter_mut() { let _ = k.kill(); }
        }
    }
    let union = |name: &str| -> u64 {
        let mut s: Vec<u64> = Vec::new();
        for w in 0..workers {
            if let Ok(b) = std::fs::read(scratch.join(format!("{}.{}", name, w))) {
                s.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])));
            }
        }
        s.sort_unstable();
        s.dedup();
        s.len() as u64
    };
    let (distinct, states) = (union("traces"), union("states"));
    let _ = std::fs::remove_dir_all(&scratch);
    let search_s = t0.elapsed().as_secs_f64();
    for f in foreign_notes.iter().take(3) { println!("note (concerns another property): {}", f); }

    // ---- violations
    let mut code = 0;
    let mut violations = 0;
    if let Some((n, what)) = viol.iter().next() {
        violations = viol.len() as u64;
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-run{}.plan", prop, seed, n));
        let plan = plan_of(prop, seed, *n);
        let _ = std::fs::write(&path, format!("# {}\n{}", what, plan.to_text()));
        // confirm in a fresh process, then minimise in another one, then confirm the minimised file
        let confirmed = replay_proc(&exe, &path, 100);
        if !confirmed {
            eprintln!("error: run {} ({}) could not be reproduced in a fresh process", n, what);
            code = 2;
        } else {
            let min = dir.join(format!("{}-seed{}-run{}.min.plan", prop, seed, n));
            let ok = run_timeout(Command::new(&exe).args(["minimise", &path.to_string_lossy(), &min.to_string_lossy()]).stdout(Stdio::null()).stderr(Stdio::null()), 100) == Some(0);
            let show = if ok && replay_proc(&exe, &min, 100) { min } else { path };
            println!("violated: {}", what);
            if let Ok(t) = std::fs::read_to_string(&show) { for l in t.lines().take(60) { println!("  {}", l); } }
            println!("VIOLATION property={} replay={}", prop, show.display());
            code = 1;
        }
    }

    // ---- recorded findings
    let mut shown = Vec::new();
    for k in known(prop) {
        match props::probe(&k.id) {
            Some(what) => { println!("KNOWN-FINDING: property={} {}: {}", prop, k.id, what); shown.push(k.id.clone()); }
            None => println!("note: recorded finding {} ({}) does not show any more", k.id, k.text),
        }
    }

    // ---- evidence
    let g = |k: &str| nums.get(k).copied().unwrap_or(0);
    let hour = |x: u64| if search_s > 0.0 { (x as f64 * 3600.0 / search_s) as u64 } else { 0 };
    let mj = |m: Option<&BTreeMap<String, u64>>| -> String {
        let v: Vec<String> = m.map(|m| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect()).unwrap_or_default();
        format!("{{{}}}", v.join(","))
    };
    let samples: Vec<String> = (0..3).map(|n| js(&plan_of(prop, seed, n * 7 + 1).to_text())).collect();
    let (real, stub) = props::components(prop);
    let calls = maps.get("calls").cloned().unwrap_or_default();
    let simtime: u64 = calls.values().sum();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\
\"simulated_runs\":{},\"seeds_per_hour\":{},\"simulated_time_calls\":{},\"simulated_steps\":{},\"faults_fired\":{},\"calls\":{},\"distinct_executions\":{},\"distinct_states\":{},\"distinct_states_measure\":{},\
\"reach_probes\":{},\"runs_ended_early_by_other_properties\":{},\"runs_repeated_for_determinism\":{},\"runs_that_did_not_repeat\":{},\"largest_store_nodes\":{},\"components_real\":{},\"components_stub\":{},\"known_findings_shown\":[{}],\"cut_short_by_wall_clock\":{}}},\
\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        js(prop), js(tier), seed, g("runs"), g("nontrivial").min(distinct),
        js(&format!("one run = one seeded plan (configuration, schedule of operations of up to 8 clients, faults) executed on the real code. {} Non-trivial: at least 3 steps, at least one node written or message handled, and an execution trace (hash of every store call, fault and resulting root) not seen before in its worker.", props::describe(prop))),
        samples.join(","), g("runs"), hour(g("runs")), simtime, g("steps"), mj(maps.get("fired")), mj(Some(&calls)), distinct, states,
        js("hash over all clients' roots, liveness, ownership and the store size after each step"),
        mj(maps.get("probe")), g("foreign"), g("redone"), g("drift"), g("maxstore"), js(real), js(stub),
        shown.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), cut_short,
        [js("sha2 and the standard library are correct; SHA-256 has no collisions among the values met"), js("the store's calls are atomic: a crash happens between calls, and an insert, rootify or unrootify that returned an error other than a lost acknowledgement had no effect"), js("sampling: a clean batch is evidence, not proof")].join(","),
        t0.elapsed().as_secs_f64(), violations);
    let _ = std::fs::create_dir_all(root().join("evidence"));
    if let Err(e) = std::fs::write(root().join("evidence").join(format!("{}.json", prop)), ev) { eprintln!("cannot write evidence: {}", e); return 2; }
    if code == 0 && g("runs") == 0 { eprintln!("error: nothing was explored"); return 2; }
    println!("{}: {} runs, {} distinct executions, {} states, {} steps, {:.1}s, exit {}", prop, g("runs"), distinct, states, g("steps"), t0.elapsed().as_secs_f64(), code);
    code
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

/// Seconds of processor time a child has used.
fn cpu_s(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn run_timeout(c: &mut Command, secs: u64) -> Option<i32> {
    let mut k = c.stdin(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    loop {
        match k.try_wait() {
            Ok(Some(s)) => return Some(s.code().unwrap_or(-1)),
            Ok(None) => {}
            Err(_) => return None,
        }
        if cpu_s(k.id()) > secs as f64 || t.elapsed() > Duration::from_secs(secs * 2) { let _ = k.kill(); let _ = k.wait(); return None; }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// A replay confirms a violation when it reports one, dies or hangs.
fn replay_proc(exe: &Path, file: &Path, secs: u64) -> bool {
    !matches!(run_timeout(Command::new(exe).args(["replay", &file.to_string_lossy()]).stdout(Stdio::null()).stderr(Stdio::null()), secs), Some(0) | Some(2))
}

// ---- replay and minimisation ---------------------------------------------------------------------------------------

fn load(file: &str) -> Option<Plan> { Plan::parse(&std::fs::read_to_string(file).ok()?) }

fn verdict(prop: &str, o: &Outcome) -> Option<(Class, String)> {
    if let Some(v) = &o.violation { return Some(v.clone()); }
    o.findings.iter().find(|(k, _)| !listed(prop, k)).map(|(k, d)| (Class::Backend, format!("unlisted finding {}: {}", k, d)))
}

pub fn replay(file: &str) -> i32 {
    run::install_panic_hook();
    let Some(p) = load(file) else { eprintln!("cannot read {}", file); return 2; };
    let o = run::run(&p, true);
    match verdict(&p.prop, &o) {
        Some((c, m)) => { println!("{:?}: {}\ntrace {:016x}\nVIOLATION property={} replay={}", c, m, o.trace, p.prop, file); 1 }
        None => { println!("no violation; trace {:016x}; foreign {:?}; findings {:?}", o.trace, o.foreign, o.findings); 0 }
    }
}

pub fn show(prop: &str, n: &str) -> i32 {
    run::install_panic_hook();
    let p = plan_of(prop, base_seed(), n.parse().unwrap_or(0));
    println!("{}", p.to_text());
    let o = run::run(&p, true);
    println!("violation {:?}\nforeign {:?}\nfindings {:?}\nprobes {:?}\nfired {:?}\ntrace {:016x}", o.violation, o.foreign, o.findings, o.stats.probes, o.stats.fired, o.trace);
    0
}

pub fn minimise(from: &str, to: &str) -> i32 {
    run::install_panic_hook();
    let Some(mut best) = load(from) else { return 2 };
    let prop = best.prop.clone();
    let Some((class, _)) = verdict(&prop, &run::run(&best, false)) else { return 2 };
    let t0 = Instant::now();
    let fails = |p: &Plan| -> bool { t0.elapsed() < Duration::from_secs(80) && verdict(&prop, &run::run(p, false)).map(|v| v.0 == class).unwrap_or(false) };
    for _round in 0..4 {
        let before = best.clone();
        // drop steps, in ever smaller pieces
        let mut size = best.steps.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.steps.len() {
                let mut p = best.clone();
                p.steps.drain(i..(i + size).min(p.steps.len()));
                if fails(&p) { best = p; } else { i += size; }
            }
            if size == 1 { break; }
            size = (size / 2).max(1);
        }
        // drop faults, make arguments smaller
        for i in 0..best.steps.len() {
            if best.steps[i].fault.kind != FaultKind::None {
                let mut p = best.clone();
                p.steps[i].fault = Fault::NONE;
                if fails(&p) { best = p; } else {
                    for f in [0, 1, 2, 3, 5, 8] { if f < best.steps[i].fault.at { let mut p = best.clone(); p.steps[i].fault.at = f; if fails(&p) { best = p; break; } } }
                }
            }
            for field in 0..3 {
                let get = |p: &Plan| match field { 0 => p.steps[i].a, 1 => p.steps[i].b, _ => p.steps[i].c };
                let v = get(&best);
                for x in [0u64, 1, 2, 3, v % 8, v % 16, v % 64, v % 256, v % 65536] {
                    if x >= v { continue; }
                    let mut p = best.clone();
                    match field { 0 => p.steps[i].a = x, 1 => p.steps[i].b = x, _ => p.steps[i].c = x }
                    if fails(&p) { best = p; break; }
                }
            }
        }
        for i in 0..best.cfg.len() { if best.cfg[i] != 0 { let mut p = best.clone(); p.cfg[i] = 0; if fails(&p) { best = p; } } }
        if best == before { break; }
    }
    let o = run::run(&best, false);
    let Some((c, m)) = verdict(&prop, &o) else { return 2 };
    if std::fs::write(to, format!("# {:?}: {}\n# trace {:016x}\n{}", c, m.replace('\n', " "), o.trace, best.to_text())).is_err() { return 2; }
    0
}
