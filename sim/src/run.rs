//! One execution of one plan: in a thread of its own, with the process' only entropy source replaced.

use crate::common::{Class, Outcome};
use crate::plan::{Fault, FaultKind, Plan};
use crate::rng::mix;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x6a09e667f3bcc908) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Interposes libc's getrandom: hash maps of the standard library draw their keys from the plan.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENTROPY.try_with(|e| e.get()).unwrap_or(1);
    for i in 0..len {
        if i % 8 == 0 { s = mix(s); }
        unsafe { *buf.add(i) = (s >> (8 * (i % 8))) as u8; }
    }
    let _ = ENTROPY.try_with(|e| e.set(s));
    len as isize
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, at)));
    }));
}

/// How much of a run had happened when it panicked is not known to the outcome; the message tells where.
pub fn run_plain(plan: &Plan, verbose: bool) -> Outcome {
    let plan = plan.clone();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        ENTROPY.with(|e| e.set(plan.hash_seed));
        match catch_unwind(AssertUnwindSafe(|| crate::props::exec(&plan, verbose))) {
            Ok(o) => o,
            Err(_) => {
                let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                let mut o = Outcome::default();
                o.trace = msg.bytes().fold(7, |h, b| mix(h ^ b as u64));
                // a panic inside the simulator itself is an error of the check, not of the code under test
                if msg.contains(" at src/") && !msg.starts_with("livelock") { o.foreign = Some((Class::Panic, format!("harness: {}", msg))); }
                else { o.violation = Some((Class::Panic, format!("panic: {}", msg))); }
                o
            }
        }
    }).expect("thread");
    h.join().expect("run thread")
}

/// Properties that are about what a fault does: any disagreement that disappears when the same history runs
/// without its faults was caused by them.
fn blames_faults(prop: &str) -> Option<Class> {
    match prop { "C06" | "C08" => Some(Class::Atomic), "C07" => Some(Class::Crash), "C09" => Some(Class::Reopen), _ => None }
}

pub fn run(plan: &Plan, verbose: bool) -> Outcome {
    let mut o = run_plain(plan, verbose);
    if let (Some((c, m)), Some(blame)) = (o.foreign.clone(), blames_faults(&plan.prop)) {
        if c != Class::Panic && plan.steps.iter().any(|s| s.fault.kind != FaultKind::None) {
            let mut calm = plan.clone();
            for s in calm.steps.iter_mut() { s.fault = Fault::NONE; }
            let q = run_plain(&calm, false);
            if q.foreign.is_none() && q.violation.is_none() {
                o.foreign = None;
                o.violation = Some((blame, format!("{} (does not happen without the faults)", m)));
            }
        }
    }
    o
}
