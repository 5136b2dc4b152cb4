//! Deterministic simulation with fault injection for bm. See /verif/DESIGN.md.

mod common;
mod model;
mod plan;
mod props;
mod rng;
mod run;
mod seq;
mod store;
mod tierun;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match a(1) {
        "check" => tierun::check(a(2)),
        "work" => tierun::work(&args[2..]),
        "replay" => tierun::replay(a(2)),
        "minimise" => tierun::minimise(a(2), a(3)),
        "show" => tierun::show(a(2), a(3)),
        _ => { eprintln!("usage: bmsim check <property> | replay <file> | show <property> <run>"); 2 }
    };
    std::process::exit(code);
}
