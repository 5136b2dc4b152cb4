//! One world per group of properties: how plans are made, and how they are executed and judged.

pub mod hostile;
pub mod letypes;
pub mod leworld;
pub mod longview;
pub mod network;
pub mod prover;
pub mod partial;
pub mod seqworld;
pub mod stacks;
pub mod values;
pub mod wide;
pub mod wire;

use crate::common::Outcome;
use crate::plan::Plan;
use crate::rng::mix;

pub const ALL: [&str; 19] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20"];

pub fn gen(prop: &str, seed: u64) -> Plan {
    match prop {
        "C13" => leworld::gen(prop, seed),
        "C14" if mix(seed) % 3 == 0 => leworld::gen(prop, seed),
        "C11" if mix(seed) % 8 == 0 => leworld::gen(prop, seed),
        "C11" => prover::gen(prop, seed),
        "C12" => network::gen(prop, seed),
        "C15" | "C20" if mix(seed) % 8 < 1 + (prop == "C20") as u64 => longview::gen(prop, seed),
        "C15" => partial::gen(prop, seed),
        "C16" if mix(seed) % 4 == 0 => leworld::gen(prop, seed),
        "C16" => stacks::gen(prop, seed),
        "C18" => wire::gen(prop, seed),
        "C19" => hostile::gen(prop, seed),
        "C01" | "C02" | "C03" | "C05" | "C06" if mix(seed) % 12 == 0 => wide::gen(prop, seed),
        _ => seqworld::gen(prop, seed),
    }
}

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    match plan.prop.as_str() {
        "C01" | "C02" | "C03" | "C05" | "C06" if plan.cfg(0) >= wide::MARK => wide::exec(plan, verbose),
        "C11" | "C13" | "C14" | "C16" if plan.cfg(0) >= leworld::MARK => leworld::exec(plan, verbose),
        "C11" => prover::exec(plan, verbose),
        "C12" => network::exec(plan, verbose),
        "C15" | "C20" if plan.cfg(0) >= longview::MARK => longview::exec(plan, verbose),
        "C15" => partial::exec(plan, verbose),
        "C16" => stacks::exec(plan, verbose),
        "C18" => wire::exec(plan, verbose),
        "C19" => hostile::exec(plan, verbose),
        _ => seqworld::exec(plan, verbose),
    }
}

/// Runs per tier: some twenty seconds, and some eight minutes, on eight cores.
pub fn runs(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C01" | "C03" => 240_000, "C02" => 70_000, "C04" => 150_000, "C05" => 80_000, "C06" | "C07" => 220_000, "C08" | "C10" => 320_000, "C09" => 260_000,
        "C11" => 200_000, "C12" => 130_000, "C13" => 400_000, "C14" => 320_000, "C15" => 160_000, "C16" => 90_000, "C18" => 400_000, "C19" => 200_000, "C20" => 100_000, _ => 50_000,
    };
    if tier == "thorough" { quick * 24 } else { quick }
}

/// Does a recorded finding still show? Then: what fails.
pub fn probe(id: &str) -> Option<String> { seqworld::probe(id) }

/// What a run of this property does, for the evidence file.
pub fn describe(prop: &str) -> &'static str {
    match prop {
        "C11" => "A prover records operations on up to four trees while unrecorded clients change the same store; store calls fail, recording is suspended and resumed; verifiers replay everything from the proof alone. One run in eight decodes bm-le values from recorded proofs instead.",
        "C12" => "A prover sends compact and single-branch proofs to verifiers over a network that loses, duplicates, delays, reorders and alters them.",
        "C13" => "Values of 125 kinds are written to, read from and dropped from one store whose calls fail.",
        "C14" => "Two runs in three: sequences and raw trees whose nodes are lost and found again; one in three: decoding of bm-le values from stores that lost nodes.",
        "C15" => "Up to three partially loaded views of one value flush into one tree, fail half way, and are retried, delayed or abandoned, next to other values that share nodes with it. One run in eight has a value with lists far too long to load.",
        "C16" => "Three runs in four: the same sequence and raw-tree history in lock step on five stacks of backends; one in four: bm-le values written and read in lock step.",
        "C18" => "Senders put values, bounded vectors and compact proofs, in three formats and without framing, on byte streams that deliver in pieces, are interrupted, damaged and torn off, and on which messages are sent again.",
        "C19" => "Trees whose nodes, lengths and variant numbers are replaced, which are read as other types and lose parts, are decoded, reopened as lists and accessed through partially loaded views.",
        "C20" => "Short and very long sequences of every kind and raw trees share one simulated store, in which calls fail; the store calls of every attempt are counted, and every single read is recorded as a proof. One run in four reads, sets, pushes and flushes through a view of a value with very long lists.",
        "C01" | "C02" | "C03" | "C05" | "C06" => "Trees of the kinds the property covers share one simulated store; operation mix, sizes, bounds, value alphabet, empty convention and fault mix vary per run. One run in twelve has nodes of 28, 48 or 64 bytes (SHA-224, SHA-384, SHA-512).",
        _ => "Trees of the kinds the property covers share one simulated store; operation mix, sizes, bounds, value alphabet, empty convention and fault mix vary per run.",
    }
}
pub fn components(prop: &str) -> (&'static str, &'static str) {
    let real = match prop {
        "C11" => "bm (raw, vector, list, length, packed, memory, proving, index, utils) and bm-le decoding, unmodified from /repo; InMemoryBackend is the disk's contents of prover and verifier",
        "C12" => "bm proving (ProvingBackend, Proofs, CompactValue), index, raw, vector, list, packed, memory, unmodified from /repo",
        "C13" => "bm-le (all value types, derive macros) and bm beneath it, unmodified from /repo; InMemoryBackend is the disk's contents",
        "C18" => "the parity-codec and serde implementations of bm and bm-le (features with-codec and with-serde), compact proofs of real recordings, with parity-codec, serde_json and bincode beneath them",
        "C19" => "bm-le decoding, derive macros and partial values, list, length, packed and raw trees of bm beneath them, unmodified from /repo; InMemoryBackend is the disk's contents",
        "C15" => "bm-le partial values and the Partialable derive, list and raw trees of bm beneath them, unmodified from /repo",
        "C20" => "bm (raw, vector, list, length, packed, memory, proving, index, utils) and bm-le partial values with their derive, unmodified from /repo; InMemoryBackend is the disk's contents",
        "C16" => "DynBackend, ProvingBackend, NoopBackend, InMemoryBackend and all trees and bm-le values on top of them, unmodified from /repo",
        _ => "bm (raw, vector, list, length, packed, memory, index, utils) and, for C14, bm-le, unmodified from /repo; InMemoryBackend is the disk's contents",
    };
    let stub = match prop {
        "C18" => "the byte streams between the parties, the schedule of parties",
        "C12" => "the network between prover and verifiers, the schedule of parties, hash map keys (getrandom)",
        _ => "the gate in front of the store (faults, lost nodes, crash), the schedule of clients, hash map keys (getrandom)",
    };
    (real, stub)
}
