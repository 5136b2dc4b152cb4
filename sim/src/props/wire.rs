//! C18: values, bounded vectors and compact proofs sent as bytes over streams that deliver in arbitrary pieces, are
//! interrupted, torn off, damaged and retransmitted. Several messages share a stream without framing, so that a decoder
//! must take exactly its own bytes.

use crate::common::*;
use crate::plan::{Fault, Plan, Step};
use crate::props::letypes::Le;
use crate::rng::{mix, Rng};
use crate::store::{Inh, SimStore, V};
use bm::{CompactValue, Index, Owned, Proofs, ProvingBackend, Raw, Tree};
use bm_le::{Compact, MaxVec};
use primitive_types::{H256, U256};
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Read, Write};
use typenum::*;
use vecarray::VecArray;

const SEND: u8 = 0; const OVER: u8 = 1; const RECV: u8 = 2; const RECVALL: u8 = 3; const CORRUPT: u8 = 4; const CUT: u8 = 5; const AGAIN: u8 = 6; const SKIP: u8 = 7;
const NAMES: [&str; 8] = ["send", "send a value over its bound", "receive", "receive all", "damage bytes", "connection breaks", "retransmit", "lose bytes"];
const LINKS: usize = 3;
const FORMATS: u64 = 3;

/// One end of a stream. Reads and writes come in pieces and are interrupted as `pace` says.
struct Link<'a> { buf: &'a mut VecDeque<u8>, pace: u64, short: u64, interrupted: u64 }
impl Link<'_> {
    fn piece(&mut self, n: usize) -> Option<usize> {
        self.pace = mix(self.pace);
        match self.pace % 8 {
            0 => { self.interrupted += 1; None }
            1..=3 if n > 1 => { self.short += 1; Some(1 + (self.pace >> 8) as usize % (n - 1)) }
            _ => Some(n),
        }
    }
}
impl Read for Link<'_> {
    fn read(&mut self, into: &mut [u8]) -> Result<usize, Error> {
        if into.is_empty() || self.buf.is_empty() { return Ok(0); }
        let n = self.piece(into.len()).ok_or_else(|| Error::from(ErrorKind::Interrupted))?.min(self.buf.len());
        for x in into[..n].iter_mut() { *x = self.buf.pop_front().unwrap(); }
        Ok(n)
    }
}
impl Write for Link<'_> {
    fn write(&mut self, from: &[u8]) -> Result<usize, Error> {
        if from.is_empty() { return Ok(0); }
        let n = self.piece(from.len()).ok_or_else(|| Error::from(ErrorKind::Interrupted))?;
        self.buf.extend(&from[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> { Ok(()) }
}

/// What a receiver made of the bytes.
enum Got { Same, Other(String), TooLong, Refused }

trait Msg {
    fn name(&self) -> String;
    fn legal(&self) -> bool;
    /// In format 0 (parity-codec), 1 (JSON through serde) or 2 (bincode through serde). False: the format has no such type.
    fn send(&self, fmt: u64, l: &mut Link) -> bool;
    fn recv(&self, fmt: u64, l: &mut Link) -> Got;
}

/// Within the declared bounds, all the way down.
trait Legal { fn legal(&self) -> bool { true } }
impl Legal for u8 {} impl Legal for u16 {} impl Legal for u32 {} impl Legal for u64 {} impl Legal for u128 {} impl Legal for bool {} impl Legal for V {} impl Legal for H256 {} impl Legal for U256 {}
impl Legal for CompactValue<V> {}
impl<T: Legal> Legal for Option<T> { fn legal(&self) -> bool { self.as_ref().map(|x| x.legal()).unwrap_or(true) } }
impl<A: Legal, B: Legal> Legal for (A, B) { fn legal(&self) -> bool { self.0.legal() && self.1.legal() } }
impl<T: Legal> Legal for Vec<T> { fn legal(&self) -> bool { self.iter().all(|x| x.legal()) } }
impl<T: Legal, N: Unsigned> Legal for MaxVec<T, N> { fn legal(&self) -> bool { self.0.len() as u64 <= N::to_u64() && self.0.iter().all(|x| x.legal()) } }
impl<T: Legal, N: Unsigned> Legal for VecArray<T, N> { fn legal(&self) -> bool { self.len() as u64 == N::to_u64() && self.iter().all(|x| x.legal()) } }
impl<T: Legal> Legal for Compact<T> { fn legal(&self) -> bool { self.0.legal() } }

fn judge<T: PartialEq + Legal + std::fmt::Debug>(sent: &T, got: Option<T>) -> Got {
    match got {
        None => Got::Refused,
        Some(x) if !x.legal() => Got::TooLong,
        Some(x) if x == *sent => Got::Same,
        Some(x) => Got::Other(format!("{:?}", x).chars().take(120).collect()),
    }
}

struct Both<T>(T);
impl<T> Msg for Both<T> where T: PartialEq + Legal + std::fmt::Debug + parity_codec::Encode + parity_codec::Decode + serde::Serialize + for<'a> serde::Deserialize<'a> {
    fn name(&self) -> String { short::<T>() }
    fn legal(&self) -> bool { self.0.legal() }
    fn send(&self, fmt: u64, l: &mut Link) -> bool {
        if fmt == 0 { self.0.encode_to(l); true } else { serde_send(&self.0, fmt, l) }
    }
    fn recv(&self, fmt: u64, l: &mut Link) -> Got {
        judge(&self.0, if fmt == 0 { T::decode(l) } else { serde_recv(fmt, l) })
    }
}
/// Types that have no parity-codec form.
struct Serde<T>(T);
impl<T> Msg for Serde<T> where T: PartialEq + Legal + std::fmt::Debug + serde::Serialize + for<'a> serde::Deserialize<'a> {
    fn name(&self) -> String { short::<T>() }
    fn legal(&self) -> bool { self.0.legal() }
    fn send(&self, fmt: u64, l: &mut Link) -> bool { serde_send(&self.0, if fmt == 0 { 1 } else { fmt }, l) }
    fn recv(&self, fmt: u64, l: &mut Link) -> Got { judge(&self.0, serde_recv(if fmt == 0 { 1 } else { fmt }, l)) }
}
fn short<T>() -> String { std::any::type_name::<T>().replace("typenum::generated::consts::", "").replace("bm_le::variable::", "").chars().take(60).collect() }
fn serde_send<T: serde::Serialize>(x: &T, fmt: u64, l: &mut Link) -> bool {
    if fmt == 1 { serde_json::to_writer(l, x).is_ok() } else { bincode::serialize_into(l, x).is_ok() }
}
fn serde_recv<T: for<'a> serde::Deserialize<'a>>(fmt: u64, l: &mut Link) -> Option<T> {
    if fmt == 1 { T::deserialize(&mut serde_json::Deserializer::from_reader(l)).ok() } else {
        use bincode::Options;
        bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 16).allow_trailing_bytes().deserialize_from(l).ok()
    }
}

/// A compact proof of some positions of a tree that a prover holds, or a single branch.
fn proof(r: &mut Rng) -> CompactValue<V> {
    let mut store = SimStore::<Inh>::new(false);
    let mut raw = Raw::<Owned, Inh>::default();
    let size = *r.pick(&[1u64, 3, 7, 15, 63]);
    for _ in 0..r.below(8) {
        let v = V::make(r);
        let i = 1 + r.below(size) as usize;
        raw.set(&mut store, Index::from_one(i).unwrap(), v).unwrap();
    }
    if r.chance(1, 4) {
        let i = 1 + r.below(size) as usize;
        let mut n = 0;
        while i >> (n + 1) > 0 { n += 1; }
        let path: Vec<V> = (0..n).map(|_| V::make(r)).collect();
        return CompactValue::from_plain(V::make(r), path, Index::from_one(i).unwrap()).unwrap();
    }
    let mut rec = ProvingBackend::new(&mut store);
    for _ in 0..r.below(6) { let _ = raw.get(&mut rec, Index::from_one(1 + r.below(2 * size + 1) as usize).unwrap()); }
    let p: Proofs<V> = rec.into();
    p.into_compact(raw.root())
}

fn filled<T: Le, N: Unsigned>(r: &mut Rng, over: bool) -> MaxVec<T, N> {
    if !over { return Le::make(r); }
    // by one, by some, or so long that the number's low bytes alone are within the bound
    let small = N::to_usize() + 1 + if r.chance(1, 2) { 0 } else { r.below(70) as usize };
    let n = match r.below(240) {
        0..=39 => ((N::to_usize() >> 8) + 1) << 8 | r.below((N::to_u64() % 256).max(1)) as usize,
        40 => 65_536 + r.below(N::to_u64().min(3) + 1) as usize,
        _ => small,
    };
    // (long ones are all alike)
    if n > 2_000 { let s = r.next(); return MaxVec::from((0..n).map(|_| T::make(&mut Rng::new(s))).collect::<Vec<T>>()); }
    MaxVec::from((0..n).map(|_| T::make(r)).collect::<Vec<T>>())
}

const KINDS: u64 = 22;
fn make(k: u64, r: &mut Rng, over: bool) -> Box<dyn Msg> {
    match k % KINDS {
        0 => Box::new(Both(filled::<u32, U0>(r, over))),
        1 => Box::new(Both(filled::<u64, U1>(r, over))),
        2 => Box::new(Both(filled::<u16, U3>(r, over))),
        3 => Box::new(Both(filled::<V, U9>(r, over))),
        4 => Box::new(Both(filled::<bool, U17>(r, over))),
        5 => Box::new(Both(filled::<u32, U63>(r, over))),
        6 => Box::new(Both(filled::<u16, U64>(r, over))),
        7 => Box::new(Both(filled::<u64, U100>(r, over))),
        8 => Box::new(Both({
            let mut x: MaxVec<MaxVec<u32, U3>, U4> = filled(r, over && r.clone().chance(1, 2));
            if over && x.legal() { if x.0.is_empty() { x.push(filled(r, true)); } else { let i = r.below(x.0.len() as u64) as usize; x.0[i] = filled(r, true); } }
            x
        })),
        9 => Box::new(Serde(Compact(filled::<u64, U5>(r, over)))),
        10 => Box::new(Both((V::make(r), filled::<H256, U2>(r, over)))),
        11 => Box::new(Both(Some(filled::<U256, U5>(r, over)))),
        12 => Box::new(Both(filled::<Vec<u16>, U3>(r, over))),
        13 => Box::new(Both(filled::<bool, U300>(r, over))),
        14 => Box::new(Serde(filled::<u8, U1000>(r, over))),
        15 => Box::new(Both(filled::<bool, U5>(r, over))),
        16 => Box::new(Serde(filled::<u8, typenum::U256>(r, over))),
        17 => Box::new(Both(V::make(r))),
        18 => Box::new(Serde(VecArray::<u16, U9>::make(r))),
        19 => Box::new(Both(Vec::<V>::make(r))),
        _ => Box::new(Both(proof(r))),
    }
}

struct Sent { msg: Box<dyn Msg>, fmt: u64, bytes: Vec<u8>, /* bytes of it still to come on the stream, damaged, torn */ damaged: bool, torn: bool, left: usize }

struct World { links: Vec<(VecDeque<u8>, VecDeque<Sent>)>, unsure: Vec<Sent>, cx: Ctx, pace: u64, short: u64, interrupted: u64 }

pub fn exec(plan: &Plan, verbose: bool) -> Outcome {
    let mut w = World { links: (0..LINKS).map(|_| Default::default()).collect(), unsure: Vec::new(), cx: Ctx::new(&[Class::Wire, Class::Panic], verbose), pace: plan.cfg(0), short: 0, interrupted: 0 };
    let mut flow = Ok(());
    for (i, s) in plan.steps.iter().enumerate() {
        w.cx.step = i;
        w.cx.stats.steps += 1;
        flow = w.step(s);
        if flow.is_err() { break; }
        let mut h = 5;
        for (b, q) in &w.links { let n = b.len(); for j in (0..n.min(200)).chain(n.saturating_sub(200).max(200)..n) { h = mix(h ^ b[j] as u64); } h = mix(h ^ (n * 64 + q.len()) as u64); }
        h = mix(h ^ w.unsure.len() as u64);
        w.cx.note(h);
        w.cx.stats.states.insert(h);
    }
    if flow.is_ok() { w.cx.step = plan.steps.len(); flow = w.heal(); }
    *w.cx.stats.fired.entry("net:short read or write").or_insert(0) += w.short;
    *w.cx.stats.fired.entry("net:interrupted").or_insert(0) += w.interrupted;
    w.cx.finish(flow)
}

impl World {
    fn send(&mut self, li: usize, msg: Box<dyn Msg>, fmt: u64) -> Flow {
        let mut fresh = VecDeque::new();
        let mut l = Link { buf: &mut fresh, pace: mix(self.pace), short: 0, interrupted: 0 };
        let ok = msg.send(fmt, &mut l);
        self.pace = l.pace;
        self.short += l.short;
        self.interrupted += l.interrupted;
        *self.cx.stats.calls.entry("message").or_insert(0) += 1;
        self.cx.say(|| format!("link {} send {} format {} ({} bytes){}", li, msg.name(), fmt, fresh.len(), if msg.legal() { "" } else { " over its bound" }));
        if !ok { return if msg.legal() { self.cx.bad(Class::Wire, format!("{} cannot be encoded in format {}", msg.name(), fmt)) } else { Ok(()) }; }
        let bytes: Vec<u8> = fresh.into_iter().collect();
        self.links[li].0.extend(&bytes);
        self.links[li].1.push_back(Sent { left: bytes.len(), msg, fmt, bytes, damaged: false, torn: false });
        Ok(())
    }

    /// The connection is given up: what was on it may or may not arrive some other time.
    fn reset(&mut self, li: usize) {
        self.links[li].0.clear();
        let q = std::mem::take(&mut self.links[li].1);
        self.unsure.extend(q.into_iter().filter(|m| m.msg.legal()));
    }

    fn recv(&mut self, li: usize) -> Flow {
        let Some(s) = self.links[li].1.pop_front() else { return Ok(()) };
        let have = self.links[li].0.len();
        let mut l = Link { buf: &mut self.links[li].0, pace: mix(self.pace ^ 1), short: 0, interrupted: 0 };
        let got = s.msg.recv(s.fmt, &mut l);
        self.pace = l.pace;
        self.short += l.short;
        self.interrupted += l.interrupted;
        let took = have - self.links[li].0.len();
        let (name, fmt) = (s.msg.name(), s.fmt);
        let says = match &got { Got::Same => "the value sent".to_string(), Got::Other(x) => format!("another value: {}", x), Got::TooLong => "a value over its bound".into(), Got::Refused => "an error".into() };
        self.cx.say(|| format!("link {} receive {} format {}: {}{}{}", li, name, fmt, says, if s.damaged { " (damaged)" } else { "" }, if s.torn { " (torn)" } else { "" }));
        if let Got::TooLong = got { return self.cx.bad(Class::Wire, format!("{} in format {} was decoded although it is over its bound", name, fmt)); }
        if s.damaged || s.torn {
            // a damaged message may decode to anything within bounds; a torn one has lost bytes and cannot be decoded to what it was
            if s.torn && !s.damaged && s.left < s.bytes.len() && !matches!(got, Got::Refused) && self.links[li].1.is_empty() {
                return self.cx.bad(Class::Wire, format!("{} of {} bytes of {} in format {} were decoded to {}", s.left, s.bytes.len(), name, fmt, says));
            }
            self.cx.stats.fire(if s.torn { "net:torn message" } else { "net:damaged message" });
            self.cx.stats.probe(if matches!(got, Got::Refused) { "damaged or torn message refused" } else { "damaged message decoded" });
            if s.msg.legal() { self.unsure.push(s); }
            self.reset(li);
            return Ok(());
        }
        if !s.msg.legal() {
            if !matches!(got, Got::Refused) { return self.cx.bad(Class::Wire, format!("{} over its bound in format {} was decoded to {}", name, fmt, says)); }
            self.cx.stats.probe("message over its bound refused");
            self.reset(li);
            return Ok(());
        }
        if !matches!(got, Got::Same) { return self.cx.bad(Class::Wire, format!("{} in format {} ({} bytes) was decoded to {}", name, fmt, s.bytes.len(), says)); }
        if took != s.bytes.len() { return self.cx.bad(Class::Wire, format!("decoding {} in format {} took {} of its {} bytes", name, fmt, took, s.bytes.len())); }
        self.cx.stats.probe("message decoded");
        Ok(())
    }

    fn step(&mut self, st: &Step) -> Flow {
        let li = st.client as usize % LINKS;
        self.cx.stats.probe(NAMES[(st.op as usize).min(NAMES.len() - 1)]);
        match st.op {
            SEND | OVER => {
                let over = st.op == OVER;
                let m = make(if over { st.a % 17 } else { st.a }, &mut Rng::new(st.b), over);
                self.send(li, m, st.c % FORMATS)
            }
            RECV => self.recv(li),
            RECVALL => { while !self.links[li].1.is_empty() { self.recv(li)?; } Ok(()) }
            CORRUPT => {
                let (b, q) = &mut self.links[li];
                if b.is_empty() { return Ok(()); }
                let at = (st.a % b.len() as u64) as usize;
                let x = match st.b % 3 { 0 => b[at] ^ (1 << (st.c % 8)), 1 => (st.c % 256) as u8, _ => b[(st.c % b.len() as u64) as usize] };
                if x == b[at] { return Ok(()); }
                b[at] = x;
                self.cx.stats.fire("net:byte altered");
                // bytes behind a damaged message can be taken for its own
                let mut off = 0;
                let mut hit = false;
                for m in q.iter_mut() { off += m.left; if at < off { hit = true; } if hit { m.damaged = true; } }
                Ok(())
            }
            CUT => {
                let (b, q) = &mut self.links[li];
                if b.is_empty() { return Ok(()); }
                let keep = (st.a % b.len() as u64) as usize;
                b.truncate(keep);
                self.cx.stats.fire("net:connection broken");
                let mut off = 0;
                let mut gone = Vec::new();
                let mut kept = VecDeque::new();
                for mut m in std::mem::take(q) {
                    let start = off;
                    off += m.left;
                    if off <= keep { kept.push_back(m); } else if start < keep { m.torn = true; m.left = keep - start; kept.push_back(m); } else { gone.push(m); }
                }
                *q = kept;
                self.unsure.extend(gone.into_iter().filter(|m| m.msg.legal()));
                Ok(())
            }
            SKIP => {
                // some bytes are lost in the middle
                let (b, q) = &mut self.links[li];
                if b.len() < 2 { return Ok(()); }
                let at = (st.a % b.len() as u64) as usize;
                let n = ((st.b % 4 + 1) as usize).min(b.len() - at);
                b.drain(at..at + n);
                self.cx.stats.fire("net:bytes lost");
                let mut off = 0;
                let mut hit = false;
                for m in q.iter_mut() { off += m.left; if at < off { hit = true; } if hit { m.damaged = true; } }
                Ok(())
            }
            AGAIN => {
                if self.unsure.is_empty() { return Ok(()); }
                let i = (st.a % self.unsure.len() as u64) as usize;
                let s = self.unsure.swap_remove(i);
                self.cx.stats.fire("net:retransmitted");
                if q_broken(&self.links[li].1) { self.reset(li); }
                self.send(li, s.msg, s.fmt)
            }
            _ => Ok(()),
        }
    }

    /// Faults stop: everything not yet received is sent once more and must arrive.
    fn heal(&mut self) -> Flow {
        for li in 0..LINKS { while !self.links[li].1.is_empty() { self.recv(li)?; } }
        for s in std::mem::take(&mut self.unsure) { self.send(0, s.msg, s.fmt)?; }
        while !self.links[0].1.is_empty() { self.recv(0)?; }
        if !self.unsure.is_empty() || self.links.iter().any(|l| !l.0.is_empty()) { return self.cx.bad(Class::Wire, "messages are left over after all were sent again".into()); }
        Ok(())
    }
}

fn q_broken(q: &VecDeque<Sent>) -> bool { q.iter().any(|m| m.torn || m.damaged) }

pub fn gen(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let hash_seed = r.next();
    let cfg = vec![r.next() >> 1];
    //               se ov re ra co cu ag sk
    let mut w = [10u64, 2, 6, 1, 1, 1, 2, 1];
    for (j, x) in w.iter_mut().enumerate() { if j > 0 && r.chance(1, 5) { *x = 0; } }
    let links = r.range(1, LINKS as u64);
    let kinds: Vec<u64> = (0..r.range(1, 5)).map(|_| r.below(KINDS)).collect();
    let seeds = *r.pick(&[4u64, 1 << 40]);
    let n = match r.below(8) { 0..=3 => r.range(2, 10), 4..=6 => r.range(10, 30), _ => r.range(30, 80) };
    let mut steps = Vec::new();
    for j in 0..n {
        let op = if j == 0 { SEND } else { r.weighted(&w) as u8 };
        let mut s = Step { client: r.below(links) as u8, op, a: r.next() >> 1, b: r.next() >> 1, c: r.next() >> 1, fault: Fault::NONE };
        if op == SEND || op == OVER { s.a = if r.chance(1, 3) { r.below(KINDS) } else { *r.pick(&kinds) }; s.b = r.below(seeds); s.c = r.below(FORMATS); }
        steps.push(s);
    }
    Plan { prop: prop.to_string(), seed, hash_seed, cfg, steps }
}
