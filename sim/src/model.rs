//! Reference models: an independent merkleizer (nothing of bm is used) and plain arrays.

use crate::seq::Kind;
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
pub type H = [u8; 32];

pub fn hash2(l: &H, r: &H) -> H {
    let mut d = Sha256::new();
    d.input(&l[..]);
    d.input(&r[..]);
    let mut out = [0u8; 32];
    out.copy_from_slice(d.result().as_slice());
    out
}

pub fn depth_for(leaves: u64) -> usize {
    let mut d = 0;
    while d < 64 && (1u128 << d) < leaves as u128 { d += 1; }
    d
}

/// Root of an empty subtree of height `h`.
pub fn zero_hash(inherited: bool, h: usize) -> H {
    thread_local! { static ZERO: Vec<H> = (0..=64).scan([0u8; 32], |z, _| { let x = *z; *z = hash2(&x, &x); Some(x) }).collect(); }
    if inherited { ZERO.with(|z| z[h]) } else { [0; 32] }
}

/// Root of a tree of height `depth` over `leaves`; `None` leaves (and those past the end) hold no element.
pub fn merkle(inherited: bool, leaves: &[Option<H>], depth: usize) -> H {
    if !leaves.iter().any(|l| l.is_some()) { return zero_hash(inherited, depth); }
    if depth == 0 { return leaves[0].unwrap_or([0; 32]); }
    let half = 1usize << (depth - 1).min(62);
    let (l, r) = if leaves.len() > half { leaves.split_at(half) } else { (leaves, &leaves[..0]) };
    hash2(&merkle(inherited, l, depth - 1), &merkle(inherited, r, depth - 1))
}

pub fn le_chunk(n: u64) -> H { let mut c = [0u8; 32]; c[..8].copy_from_slice(&n.to_le_bytes()); c }

/// Bytes packed into 32-byte chunks, the last one zero padded.
pub fn chunks(bytes: &[u8]) -> Vec<Option<H>> {
    bytes.chunks(32).map(|c| { let mut h = [0u8; 32]; h[..c.len()].copy_from_slice(c); Some(h) }).collect()
}

pub fn mix_in(root: &H, n: u64) -> H { hash2(root, &le_chunk(n)) }

/// As `merkle`, over `len` leaves of which only those in `written` were ever written (the others are zero).
fn merkle_sparse(inherited: bool, written: &BTreeMap<u64, H>, len: u64, at: u64, depth: usize) -> H {
    if at >= len { return zero_hash(inherited, depth); }
    let first = written.range(at..).next().map(|(k, _)| *k);
    let last = if depth >= 64 { u64::MAX } else { at.saturating_add((1u64 << depth) - 1) };
    if first.map(|k| k > last).unwrap_or(true) {
        // whole and unwritten: a plain tree of zero leaves (the unit convention has no say where elements exist)
        if inherited || len - 1 >= last { return zero_hash(true, depth); }
    }
    if depth == 0 { return written.get(&at).copied().unwrap_or([0; 32]); }
    let half = 1u64 << (depth - 1);
    let l = merkle_sparse(inherited, written, len, at, depth - 1);
    let r = match at.checked_add(half) { Some(m) => merkle_sparse(inherited, written, len, m, depth - 1), None => zero_hash(inherited, depth - 1) };
    hash2(&l, &r)
}

/// How many leaves a sequence of `n` elements has.
pub fn leaves_for(kind: Kind, n: u64) -> u128 { if kind.packed() { (n as u128 * kind.width() as u128).div_ceil(32) } else { n as u128 } }

/// A plain array with a capacity. Elements that are not in `items` were never written since the sequence was created with them.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MSeq { pub kind: Kind, len: usize, items: BTreeMap<usize, Vec<u8>>, pub max: Option<u64> }

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Want { Done, Popped(Option<Vec<u8>>), Got(Vec<u8>), Refused }

impl MSeq {
    pub fn new(kind: Kind, len: usize, max: Option<u64>) -> Self { MSeq { kind, len, items: BTreeMap::new(), max } }
    pub fn zero(&self) -> Vec<u8> { vec![0; self.kind.width()] }
    pub fn at(&self, i: usize) -> Vec<u8> { self.items.get(&i).cloned().unwrap_or_else(|| self.zero()) }
    pub fn len(&self) -> usize { self.len }
    pub fn unwritten(&self) -> bool { self.items.len() < self.len }
    /// Positions worth reading: all of a short array, a sample of a long one.
    pub fn sample(&self) -> Vec<usize> {
        let n = self.len;
        if n <= 80 { return (0..n).collect(); }
        let stride = n / 40;
        let mut v: BTreeSet<usize> = (0..40).map(|j| j * stride).collect();
        v.extend(n - 3..n);
        let step = (self.items.len() / 40).max(1);
        v.extend(self.items.keys().copied().step_by(step));
        v.into_iter().filter(|j| *j < n).collect()
    }
    pub fn get(&self, i: usize) -> Want { if i < self.len() { Want::Got(self.at(i)) } else { Want::Refused } }
    pub fn set(&mut self, i: usize, v: &[u8]) -> Want {
        if i >= self.len() { return Want::Refused; }
        self.items.insert(i, v.to_vec());
        Want::Done
    }
    pub fn push(&mut self, v: &[u8]) -> Want {
        if self.max.map(|m| self.len() as u64 >= m).unwrap_or(false) { return Want::Refused; }
        // generalized indices reach 2^63 leaves
        if self.len == usize::MAX || leaves_for(self.kind, self.len as u64 + 1) > 1 << 63 { return Want::Refused; }
        self.items.insert(self.len, v.to_vec());
        self.len += 1;
        Want::Done
    }
    pub fn pop(&mut self) -> Want {
        if self.len == 0 { return Want::Popped(None); }
        self.len -= 1;
        let last = self.items.remove(&self.len).unwrap_or_else(|| self.zero());
        Want::Popped(Some(last))
    }

    /// How many leaves there are, and those that were written.
    fn leaves(&self) -> (u64, BTreeMap<u64, H>) {
        if self.kind.packed() {
            let w = self.kind.width();
            let mut chunks: BTreeMap<u64, H> = BTreeMap::new();
            for (i, b) in &self.items {
                for (j, x) in b.iter().enumerate() {
                    let at = *i as u128 * w as u128 + j as u128;
                    chunks.entry((at / 32) as u64).or_insert([0; 32])[(at % 32) as usize] = *x;
                }
            }
            (leaves_for(self.kind, self.len as u64) as u64, chunks)
        } else {
            (self.len as u64, self.items.iter().map(|(i, b)| { let mut h = [0; 32]; h.copy_from_slice(b); (*i as u64, h) }).collect())
        }
    }
    /// Root of the items alone.
    pub fn inner_root(&self, inherited: bool) -> H {
        let (n, leaves) = self.leaves();
        let cap = match self.max {
            Some(m) => leaves_for(self.kind, m) as u64,
            None => n,
        };
        merkle_sparse(inherited, &leaves, n, 0, depth_for(cap))
    }
    pub fn root(&self, inherited: bool) -> H {
        let inner = self.inner_root(inherited);
        if self.kind.mixed() { mix_in(&inner, self.len() as u64) } else { inner }
    }
}
