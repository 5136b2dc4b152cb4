//! Element values: small alphabets make contents collide, structured values make elements equal to nodes.

use crate::model;
use crate::rng::mix;
use crate::store::{Cons, SimStore, V};

pub fn value<C: Cons>(inherited: bool, width: usize, code: u64, roots: &[V], store: &mut SimStore<C>) -> Vec<u8> {
    let k = code % 16;
    if width == 32 && k >= 9 {
        match k {
            9 | 10 => return model::zero_hash(inherited, (k - 8) as usize).to_vec(),
            11..=14 => {
                // the root of some tree, or a node inside it
                if !roots.is_empty() {
                    let mut v = roots[(code / 16) as usize % roots.len()].clone();
                    for d in 0..(k - 11) {
                        match store.peek(&v) {
                            Some((l, r)) => v = if (code >> (20 + d)) & 1 == 0 { l } else { r },
                            None => break,
                        }
                    }
                    return v.as_ref().to_vec();
                }
            }
            _ => {}
        }
    }
    match k {
        0 => vec![0; width],
        1 => vec![0xff; width],
        2 => { let mut v = vec![0; width]; v[width - 1] = 1; v }
        3 => { let mut v = vec![0; width]; v[0] = 1; v }
        4..=7 => (0..width).map(|j| (k as u8).wrapping_mul(31).wrapping_add((j as u8).wrapping_mul(7)).wrapping_add(1)).collect(),
        _ => {
            let mut v: Vec<u8> = (0..width).map(|j| (mix(code.wrapping_add((j / 8) as u64)) >> (8 * (j % 8))) as u8).collect();
            let h = width / 2;
            match mix(code ^ 0x5eed) % 12 {
                0 => v[..h].fill(0),
                1 => v[h..].fill(0),
                2 => { let b = mix(code ^ 1) as usize % (8 * width); v.fill(0); v[b / 8] = 1 << (b % 8); }
                3 => { let j = mix(code ^ 2) as usize % width; v[j] = 0; }
                4 => { let x = v[0]; v.fill(x); }
                5 => v[width - 1] = 0,
                _ => {}
            }
            v
        }
    }
}
