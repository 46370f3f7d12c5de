//! Generation of commitment sources and trees.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::u5;
use commit_verify::mpc::{Method, MultiSource};

use crate::codec::{msg, pid};
use crate::kernel::*;
use crate::refm::{self, H};

/// Protocol ids and messages; ids are drawn from families that collide in different ways.
pub fn pairs(c: &mut Ctl, n: usize) -> Vec<(H, H)> {
    let style = c.below(6);
    let mut rng = c.rng();
    let same_msg = c.chance(10);
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    let stride = 1u64 << rng.below(9);
    while out.len() < n {
        let mut p = [0u8; 32];
        let k = out.len() as u64;
        match style {
            0 | 5 => p = rng.bytes32(),
            1 => p[..8].copy_from_slice(&(rng.below(4 * n as u64 + 2)).to_le_bytes()),
            2 => p[..8].copy_from_slice(&(k * stride + rng.below(2)).to_le_bytes()),
            // Equal in all low bits, so that they always collide without cofactor.
            3 => p[24..].copy_from_slice(&(k + 1 + rng.below(3) * n as u64).to_le_bytes()),
            _ => {
                if rng.below(2) == 0 {
                    p = rng.bytes32()
                } else {
                    p[..8].copy_from_slice(&rng.below(600).to_le_bytes())
                }
            }
        }
        if !seen.insert(p) {
            p = rng.bytes32();
            seen.insert(p);
        }
        let m = if same_msg { [7u8; 32] } else { rng.bytes32() };
        out.push((p, m));
    }
    out
}

pub fn count(c: &mut Ctl, max: usize) -> usize {
    let n = match c.weighted(&[3, 3, 5, 4, 2]) {
        0 => 1,
        1 => 2,
        2 => c.range(3, 8),
        3 => c.range(9, 24),
        _ => c.range(25, 60),
    };
    n.min(max)
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub min_depth: u8,
    pub pairs: Vec<(H, H)>,
    pub depth: u8,
    pub cofactor: u16,
    pub slots: BTreeMap<u32, (H, H)>,
}

/// A source whose tree is at most `max_depth` deep.
pub fn spec(c: &mut Ctl, max_depth: u8) -> Spec {
    let min_depth = match max_depth {
        0..=6 => *c.pick(&[0u8, 3, 1, 2, 4, 5]),
        7..=8 => *c.pick(&[0u8, 3, 6, 7, 8]),
        _ => c.range(9, max_depth as usize) as u8,
    };
    if max_depth >= 9 && c.chance(40) {
        // A crowd: the low bits of the identifiers are distinct.
        let depth = if c.thorough { c.range(9, 10) } else { 9 };
        let n = c.range(257, if depth > 9 { 900 } else { 280 });
        let mut rng = c.rng();
        let mut slots: Vec<u64> = (0..1 << depth).collect();
        let list: Vec<(H, H)> = (0..n)
            .map(|_| {
                let slot = slots.swap_remove(rng.below(slots.len() as u64) as usize);
                let mut p = rng.bytes32();
                p[0] = slot as u8;
                p[1] = (p[1] & 0xF8) | (slot >> 8) as u8;
                if depth == 9 {
                    p[1] &= 0xF9;
                }
                (p, rng.bytes32())
            })
            .collect();
        if let Some(s) = placed(depth as u8, &list) {
            if s.depth <= max_depth {
                c.probe("crowd of messages");
                return s;
            }
        }
    }
    let n = count(c, 1 << max_depth.min(6));
    let mut p = pairs(c, n);
    loop {
        if let Some(s) = placed(min_depth.min(max_depth), &p) {
            if s.depth <= max_depth {
                return s;
            }
        }
        let keep = (p.len() / 2).max(1);
        p.truncate(keep);
    }
}

pub fn placed(min_depth: u8, pairs: &[(H, H)]) -> Option<Spec> {
    let ids: Vec<H> = pairs.iter().map(|(p, _)| *p).collect();
    let (depth, cofactor, map) = refm::place(min_depth, &ids)?;
    let by: BTreeMap<H, H> = pairs.iter().copied().collect();
    Some(Spec {
        min_depth,
        pairs: pairs.to_vec(),
        depth,
        cofactor,
        slots: map.into_iter().map(|(pos, p)| (pos, (p, by[&p]))).collect(),
    })
}

pub fn source(min_depth: u8, pairs: &[(H, H)], entropy: Option<u64>) -> MultiSource {
    MultiSource {
        method: Method::Sha256t,
        min_depth: u5::with(min_depth),
        messages: Confined::try_from_iter(pairs.iter().map(|(p, m)| (pid(p), msg(m)))).expect("few messages"),
        static_entropy: entropy,
    }
}

/// Parameters and contents of a tree of any depth, which nobody has to hash as a whole.
pub fn sparse_parts(c: &mut Ctl) -> (u8, u16, BTreeMap<u32, (H, H)>) {
    let depth = match c.weighted(&[2, 3, 3, 1]) {
        0 => c.range(0, 5) as u8,
        1 => c.range(6, 15) as u8,
        2 => c.range(16, 30) as u8,
        _ => 31,
    };
    let max_cof = (1u64 << depth.saturating_sub(1)).min(500) as usize;
    // Now and then a commitment whose cofactor leaves next to nothing of its width, or less than that.
    let max_cof = if depth <= 7 && c.chance(15) { (1 << depth) + 4 } else { max_cof };
    let cofactor = if c.chance(60) { c.range(0, max_cof) as u16 } else { 0 };
    if u32::from(cofactor) + 1 >= 1u32 << depth {
        c.probe("cofactor takes the whole width");
    }
    let n = c.range(1, 12);
    let list = pairs(c, n);
    let mut map = BTreeMap::new();
    for (p, m) in list {
        map.entry(refm::slot(&p, cofactor, depth)).or_insert((p, m));
    }
    // Messages in neighbouring slots, which hardly meet by chance in a wide tree
    if depth > 0 && c.chance(40) {
        let divisor = u64::from(1u32 << depth).saturating_sub(u64::from(cofactor)).max(1);
        let last = *map.keys().nth(c.below(map.len())).unwrap();
        let mut rng = c.rng();
        for near in [last ^ 1, last.wrapping_add(1), last.wrapping_sub(1), last ^ 2] {
            if u64::from(near) >= divisor || c.chance(50) {
                continue;
            }
            let mut p = H::default();
            let id = u128::from(near) + u128::from(rng.next()) * u128::from(divisor);
            p[..16].copy_from_slice(&id.to_le_bytes());
            let m = rng.bytes32();
            debug_assert_eq!(refm::slot(&p, cofactor, depth), near);
            c.probe("neighbours in a sparse tree");
            map.entry(near).or_insert((p, m));
        }
    }
    (depth, cofactor, map)
}
