//! Executable reference model of the deployed format: tagged hashes, merklization, slot placement, and the
//! meaning of partial disclosures. Written from the published formats, uses none of the code under test.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

use sha2::{Digest, Sha256};

use crate::kernel::Rng;

pub type H = [u8; 32];

pub fn engine(tag: &str) -> Sha256 {
    let t = Sha256::digest(tag.as_bytes());
    let mut e = Sha256::new();
    e.update(t);
    e.update(t);
    e
}

pub const TAG_NODE: &str = "urn:ubideco:merkle:node#2024-01-31";
pub const TAG_COMMITMENT: &str = "urn:ubideco:mpc:commitment#2024-01-31";
pub const TAG_STRICT: &str = "urn:ubideco:strict-types:value-hash#2024-02-10";

thread_local! {
    static NODE: Sha256 = engine(TAG_NODE);
    static COMMITMENT: Sha256 = engine(TAG_COMMITMENT);
}

fn node_hash(parts: &[&[u8]]) -> H {
    let mut e = NODE.with(|e| e.clone());
    for p in parts {
        e.update(p);
    }
    e.finalize().into()
}

pub fn leaf(pid: &H, msg: &H) -> H { node_hash(&[&[0x10], pid, msg]) }
pub fn leaf_entropy(entropy: u64, pos: u32) -> H { node_hash(&[&[0x11], &entropy.to_le_bytes(), &pos.to_le_bytes()]) }

fn width_bytes(width: u64) -> H {
    let mut w = [0u8; 32];
    w[..8].copy_from_slice(&width.to_le_bytes());
    w
}

const VIRTUAL: H = [0xFF; 32];

pub fn void(depth: u8, width: u64) -> H { node_hash(&[&[0], &[depth], &width_bytes(width), &VIRTUAL, &VIRTUAL]) }
pub fn single(depth: u8, width: u64, a: &H) -> H { node_hash(&[&[1], &[depth], &width_bytes(width), a, &VIRTUAL]) }
pub fn branches(depth: u8, width: u64, a: &H, b: &H) -> H { node_hash(&[&[2], &[depth], &width_bytes(width), a, b]) }

pub fn commitment(depth: u8, cofactor: u16, root: &H) -> H {
    let mut e = COMMITMENT.with(|e| e.clone());
    e.update([depth]);
    e.update(cofactor.to_le_bytes());
    e.update(root);
    e.finalize().into()
}

/// Root of an arbitrary list of leaf hashes.
pub fn merklize(leaves: &[H]) -> H {
    fn rec(l: &[H], depth: u8, width: usize, base: u64) -> H {
        if width <= 2 {
            match l {
                [] => void(depth, base),
                [a] => single(depth, base, a),
                [a, b] => branches(depth, base, a, b),
                _ => unreachable!(),
            }
        } else {
            let div = width / 2 + width % 2;
            let a = rec(&l[..div], depth + 1, div, base);
            let b = rec(&l[div..], depth + 1, width - div, base);
            branches(depth, base, &a, &b)
        }
    }
    if leaves.len() == 1 {
        leaves[0]
    } else {
        rec(leaves, 0, leaves.len(), leaves.len() as u64)
    }
}

/// Slot of a protocol: its id as a little-endian 256-bit number modulo `2^depth - cofactor`.
pub fn slot(pid: &H, cofactor: u16, depth: u8) -> u32 {
    let width = (1u64 << depth).saturating_sub(cofactor as u64).max(1);
    let mut r = 0u64;
    for b in pid.iter().rev() {
        r = (r << 8 | *b as u64) % width;
    }
    r as u32
}

/// The first depth and cofactor, in the standard order, in which no two protocols collide.
pub fn place(min_depth: u8, pids: &[H]) -> Option<(u8, u16, BTreeMap<u32, H>)> {
    let mut prev = 1u64;
    for depth in min_depth..32 {
        let width = 1u64 << depth;
        if width >= pids.len() as u64 {
            'cof: for cofactor in 0..=prev.min(500) as u16 {
                let mut map = BTreeMap::new();
                for p in pids {
                    if map.insert(slot(p, cofactor, depth), *p).is_some() {
                        continue 'cof;
                    }
                }
                return Some((depth, cofactor, map));
            }
        }
        prev = width;
    }
    None
}

/// A multi-protocol commitment tree. Small trees know the hashes of all leaves; in big ones the subtrees
/// without messages are known by their hashes only, as to somebody who received a disclosure.
#[derive(Debug)]
pub struct RefTree {
    pub depth: u8,
    pub cofactor: u16,
    pub entropy: Option<u64>,
    pub leaves: BTreeMap<u32, (H, H)>,
    nodes: HashMap<(u8, u32), H>,
    pub commitment: H,
    pub dense: bool,
}

/// The hash functions a tree is made with: the reference ones, or those of the code under test for somebody who
/// uses the real software to forge something.
pub struct Hasher {
    pub leaf: fn(&H, &H) -> H,
    pub leaf_entropy: fn(u64, u32) -> H,
    pub branches: fn(u8, u64, &H, &H) -> H,
    pub commitment: fn(u8, u16, &H) -> H,
}

pub const REFERENCE: Hasher = Hasher { leaf, leaf_entropy, branches, commitment };

impl RefTree {
    pub fn dense(depth: u8, cofactor: u16, entropy: u64, leaves: BTreeMap<u32, (H, H)>) -> RefTree {
        Self::dense_with(&REFERENCE, depth, cofactor, entropy, leaves)
    }

    pub fn dense_with(h: &Hasher, depth: u8, cofactor: u16, entropy: u64, leaves: BTreeMap<u32, (H, H)>) -> RefTree {
        let width = 1u32 << depth;
        let mut nodes = HashMap::new();
        let mut level: Vec<H> = (0..width)
            .map(|p| match leaves.get(&p) {
                Some((pid, msg)) => (h.leaf)(pid, msg),
                None => (h.leaf_entropy)(entropy, p),
            })
            .collect();
        let mut d = depth;
        loop {
            for (i, h) in level.iter().enumerate() {
                nodes.insert((d, i as u32), *h);
            }
            if d == 0 {
                break;
            }
            d -= 1;
            level = level.chunks(2).map(|c| (h.branches)(d, width as u64, &c[0], &c[1])).collect();
        }
        let root = nodes[&(0, 0)];
        RefTree {
            depth,
            cofactor,
            entropy: Some(entropy),
            leaves,
            nodes,
            commitment: (h.commitment)(depth, cofactor, &root),
            dense: true,
        }
    }

    /// A tree of any depth in which the subtrees without messages have arbitrary hashes.
    pub fn sparse(depth: u8, cofactor: u16, leaves: BTreeMap<u32, (H, H)>, rng: &mut Rng) -> RefTree {
        let mut nodes = HashMap::new();
        let mut level: BTreeMap<u32, H> = leaves.iter().map(|(p, (a, b))| (*p, leaf(a, b))).collect();
        let mut d = depth;
        loop {
            if d > 0 {
                for p in level.keys().copied().collect::<Vec<_>>() {
                    level.entry(p ^ 1).or_insert_with(|| rng.bytes32());
                }
            }
            for (p, h) in &level {
                nodes.insert((d, *p), *h);
            }
            if d == 0 {
                break;
            }
            d -= 1;
            let up: BTreeMap<u32, H> = level
                .iter()
                .filter(|(p, _)| *p % 2 == 0)
                .map(|(p, h)| (p / 2, branches(d, 1u64 << depth, h, &level[&(p + 1)])))
                .collect();
            level = up;
        }
        let root = nodes[&(0, 0)];
        RefTree { depth, cofactor, entropy: None, leaves, nodes, commitment: commitment(depth, cofactor, &root), dense: false }
    }

    pub fn root(&self) -> H { self.nodes[&(0, 0)] }
    pub fn hash(&self, depth: u8, idx: u32) -> H { self.nodes[&(depth, idx)] }
    pub fn pos_of(&self, pid: &H) -> Option<u32> { self.leaves.iter().find(|(_, (p, _))| p == pid).map(|(p, _)| *p) }

    /// Sibling hashes from the root down to the leaf.
    pub fn path(&self, pos: u32) -> Vec<H> {
        (1..=self.depth).map(|d| self.hash(d, (pos >> (self.depth - d)) ^ 1)).collect()
    }

    /// Encoding of the proof for a slot.
    pub fn proof_bytes(&self, pos: u32) -> Vec<u8> { proof_bytes(pos, self.cofactor, &self.path(pos)) }

    /// Encoding of the complete tree.
    pub fn tree_bytes(&self) -> Vec<u8> {
        let by_pid: BTreeMap<H, H> = self.leaves.values().copied().collect();
        tree_bytes(self.depth, self.cofactor, self.entropy.unwrap_or_default(), &by_pid, &self.leaves)
    }
}

pub fn tree_bytes(depth: u8, cofactor: u16, entropy: u64, messages: &BTreeMap<H, H>, slots: &BTreeMap<u32, (H, H)>) -> Vec<u8> {
    let mut b = vec![0u8, depth];
    b.extend(entropy.to_le_bytes());
    b.extend(cofactor.to_le_bytes());
    b.extend(&(messages.len() as u32).to_le_bytes()[..3]);
    for (p, m) in messages {
        b.extend(p);
        b.extend(m);
    }
    b.extend(&(slots.len() as u32).to_le_bytes()[..3]);
    for (pos, (p, m)) in slots {
        b.extend(pos.to_le_bytes());
        b.extend(p);
        b.extend(m);
    }
    b
}

pub fn proof_bytes(pos: u32, cofactor: u16, path: &[H]) -> Vec<u8> {
    let mut b = vec![0u8];
    b.extend(pos.to_le_bytes());
    b.extend(cofactor.to_le_bytes());
    b.push(path.len() as u8);
    for h in path {
        b.extend(h);
    }
    b
}

/// Nodes of an encoded disclosure.
pub fn parse_block(b: &[u8]) -> Option<Vec<Node>> {
    let n = u32::from_le_bytes(b.get(4..8)?.try_into().ok()?);
    let mut rest = &b[8..];
    let mut take = |n: usize| -> Option<&[u8]> {
        let part = rest.get(..n)?;
        rest = &rest[n..];
        Some(part)
    };
    let mut out = vec![];
    for _ in 0..n {
        out.push(match take(1)?[0] {
            0 => Node::Hidden { depth: take(1)?[0], hash: take(32)?.try_into().ok()? },
            1 => Node::Leaf { pid: take(32)?.try_into().ok()?, msg: take(32)?.try_into().ok()? },
            _ => return None,
        });
    }
    Some(out)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Node {
    Hidden { depth: u8, hash: H },
    Leaf { pid: H, msg: H },
}

pub fn block_bytes(depth: u8, cofactor: u16, nodes: &[Node], entropy: Option<u64>) -> Vec<u8> {
    let mut b = vec![0u8, depth];
    b.extend(cofactor.to_le_bytes());
    b.extend((nodes.len() as u32).to_le_bytes());
    for n in nodes {
        match n {
            Node::Hidden { depth, hash } => {
                b.push(0);
                b.push(*depth);
                b.extend(hash);
            }
            Node::Leaf { pid, msg } => {
                b.push(1);
                b.extend(pid);
                b.extend(msg);
            }
        }
    }
    match entropy {
        None => b.push(0),
        Some(e) => {
            b.push(1);
            b.extend(e.to_le_bytes());
        }
    }
    b
}

/// Meaning of a partial disclosure: which inner nodes are resolved into their children and which slots
/// have their message revealed.
#[derive(Clone, Debug)]
pub struct Disclosure {
    pub tree: Arc<RefTree>,
    pub opened: BTreeSet<(u8, u32)>,
    pub revealed: BTreeSet<u32>,
    pub entropy: Option<u64>,
}

impl Disclosure {
    /// Everything the committer knows.
    pub fn complete(tree: &Arc<RefTree>) -> Disclosure {
        let mut opened = BTreeSet::new();
        for d in 0..tree.depth {
            for i in 0..1u32 << d {
                opened.insert((d, i));
            }
        }
        Disclosure { tree: tree.clone(), opened, revealed: tree.leaves.keys().copied().collect(), entropy: tree.entropy }
    }

    /// The smallest disclosure revealing the given slots.
    pub fn minimal(tree: &Arc<RefTree>, slots: &BTreeSet<u32>) -> Disclosure {
        let mut opened = BTreeSet::new();
        for pos in slots {
            for d in 0..tree.depth {
                opened.insert((d, pos >> (tree.depth - d)));
            }
        }
        Disclosure { tree: tree.clone(), opened, revealed: slots.clone(), entropy: None }
    }

    pub fn messages(&self) -> BTreeMap<H, H> { self.revealed.iter().map(|p| self.tree.leaves[p]).collect() }

    /// Keeps only the given slots (which must be revealed).
    pub fn conceal(&mut self, keep: &BTreeSet<u32>) { *self = Disclosure::minimal(&self.tree, keep); }

    pub fn merge(&mut self, other: &Disclosure) {
        self.opened.extend(other.opened.iter().copied());
        self.revealed.extend(other.revealed.iter().copied());
    }

    pub fn nodes(&self) -> Vec<Node> {
        fn rec(d: &Disclosure, depth: u8, idx: u32, out: &mut Vec<Node>) {
            if depth < d.tree.depth && d.opened.contains(&(depth, idx)) {
                rec(d, depth + 1, idx * 2, out);
                rec(d, depth + 1, idx * 2 + 1, out);
            } else if depth == d.tree.depth && d.revealed.contains(&idx) {
                let (pid, msg) = d.tree.leaves[&idx];
                out.push(Node::Leaf { pid, msg });
            } else {
                out.push(Node::Hidden { depth, hash: d.tree.hash(depth, idx) });
            }
        }
        let mut out = vec![];
        rec(self, 0, 0, &mut out);
        out
    }

    pub fn bytes(&self) -> Vec<u8> { block_bytes(self.tree.depth, self.tree.cofactor, &self.nodes(), self.entropy) }

    /// Number of abstract state: shape of the disclosure.
    pub fn shape(&self) -> u64 {
        let mut words = vec![self.tree.depth as u64, self.tree.cofactor.min(3) as u64];
        words.extend(self.nodes().iter().map(|n| match n {
            Node::Hidden { depth, .. } => *depth as u64,
            Node::Leaf { .. } => 99,
        }));
        crate::kernel::mix(&words)
    }
}
