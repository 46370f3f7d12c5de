//! C03: a malicious committer against several honest verifiers.
//!
//! The committer crafts one commitment with the real software, and then tries to convince some verifiers of one
//! message and others of another one for the same protocol. Whatever reaches a verifier passes through the
//! simulated network and the real decoding, merging and verification code.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use commit_verify::mpc::{Leaf, MerkleBlock, MerkleProof, MerkleTree};
use commit_verify::{CommitId, MerkleHash};

use crate::codec::*;
use crate::kernel::*;
use crate::refm::{self, Disclosure, Hasher, Node, RefTree, H};
use crate::runner::{catching, Check};
use crate::{ensure, ev};

pub const CHECKS: &[Check] = &[Check {
    id: "C03",
    run,
    quick: 6000,
    thorough: 400_000,
    rule: "one evaluation is one simulated run: one crafted commitment, two to four verifiers and up to 40 pieces of forged or honest evidence \
         delivered by a faulty network; non-trivial if some verifier accepted some message of the protocol under attack; distinct by the \
         complete event log",
    states: "distinct (depth, layout of the claims, kind of evidence, alteration, outcome)",
    real: &[
        "commit_verify::mpc (MerkleTree, MerkleBlock, MerkleProof), strict decoding of evidence",
        "commit_verify hashing (also used by the attacker)",
    ],
    stub: &["network, clock and scheduler (simulated)", "publication medium (one published commitment)", "attacker (seeded strategy)"],
    assumptions: &["the attacker cannot find SHA-256 collisions or preimages", "crafted trees are up to 6 levels deep"],
    batch: None,
}];

fn code_commitment(depth: u8, cofactor: u16, root: &H) -> H {
    let bytes = refm::block_bytes(depth, cofactor, &[Node::Hidden { depth: 0, hash: *root }], None);
    let block: MerkleBlock = dec(&bytes).unwrap_or_else(|e| panic!("a fully concealed disclosure is refused: {e}"));
    raw(block.commit_id())
}

/// Hashing as the real software does it.
const CODE: Hasher = Hasher {
    leaf: |p, m| raw(Leaf::inhabited(pid(p), msg(m)).commit_id()),
    leaf_entropy: |e, pos| raw(Leaf::entropy(e, pos).commit_id()),
    branches: |d, w, a, b| raw(MerkleHash::branches(d, w as u32, MerkleHash::from(*a), MerkleHash::from(*b))),
    commitment: code_commitment,
};

#[derive(Clone)]
enum Wire {
    Proof(Vec<u8>, H, H),
    Block(Vec<u8>),
    /// In the serde form.
    Text(Vec<u8>),
    Tree(Vec<u8>),
}

#[cfg(not(feature = "full"))]
fn read_text(_: &[u8]) -> Option<MerkleBlock> { None }
#[cfg(not(feature = "full"))]
fn write_text(_: u8, _: u16, _: &[Node], _: Option<u64>) -> Vec<u8> { vec![] }

#[cfg(feature = "full")]
fn read_text(text: &[u8]) -> Option<MerkleBlock> { serde_json::from_slice(text).ok() }

/// Follows the form in which the software writes a disclosure of the attacker's own.
#[cfg(feature = "full")]
fn write_text(depth: u8, cofactor: u16, nodes: &[Node], entropy: Option<u64>) -> Vec<u8> {
    let Ok(sample) = <MerkleTree as commit_verify::TryCommitVerify<_, _>>::try_commit(&crate::gen::source(0, &[([1; 32], [2; 32])], Some(3))) else { return vec![] };
    super::world_hostile::json_block_of(&MerkleBlock::from(&sample), depth, cofactor, nodes, entropy).to_string().into_bytes()
}

struct Verifier {
    held: Option<MerkleBlock>,
}

struct World {
    tree: Arc<RefTree>,
    published: H,
    /// Everything any verifier was ever convinced of.
    accepted: BTreeMap<H, (H, usize)>,
    verifiers: Vec<Verifier>,
}

impl World {
    fn accept(&mut self, c: &mut Ctl, v: usize, how: &str, p: H, m: H) -> Res {
        ev!(c, "verifier {v} is convinced by {how} of {} for {}", short(&m), short(&p));
        c.nontrivial = true;
        if let Some((other, who)) = self.accepted.get(&p) {
            ensure!(
                *other == m,
                "two messages for one protocol",
                "verifier {who} is convinced of {} and verifier {v} by {how} of {} for protocol {} under one commitment",
                short(other),
                short(&m),
                short(&p)
            );
        }
        self.accepted.insert(p, (m, v));
        Ok(())
    }

    fn accept_block(&mut self, c: &mut Ctl, v: usize, how: &str, block: &MerkleBlock) -> Res {
        // All messages it holds, also those of which the convenience methods return only one per protocol.
        let Some(nodes) = enc(block).ok().and_then(|b| refm::parse_block(&b)) else { return Ok(()) };
        let map: Vec<(H, H)> = nodes
            .into_iter()
            .filter_map(|n| match n {
                Node::Leaf { pid, msg } => Some((pid, msg)),
                Node::Hidden { .. } => None,
            })
            .collect();
        for (p, m) in map {
            self.accept(c, v, how, p, m)?;
            // What the verifier passes on.
            if let Ok(Ok(proof)) = catching(|| block.to_merkle_proof(pid(&p))) {
                self.try_proof(c, v, "a proof extracted from a disclosure", &proof, p, m)?;
            }
        }
        Ok(())
    }

    fn try_proof(&mut self, c: &mut Ctl, v: usize, how: &str, proof: &MerkleProof, p: H, m: H) -> Res<bool> {
        match catching(|| proof.convolve(pid(&p), msg(&m))) {
            Ok(Ok(id)) if raw(id) == self.published => {
                self.accept(c, v, how, p, m)?;
                Ok(true)
            }
            Ok(_) => Ok(false),
            Err(_) => {
                c.probe("evidence crashed the verifier");
                Ok(false)
            }
        }
    }

    fn deliver(&mut self, c: &mut Ctl, v: usize, w: Wire) -> Res<bool> {
        match w {
            Wire::Proof(bytes, p, m) => {
                let Ok(proof) = dec::<MerkleProof>(&bytes) else { return Ok(false) };
                let ok = self.try_proof(c, v, "a proof", &proof, p, m)?;
                // Merging is another way to be convinced.
                if let Some(held) = &self.verifiers[v].held {
                    let mut copy = held.clone();
                    match catching(move || copy.merge_reveal_path(&proof, pid(&p), msg(&m)).map(|_| copy)) {
                        Ok(Ok(merged)) if raw(merged.commit_id()) == self.published => {
                            self.accept_block(c, v, "merging a proof", &merged)?;
                            self.verifiers[v].held = Some(merged);
                            return Ok(true);
                        }
                        Err(_) => c.probe("evidence crashed the verifier"),
                        _ => {}
                    }
                }
                if ok {
                    let Ok(proof) = dec::<MerkleProof>(&bytes) else { return Ok(false) };
                    if let Ok(Ok(block)) = catching(|| MerkleBlock::with(&proof, pid(&p), msg(&m))) {
                        if self.verifiers[v].held.is_none() {
                            self.verifiers[v].held = Some(block);
                        }
                    }
                }
                Ok(ok)
            }
            Wire::Block(bytes) => {
                let Ok(block) = dec::<MerkleBlock>(&bytes) else { return Ok(false) };
                self.block(c, v, "a disclosure", block)
            }
            Wire::Text(text) => {
                let Some(block) = read_text(&text) else { return Ok(false) };
                self.block(c, v, "a disclosure in serde form", block)
            }
            Wire::Tree(bytes) => {
                let Ok(tree) = dec::<MerkleTree>(&bytes) else { return Ok(false) };
                if tree.depth().to_u8() > 6 {
                    return Ok(false);
                }
                let Ok((id, block)) = catching(|| (tree.commit_id(), MerkleBlock::from(&tree))) else {
                    c.probe("evidence crashed the verifier");
                    return Ok(false);
                };
                if raw(id) != self.published {
                    return Ok(false);
                }
                if let Ok(list) = catching(|| tree.into_proofs().collect::<Vec<_>>()) {
                    let known: BTreeMap<H, H> = block.to_known_message_map().iter().map(|(p, m)| (raw(*p), raw(*m))).collect();
                    for (p, proof) in list {
                        let p = raw(p);
                        if let Some(m) = known.get(&p) {
                            self.try_proof(c, v, "a proof made of a tree", &proof, p, *m)?;
                        }
                    }
                }
                self.block(c, v, "a tree", block)
            }
        }
    }

    fn block(&mut self, c: &mut Ctl, v: usize, how: &str, block: MerkleBlock) -> Res<bool> {
        let Ok(id) = catching(|| block.commit_id()) else {
            c.probe("evidence crashed the verifier");
            return Ok(false);
        };
        if raw(id) != self.published {
            return Ok(false);
        }
        self.accept_block(c, v, how, &block)?;
        let new = match self.verifiers[v].held.take() {
            None => block,
            Some(held) => {
                let mut copy = held.clone();
                match catching(move || copy.merge_reveal(block).map(|_| copy)) {
                    Ok(Ok(m)) => m,
                    _ => {
                        c.probe("evidence crashed or failed merging");
                        held
                    }
                }
            }
        };
        if catching(|| raw(new.commit_id())) == Ok(self.published) {
            self.accept_block(c, v, "merging disclosures", &new)?;
        }
        self.verifiers[v].held = Some(new);
        Ok(true)
    }
}

fn run(c: &mut Ctl) -> Res {
    c.open();
    let depth = *c.pick(&[3u8, 0, 1, 2, 4, 5, 6]);
    let width = 1u32 << depth;
    let cof = match c.below(4) {
        0 => 0,
        1 => 1,
        2 => c.below(width as usize + 1) as u16,
        _ => c.below(600) as u16,
    };
    let cof2 = match c.below(3) {
        0 => cof.wrapping_add(1),
        1 => c.below(width as usize + 1) as u16,
        _ => c.below(0x10000) as u16,
    };
    let mut rng = c.rng();
    // The protocol under attack and its claims: positions and messages.
    let p = if c.chance(50) {
        rng.bytes32()
    } else {
        let mut p = [0u8; 32];
        p[0] = rng.next() as u8;
        p[1] = rng.next() as u8 & 3;
        p
    };
    let slot = refm::slot(&p, cof, depth);
    let n_claims = c.range(2, 4).min(width as usize);
    let mut leaves: BTreeMap<u32, (H, H)> = BTreeMap::new();
    let mut layout = vec![];
    for i in 0..n_claims {
        let kind = if i == 0 { 0 } else { c.below(5) };
        let at = match kind {
            0 => slot,
            1 => refm::slot(&p, cof2, depth),
            2 => slot ^ 1,
            3 => slot ^ (1 << c.below(depth.max(1) as usize)),
            _ => c.below(width as usize) as u32,
        };
        layout.push(kind as u64);
        if at < width {
            leaves.entry(at).or_insert((p, rng.bytes32()));
        }
    }
    // Bystanders.
    for _ in 0..c.below(4) {
        let q = rng.bytes32();
        let at = if c.chance(70) { refm::slot(&q, cof, depth) } else { rng.below(width as u64) as u32 };
        leaves.entry(at).or_insert((q, rng.bytes32()));
    }
    let entropy = rng.next();
    let tree = match catching(|| RefTree::dense_with(&CODE, depth, cof, entropy, leaves)) {
        Ok(t) => Arc::new(t),
        // The real software cannot even hash this: nothing to attack with.
        Err(e) => {
            ev!(c, "the attacker's software fails: {e}");
            return Ok(());
        }
    };
    c.close();
    let claims: Vec<(u32, H)> = tree.leaves.iter().filter(|(_, (q, _))| *q == p).map(|(pos, (_, m))| (*pos, *m)).collect();
    let all: Vec<u32> = tree.leaves.keys().copied().collect();
    ev!(c, "commitment of depth {depth} cofactor {cof} with {} claims of protocol {} (slot {slot}), {} leaves", claims.len(), short(&p), all.len());
    let n = c.range(2, 4);
    let f = if c.chance(40) { Faults::none() } else { Faults::draw(c) };
    let mut net: Net<Wire> = Net::new(n + 1);
    let mut w = World {
        published: tree.commitment,
        tree,
        accepted: BTreeMap::new(),
        verifiers: (0..n).map(|_| Verifier { held: None }).collect(),
    };
    let steps = c.range(5, 40);
    for _ in 0..steps {
        c.open();
        let t = w.tree.clone();
        let (pos, m) = *c.pick(&claims);
        let to = c.below(n);
        let (kind, alter, wire) = match c.weighted(&[5, 6, 2]) {
            0 => {
                let mut path = t.path(pos);
                let (mut at, mut cofactor) = (pos, cof);
                let mut who = p;
                let alter = c.below(9);
                match alter {
                    0 => {}
                    1 => at = slot,
                    2 => at = slot.wrapping_add((c.below(4) as u32) << depth),
                    3 => {
                        cofactor = cof2;
                        if c.chance(50) {
                            at = refm::slot(&p, cof2, depth);
                        }
                    }
                    4 => {
                        // A cofactor under which the leaf is where it should be.
                        if let Some(x) = (0..2000u16).find(|x| refm::slot(&p, *x, depth) == pos) {
                            cofactor = x;
                        }
                    }
                    5 => {
                        let extra = c.rng().bytes32();
                        let i = c.below(path.len() + 1);
                        path.insert(i, extra);
                        at = refm::slot(&p, cof, path.len() as u8);
                    }
                    6 => {
                        if !path.is_empty() {
                            let cut = c.below(path.len());
                            path.truncate(cut);
                            at = refm::slot(&p, cof, path.len() as u8);
                        }
                    }
                    7 => {
                        // Path of another leaf.
                        path = t.path(*c.pick(&all));
                    }
                    _ => who = t.leaves[c.pick(&all)].0,
                }
                (0, alter, Wire::Proof(refm::proof_bytes(at, cofactor, &path), who, m))
            }
            1 => {
                let mut show: BTreeSet<u32> = BTreeSet::from([pos]);
                if c.chance(60) {
                    show.extend(claims.iter().map(|(p, _)| *p));
                }
                if c.chance(30) {
                    show.extend(all.iter().copied());
                }
                let mut nodes = Disclosure::minimal(&t, &show).nodes();
                let (mut d, mut cofactor) = (depth, cof);
                let alter = c.below(10);
                match alter {
                    0 => {}
                    1 => cofactor = cof2,
                    2 => {
                        if let Some(x) = (0..2000u16).find(|x| refm::slot(&p, *x, depth) == pos) {
                            cofactor = x;
                        }
                    }
                    3 => {
                        // The claim moves to its proper slot.
                        if let Some(i) = nodes.iter().position(|n| matches!(n, Node::Leaf { msg, .. } if *msg == m)) {
                            let x = nodes.remove(i);
                            let j = c.below(nodes.len() + 1);
                            nodes.insert(j, x);
                        }
                    }
                    4 => {
                        // An additional claim next to a complete covering.
                        let j = c.below(nodes.len() + 1);
                        nodes.insert(j, Node::Leaf { pid: p, msg: m });
                    }
                    5 => {
                        let i = c.below(nodes.len());
                        nodes[i] = Node::Leaf { pid: p, msg: m };
                    }
                    6 => {
                        if nodes.len() > 1 {
                            nodes.remove(c.below(nodes.len()));
                        }
                    }
                    7 => d = d.wrapping_add(*c.pick(&[1u8, 0xFF])) & 31,
                    8 => {
                        let i = c.below(nodes.len());
                        if let Node::Hidden { depth, .. } = &mut nodes[i] {
                            *depth = c.below(8) as u8;
                        }
                    }
                    _ => {
                        // The root is shown along with the claim.
                        nodes = vec![Node::Leaf { pid: p, msg: m }, Node::Hidden { depth: 0, hash: t.root() }];
                        if c.chance(50) {
                            nodes.swap(0, 1);
                        }
                    }
                }
                let e = c.chance(50).then_some(entropy);
                if c.chance(25) {
                    (3, alter, Wire::Text(write_text(d, cofactor, &nodes, e)))
                } else {
                    (1, alter, Wire::Block(refm::block_bytes(d, cofactor, &nodes, e)))
                }
            }
            _ => {
                let mut messages: BTreeMap<H, H> = t.leaves.values().copied().collect();
                let mut slots = t.leaves.clone();
                let mut cofactor = cof;
                let alter = c.below(5);
                match alter {
                    0 => {}
                    1 => {
                        messages.insert(p, m);
                    }
                    2 => {
                        slots.remove(&pos);
                        slots.insert(slot, (p, m));
                        messages.insert(p, m);
                    }
                    3 => cofactor = cof2,
                    _ => {
                        messages.insert(p, m);
                        slots.retain(|_, (q, x)| *q != p || *x == m);
                    }
                }
                if c.chance(50) {
                    // As many messages as there are slots taken, some of them in no slot.
                    let mut rng = c.rng();
                    while messages.len() < slots.len() {
                        messages.insert(rng.bytes32(), rng.bytes32());
                    }
                }
                (2, alter, Wire::Tree(refm::tree_bytes(depth, cofactor, entropy, &messages, &slots)))
            }
        };
        c.state(&[depth as u64, mix(&layout), kind, alter as u64]);
        ev!(c, "evidence kind {kind} alteration {alter} for the claim at {pos} is sent to verifier {to}");
        net.send(c, &f, n, to, wire, |c, w| match w {
            Wire::Proof(b, p, m) => corrupt_bytes(c, b).map(|b| Wire::Proof(b, *p, *m)),
            Wire::Block(b) => corrupt_bytes(c, b).map(Wire::Block),
            Wire::Text(b) => corrupt_bytes(c, b).map(Wire::Text),
            Wire::Tree(b) => corrupt_bytes(c, b).map(Wire::Tree),
        });
        while !net.is_empty() && (c.chance(60) || net.len() > 6) {
            if let Some((_, to, wire)) = net.next(c) {
                let ok = w.deliver(c, to, wire)?;
                if ok {
                    c.probe("evidence accepted");
                } else {
                    c.probe("evidence refused");
                }
            }
        }
        c.close();
    }
    while let Some((_, to, wire)) = net.next(c) {
        w.deliver(c, to, wire)?;
    }
    // Verifiers compare notes: they pass on all they hold.
    for a in 0..n {
        for b in 0..n {
            if let (true, Some(h)) = (a != b, w.verifiers[a].held.clone()) {
                w.block(c, b, "a disclosure of another verifier", h)?;
            }
        }
    }
    Ok(())
}
