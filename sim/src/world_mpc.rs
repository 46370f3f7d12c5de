//! Multi-protocol commitments exchanged between parties.
//!
//! A run has one to three commitments and two to five parties. The committers disclose parts of the
//! commitments, parties conceal, forward, merge, persist, crash, restore, extract proofs and verify them,
//! while the network loses, repeats, reorders, partitions and damages messages. Each property is one profile of
//! this world with its own operation mix and its own oracle.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use commit_verify::mpc::{MerkleBlock, MerkleProof, MerkleTree, Proof};
use commit_verify::{CommitId, Conceal, TryCommitVerify};

use crate::codec::*;
use crate::gen;
use crate::kernel::*;
use crate::refm::{self, Disclosure, RefTree, H};
use crate::runner::Check;
use crate::{ensure, ev};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    C01,
    C02,
    C04,
    C05,
    C17,
    C19,
}
use P::*;

const REAL: &[&str] = &[
    "commit_verify::mpc (MerkleTree, MerkleBlock, MerkleProof, MultiSource)",
    "commit_verify merkle/id/digest engines and derive macros",
    "strict_encoding of all exchanged values",
    "rand::thread_rng over the simulated system randomness",
];
const STUB: &[&str] = &[
    "network, disks, clock and scheduler (simulated)",
    "system randomness (getrandom replaced by a seeded source)",
    "publication medium (a list of published commitments)",
];
const RULE: &str = "one evaluation is one simulated run: a random set of commitments, parties and faults, up to some dozens of \
     operations chosen by the seeded scheduler; non-trivial if at least one fault fired or at least four operations \
     on disclosures were executed; distinct by the complete event log";
const STATES: &str = "distinct shapes (tree depth, cofactor class and cross-section) of disclosures held by a party";
const ASSUME: &[&str] = &[
    "SHA-256 has no collisions or preimages that matter here",
    "trees of depth above 8 (10 in the thorough tier) are exercised through partial disclosures with arbitrary hashes of the hidden subtrees, not by hashing all leaves",
];

pub const CHECKS: &[Check] = &[
    Check { id: "C01", run: |c| run(c, C01), quick: 2600, thorough: 120_000, rule: RULE, states: STATES, real: REAL, stub: STUB, assumptions: ASSUME, batch: None },
    Check { id: "C02", run: |c| run(c, C02), quick: 2600, thorough: 120_000, rule: RULE, states: STATES, real: REAL, stub: STUB, assumptions: ASSUME, batch: None },
    Check { id: "C04", run: |c| run(c, C04), quick: 2600, thorough: 120_000, rule: RULE, states: STATES, real: REAL, stub: STUB, assumptions: ASSUME, batch: None },
    Check { id: "C05", run: |c| run(c, C05), quick: 2600, thorough: 120_000, rule: RULE, states: STATES, real: REAL, stub: STUB, assumptions: ASSUME, batch: None },
    Check { id: "C17", run: |c| run(c, C17), quick: 2600, thorough: 120_000, rule: RULE, states: STATES, real: REAL, stub: STUB, assumptions: ASSUME, batch: None },
    Check { id: "C19", run: |c| run(c, C19), quick: 2600, thorough: 120_000, rule: RULE, states: STATES, real: REAL, stub: STUB, assumptions: ASSUME, batch: None },
];

/// One commitment of the run.
struct Entry {
    tree: Arc<RefTree>,
    real: Option<MerkleTree>,
    published: H,
}

#[derive(Clone)]
struct Holding {
    block: MerkleBlock,
    model: Disclosure,
}

#[derive(Clone)]
enum Wire {
    Block { t: usize, bytes: Vec<u8>, model: Option<Disclosure> },
    Proof { t: usize, bytes: Vec<u8>, pid: H, msg: H, intact: bool },
}

struct Node {
    held: BTreeMap<usize, Holding>,
    /// What survives a crash: the encoded disclosure and its model.
    disk: BTreeMap<usize, (Vec<u8>, Disclosure)>,
    proofs: Vec<(usize, MerkleProof, H, H)>,
}

struct World {
    p: P,
    entries: Vec<Entry>,
    nodes: Vec<Node>,
    net: Net<Wire>,
    f: Faults,
    ops: u32,
}

fn make_trees(c: &mut Ctl, p: P) -> Res<Vec<Entry>> {
    let mut out: Vec<Entry> = vec![];
    let wanted = match p {
        C19 | C02 | C17 => c.range(2, 4),
        _ => c.range(1, 2),
    };
    while out.len() < wanted {
        let twin = if out.is_empty() { 0 } else { c.below(6) };
        if twin > 0 {
            // A commitment that differs from an existing one in a single respect.
            let base = out[c.below(out.len())].tree.clone();
            let mut leaves = base.leaves.clone();
            let mut cofactor = base.cofactor;
            let mut rng = c.rng();
            match twin {
                1 | 2 => {
                    let keys: Vec<u32> = leaves.keys().copied().collect();
                    let k = *c.pick(&keys);
                    leaves.get_mut(&k).expect("own key").1 = rng.bytes32();
                }
                3 => {
                    // The same messages in the same slots under another cofactor.
                    let w = 1u64 << base.depth;
                    let all_fit = |cof: u16| {
                        (cof as u64) < w && leaves.iter().all(|(pos, (pid, _))| refm::slot(pid, cof, base.depth) == *pos)
                    };
                    match (0..40u16).find(|cof| *cof != base.cofactor && all_fit(*cof)) {
                        Some(cof) => {
                            cofactor = cof;
                            c.probe("twin with another cofactor");
                        }
                        None => continue,
                    }
                }
                _ => {
                    if leaves.len() > 1 {
                        leaves.pop_last();
                    }
                }
            }
            let tree = match (base.dense, base.entropy) {
                (true, Some(e)) => {
                    let e = if twin == 2 || twin == 5 { rng.next() } else { e };
                    RefTree::dense(base.depth, cofactor, e, leaves)
                }
                _ => RefTree::sparse(base.depth, cofactor, leaves, &mut rng),
            };
            if out.iter().any(|e| e.tree.commitment == tree.commitment) {
                continue;
            }
            let published = tree.commitment;
            ev!(c, "commitment {} twin kind {twin} of depth {} published {}", out.len(), tree.depth, short(&published));
            out.push(Entry { tree: Arc::new(tree), real: None, published });
        } else if c.chance(35) {
            let (depth, cofactor, leaves) = gen::sparse_parts(c);
            let mut rng = c.rng();
            let tree = RefTree::sparse(depth, cofactor, leaves, &mut rng);
            ev!(c, "commitment {} sparse depth {depth} cofactor {cofactor} messages {}", out.len(), tree.leaves.len());
            if depth > 20 {
                c.probe("depth above 20");
            }
            let published = tree.commitment;
            out.push(Entry { tree: Arc::new(tree), real: None, published });
        } else {
            let cap = match c.weighted(&[700, 250, 44, 6]) {
                0 => 5,
                1 => 6,
                2 => 8,
                _ => {
                    c.probe("complete tree of 9 or more levels");
                    if c.thorough {
                        12
                    } else {
                        11
                    }
                }
            };
            let spec = gen::spec(c, cap);
            let pinned = c.chance(50).then(|| c.seed());
            let src = gen::source(spec.min_depth, &spec.pairs, pinned);
            let real = match MerkleTree::try_commit(&src) {
                Ok(t) => t,
                Err(e) => return fail("commit refused", format!("commitment to {} messages refused: {e}", spec.pairs.len())),
            };
            // What the committer really built decides which slots are used.
            let depth = real.depth().to_u8();
            let leaves: BTreeMap<u32, (H, H)> = spec
                .pairs
                .iter()
                .map(|(p, m)| (real.protocol_id_pos(pid(p)), (*p, *m)))
                .collect();
            ensure!(depth <= 12 && leaves.len() == spec.pairs.len(), "commit layout", "messages share slots in a tree of depth {depth}");
            let tree = RefTree::dense(depth, real.cofactor(), real.entropy(), leaves);
            let published = raw(real.commit_id());
            ev!(c, "commitment {} depth {depth} cofactor {} messages {} published {}", out.len(), real.cofactor(), spec.pairs.len(), short(&published));
            if real.cofactor() > 0 {
                c.probe("cofactor above 0");
            }
            out.push(Entry { tree: Arc::new(tree), real: Some(real), published });
        }
    }
    Ok(out)
}

/// Reports an inconsistency of another property: it ends the run without verdict for this one.
fn other(c: &mut Ctl) -> Res<bool> {
    c.probe("run ended by an oracle of another property");
    Ok(false)
}

impl World {
    fn is(&self, p: P) -> bool { self.p == p }

    fn known(block: &MerkleBlock) -> Vec<H> { block.known_protocol_ids().map(|p| raw(p)).collect() }

    fn map(block: &MerkleBlock) -> BTreeMap<H, H> {
        block.to_known_message_map().iter().map(|(p, m)| (raw(*p), raw(*m))).collect()
    }

    /// Compares a disclosure with its model, apart from the entropy.
    fn compare(&self, h: &mut Holding, class: &str, what: &str) -> Res {
        let got = Self::map(&h.block);
        let want = h.model.messages();
        ensure!(got == want, class, "{what}: reveals {} messages instead of {}", got.len(), want.len());
        h.model.entropy = h.block.entropy();
        let bytes = match enc(&h.block) {
            Ok(b) => b,
            Err(e) => return fail(class, format!("{what}: cannot be encoded: {e}")),
        };
        ensure!(bytes == h.model.bytes(), class, "{what}: differs from the reference disclosure");
        Ok(())
    }

    fn cid(block: &MerkleBlock) -> H { raw(block.commit_id()) }

    /// Checks what a party is about to send: exactly the wanted messages and nothing that leads to others.
    fn tap(&self, c: &mut Ctl, t: usize, bytes: &[u8], keep: &BTreeSet<H>) -> Res {
        if !self.is(C05) {
            return Ok(());
        }
        let tree = &self.entries[t].tree;
        let mut hidden: BTreeSet<H> = BTreeSet::new();
        let shown: BTreeSet<H> = tree.leaves.values().filter(|(p, _)| keep.contains(p)).map(|(_, m)| *m).collect();
        for (p, m) in tree.leaves.values() {
            if !keep.contains(p) {
                // Tiny identifiers occur in any bytes by chance.
                if p.iter().filter(|b| **b != 0).count() > 8 {
                    hidden.insert(*p);
                }
                if !shown.contains(m) {
                    hidden.insert(*m);
                }
            }
        }
        for w in bytes.windows(32) {
            let w: H = w.try_into().expect("32 bytes");
            ensure!(!hidden.contains(&w), "concealed data on the wire", "an identifier or message that was to be concealed is sent: {}", hex(&w));
        }
        if let Some(e) = tree.entropy {
            if tree.leaves.len() < 1 << tree.depth && e > u32::MAX as u64 {
                ensure!(!bytes.windows(8).any(|w| w == e.to_le_bytes()), "entropy on the wire", "placeholder entropy is sent");
            }
        }
        c.probe("wire tapped");
        Ok(())
    }

    /// Conceals a copy of a holding down to `keep`.
    fn concealed(&mut self, c: &mut Ctl, t: usize, h: &Holding, keep: &[H]) -> Res<Option<Holding>> {
        let mut block = h.block.clone();
        let pids: Vec<_> = keep.iter().map(pid).collect();
        let steps = if keep.len() > 1 && c.chance(25) {
            // In two steps.
            let all = Self::known(&block);
            let mut first: Vec<_> = all.iter().filter(|p| keep.contains(p) || c.chance(50)).map(pid).collect();
            c.shuffle(&mut first);
            vec![first, pids]
        } else {
            vec![pids]
        };
        let mut step = h.model.clone();
        for (i, ids) in steps.into_iter().enumerate() {
            let slots: BTreeSet<u32> = ids.iter().filter_map(|p| self.entries[t].tree.pos_of(&raw(*p))).collect();
            let before = if self.is(C05) { step.nodes() } else { vec![] };
            step.conceal(&slots);
            let res = if ids.len() == 1 && c.chance(50) {
                block.conceal_other(ids[0]).map(|_| None)
            } else {
                block.conceal_except(ids).map(Some)
            };
            let count = match res {
                Ok(n) => n,
                Err(e) => {
                    if self.is(C05) || self.is(C01) {
                        return fail("conceal refused", format!("concealing known protocols is refused: {e} (step {i})"));
                    }
                    other(c)?;
                    return Ok(None);
                }
            };
            if let (true, Some(n)) = (self.is(C05), count) {
                // Every concealed message, and every pair of nodes replaced by the one above.
                let shown = before.iter().filter(|n| matches!(n, refm::Node::Leaf { .. })).count();
                let want = (shown - slots.len()) + (before.len() - step.nodes().len());
                ensure!(n == want, "wrong number", "concealing reports {n} concealed nodes instead of {want}");
            }
        }
        let tree = &self.entries[t].tree;
        let slots: BTreeSet<u32> = keep.iter().filter_map(|p| tree.pos_of(p)).collect();
        let mut model = h.model.clone();
        model.conceal(&slots);
        let mut h = Holding { block, model };
        if self.is(C05) {
            ensure!(Self::cid(&h.block) == self.entries[t].published, "commitment changed", "concealing changed the commitment");
            ensure!(h.block.entropy().is_none(), "entropy kept", "a concealed disclosure still has the entropy");
            let got: BTreeSet<H> = Self::known(&h.block).into_iter().collect();
            let want: BTreeSet<H> = keep.iter().copied().collect();
            ensure!(got == want, "wrong messages concealed", "{} identifiers known after concealing all but {}", got.len(), want.len());
            self.compare(&mut h, "not minimal", "concealed disclosure")?;
        }
        c.state(&[h.model.shape()]);
        Ok(Some(h))
    }

    fn send(&mut self, c: &mut Ctl, from: usize, to: usize, w: Wire) {
        let entries = &self.entries;
        let corrupt = |c: &mut Ctl, w: &Wire| -> Option<Wire> {
            match w {
                Wire::Block { t, bytes, .. } => {
                    let other = c.chance(10);
                    if other && entries.len() > 1 {
                        // Filed under another commitment.
                        let t2 = (t + 1 + c.below(entries.len() - 1)) % entries.len();
                        return Some(Wire::Block { t: t2, bytes: bytes.clone(), model: None });
                    }
                    corrupt_bytes(c, bytes).map(|b| Wire::Block { t: *t, bytes: b, model: None })
                }
                Wire::Proof { t, bytes, pid, msg, .. } => {
                    let mut out = (*t, bytes.clone(), *pid, *msg);
                    let leaves: Vec<(H, H)> = entries[*t].tree.leaves.values().copied().collect();
                    match c.below(7) {
                        0..=2 => out.1 = corrupt_bytes(c, bytes)?,
                        3 => out.3 = corrupt_bytes(c, msg)?.try_into().ok()?,
                        4 => out.2 = corrupt_bytes(c, pid)?.try_into().ok()?,
                        5 => {
                            let (p2, m2) = *c.pick(&leaves);
                            if c.chance(50) {
                                out.2 = p2;
                            }
                            if c.chance(50) {
                                out.3 = m2;
                            }
                        }
                        _ => out.0 = (t + c.below(entries.len())) % entries.len(),
                    }
                    let same_msg = out.0 == *t && out.1 == *bytes && out.2 == *pid && out.3 == *msg;
                    (!same_msg).then_some(Wire::Proof { t: out.0, bytes: out.1, pid: out.2, msg: out.3, intact: false })
                }
            }
        };
        let f = self.f.clone();
        self.net.send(c, &f, from, to, w, corrupt);
    }

    fn op_send_block(&mut self, c: &mut Ctl) -> Res<bool> {
        let from = c.below(self.nodes.len());
        let ts: Vec<usize> = self.nodes[from].held.keys().copied().collect();
        if ts.is_empty() {
            return Ok(true);
        }
        let t = *c.pick(&ts);
        let to = c.below(self.nodes.len());
        let h = self.nodes[from].held[&t].clone();
        let known = Self::known(&h.block);
        let mut sub: Vec<H> = if known.is_empty() || c.chance(8) {
            vec![]
        } else {
            match c.below(3) {
                0 => vec![*c.pick(&known)],
                _ => c.subset(known.len()).into_iter().map(|i| known[i]).collect(),
            }
        };
        c.shuffle(&mut sub);
        let full = c.chance(12) && !self.is(C05);
        let out = if full { Some(h) } else { self.concealed(c, t, &h, &sub)? };
        let Some(mut out) = out else { return Ok(false) };
        let bytes = match enc(&out.block) {
            Ok(b) => b,
            Err(e) => return fail("encode", format!("a disclosure cannot be encoded: {e}")),
        };
        let keep: BTreeSet<H> = sub.iter().copied().collect();
        if !full {
            self.tap(c, t, &bytes, &keep)?;
        }
        out.model.entropy = out.block.entropy();
        ev!(c, "{from}->{to} disclosure of {} messages of commitment {t}{}", Self::known(&out.block).len(), if full { " unconcealed" } else { "" });
        self.ops += 1;
        self.send(c, from, to, Wire::Block { t, bytes, model: Some(out.model) });
        Ok(true)
    }

    fn extract(&mut self, c: &mut Ctl, node: usize) -> Res<Option<(usize, MerkleProof, H, H)>> {
        let ts: Vec<usize> = self.nodes[node].held.keys().copied().collect();
        if ts.is_empty() {
            return Ok(None);
        }
        let t = *c.pick(&ts);
        let block = self.nodes[node].held[&t].block.clone();
        let known = Self::known(&block);
        if known.is_empty() {
            return Ok(None);
        }
        let id = *c.pick(&known);
        let Some(m) = block.to_known_message_map().get(&pid(&id)).map(|m| raw(*m)) else {
            return fail("map", "a known protocol has no message");
        };
        let proof = match c.below(4) {
            0 => block.to_merkle_proof(pid(&id)),
            1 => block.into_merkle_proof(pid(&id)),
            2 => {
                let all: Vec<_> = block.into_known_proofs().collect();
                if self.is(C01) {
                    ensure!(all.len() == known.len(), "proofs missing", "{} bulk proofs for {} messages", all.len(), known.len());
                }
                match all.into_iter().find(|(p, _)| raw(*p) == id) {
                    Some((_, p)) => Ok(p),
                    None if self.is(C01) => return fail("proofs missing", "no bulk proof for a known protocol"),
                    None => return Ok(None),
                }
            }
            _ => match &self.entries[t].real {
                Some(tree) if self.nodes[node].held[&t].model.revealed.len() == self.entries[t].tree.leaves.len() => {
                    match tree.clone().into_proofs().find(|(p, _)| raw(*p) == id) {
                        Some((_, p)) => {
                            c.probe("proof straight from the tree");
                            Ok(p)
                        }
                        None if self.is(C01) => return fail("proofs missing", "no proof from the tree for a committed protocol"),
                        None => return Ok(None),
                    }
                }
                _ => block.to_merkle_proof(pid(&id)),
            },
        };
        match proof {
            Ok(p) => Ok(Some((t, p, id, m))),
            Err(e) if self.is(C01) => fail("proof refused", format!("a proof for a known protocol is refused: {e}")),
            Err(_) => Ok(None),
        }
    }

    fn verify_proof(&self, t: usize, proof: &MerkleProof, id: &H, m: &H) -> Res {
        if !self.is(C01) {
            return Ok(());
        }
        match proof.convolve(pid(id), msg(m)) {
            Ok(got) => {
                ensure!(raw(got) == self.entries[t].published, "proof yields another commitment", "commitment {t}: a proof at position {} yields another commitment", proof.pos());
            }
            Err(e) => return fail("proof does not verify", format!("commitment {t}: {e}")),
        }
        match MerkleBlock::with(proof, pid(id), msg(m)) {
            Ok(b) => ensure!(Self::cid(&b) == self.entries[t].published, "block of proof", "the disclosure made from a proof stands for another commitment"),
            Err(e) => return fail("proof does not verify", format!("commitment {t}: {e}")),
        }
        Ok(())
    }

    fn op_proof(&mut self, c: &mut Ctl) -> Res<bool> {
        let from = c.below(self.nodes.len());
        let Some((t, proof, id, m)) = self.extract(c, from)? else { return Ok(true) };
        self.verify_proof(t, &proof, &id, &m)?;
        if self.is(C01) && c.chance(30) {
            // What is not revealed cannot be proven.
            let absent = c.rng().bytes32();
            let b = &self.nodes[from].held[&t].block;
            ensure!(b.to_merkle_proof(pid(&absent)).is_err(), "proof of nothing", "a proof for an unknown protocol is given");
            let hidden = self.entries[t].tree.leaves.values().map(|(p, _)| *p).find(|p| !Self::known(b).contains(p));
            if let Some(p) = hidden {
                c.probe("proof of a concealed message requested");
                ensure!(b.clone().into_merkle_proof(pid(&p)).is_err(), "proof of nothing", "a proof for a concealed protocol is given");
            }
        }
        let bytes = match enc(&proof) {
            Ok(b) => b,
            Err(e) => return fail("encode", format!("a proof cannot be encoded: {e}")),
        };
        if self.is(C05) {
            let pos = self.entries[t].tree.pos_of(&id).unwrap_or_default();
            ensure!(bytes == self.entries[t].tree.proof_bytes(pos), "proof carries more", "a proof is not the sibling path of its leaf");
            self.tap(c, t, &bytes, &BTreeSet::from([id]))?;
        }
        let to = c.below(self.nodes.len());
        ev!(c, "{from}->{to} proof at {} of commitment {t}", proof.pos());
        self.ops += 1;
        if self.nodes[from].proofs.len() < 6 {
            self.nodes[from].proofs.push((t, proof.clone(), id, m));
        }
        self.send(c, from, to, Wire::Proof { t, bytes, pid: id, msg: m, intact: true });
        Ok(true)
    }

    fn deliver(&mut self, c: &mut Ctl) -> Res<bool> {
        let Some((from, to, w)) = self.net.next(c) else { return Ok(true) };
        match w {
            Wire::Block { t, bytes, model: Some(model) } => {
                let block: MerkleBlock = match dec(&bytes) {
                    Ok(b) => b,
                    Err(e) => return fail("decode", format!("an intact disclosure is refused: {e}")),
                };
                ev!(c, "{to} got disclosure of {t} from {from}");
                if self.is(C04) || self.is(C01) {
                    ensure!(Self::cid(&block) == self.entries[t].published, "received disclosure", "an intact disclosure stands for another commitment");
                }
                self.take(c, to, t, Holding { block, model })
            }
            Wire::Block { t, bytes, model: None } => {
                let Ok(block) = dec::<MerkleBlock>(&bytes) else {
                    ev!(c, "{to} refused a damaged disclosure");
                    return Ok(true);
                };
                c.probe("damaged disclosure decoded");
                let matches = Self::cid(&block) == self.entries[t].published;
                ev!(c, "{to} got a damaged disclosure of {t}, matching: {matches}");
                if self.is(C02) {
                    if matches {
                        let truth: BTreeMap<H, H> = self.entries[t].tree.leaves.values().copied().collect();
                        for (p, m) in Self::map(&block) {
                            ensure!(truth.get(&p) == Some(&m), "altered disclosure accepted", "an altered disclosure reveals a message that was never committed");
                        }
                    }
                } else if !matches && (self.is(C04) || self.is(C17)) {
                    if let Some(h) = self.nodes[to].held.get(&t) {
                        let mut b = h.block.clone();
                        let res = b.merge_reveal(block);
                        if self.is(C04) {
                            ensure!(res.is_err(), "unrelated merged", "a disclosure of another commitment is merged");
                        }
                        if self.is(C17) && res.is_err() {
                            ensure!(b == h.block, "refused merge changed state", "a refused merge changed the disclosure");
                        }
                        c.probe("unrelated disclosure offered for merging");
                    }
                }
                Ok(true)
            }
            Wire::Proof { t, bytes, pid: id, msg: m, intact } => {
                let proof: MerkleProof = match dec(&bytes) {
                    Ok(p) => p,
                    Err(e) if intact => return fail("decode", format!("an intact proof is refused: {e}")),
                    Err(_) => {
                        ev!(c, "{to} refused a damaged proof");
                        return Ok(true);
                    }
                };
                if !intact {
                    ev!(c, "{to} got altered evidence for commitment {t}");
                    if self.is(C02) {
                        self.refuted(c, t, &proof, &id, &m)?;
                    } else if self.is(C17) || self.is(C04) {
                        if let Some(h) = self.nodes[to].held.get(&t) {
                            let mut b = h.block.clone();
                            let res = b.merge_reveal_path(&proof, pid(&id), msg(&m));
                            let really = self.true_evidence(t, &proof, &id, &m);
                            if self.is(C04) {
                                ensure!(res.is_err() || really, "altered path merged", "altered evidence is merged");
                            }
                            if res.is_err() && self.is(C17) {
                                ensure!(b == h.block, "refused merge changed state", "a refused merge of a path changed the disclosure");
                            }
                        }
                    }
                    return Ok(true);
                }
                ev!(c, "{to} got proof at {} of {t}", proof.pos());
                self.verify_proof(t, &proof, &id, &m)?;
                if self.nodes[to].proofs.len() < 6 {
                    self.nodes[to].proofs.push((t, proof.clone(), id, m));
                }
                let tree = self.entries[t].tree.clone();
                let Some(pos) = tree.pos_of(&id) else { return other(c) };
                let model = Disclosure::minimal(&tree, &BTreeSet::from([pos]));
                if let Some(h) = self.nodes[to].held.get_mut(&t) {
                    if c.chance(60) {
                        let mut h = h.clone();
                        let res = h.block.merge_reveal_path(&proof, pid(&id), msg(&m));
                        h.model.merge(&model);
                        return self.merged(c, to, t, h, res.map_err(|e| e.to_string()));
                    }
                }
                match MerkleBlock::with(&proof, pid(&id), msg(&m)) {
                    Ok(block) => self.take(c, to, t, Holding { block, model }),
                    Err(e) if self.is(C04) || self.is(C01) => fail("proof does not verify", format!("commitment {t}: {e}")),
                    Err(_) => other(c),
                }
            }
        }
    }

    fn true_evidence(&self, t: usize, proof: &MerkleProof, id: &H, m: &H) -> bool {
        let tree = &self.entries[t].tree;
        tree.pos_of(id).is_some_and(|pos| {
            tree.leaves[&pos].1 == *m && enc(proof).is_ok_and(|b| b == tree.proof_bytes(pos))
        })
    }

    fn refuted(&self, c: &mut Ctl, t: usize, proof: &MerkleProof, id: &H, m: &H) -> Res {
        // The alteration may have produced another true piece of evidence.
        if self.true_evidence(t, proof, id, m) {
            return Ok(());
        }
        match proof.convolve(pid(id), msg(m)) {
            Err(_) => c.probe("altered proof refused"),
            Ok(got) => {
                c.probe("altered proof yields another commitment");
                ensure!(
                    raw(got) != self.entries[t].published,
                    "altered evidence verifies",
                    "commitment {t}: an altered proof, message or identifier verifies (position {}, cofactor {}, path of {})",
                    proof.pos(),
                    proof.cofactor(),
                    proof.as_path().len()
                );
            }
        }
        if let Ok(b) = MerkleBlock::with(proof, pid(id), msg(m)) {
            ensure!(Self::cid(&b) != self.entries[t].published, "altered evidence verifies", "commitment {t}: a disclosure made of altered evidence verifies");
        }
        Ok(())
    }

    /// A party receives an intact disclosure.
    fn take(&mut self, c: &mut Ctl, to: usize, t: usize, got: Holding) -> Res<bool> {
        let Some(have) = self.nodes[to].held.get(&t).cloned() else {
            self.nodes[to].held.insert(t, got);
            return Ok(true);
        };
        let (mut a, b) = if c.chance(35) { (got, have) } else { (have, got) };
        let other_entropy = b.block.entropy();
        let before = a.block.entropy();
        let res = a.block.merge_reveal(b.block);
        if self.is(C04) && res.is_ok() {
            let e = a.block.entropy();
            ensure!(e == before || (before.is_none() && e == other_entropy), "entropy", "merging invented or changed the entropy");
        }
        a.model.merge(&b.model);
        self.merged(c, to, t, a, res.map_err(|e| e.to_string()))
    }

    fn merged(&mut self, c: &mut Ctl, to: usize, t: usize, mut h: Holding, res: Result<u16, String>) -> Res<bool> {
        self.ops += 1;
        c.state(&[h.model.shape()]);
        match res {
            Err(e) if self.is(C04) => return fail("merge refused", format!("merging disclosures of the same commitment is refused: {e}")),
            Err(_) => return other(c),
            Ok(_) => {}
        }
        if self.is(C04) {
            ensure!(Self::cid(&h.block) == self.entries[t].published, "commitment changed", "merging changed the commitment");
            self.compare(&mut h, "merge result", "merged disclosure")?;
        }
        if h.model.revealed.len() > 2 {
            c.probe("merged to more than two messages");
        }
        ev!(c, "{to} merged to {} messages of {t}", Self::known(&h.block).len());
        self.nodes[to].held.insert(t, h);
        Ok(true)
    }

    fn op_conceal(&mut self, c: &mut Ctl) -> Res<bool> {
        let n = c.below(self.nodes.len());
        let ts: Vec<usize> = self.nodes[n].held.keys().copied().collect();
        if ts.is_empty() {
            return Ok(true);
        }
        let t = *c.pick(&ts);
        let h = self.nodes[n].held[&t].clone();
        let known = Self::known(&h.block);
        if known.is_empty() {
            return Ok(true);
        }
        let keep: Vec<H> = c.subset(known.len()).into_iter().map(|i| known[i]).collect();
        ev!(c, "{n} conceals all but {} of {} in commitment {t}", keep.len(), known.len());
        let Some(h2) = self.concealed(c, t, &h, &keep)? else { return Ok(false) };
        if self.is(C05) {
            let full = h.block.conceal();
            let want = {
                let tree = &self.entries[t].tree;
                let mut b = vec![tree.depth];
                b.extend(tree.cofactor.to_le_bytes());
                b.extend(tree.root());
                b
            };
            ensure!(enc(&full).is_ok_and(|b| b == want), "full concealment", "the fully concealed form differs from (depth, cofactor, root)");
            ensure!(raw(full.commit_id()) == self.entries[t].published, "commitment changed", "full concealment changed the commitment");
            if let Some(real) = &self.entries[t].real {
                ensure!(real.conceal() == full, "full concealment", "tree and disclosure conceal differently");
            }
        }
        self.ops += 1;
        self.nodes[n].held.insert(t, h2);
        Ok(true)
    }

    /// Requests that must be refused.
    fn op_refused(&mut self, c: &mut Ctl) -> Res<bool> {
        let n = c.below(self.nodes.len());
        let ts: Vec<usize> = self.nodes[n].held.keys().copied().collect();
        if ts.is_empty() {
            return Ok(true);
        }
        let t = *c.pick(&ts);
        let before = self.nodes[n].held[&t].block.clone();
        let known = Self::known(&before);
        let mut block = before.clone();
        let unknown: H = match c.below(2) {
            1 => self.entries[t]
                .tree
                .leaves
                .values()
                .map(|(p, _)| *p)
                .find(|p| !known.contains(p))
                .unwrap_or_else(|| c.rng().bytes32()),
            _ => c.rng().bytes32(),
        };
        if known.contains(&unknown) {
            return Ok(true);
        }
        let what = c.below(5);
        let refused = match what {
            0 => block.conceal_other(pid(&unknown)).is_err(),
            1 => {
                let mut ids: Vec<_> = c.subset(known.len()).into_iter().map(|i| pid(&known[i])).collect();
                ids.push(pid(&unknown));
                c.shuffle(&mut ids);
                block.conceal_except(ids).is_err()
            }
            2 => {
                if self.entries.len() < 2 {
                    return Ok(true);
                }
                let t2 = (t + 1 + c.below(self.entries.len() - 1)) % self.entries.len();
                let tree = &self.entries[t2].tree;
                let slots: Vec<u32> = tree.leaves.keys().copied().collect();
                let slots: BTreeSet<u32> = c.subset(slots.len()).into_iter().map(|i| slots[i]).collect();
                let Ok(foreign) = dec::<MerkleBlock>(&Disclosure::minimal(tree, &slots).bytes()) else { return other(c) };
                if self.is(C04) || self.is(C17) {
                    c.probe("unrelated disclosure offered for merging");
                }
                block.merge_reveal(foreign).is_err()
            }
            3 => {
                // Evidence for a wrong position or message.
                let tree = &self.entries[t].tree;
                let slots: Vec<u32> = tree.leaves.keys().copied().collect();
                let pos = *c.pick(&slots);
                let (p, mut m) = tree.leaves[&pos];
                let mut at = pos;
                if tree.depth > 0 && c.chance(50) {
                    at = pos ^ (1 << c.below(tree.depth as usize));
                } else {
                    m[c.below(32)] ^= 1;
                }
                let Ok(proof) = dec::<MerkleProof>(&refm::proof_bytes(at, tree.cofactor, &tree.path(pos))) else { return other(c) };
                block.merge_reveal_path(&proof, pid(&p), msg(&m)).is_err()
            }
            _ => {
                let a = block.to_merkle_proof(pid(&unknown)).is_err();
                ensure!(block == before || !self.is(C17), "refused request changed state", "a refused proof request changed the disclosure");
                a
            }
        };
        ev!(c, "{n} refused request kind {what} on commitment {t}: {refused}");
        self.ops += 1;
        match self.p {
            C17 if refused => {
                let same = block == before && enc(&block).ok() == enc(&before).ok();
                ensure!(same, "refused request changed state", "a refused request of kind {what} changed the disclosure: {} of {} messages remain, entropy {}", Self::known(&block).len(), known.len(), if block.entropy() == before.entropy() { "kept" } else { "lost" });
                // The party goes on with what it holds.
                self.nodes[n].held.get_mut(&t).expect("held").block = block;
            }
            C17 => {}
            C04 if what == 2 || what == 3 => ensure!(refused, "unrelated merged", "evidence of another commitment, position or message is merged"),
            C02 if what == 3 => ensure!(refused, "altered evidence verifies", "evidence with a wrong position or message is merged"),
            C01 if what == 4 => ensure!(refused, "proof of nothing", "a proof for an unknown protocol is given"),
            _ => {}
        }
        Ok(true)
    }

    fn op_sync(&mut self, c: &mut Ctl) -> Res<bool> {
        let n = c.below(self.nodes.len());
        let node = &mut self.nodes[n];
        for (t, h) in &node.held {
            let bytes = match enc(&h.block) {
                Ok(b) => b,
                Err(e) => return fail("encode", format!("a disclosure cannot be encoded: {e}")),
            };
            node.disk.insert(*t, (bytes, h.model.clone()));
        }
        ev!(c, "{n} saves");
        Ok(true)
    }

    fn op_crash(&mut self, c: &mut Ctl) -> Res<bool> {
        let n = c.below(self.nodes.len());
        if !c.chance(self.f.crash * 3) {
            return Ok(true);
        }
        c.fault("crash");
        let mut held = BTreeMap::new();
        for (t, (bytes, model)) in &self.nodes[n].disk {
            match dec::<MerkleBlock>(bytes) {
                Ok(block) => held.insert(*t, Holding { block, model: model.clone() }),
                Err(e) => return fail("decode", format!("a saved disclosure is refused after restart: {e}")),
            };
        }
        ev!(c, "{n} crashes, {} of {} disclosures survive", held.len(), self.nodes[n].held.len());
        self.nodes[n].held = held;
        self.nodes[n].proofs.clear();
        Ok(true)
    }

    /// C02: evidence put together from parts that do not belong together.
    fn op_mix(&mut self, c: &mut Ctl) -> Res<bool> {
        if !self.is(C02) {
            return Ok(true);
        }
        let t = c.below(self.entries.len());
        let t2 = c.below(self.entries.len());
        let (tree, tree2) = (self.entries[t].tree.clone(), self.entries[t2].tree.clone());
        let s1: Vec<u32> = tree.leaves.keys().copied().collect();
        let s2: Vec<u32> = tree2.leaves.keys().copied().collect();
        let (a, b) = (*c.pick(&s1), *c.pick(&s2));
        let (mut p, mut m) = tree.leaves[&a];
        let mut path = tree.path(a);
        let mut pos = a;
        let mut cofactor = tree.cofactor;
        let kind = c.below(12);
        match kind {
            0 => p = tree2.leaves[&b].0,
            1 => m = tree2.leaves[&b].1,
            2 => (p, m) = tree2.leaves[&b],
            3 => path = tree2.path(b),
            4 => pos ^= 1 << c.below(tree.depth.max(1) as usize),
            5 => cofactor = cofactor.wrapping_add(*c.pick(&[1u16, 2, 0xFFFF, 100])),
            6 => path.reverse(),
            7 => {
                path.pop();
                pos >>= 1;
            }
            8 => {
                if path.len() < 31 {
                    path.insert(c.below(path.len() + 1), c.rng().bytes32());
                }
            }
            9 => {
                if !path.is_empty() {
                    let i = c.below(path.len());
                    path[i][c.below(32)] ^= 1 << c.below(8);
                }
            }
            10 => {
                // The root of a subtree presented as the message of a smaller tree.
                if tree.depth > 0 {
                    let cut = c.range(1, tree.depth as usize);
                    path.truncate(cut);
                    pos = a >> (tree.depth as usize - cut);
                    m = tree.hash(cut as u8, pos);
                }
            }
            _ => {
                // Position moved where another cofactor expects it.
                cofactor = c.below(0x10000) as u16;
                pos = refm::slot(&p, cofactor, path.len() as u8);
            }
        }
        let Ok(proof) = dec::<MerkleProof>(&refm::proof_bytes(pos, cofactor, &path)) else { return Ok(true) };
        ev!(c, "mixed evidence kind {kind} against commitment {t}");
        self.ops += 1;
        self.refuted(c, t, &proof, &p, &m)?;
        if kind == 0 || kind == 2 || kind == 3 {
            self.refuted(c, t2, &proof, &p, &m)?;
        }
        Ok(true)
    }

    /// C19: compares all pairs of evidence that exist somewhere.
    fn op_match(&mut self, c: &mut Ctl) -> Res<bool> {
        if !self.is(C19) {
            return Ok(true);
        }
        let mut blocks: Vec<(usize, MerkleBlock)> = vec![];
        let mut proofs: Vec<(usize, MerkleProof)> = vec![];
        for n in &self.nodes {
            blocks.extend(n.held.iter().map(|(t, h)| (*t, h.block.clone())));
            proofs.extend(n.proofs.iter().map(|(t, p, _, _)| (*t, p.clone())));
        }
        let mut trees: Vec<(usize, MerkleTree)> = vec![];
        for (t, e) in self.entries.iter().enumerate() {
            if e.tree.dense && e.tree.depth <= 6 {
                // Twins were not committed to by a party of the run: they come as encoded trees.
                match dec::<MerkleTree>(&e.tree.tree_bytes()) {
                    Ok(tree) => trees.push((t, tree)),
                    Err(e) => return fail("decode", format!("an honest tree is refused: {e}")),
                }
            }
            let slots: Vec<u32> = e.tree.leaves.keys().copied().collect();
            for pos in [*c.pick(&slots), *c.pick(&slots)] {
                if let Ok(p) = dec::<MerkleProof>(&e.tree.proof_bytes(pos)) {
                    proofs.push((t, p));
                }
                if let Ok(b) = dec::<MerkleBlock>(&Disclosure::minimal(&e.tree, &BTreeSet::from([pos])).bytes()) {
                    blocks.push((t, b));
                }
            }
        }
        proofs.truncate(16);
        for _ in 0..8 {
            let ((t1, a), (t2, b)) = (c.pick(&blocks), c.pick(&blocks));
            ensure!(a.matches(b) == (t1 == t2), "disclosure matching", "disclosures of commitments {t1} and {t2}: matching is {}", a.matches(b));
        }
        for _ in 0..if trees.is_empty() { 0 } else { 3 } {
            let ((t1, a), (t2, b)) = (c.pick(&trees), c.pick(&trees));
            ensure!(a.matches(b) == (t1 == t2), "tree matching", "trees of commitments {t1} and {t2}: matching is {}", a.matches(b));
        }
        for (t1, a) in &proofs {
            for (t2, b) in &proofs {
                let got = a.matches(b);
                if got == (t1 == t2) {
                    continue;
                }
                // Known: proofs are compared by cofactor and topmost sibling only.
                let legacy = a.cofactor() == b.cofactor() && a.as_path().first() == b.as_path().first();
                ensure!(got == legacy, "proof matching", "proofs for commitments {t1} and {t2}: matching is {got}");
                c.finding(
                    "proof-matches-top-sibling",
                    "proof matching",
                    format!("proofs for commitments {t1} and {t2}: matching is {got}, decided by cofactor and topmost sibling hash only"),
                )?;
            }
        }
        ev!(c, "matched {} disclosures, {} proofs, {} trees", blocks.len(), proofs.len(), trees.len());
        self.ops += 1;
        Ok(true)
    }

    fn step(&mut self, c: &mut Ctl, weights: &[u32]) -> Res<bool> {
        match c.weighted(weights) {
            0 => self.deliver(c),
            1 => self.op_send_block(c),
            2 => self.op_proof(c),
            3 => self.op_conceal(c),
            4 => self.op_refused(c),
            5 => self.op_sync(c),
            6 => self.op_crash(c),
            7 => {
                if c.chance(self.f.partition) {
                    self.net.toggle_partition(c);
                }
                Ok(true)
            }
            8 => self.op_mix(c),
            _ => self.op_match(c),
        }
    }

    /// After the faults stopped: everybody gets everything that anybody still knows.
    fn converge(&mut self, c: &mut Ctl) -> Res<bool> {
        self.net.heal();
        self.f = Faults { jitter: self.f.jitter, ..Faults::none() };
        while !self.net.is_empty() {
            if !self.deliver(c)? {
                return Ok(false);
            }
        }
        if !self.is(C04) && !self.is(C01) {
            return Ok(true);
        }
        let mut list = vec![];
        for (n, node) in self.nodes.iter().enumerate() {
            for (t, h) in &node.held {
                for to in 0..self.nodes.len() {
                    if to != n {
                        list.push((n, to, *t, h.clone()));
                    }
                }
            }
        }
        c.shuffle(&mut list);
        for (n, to, t, h) in list {
            let bytes = match enc(&h.block) {
                Ok(b) => b,
                Err(e) => return fail("encode", format!("a disclosure cannot be encoded: {e}")),
            };
            self.send(c, n, to, Wire::Block { t, bytes, model: Some(h.model) });
        }
        while !self.net.is_empty() {
            if !self.deliver(c)? {
                return Ok(false);
            }
        }
        for t in 0..self.entries.len() {
            let held: Vec<&Holding> = self.nodes.iter().filter_map(|n| n.held.get(&t)).collect();
            if self.is(C04) {
                for pair in held.windows(2) {
                    let (a, b) = (&pair[0].block, &pair[1].block);
                    ensure!(Self::map(a) == Self::map(b), "diverged", "parties which merged everything reveal different messages of commitment {t}");
                    let strip = |h: &Holding| {
                        let mut m = h.model.clone();
                        m.entropy = None;
                        m.bytes()
                    };
                    ensure!(strip(pair[0]) == strip(pair[1]), "diverged", "parties which merged everything hold different disclosures of commitment {t}");
                }
                ensure!(held.is_empty() || held.len() == self.nodes.len(), "diverged", "only {} of {} parties hold commitment {t}", held.len(), self.nodes.len());
            }
            if self.is(C01) {
                for h in held {
                    for (p, m) in Self::map(&h.block) {
                        let proof = match h.block.to_merkle_proof(pid(&p)) {
                            Ok(p) => p,
                            Err(e) => return fail("proof refused", format!("a proof for a known protocol is refused: {e}")),
                        };
                        self.verify_proof(t, &proof, &p, &m)?;
                    }
                }
            }
        }
        ev!(c, "converged");
        Ok(true)
    }
}

fn run(c: &mut Ctl, p: P) -> Res {
    getrandom::install(getrandom::Source { state: c.seed(), ..Default::default() });
    c.open();
    let entries = make_trees(c, p)?;
    c.close();
    let n = c.range(2, 5);
    let f = if c.chance(20) { Faults::none() } else { Faults::draw(c) };
    let mut w = World {
        p,
        entries,
        nodes: (0..n).map(|_| Node { held: BTreeMap::new(), disk: BTreeMap::new(), proofs: vec![] }).collect(),
        net: Net::new(n),
        f,
        ops: 0,
    };
    // The committers start with everything they know.
    for t in 0..w.entries.len() {
        let owner = c.below(n);
        let e = &w.entries[t];
        let h = match &e.real {
            Some(tree) => Holding { block: MerkleBlock::from(tree), model: Disclosure::complete(&e.tree) },
            None => {
                let model = if e.tree.dense {
                    Disclosure::complete(&e.tree)
                } else {
                    Disclosure::minimal(&e.tree, &e.tree.leaves.keys().copied().collect())
                };
                match dec::<MerkleBlock>(&model.bytes()) {
                    Ok(block) => Holding { block, model },
                    Err(e) => return fail("decode", format!("an honest disclosure is refused: {e}")),
                }
            }
        };
        if let (true, Some(tree)) = (p == C04 || p == C05, &e.real) {
            ensure!(
                h.block.entropy() == Some(tree.entropy()),
                "entropy changed",
                "the block made of a tree says entropy {:?}, the tree says {}",
                h.block.entropy(),
                tree.entropy()
            );
        }
        let bytes = h.model.bytes();
        let mut h2 = h.clone();
        w.nodes[owner].disk.insert(t, (bytes, h.model.clone()));
        if p == C04 || p == C05 {
            ensure!(World::cid(&h2.block) == w.entries[t].published, "commitment changed", "the complete disclosure stands for another commitment");
            w.compare(&mut h2, "complete disclosure", "disclosure made of a tree")?;
        }
        w.nodes[owner].held.insert(t, h);
    }
    //              deliver block proof conceal refused sync crash part mix match
    let weights: [u32; 10] = match p {
        C01 => [30, 18, 22, 6, 3, 4, 4, 3, 0, 0],
        C02 => [30, 10, 20, 3, 5, 2, 3, 2, 25, 0],
        C04 => [35, 22, 14, 6, 4, 3, 4, 4, 0, 0],
        C05 => [25, 25, 12, 18, 2, 3, 4, 3, 0, 0],
        C17 => [25, 12, 8, 3, 30, 3, 4, 2, 0, 0],
        C19 => [25, 14, 12, 6, 1, 2, 3, 2, 0, 14],
    };
    let steps = c.range(6, if c.thorough { 70 } else { 45 });
    for _ in 0..steps {
        c.open();
        let go = w.step(c, &weights)?;
        c.close();
        if !go {
            return Ok(());
        }
    }
    w.converge(c)?;
    if w.ops >= 4 {
        c.nontrivial = true;
    }
    Ok(())
}
