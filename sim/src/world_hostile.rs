//! C09: a validator among honest peers and one who sends it whatever bytes it likes.

use std::collections::BTreeSet;
use std::str::FromStr;
use std::sync::Arc;

use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, Message, Method, Proof, ProtocolId};
use commit_verify::{CommitId, Conceal, MerkleHash, MerkleNode, ReservedBytes, StrictHash};
use strict_encoding::{StrictDecode, StrictDeserialize, StrictEncode, StrictSerialize};

use crate::codec::*;
use crate::kernel::*;
use crate::meter;
use crate::refm::{self, Disclosure, Node, RefTree, H};
use crate::runner::Check;
use crate::seals::*;
use crate::{ensure, ev, gen};

pub const CHECKS: &[Check] = &[Check {
    id: "C09",
    run: run09,
    quick: 16_000,
    thorough: 600_000,
    rule: "one evaluation is one simulated run: a validator that holds a genuine disclosure and receives up to 16 packets over a faulty network, most of \
         them crafted, decodes them, uses whatever it accepts in every operation and continues with genuine ones; non-trivial if a crafted packet \
         was delivered; distinct by the complete event log",
    states: "distinct (kind of packet, way it was crafted, accepted or refused, depth)",
    real: &[
        "strict and serde decoding of MerkleBlock, MerkleProof, MerkleConcealed, Leaf, MerkleNode, ids, ReservedBytes, SealWitness",
        "every public operation of MerkleBlock and MerkleProof, SealWitness verification",
    ],
    stub: &["adversary", "network, clock", "seals and transactions", "allocator (counts only)"],
    assumptions: &[
        "packets are at most some tens of kilobytes",
        "complete trees (MerkleTree) are never accepted from a counterparty",
        "a step that needs more than 5 s of processor time or 4 MiB + 1024 bytes of memory per byte received counts as exhaustion",
    ],
    batch: None,
}];

const MEMORY: u64 = 4 << 20;
const PER_BYTE: u64 = 1024;
const CPU_MS: u64 = 5000;

/// Runs a step of the validator within its bounds.
fn bounded<T>(what: &str, len: usize, f: impl FnOnce() -> T) -> Res<T> {
    let start = meter::cpu_ms();
    let (r, peak) = meter::peak(f);
    let took = meter::cpu_ms() - start;
    ensure!(peak <= MEMORY + PER_BYTE * len as u64, "memory exhausted", "{what} of {len} bytes took {peak} bytes of memory");
    ensure!(took <= CPU_MS, "hang", "{what} of {len} bytes took {took} ms");
    Ok(r)
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum Kind {
    Block,
    Proof,
    Witness,
    Reserved,
    Concealed,
    Small,
    JsonBlock,
    JsonProof,
    JsonWitness,
    JsonOther,
    Text,
}

#[derive(Clone)]
struct Packet {
    kind: Kind,
    bytes: Vec<u8>,
    craft: &'static str,
    genuine: Option<Disclosure>,
}

struct Validator {
    held: MerkleBlock,
    model: Disclosure,
    pid: H,
    msg: H,
}

fn run09(c: &mut Ctl) -> Res {
    let tree: Arc<RefTree> = if c.chance(50) {
        let (depth, cofactor, map) = gen::sparse_parts(c);
        let mut rng = c.rng();
        Arc::new(RefTree::sparse(depth, cofactor, map, &mut rng))
    } else {
        let spec = gen::spec(c, 5);
        Arc::new(RefTree::dense(spec.depth, spec.cofactor, c.seed(), spec.slots))
    };
    let positions: Vec<u32> = tree.leaves.keys().copied().collect();
    let subset = |c: &mut Ctl| -> BTreeSet<u32> { c.subset(positions.len()).into_iter().map(|i| positions[i]).collect() };
    let own = *c.pick(&positions);
    let mut keep = subset(c);
    keep.insert(own);
    let model = Disclosure::minimal(&tree, &keep);
    let held = match dec::<MerkleBlock>(&model.bytes()) {
        Ok(b) => b,
        Err(e) => return fail("genuine evidence refused", e),
    };
    let (pid, msg) = tree.leaves[&own];
    let mut v = Validator { held, model, pid, msg };

    let f = Faults { corrupt: *c.pick(&[0, 10, 30]), ..Faults::draw(c) };
    let mut net: Net<Packet> = Net::new(3);
    let n = c.range(1, 16);
    for _ in 0..n {
        c.open();
        let p = if c.chance(15) {
            let d = Disclosure::minimal(&tree, &subset(c));
            Packet { kind: Kind::Block, bytes: d.bytes(), craft: "genuine", genuine: Some(d) }
        } else {
            craft(c, &tree, &v)
        };
        let from = if p.genuine.is_some() { 1 } else { 2 };
        net.send(c, &f, from, 0, p, |c, p| {
            corrupt_bytes(c, &p.bytes).map(|bytes| Packet { bytes, craft: "damaged", genuine: None, ..p.clone() })
        });
        c.close();
    }
    while let Some((_, _, p)) = net.next(c) {
        v.receive(c, &tree, &p)?;
    }
    // The validator is still able to serve and to merge what honest peers send.
    let all = Disclosure::minimal(&tree, &positions.iter().copied().collect());
    v.receive(c, &tree, &Packet { kind: Kind::Block, bytes: all.bytes(), craft: "genuine", genuine: Some(all) })?;
    let got = enc(&v.held).unwrap_or_default();
    ensure!(
        got == v.model.bytes(),
        "validator out of order",
        "after the hostile packets the validator holds {} instead of {}",
        hex(&got),
        hex(&v.model.bytes())
    );
    Ok(())
}

impl Validator {
    fn receive(&mut self, c: &mut Ctl, tree: &Arc<RefTree>, p: &Packet) -> Res {
        if p.genuine.is_none() {
            c.fault("peer.hostile packet");
        }
        let len = p.bytes.len();
        let accepted = match p.kind {
            Kind::Block => match self.canonical::<MerkleBlock>(c, p)? {
                Some(b) => {
                    if let Some(d) = &p.genuine {
                        match bounded("merging", len, || self.held.merge_reveal(b.clone()))? {
                            Ok(_) => self.model.merge(d),
                            Err(e) => return fail("genuine evidence refused", format!("merging: {e}")),
                        }
                    } else {
                        self.use_block(c, tree, &b, len)?;
                    }
                    true
                }
                None if p.genuine.is_some() => return fail("genuine evidence refused", hex(&p.bytes)),
                None => false,
            },
            Kind::Proof => match self.canonical::<MerkleProof>(c, p)? {
                Some(b) => {
                    self.use_proof(c, &b, len)?;
                    true
                }
                None => false,
            },
            Kind::Witness => match self.canonical_with::<Witness>(c, p, |w| format!("{:?}{:?}", w.published, w.client))? {
                Some(w) => {
                    self.use_witness(c, &w, len)?;
                    true
                }
                None => false,
            },
            Kind::Concealed => match self.canonical::<MerkleConcealed>(c, p)? {
                Some(x) => {
                    bounded("conceal", len, || (x.commit_id(), x.conceal() == x, format!("{x:?}")))?;
                    true
                }
                None => false,
            },
            Kind::Reserved => self.reserved(c, p)?,
            Kind::Small => {
                let a = self.canonical::<Leaf>(c, p)?.map(|x| x.commit_id()).is_some();
                let b = self.canonical::<MerkleNode>(c, p)?.map(|x| x.commit_id()).is_some();
                let d = self.canonical::<Method>(c, p)?.is_some();
                let e = self.canonical::<MerkleHash>(c, p)?.is_some();
                self.canonical::<Commitment>(c, p)?;
                self.canonical::<StrictHash>(c, p)?;
                for n in [0, 31, 32, 33, len] {
                    let s = &p.bytes[..n.min(len)];
                    let ok = [
                        bounded("copying", len, || ProtocolId::copy_from_slice(s).map(raw).ok())?,
                        bounded("copying", len, || Message::copy_from_slice(s).map(raw).ok())?,
                        bounded("copying", len, || Commitment::copy_from_slice(s).map(raw).ok())?,
                    ];
                    for id in ok {
                        let expected: Option<H> = s.try_into().ok();
                        ensure!(id == expected, "not canonical", "an id made of {} bytes {}: {id:?}", s.len(), hex(s));
                    }
                }
                a || b || d || e
            }
            Kind::Text => {
                let s = String::from_utf8_lossy(&p.bytes).to_string();
                let r: [Option<H>; 5] = bounded("parsing", len, || {
                    [
                        ProtocolId::from_str(&s).ok().map(raw),
                        Message::from_str(&s).ok().map(raw),
                        Commitment::from_str(&s).ok().map(raw),
                        MerkleHash::from_str(&s).ok().map(raw),
                        StrictHash::from_str(&s).ok().map(raw),
                    ]
                })?;
                for id in r.into_iter().flatten() {
                    ensure!(s.to_lowercase() == hex(&id), "not canonical", "text {s:?} was taken for {}", hex(&id));
                }
                r.iter().any(Option::is_some)
            }
            _ => self.json(c, tree, p)?,
        };
        ev!(c, "{:?} of {len} bytes, {}: {}", p.kind, p.craft, if accepted { "accepted" } else { "refused" });
        c.state(&[p.kind as u64, hash_str(p.craft), accepted as u64, tree.depth as u64 / 4]);
        if accepted && p.genuine.is_none() {
            c.probe("crafted packet accepted");
        }
        Ok(())
    }

    fn canonical<T: StrictDecode + StrictEncode + std::fmt::Debug>(&self, c: &mut Ctl, p: &Packet) -> Res<Option<T>> {
        self.canonical_with(c, p, |v: &T| format!("{v:?}"))
    }

    /// Decodes a value; its encoding must be the bytes it was decoded from.
    fn canonical_with<T: StrictDecode + StrictEncode>(&self, _: &mut Ctl, p: &Packet, show: impl Fn(&T) -> String) -> Res<Option<T>> {
        let len = p.bytes.len();
        let Ok((v, used)) = bounded("decoding", len, || dec_prefix::<T>(&p.bytes))? else { return Ok(None) };
        let again = bounded("encoding", len, || enc(&v))?.unwrap_or_default();
        bounded("printing", len, || show(&v).len())?;
        ensure!(
            again == p.bytes[..used],
            "not canonical",
            "bytes {} were taken for a {} with the encoding {}",
            hex(&p.bytes[..used]),
            std::any::type_name::<T>(),
            hex(&again)
        );
        Ok((used == len).then_some(v))
    }

    fn use_block(&mut self, c: &mut Ctl, tree: &RefTree, b: &MerkleBlock, len: usize) -> Res {
        let held = self.held.clone();
        let known: Vec<ProtocolId> = bounded("query", len, || b.known_protocol_ids().collect())?;
        let foreign = pid(&self.pid);
        let mut ids: Vec<ProtocolId> = known.iter().copied().take(3).collect();
        ids.push(foreign);
        bounded("commitment", len, || b.commit_id())?;
        bounded("concealment", len, || b.conceal())?;
        bounded("query", len, || {
            (b.to_known_message_map(), b.width_limit(), b.factored_width(), b.method(), b.depth(), b.cofactor(), b.entropy())
        })?;
        bounded("matching", len, || (b.matches(&held), held.matches(b), b.matches(b)))?;
        let _ = bounded("serialization", len, || b.to_strict_serialized::<0xFFFFFF>().map(|d| MerkleBlock::from_strict_serialized(d).is_ok()))?;
        for id in ids.clone() {
            bounded("query", len, || b.protocol_id_pos(id))?;
            let proof = bounded("proof", len, || b.to_merkle_proof(id))?;
            let _ = bounded("proof", len, || b.clone().into_merkle_proof(id))?;
            let _ = bounded("concealment", len, || {
                let mut x = b.clone();
                let r = x.conceal_other(id);
                (r.is_ok(), x.commit_id())
            })?;
            if let Ok(proof) = proof {
                self.use_proof(c, &proof, len)?;
            }
        }
        for n in 0..=ids.len().min(3) {
            let list = ids[..n].to_vec();
            let _ = bounded("concealment", len, || {
                let mut x = b.clone();
                let _ = x.conceal_except(list.clone());
                let _ = x.conceal_except(list.iter().rev().chain(list.iter()).copied().collect::<Vec<_>>());
                x.conceal()
            })?;
        }
        bounded("proofs", len, || b.clone().into_known_proofs().count())?;
        // The hostile disclosure is merged with the genuine one, in both directions, with itself and with parts of itself.
        let direction = c.below(2);
        let merged = bounded("merging", len, || {
            let (mut x, y) = if direction == 0 { (held.clone(), b.clone()) } else { (b.clone(), held.clone()) };
            x.merge_reveal(y).ok().map(|_| x)
        })?;
        if let Some(m) = merged {
            c.probe("crafted disclosure merged");
            ensure!(raw(m.commit_id()) == tree.commitment, "validator out of order", "merging changed the commitment to {}", m.commit_id());
            self.use_merged(&m, len)?;
        }
        let _ = bounded("merging", len, || {
            let mut x = b.clone();
            let _ = x.merge_reveal(b.clone());
            let mut part = b.clone();
            let _ = part.conceal_except(known.iter().copied().take(1).collect::<Vec<_>>());
            let _ = x.merge_reveal(part.clone());
            let _ = part.merge_reveal(b.clone());
            (x.commit_id(), part.commit_id())
        })?;
        // A genuine proof is merged into the hostile disclosure.
        let genuine = held.to_merkle_proof(foreign);
        if let Ok(proof) = genuine {
            let m = msg(&self.msg);
            let _ = bounded("merging", len, || b.clone().merge_reveal_path(&proof, foreign, m).is_ok())?;
        }
        Ok(())
    }

    fn use_merged(&self, m: &MerkleBlock, len: usize) -> Res {
        bounded("proofs", len, || {
            for (p, proof) in m.clone().into_known_proofs() {
                let msg = m.to_known_message_map().get(&p).copied();
                if let Some(msg) = msg {
                    let _ = proof.convolve(p, msg);
                }
            }
        })
    }

    fn use_proof(&mut self, c: &mut Ctl, proof: &MerkleProof, len: usize) -> Res {
        let (p, m) = (pid(&self.pid), msg(&self.msg));
        let other = pid(&c.rng().bytes32());
        // An identifier that belongs to the place of the proof.
        let fitting = pid(&fitting_pid(proof.pos(), proof.cofactor(), proof.as_path().len().min(31) as u8));
        bounded("query", len, || {
            (
                proof.depth(),
                proof.width_limit(),
                proof.factored_width(),
                proof.merkle_root(),
                proof.as_path().len(),
                proof.to_path().len(),
                proof.clone().into_path().len(),
                proof.method(),
                proof.pos(),
                proof.cofactor(),
                format!("{proof:?}").len(),
            )
        })?;
        let genuine = self.held.to_merkle_proof(p).ok();
        for id in [p, other, fitting] {
            let _ = bounded("verification", len, || proof.convolve(id, m))?;
            let block = bounded("verification", len, || MerkleBlock::with(proof, id, m))?;
            if let Ok(b) = block {
                bounded("verification", len, || {
                    let cid = b.commit_id();
                    let again = b.to_merkle_proof(id).ok();
                    (cid, again, b.width_limit(), b.factored_width(), b.protocol_id_pos(id), b.to_known_message_map().len())
                })?;
            }
            let _ = bounded("merging", len, || {
                let mut x = self.held.clone();
                x.merge_reveal_path(proof, id, m).is_ok() && x.commit_id() == self.held.commit_id()
            })?;
        }
        if let Some(g) = genuine {
            bounded("matching", len, || (g.matches(proof), proof.matches(&g), g == *proof, g.cmp(proof)))?;
        }
        Ok(())
    }

    fn use_witness(&mut self, c: &mut Ctl, w: &Witness, len: usize) -> Res {
        self.use_proof(c, &w.client.proof, len)?;
        let m = msg(&self.msg);
        let seals: Vec<OutPoint> =
            w.published.inputs.iter().copied().take(2).chain([OutPoint { tx: c.below(9) as u64, vout: 0 }]).collect();
        for s in &seals {
            let _ = bounded("seal verification", len, || w.verify_seal_closing(*s, m).map_err(|e| format!("{e} {e:?}")))?;
        }
        for n in 0..=seals.len() {
            let _ = bounded("seal verification", len, || {
                w.verify_seals_closing(seals[..n].iter().copied(), m).map_err(|e| format!("{e} {e:?}"))
            })?;
        }
        Ok(())
    }

    fn reserved(&mut self, c: &mut Ctl, p: &Packet) -> Res<bool> {
        fn one<const LEN: usize, const VAL: u8>(v: &Validator, c: &mut Ctl, p: &Packet) -> Res<bool> {
            let got = v.canonical::<ReservedBytes<LEN, VAL>>(c, p)?;
            let fixed = p.bytes.len() >= LEN && p.bytes[..LEN].iter().all(|b| *b == VAL);
            let prefix = bounded("decoding", p.bytes.len(), || dec_prefix::<ReservedBytes<LEN, VAL>>(&p.bytes).is_ok())?;
            ensure!(prefix == fixed, "reserved bytes", "{} for {LEN} bytes of value {VAL}: accepted is {prefix}", hex(&p.bytes));
            if let Some(r) = got {
                bounded("commitment", LEN, || (r.commit_id(), r.to_string()))?;
            }
            Ok(prefix)
        }
        let r = [
            one::<1, 0>(self, c, p)?,
            one::<2, 0>(self, c, p)?,
            one::<4, 0>(self, c, p)?,
            one::<8, 0xFF>(self, c, p)?,
            one::<32, 0>(self, c, p)?,
            one::<3, 7>(self, c, p)?,
        ];
        Ok(r.contains(&true))
    }

    #[cfg(not(feature = "full"))]
    fn json(&mut self, _: &mut Ctl, _: &Arc<RefTree>, _: &Packet) -> Res<bool> { Ok(false) }

    #[cfg(feature = "full")]
    fn json(&mut self, c: &mut Ctl, tree: &Arc<RefTree>, p: &Packet) -> Res<bool> {
        let len = p.bytes.len();
        Ok(match p.kind {
            Kind::JsonBlock => match bounded("decoding", len, || serde_json::from_slice::<MerkleBlock>(&p.bytes))? {
                Ok(b) => {
                    // What JSON carries has to be a value that can be encoded and taken from its encoding.
                    let bytes = bounded("encoding", len, || enc(&b))?.unwrap_or_default();
                    match bounded("decoding", len, || dec::<MerkleBlock>(&bytes))? {
                        Ok(again) => ensure!(again == b, "not canonical", "a disclosure from JSON changes when stored: {}", hex(&bytes)),
                        Err(e) => {
                            let text = String::from_utf8_lossy(&p.bytes);
                            return fail("not canonical", format!("a disclosure from JSON has no valid encoding ({e}): {text}"));
                        }
                    }
                    let text = bounded("encoding", len, || serde_json::to_vec(&b))?.unwrap_or_default();
                    ensure!(
                        serde_json::from_slice::<MerkleBlock>(&text).is_ok_and(|again| again == b),
                        "not canonical",
                        "a disclosure from JSON can't be read back from {}",
                        String::from_utf8_lossy(&text)
                    );
                    self.use_block(c, tree, &b, len)?;
                    true
                }
                Err(_) => false,
            },
            Kind::JsonProof => match bounded("decoding", len, || serde_json::from_slice::<MerkleProof>(&p.bytes))? {
                Ok(b) => {
                    let bytes = bounded("encoding", len, || enc(&b))?.unwrap_or_default();
                    ensure!(
                        bounded("decoding", len, || dec::<MerkleProof>(&bytes))?.is_ok_and(|again| again == b),
                        "not canonical",
                        "a proof from JSON has no valid encoding: {}",
                        String::from_utf8_lossy(&p.bytes)
                    );
                    self.use_proof(c, &b, len)?;
                    true
                }
                Err(_) => false,
            },
            Kind::JsonWitness => match bounded("decoding", len, || serde_json::from_slice::<Witness>(&p.bytes))? {
                Ok(w) => {
                    self.use_witness(c, &w, len)?;
                    true
                }
                Err(_) => false,
            },
            _ => {
                let r = bounded("decoding", len, || {
                    [
                        serde_json::from_slice::<ProtocolId>(&p.bytes).is_ok(),
                        serde_json::from_slice::<Commitment>(&p.bytes).is_ok(),
                        serde_json::from_slice::<MerkleHash>(&p.bytes).is_ok(),
                        serde_json::from_slice::<StrictHash>(&p.bytes).is_ok(),
                        serde_json::from_slice::<Method>(&p.bytes).is_ok(),
                    ]
                })?;
                let x = bounded("decoding", len, || serde_json::from_slice::<MerkleConcealed>(&p.bytes))?;
                if let Ok(x) = x {
                    bounded("commitment", len, || (x.commit_id(), x.conceal()))?;
                }
                let reserved = bounded("decoding", len, || serde_json::from_slice::<ReservedBytes<4, 9>>(&p.bytes))?;
                if let Ok(v) = &reserved {
                    ensure!(*v == ReservedBytes::default(), "reserved bytes", "{:?} from {}", v, String::from_utf8_lossy(&p.bytes));
                }
                reserved.is_ok() || r.contains(&true)
            }
        })
    }
}

// ---- Adversary ----------------------------------------------------------------------------------------------------

/// Some protocol that belongs to the slot, if there is any.
fn fitting_pid(pos: u32, cofactor: u16, depth: u8) -> H {
    let width = 1u64 << depth;
    let modulus = width.saturating_sub(cofactor as u64).max(1);
    let mut p = [0u8; 32];
    p[..8].copy_from_slice(&((pos as u64 % modulus) + modulus * 3).to_le_bytes());
    p
}

fn weird_u8(c: &mut Ctl) -> u8 {
    match c.below(4) {
        0 => c.below(34) as u8,
        1 => *c.pick(&[0u8, 1, 31, 32, 33, 63, 64, 127, 128, 254, 255]),
        _ => c.below(256) as u8,
    }
}

fn weird_u16(c: &mut Ctl) -> u16 {
    match c.below(3) {
        0 => c.below(40) as u16,
        1 => *c.pick(&[0u16, 1, 2, 255, 256, 500, 501, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]),
        _ => c.below(0x10000) as u16,
    }
}

fn weird_u32(c: &mut Ctl, near: u32) -> u32 {
    match c.below(4) {
        0 => near.wrapping_add(c.below(5) as u32).wrapping_sub(2),
        1 => *c.pick(&[0u32, 1, 255, 256, 0xFFFF, 0x10000, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
        2 => 1 << c.below(32),
        _ => c.below(0x1_0000_0000) as u32,
    }
}

/// A cover of a tree by nodes, right or nearly so.
fn forged_nodes(c: &mut Ctl, depth: u8, cofactor: u16, tree: &RefTree) -> Vec<Node> {
    let mut rng = c.rng();
    let split = rng.below(3);
    let wrong = rng.below(4) == 0;
    let mut out = vec![];
    let mut stack = vec![(0u8, 0u32)];
    let mut budget = 1 + rng.below(60);
    while let Some((d, i)) = stack.pop() {
        if d < depth && budget > 0 && (rng.below(4) > split || stack.len() < 3) {
            budget -= 1;
            stack.push((d + 1, i * 2 + 1));
            stack.push((d + 1, i * 2));
        } else if d == depth && rng.below(3) > 0 {
            let pid = if wrong && rng.below(5) == 0 {
                rng.bytes32()
            } else if rng.below(3) == 0 && tree.leaves.contains_key(&i) {
                tree.leaves[&i].0
            } else {
                let mut p = fitting_pid(i, cofactor, depth);
                p[31] = rng.next() as u8 & 1;
                if refm::slot(&p, cofactor, depth) != i {
                    p[31] = 0;
                }
                p
            };
            out.push(Node::Leaf { pid, msg: rng.bytes32() });
        } else {
            let depth = if wrong && rng.below(6) == 0 { rng.below(34) as u8 } else { d };
            out.push(Node::Hidden { depth, hash: rng.bytes32() });
        }
    }
    out
}

/// Changes a genuine cover a little.
fn altered_nodes(c: &mut Ctl, nodes: &mut Vec<Node>, depth: u8) {
    for _ in 0..c.range(1, 3) {
        if nodes.is_empty() {
            nodes.push(Node::Hidden { depth: 0, hash: [1; 32] });
        }
        let i = c.below(nodes.len());
        match c.below(9) {
            0 => {
                nodes.remove(i);
            }
            1 => nodes.insert(i, nodes[i]),
            2 => {
                let j = c.below(nodes.len());
                nodes.swap(i, j);
            }
            3 => {
                let d = weird_u8(c);
                if let Node::Hidden { depth, .. } = &mut nodes[i] {
                    *depth = d;
                }
            }
            // A concealed node is replaced by its two halves.
            4 => {
                if let Node::Hidden { depth: d, hash } = nodes[i] {
                    nodes[i] = Node::Hidden { depth: d.saturating_add(1), hash };
                    let mut other = hash;
                    other[0] ^= 1;
                    nodes.insert(i, Node::Hidden { depth: d.saturating_add(1), hash: other });
                }
            }
            // Siblings become one node, whatever their hash.
            5 => {
                if let (Node::Hidden { depth: a, hash }, Some(Node::Hidden { depth: b, .. })) = (nodes[i], nodes.get(i + 1).copied()) {
                    if a == b && a > 0 {
                        nodes[i] = Node::Hidden { depth: a - 1, hash };
                        nodes.remove(i + 1);
                    }
                }
            }
            6 => {
                if let Node::Leaf { pid, .. } = &mut nodes[i] {
                    pid[c.below(32)] ^= 1 << c.below(8);
                }
            }
            7 => {
                nodes[i] = match nodes[i] {
                    Node::Leaf { pid, .. } => Node::Hidden { depth, hash: pid },
                    Node::Hidden { hash, .. } => Node::Leaf { pid: hash, msg: hash },
                }
            }
            _ => nodes.rotate_left(i),
        }
    }
}

fn patch(bytes: &mut [u8], at: usize, with: &[u8]) {
    if at + with.len() <= bytes.len() {
        bytes[at..at + with.len()].copy_from_slice(with);
    }
}

fn craft(c: &mut Ctl, tree: &Arc<RefTree>, v: &Validator) -> Packet {
    let packet = |kind, bytes, craft| Packet { kind, bytes, craft, genuine: None };
    match c.weighted(&[8, 5, 4, 2, 1, 2, 4, 3, 2, 2, 1]) {
        0 => {
            let (bytes, how) = craft_block(c, tree);
            packet(Kind::Block, bytes, how)
        }
        1 => {
            let (bytes, how) = craft_proof(c, tree, v);
            packet(Kind::Proof, bytes, how)
        }
        2 => {
            let (proof, how) = craft_proof(c, tree, v);
            let inputs = c.below(4);
            let count = if c.chance(20) { weird_u16(c) } else { inputs as u16 };
            let mut b = count.to_le_bytes().to_vec();
            let mut rng = c.rng();
            b.extend(rng.bytes(12 * inputs));
            b.extend(rng.bytes(4 + 8));
            b.extend(tree.commitment);
            b.extend(v.pid);
            b.extend(proof);
            packet(Kind::Witness, b, how)
        }
        3 => {
            let n = *c.pick(&[0usize, 1, 2, 3, 4, 5, 8, 31, 32, 33]);
            let val = *c.pick(&[0u8, 0xFF, 7, 1]);
            let mut b = vec![val; n];
            if n > 0 && c.chance(60) {
                let i = c.below(n);
                b[i] = weird_u8(c);
            }
            packet(Kind::Reserved, b, "reserved")
        }
        4 => {
            let mut b = vec![weird_u8(c)];
            b.extend(weird_u16(c).to_le_bytes());
            b.extend(c.rng().bytes(32));
            if c.chance(20) {
                b = corrupt_bytes(c, &b).unwrap_or(b);
            }
            packet(Kind::Concealed, b, "concealed")
        }
        5 => {
            let n = *c.pick(&[0usize, 1, 13, 32, 33, 65, 98, 100]);
            let mut b = c.rng().bytes(n);
            if n > 0 && c.chance(70) {
                b[0] = *c.pick(&[0u8, 1, 2, 3, 0x10, 0x11, 0x12, 0xFF]);
            }
            packet(Kind::Small, b, "small")
        }
        6 => json_packet(c, tree, v, Kind::JsonBlock),
        7 => json_packet(c, tree, v, Kind::JsonProof),
        8 => json_packet(c, tree, v, Kind::JsonWitness),
        9 => json_packet(c, tree, v, Kind::JsonOther),
        _ => packet(Kind::Text, text(c).into_bytes(), "text"),
    }
}

fn text(c: &mut Ctl) -> String {
    let mut s: Vec<char> = hex(&c.rng().bytes32()).chars().collect();
    for _ in 0..c.below(4) {
        if s.is_empty() {
            break;
        }
        let i = c.below(s.len());
        match c.below(5) {
            0 => s[i] = *c.pick(&['g', ' ', 'A', '\u{0}', 'é', '€', '𝄞', '-', '~']),
            1 => s.insert(i, *c.pick(&['0', 'é', '𝄞', ':'])),
            2 => {
                s.remove(i);
            }
            3 => s.truncate(i.max(1)),
            _ => s[i] = s[i].to_ascii_uppercase(),
        }
    }
    match c.below(12) {
        0 => String::new(),
        1 => "é".repeat(32),
        2 => "0".repeat(c.below(5000)),
        _ => s.into_iter().collect(),
    }
}

fn some_disclosure(c: &mut Ctl, tree: &Arc<RefTree>) -> Disclosure {
    let positions: Vec<u32> = tree.leaves.keys().copied().collect();
    let keep: BTreeSet<u32> = c.subset(positions.len()).into_iter().map(|i| positions[i]).collect();
    if tree.dense && c.chance(20) {
        Disclosure::complete(tree)
    } else {
        Disclosure::minimal(tree, &keep)
    }
}

fn craft_block(c: &mut Ctl, tree: &Arc<RefTree>) -> (Vec<u8>, &'static str) {
    let d = some_disclosure(c, tree);
    let mut bytes = d.bytes();
    match c.below(9) {
        0 | 1 => {
            let depth = if c.chance(50) { tree.depth } else { c.below(33) as u8 };
            let cofactor = if c.chance(50) { tree.cofactor } else { weird_u16(c) };
            let nodes = forged_nodes(c, depth.min(31), cofactor, tree);
            let entropy = c.chance(50).then(|| c.seed());
            (refm::block_bytes(depth, cofactor, &nodes, entropy), "forged")
        }
        2 | 3 => {
            let mut nodes = d.nodes();
            altered_nodes(c, &mut nodes, tree.depth);
            (refm::block_bytes(tree.depth, tree.cofactor, &nodes, d.entropy), "altered nodes")
        }
        4 => {
            let depth = weird_u8(c);
            let cofactor = if c.chance(50) { weird_u16(c) } else { tree.cofactor };
            (refm::block_bytes(depth, cofactor, &d.nodes(), d.entropy), "altered header")
        }
        5 => {
            let n = u32::from_le_bytes(bytes[4..8].try_into().expect("4 bytes"));
            let n = weird_u32(c, n);
            patch(&mut bytes, 4, &n.to_le_bytes());
            if c.chance(30) {
                let at = c.below(bytes.len());
                bytes.truncate(at);
            }
            (bytes, "wrong count")
        }
        6 => {
            // Consistent in everything but its depth: the cover is scaled.
            let by = 1 + c.below(3) as u8;
            let nodes: Vec<Node> = d
                .nodes()
                .into_iter()
                .map(|n| match n {
                    Node::Hidden { depth, hash } => Node::Hidden { depth: depth.saturating_sub(by), hash },
                    n => n,
                })
                .collect();
            (refm::block_bytes(tree.depth.saturating_sub(by), tree.cofactor, &nodes, d.entropy), "shifted")
        }
        7 => {
            let n = c.below(200);
            (c.rng().bytes(n), "noise")
        }
        _ => {
            let mut b = bytes;
            for _ in 0..c.range(1, 3) {
                b = corrupt_bytes(c, &b).unwrap_or(b);
            }
            (b, "damaged")
        }
    }
}

fn craft_proof(c: &mut Ctl, tree: &Arc<RefTree>, v: &Validator) -> (Vec<u8>, &'static str) {
    let pos = tree.pos_of(&v.pid).unwrap_or_default();
    let mut path = tree.path(pos);
    match c.below(7) {
        0 => {
            let n = weird_u8(c) as usize;
            path = (0..n).map(|i| [i as u8; 32]).collect();
            let cofactor = if c.chance(50) { weird_u16(c) } else { tree.cofactor };
            let pos = if c.chance(50) { refm::slot(&v.pid, cofactor, n.min(31) as u8) } else { weird_u32(c, pos) };
            (refm::proof_bytes(pos, cofactor, &path), "other path")
        }
        1 => {
            let p = weird_u32(c, pos);
            (refm::proof_bytes(p, tree.cofactor, &path), "other position")
        }
        2 => {
            let cofactor = weird_u16(c);
            let pos = if c.chance(60) { refm::slot(&v.pid, cofactor, tree.depth) } else { pos };
            (refm::proof_bytes(pos, cofactor, &path), "other cofactor")
        }
        3 => {
            let mut b = refm::proof_bytes(pos, tree.cofactor, &path);
            b[7] = weird_u8(c);
            (b, "wrong count")
        }
        4 => {
            let n = c.below(120);
            (c.rng().bytes(n), "noise")
        }
        5 => {
            if !path.is_empty() {
                let i = c.below(path.len());
                match c.below(3) {
                    0 => {
                        path.remove(i);
                    }
                    1 => path.insert(i, path[i]),
                    _ => path[i][0] ^= 1,
                }
            }
            let p = if c.chance(50) { refm::slot(&v.pid, tree.cofactor, path.len().min(31) as u8) } else { pos };
            (refm::proof_bytes(p, tree.cofactor, &path), "altered path")
        }
        _ => {
            let b = refm::proof_bytes(pos, tree.cofactor, &path);
            (corrupt_bytes(c, &b).unwrap_or(b), "damaged")
        }
    }
}

#[cfg(not(feature = "full"))]
fn json_packet(_: &mut Ctl, _: &Arc<RefTree>, _: &Validator, kind: Kind) -> Packet {
    Packet { kind, bytes: vec![], craft: "none", genuine: None }
}

#[cfg(feature = "full")]
fn json_packet(c: &mut Ctl, tree: &Arc<RefTree>, v: &Validator, kind: Kind) -> Packet {
    use serde_json::Value;
    let forged;
    let mut value: Value = match kind {
        Kind::JsonBlock => {
            // A forged one can't be made a value of the type, so that it is written by hand.
            forged = c.chance(50);
            let (depth, cofactor, nodes) = if forged {
                let depth = if c.chance(50) { tree.depth } else { c.below(32) as u8 };
                let cofactor = if c.chance(50) { tree.cofactor } else { weird_u16(c) };
                let mut nodes = forged_nodes(c, depth, cofactor, tree);
                if c.chance(30) {
                    altered_nodes(c, &mut nodes, depth);
                }
                (depth, cofactor, nodes)
            } else {
                let mut nodes = some_disclosure(c, tree).nodes();
                if c.chance(60) {
                    altered_nodes(c, &mut nodes, tree.depth);
                }
                (tree.depth, tree.cofactor, nodes)
            };
            json_block(c, &v.held, depth, cofactor, &nodes)
        }
        Kind::JsonProof => {
            let pos = tree.pos_of(&v.pid).unwrap_or_default();
            let mut path = tree.path(pos);
            let n = if c.chance(40) { weird_u8(c) as usize } else { path.len() };
            path.resize(n, [5; 32]);
            json_proof(c, v, pos, tree.cofactor, &path)
        }
        Kind::JsonWitness => {
            let Ok(proof) = v.held.to_merkle_proof(pid(&v.pid)) else { return Packet { kind, bytes: vec![], craft: "none", genuine: None } };
            let tx = Tx { inputs: small(vec![OutPoint { tx: 1, vout: 2 }]), outputs: 1, nonce: 0, commitment: tree.commitment.into() };
            let w = Witness::new(tx, Anchor { protocol: pid(&v.pid), proof });
            serde_json::to_value(&w).unwrap_or(Value::Null)
        }
        _ => match c.below(5) {
            0 => Value::String(text(c)),
            1 => serde_json::to_value(v.held.conceal()).unwrap_or(Value::Null),
            2 => Value::String("sha256t".into()),
            3 => Value::Null,
            _ => Value::Array((0..c.below(40)).map(|i| Value::from(i)).collect()),
        },
    };
    let mut craft = "JSON";
    for _ in 0..c.below(3) {
        craft = "altered JSON";
        alter_json(c, &mut value, 0);
    }
    let mut bytes = value.to_string().into_bytes();
    match c.below(8) {
        0 => {
            craft = "damaged JSON";
            bytes = corrupt_bytes(c, &bytes).unwrap_or(bytes);
        }
        1 => {
            craft = "nested JSON";
            let n = c.below(3000);
            bytes = [b"[".repeat(n), bytes, b"]".repeat(n)].concat();
        }
        _ => {}
    }
    Packet { kind, bytes, craft, genuine: None }
}

/// Writes nodes in the form which the software uses itself.
#[cfg(feature = "full")]
fn json_block(c: &mut Ctl, like: &MerkleBlock, depth: u8, cofactor: u16, nodes: &[Node]) -> serde_json::Value {
    let entropy = if c.chance(50) { None } else { Some(c.seed()) };
    json_block_of(like, depth, cofactor, nodes, entropy)
}

#[cfg(feature = "full")]
pub fn json_block_of(like: &MerkleBlock, depth: u8, cofactor: u16, nodes: &[Node], entropy: Option<u64>) -> serde_json::Value {
    use serde_json::Value;
    let mut v = serde_json::to_value(like).unwrap_or(Value::Null);
    let Some(map) = v.as_object_mut() else { return v };
    let list: Vec<Value> = nodes
        .iter()
        .map(|n| {
            let (name, fields): (&str, Vec<(&str, Value)>) = match n {
                Node::Hidden { depth, hash } => {
                    ("ConcealedNode", vec![("depth", Value::from(*depth)), ("hash", Value::String(hex(hash)))])
                }
                Node::Leaf { pid, msg } => {
                    ("CommitmentLeaf", vec![("protocol_id", Value::String(hex(pid))), ("message", Value::String(hex(msg)))])
                }
            };
            let inner = Value::Object(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
            Value::Object([(name.to_string(), inner)].into_iter().collect())
        })
        .collect();
    for (k, v) in map.iter_mut() {
        match k.as_str() {
            "depth" => *v = Value::from(depth),
            "cofactor" => *v = Value::from(cofactor),
            "entropy" => *v = entropy.map_or(Value::Null, Value::from),
            k if k.starts_with("cross") => *v = Value::Array(list.clone()),
            _ => {}
        }
    }
    v
}

#[cfg(feature = "full")]
fn json_proof(c: &mut Ctl, v: &Validator, pos: u32, cofactor: u16, path: &[H]) -> serde_json::Value {
    use serde_json::Value;
    let Ok(proof) = v.held.to_merkle_proof(pid(&v.pid)) else { return Value::Null };
    let mut v = serde_json::to_value(proof).unwrap_or(Value::Null);
    let Some(map) = v.as_object_mut() else { return v };
    for (k, v) in map.iter_mut() {
        match k.as_str() {
            "pos" => *v = Value::from(if c.chance(50) { pos } else { weird_u32(c, pos) }),
            "cofactor" => *v = Value::from(if c.chance(50) { cofactor } else { weird_u16(c) }),
            "path" => *v = Value::Array(path.iter().map(|h| Value::String(hex(h))).collect()),
            _ => {}
        }
    }
    v
}

#[cfg(feature = "full")]
fn alter_json(c: &mut Ctl, v: &mut serde_json::Value, level: usize) {
    use serde_json::Value;
    // Goes down to some part of the value and replaces it.
    if level < 5 && c.chance(75) {
        match v {
            Value::Object(map) if !map.is_empty() => {
                let i = c.below(map.len());
                if c.chance(10) {
                    let k = map.keys().nth(i).cloned().unwrap_or_default();
                    map.remove(&k);
                    return;
                }
                if let Some((_, x)) = map.iter_mut().nth(i) {
                    alter_json(c, x, level + 1);
                }
                return;
            }
            Value::Array(list) if !list.is_empty() => {
                let i = c.below(list.len());
                match c.below(10) {
                    0 => {
                        list.remove(i);
                    }
                    1 => list.insert(i, list[i].clone()),
                    2 => list.clear(),
                    _ => alter_json(c, &mut list[i], level + 1),
                }
                return;
            }
            _ => {}
        }
    }
    *v = match c.below(8) {
        0 => Value::Null,
        1 => Value::from(weird_u8(c)),
        2 => Value::from(weird_u32(c, 0)),
        3 => Value::from(*c.pick(&[-1i64, i64::MIN, i64::MAX, 256, 65536, 1 << 32])),
        4 => Value::String(text(c)),
        5 => Value::Array(vec![v.clone(), v.clone()]),
        6 => Value::from(*c.pick(&[0.5f64, -1.0, 1e300])),
        _ => Value::Bool(c.chance(50)),
    };
}
