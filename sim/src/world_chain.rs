//! C13: parties which validate histories of transfers against a publication medium with forks and reorganisations,
//! among them double-spenders. Validation runs through the real default `client_side_validate`, seal closing
//! verification, multi-protocol commitments and commitment ids.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Display, Formatter};
use std::sync::Arc;

use amplify::confinement::SmallVec;
use amplify::Bytes32;
use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog, ValidationReport, Validity,
};
use commit_verify::mpc::{self, MerkleBlock, MerkleTree};
use commit_verify::{CommitEncode, CommitEngine, CommitId, StrictHash, TryCommitVerify};

use crate::codec::*;
use crate::kernel::*;
use crate::refm::{self, RefTree, H};
use crate::runner::Check;
use crate::seals::*;
use crate::{ensure, ev, gen};

pub const CHECKS: &[Check] = &[Check {
    id: "C13",
    run: run13,
    quick: 6000,
    thorough: 200_000,
    rule: "one evaluation is one simulated run: up to 4 nodes with their own view of a forking publication medium, up to 6 parties of which some \
             double-spend, transfers of several contracts with shared transactions, message loss, duplication, reordering, corruption, partitions, \
             crashes and outages, then healing, settlement and an audit; non-trivial if a transfer was made and a fault happened; distinct by the complete event log",
    states: "distinct (attack, verdict, validation of the transfer by the adversary or not, number of seals, forks)",
    real: &[
        "ClientSideValidate::client_side_validate (default implementation) and Status",
        "SealWitness::verify_seals_closing and the encoding of witnesses",
        "MerkleTree::try_commit, proofs, MerkleProof::convolve",
        "commitment ids of the transfers (CommitEngine)",
    ],
    stub: &["publication medium: nodes, blocks, miners and their network", "wallets and the rules of the contracts", "resolver of seals (reads the node of the party, with outages)"],
    assumptions: &["an honest party validates against the tip its own node has at that moment", "SHA-256 collisions do not occur"],
    batch: None,
}];

// ---- Contracts ----------------------------------------------------------------------------------------------------

/// A number of an output of the closing transaction.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Vout(pub u32);

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Memo(pub u64);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Item {
    pub contract: mpc::ProtocolId,
    pub closes: SmallVec<OutPoint>,
    pub defines: SmallVec<Vout>,
    pub memo: Option<Memo>,
}

impl CommitEncode for Item {
    type CommitmentId = StrictHash;
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_serialized(&self.contract);
        e.commit_to_linear_list(&self.closes);
        e.commit_to_linear_list(&self.defines);
        e.commit_to_option(&self.memo);
    }
}

impl Item {
    fn message(&self) -> mpc::Message { msg(&raw(self.commit_id())) }
}

/// A transfer with its evidence as it travels.
#[derive(Clone, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Step {
    pub item: Item,
    pub published: Tx,
    pub client: Anchor,
    pub claims: SmallVec<Claim>,
}

/// "This output was spent by that transaction": what a resolver is asked.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Claim {
    pub out: OutPoint,
    pub by: u64,
}

#[derive(Clone, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Consignment {
    pub contract: mpc::ProtocolId,
    pub genesis: SmallVec<OutPoint>,
    pub steps: SmallVec<Step>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub enum Issue {
    Outage(Claim),
    NotSpent(Claim),
}
impl Display for Issue {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for Issue {}
impl ValidationLog for Issue {}
impl SealIssue for Issue {
    type Seal = Claim;
    fn seal(&self) -> &Claim {
        match self {
            Issue::Outage(c) | Issue::NotSpent(c) => c,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub enum Failure {
    BadClosing(String),
    BadHistory(String),
}
impl Display for Failure {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for Failure {}
impl ValidationLog for Failure {}
impl ValidationFailure for Failure {}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Report;
impl ValidationReport for Report {
    type SealIssue = Issue;
    type Failure = Failure;
    type Warning = String;
    type Info = String;
}

impl<'d> ClientData<'d> for Step {
    type ValidationReport = Report;
    type SealIterator = std::slice::Iter<'d, Claim>;
    fn single_use_seals(&'d self) -> Self::SealIterator { self.claims.iter() }
    fn validate_internal_consistency(&'d self) -> Status<Report> {
        let mut s = Status::new();
        let w = Witness::new(self.published.clone(), self.client.clone());
        if self.client.protocol != self.item.contract {
            s.add_failure(Failure::BadHistory("the anchor is for another contract".into()));
        }
        if let Err(e) = w.verify_seals_closing(self.item.closes.iter(), self.item.message()) {
            s.add_failure(Failure::BadClosing(e.to_string()));
        }
        let id = self.published.id();
        let claimed: Vec<OutPoint> = self.claims.iter().map(|c| c.out).collect();
        let closes: Vec<OutPoint> = self.item.closes.iter().copied().collect();
        // The first claim shows that the transaction is in the medium. That it spends the rest too is told by the
        // witness; the resolver only confirms that they are closed.
        if claimed != closes || self.claims.first().map(|c| c.by) != Some(id) {
            s.add_failure(Failure::BadHistory("the claims are not those of the item".into()));
        }
        s
    }
}

impl<'d> ClientData<'d> for Consignment {
    type ValidationReport = Report;
    type SealIterator = std::slice::Iter<'d, Claim>;
    fn single_use_seals(&'d self) -> Self::SealIterator { [].iter() }
    fn validate_internal_consistency(&'d self) -> Status<Report> {
        let mut s = Status::new();
        let mut unspent: BTreeSet<OutPoint> = self.genesis.iter().copied().collect();
        for step in self.steps.iter() {
            if step.item.contract != self.contract {
                s.add_failure(Failure::BadHistory("another contract".into()));
            }
            for x in step.item.closes.iter() {
                if !unspent.remove(x) {
                    s.add_failure(Failure::BadHistory(format!("{x} is not defined or closed twice")));
                }
            }
            let id = step.published.id();
            for v in step.item.defines.iter() {
                unspent.insert(OutPoint { tx: id, vout: v.0 });
            }
        }
        s.add_info("history checked".into());
        s
    }
}

impl<'d> ClientSideValidate<'d> for Consignment {
    type ValidationItem = Step;
    type ValidationIter = std::slice::Iter<'d, Step>;
    fn validation_iter(&'d self) -> Self::ValidationIter { self.steps.iter() }
}

// ---- Publication medium -------------------------------------------------------------------------------------------

struct Block {
    parent: usize,
    height: u32,
    txs: Vec<Arc<Tx>>,
    /// Everything spent up to here, and all the outputs made.
    spent: BTreeMap<OutPoint, u64>,
    made: BTreeSet<OutPoint>,
}

struct Chain {
    blocks: Vec<Block>,
}

impl Chain {
    fn extend(&mut self, parent: usize, pool: &[Arc<Tx>]) -> usize {
        let p = &self.blocks[parent];
        let mut b = Block { parent, height: p.height + 1, txs: vec![], spent: p.spent.clone(), made: p.made.clone() };
        let mut progress = true;
        let mut taken = BTreeSet::new();
        while progress {
            progress = false;
            for t in pool {
                let id = t.id();
                if !taken.contains(&id) && t.inputs.iter().all(|i| b.made.contains(i) && !b.spent.contains_key(i)) {
                    for i in t.inputs.iter() {
                        b.spent.insert(*i, id);
                    }
                    for v in 0..t.outputs {
                        b.made.insert(OutPoint { tx: id, vout: v });
                    }
                    taken.insert(id);
                    b.txs.push(t.clone());
                    progress = true;
                }
            }
        }
        self.blocks.push(b);
        self.blocks.len() - 1
    }

    fn has(&self, mut tip: usize, block: usize) -> bool {
        loop {
            if tip == block {
                return true;
            }
            if tip == 0 {
                return false;
            }
            tip = self.blocks[tip].parent;
        }
    }
}

struct Node {
    tip: usize,
    known: BTreeSet<usize>,
    pool: Vec<Arc<Tx>>,
}

/// Looks seals up in the view of a node. Requests may be answered with an outage.
struct Resolver<'a> {
    view: &'a Block,
    outage: Rng,
    percent: u64,
    outages: u64,
    asked: Vec<Claim>,
}

impl SealResolver<Claim> for Resolver<'_> {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &Claim) -> Result<(), Issue> {
        self.asked.push(*seal);
        if self.percent > 0 && self.outage.below(100) < self.percent {
            self.outages += 1;
            return Err(Issue::Outage(*seal));
        }
        match self.view.spent.get(&seal.out) {
            Some(id) if *id == seal.by => Ok(()),
            _ => Err(Issue::NotSpent(*seal)),
        }
    }
}

// ---- Parties ------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Coin {
    contract: usize,
    seal: OutPoint,
    /// Transfers that lead to the coin.
    history: Vec<usize>,
}

struct Party {
    node: usize,
    honest: bool,
    coins: Vec<Coin>,
    /// Consignments received: bytes, and the tip at which they were accepted if they were.
    inbox: Vec<Inbox>,
}

#[derive(Clone)]
struct Inbox {
    transfer: usize,
    bytes: Vec<u8>,
    accepted: Option<usize>,
}

struct Transfer {
    contract: usize,
    step: Step,
    consignment: Vec<u8>,
    from: usize,
    to: usize,
    honest: bool,
    history: Vec<usize>,
    new_coin: OutPoint,
}

#[derive(Clone)]
enum Wire {
    Block(usize),
    Tx(Arc<Tx>),
    Consignment(usize, Vec<u8>),
    Ack,
}

struct World {
    chain: Chain,
    nodes: Vec<Node>,
    parties: Vec<Party>,
    net: Net<Wire>,
    transfers: Vec<Transfer>,
    contracts: Vec<(H, Vec<OutPoint>)>,
    /// What was accepted for (tip, contract, seal).
    accepted: BTreeMap<(usize, H, OutPoint), (Item, usize)>,
    all_txs: Vec<Arc<Tx>>,
    nonce: u64,
}

impl World {
    fn adopt(&mut self, c: &mut Ctl, n: usize, b: usize) {
        // A node which misses ancestors asks for them; modelled as getting them together with the block.
        let mut x = b;
        while x != 0 && !self.nodes[n].known.contains(&x) {
            self.nodes[n].known.insert(x);
            x = self.chain.blocks[x].parent;
        }
        let tip = self.nodes[n].tip;
        if self.chain.blocks[b].height > self.chain.blocks[tip].height {
            if !self.chain.has(b, tip) {
                c.fault("chain.reorg");
                ev!(c, "node {n} reorganises from block {tip} to {b}");
                // Transactions which fell out go back to the pool.
                let mut y = tip;
                while !self.chain.has(b, y) {
                    let txs = self.chain.blocks[y].txs.clone();
                    self.nodes[n].pool.extend(txs);
                    y = self.chain.blocks[y].parent;
                }
            }
            self.nodes[n].tip = b;
        }
    }

    fn mine(&mut self, c: &mut Ctl, f: &Faults, n: usize) {
        let tip = self.nodes[n].tip;
        let mut pool = self.nodes[n].pool.clone();
        c.shuffle(&mut pool);
        let b = self.chain.extend(tip, &pool);
        ev!(c, "node {n} mines block {b} on {tip} with {} transactions", self.chain.blocks[b].txs.len());
        self.nodes[n].known.insert(b);
        self.nodes[n].tip = b;
        let made: BTreeSet<u64> = self.chain.blocks[b].txs.iter().map(|t| t.id()).collect();
        self.nodes[n].pool.retain(|t| !made.contains(&t.id()));
        for m in 0..self.nodes.len() {
            if m != n {
                self.net.send(c, f, n, m, Wire::Block(b), |_, _| None);
            }
        }
    }

    fn broadcast(&mut self, c: &mut Ctl, f: &Faults, from: usize, tx: &Arc<Tx>, to: Option<usize>) {
        for m in 0..self.nodes.len() {
            if m == from || to.is_some_and(|x| x != m) {
                continue;
            }
            self.net.send(c, f, from, m, Wire::Tx(tx.clone()), |_, _| None);
        }
        if to.is_none() || to == Some(from) {
            self.pool_tx(from, tx);
        }
    }

    fn pool_tx(&mut self, n: usize, tx: &Arc<Tx>) {
        if !self.nodes[n].pool.iter().any(|t| t.id() == tx.id()) {
            self.nodes[n].pool.push(tx.clone());
        }
    }

    /// Validates a received consignment against the tip of the party's node.
    fn validate(&mut self, c: &mut Ctl, p: usize, what: usize, bytes: &[u8], outage: u64) -> Res<(Validity, usize)> {
        let tip = self.nodes[self.parties[p].node].tip;
        let r = self.validate_at(c, tip, bytes, outage, &format!("party {p} transfer {what}"), what)?;
        Ok((r, tip))
    }

    fn validate_at(&mut self, c: &mut Ctl, tip: usize, bytes: &[u8], outage: u64, who: &str, what: usize) -> Res<Validity> {
        let Ok(cons) = dec::<Consignment>(bytes) else {
            ev!(c, "{who}: undecodable");
            return Ok(Validity::Invalid);
        };
        // Only what the party knows as a contract is of interest to it.
        let id = raw(cons.contract);
        if !self.contracts.iter().any(|(h, g)| *h == id && *g == cons.genesis.to_vec()) {
            ev!(c, "{who}: unknown contract");
            return Ok(Validity::Invalid);
        }
        let rng = if outage > 0 { c.rng() } else { Rng::new(0) };
        let mut res = Resolver { view: &self.chain.blocks[tip], outage: rng, percent: outage, outages: 0, asked: vec![] };
        let status = cons.client_side_validate(&mut res);
        let (outages, asked) = (res.outages, res.asked);
        let v = status.validity();
        for _ in 0..outages {
            c.fault("resolver.outage");
        }
        ev!(c, "{who} at tip {tip}: {v} ({} failures, {} seal issues)", status.failures.len(), status.seal_issues.len());
        if v == Validity::Valid {
            ensure!(outages == 0, "accepted during an outage", "{who}: valid although {outages} requests about seals were not answered");
            for step in cons.steps.iter() {
                let tx = step.published.id();
                for s in step.item.closes.iter() {
                    ensure!(asked.iter().any(|a| a.out == *s), "accepted unseen", "{who}: valid although nobody asked whether {s} was closed");
                    ensure!(self.chain.blocks[tip].spent.get(s) == Some(&tx), "accepted unpublished", "{who}: valid although {s} was not closed by {tx:x}");
                    let key = (tip, id, *s);
                    match self.accepted.get(&key) {
                        Some((item, other)) if *item != step.item => {
                            return fail(
                                "conflicting closings accepted",
                                format!("{who}: at tip {tip} seal {s} is closed over {:?}, but with transfer {other} it was accepted over {:?}", step.item, item),
                            );
                        }
                        Some(_) => {}
                        None => {
                            self.accepted.insert(key, (step.item.clone(), what));
                        }
                    }
                }
            }
        }
        Ok(v)
    }

    fn history_of(&self, coin: &Coin) -> Vec<Step> { coin.history.iter().map(|t| self.transfers[*t].step.clone()).collect() }

    fn consign(&self, contract: usize, steps: Vec<Step>) -> Vec<u8> {
        let (h, g) = &self.contracts[contract];
        enc(&Consignment { contract: pid(h), genesis: small(g.clone()), steps: small(steps) }).expect("memory")
    }

    /// Makes the transaction and anchors for some items (of different contracts).
    fn publish(&mut self, c: &mut Ctl, items: &[(usize, Item)], inputs: Vec<OutPoint>, outputs: u32) -> Option<(Arc<Tx>, Vec<Anchor>)> {
        let mut pairs: Vec<(H, H)> = items.iter().map(|(k, i)| (self.contracts[*k].0, raw(i.commit_id()))).collect();
        let extra = c.below(3);
        pairs.extend(gen::pairs(c, extra));
        let src = gen::source(*c.pick(&[0u8, 3, 1, 2]), &pairs, Some(c.seed()));
        let tree = MerkleTree::try_commit(&src).ok()?;
        let mut block = MerkleBlock::from(&tree);
        let mut anchors = vec![];
        if c.chance(50) {
            // The proofs may come from a concealed disclosure.
            let _ = block.conceal_except(items.iter().map(|(k, _)| pid(&self.contracts[*k].0)).collect::<Vec<_>>());
        }
        for (k, _) in items {
            let p = pid(&self.contracts[*k].0);
            anchors.push(Anchor { protocol: p, proof: block.to_merkle_proof(p).ok()? });
        }
        self.nonce += 1;
        let tx = Arc::new(Tx { inputs: small(inputs), outputs, nonce: self.nonce, commitment: Bytes32::from_byte_array(raw(block.commit_id())) });
        self.all_txs.push(tx.clone());
        Some((tx, anchors))
    }
}

fn step(item: &Item, tx: &Tx, anchor: &Anchor) -> Step {
    let by = tx.id();
    Step {
        item: item.clone(),
        published: tx.clone(),
        client: anchor.clone(),
        claims: small(item.closes.iter().map(|o| Claim { out: *o, by }).collect()),
    }
}

fn run13(c: &mut Ctl) -> Res {
    c.open();
    let f = Faults::draw(c);
    let nodes = c.range(1, 4);
    let parties = c.range(3, 6);
    let contracts = c.range(1, 2);
    let mut rng = c.rng();
    let mut w = World {
        chain: Chain { blocks: vec![] },
        nodes: (0..nodes).map(|_| Node { tip: 0, known: [0].into(), pool: vec![] }).collect(),
        parties: vec![],
        net: Net::new(nodes + parties),
        transfers: vec![],
        contracts: vec![],
        accepted: BTreeMap::new(),
        all_txs: vec![],
        nonce: 0,
    };
    for i in 0..parties {
        // The first party is always honest, the second never.
        let honest = i == 0 || (i > 1 && !c.chance(35));
        w.parties.push(Party { node: c.below(nodes), honest, coins: vec![], inbox: vec![] });
    }
    // Outputs that exist from the beginning. Those which are nobody's coin are fuel for more inputs.
    let fund: Vec<OutPoint> = (0..40).map(|v| OutPoint { tx: 0, vout: v }).collect();
    w.chain.blocks.push(Block { parent: 0, height: 0, txs: vec![], spent: BTreeMap::new(), made: fund.iter().copied().collect() });
    let mut spare: Vec<OutPoint> = fund.clone();
    for k in 0..contracts {
        let h = rng.bytes32();
        let coins = c.range(1, 3);
        let list: Vec<OutPoint> = (0..coins).map(|_| spare.remove(0)).collect();
        for seal in &list {
            let owner = if c.chance(50) { 1 } else { c.below(parties) };
            w.parties[owner].coins.push(Coin { contract: k, seal: *seal, history: vec![] });
        }
        w.contracts.push((h, list));
    }
    ev!(c, "{nodes} nodes, parties {:?}", w.parties.iter().map(|p| p.honest).collect::<Vec<_>>());
    c.close();
    let steps = c.range(4, 40);
    for _ in 0..steps {
        c.open();
        match c.weighted(&[30, 22, 30, 6, 8, 4]) {
            0 => transfer(c, &f, &mut w, &mut spare)?,
            1 => {
                let n = c.below(nodes);
                w.mine(c, &f, n);
            }
            2 => {
                for _ in 0..1 + c.below(8) {
                    deliver(c, &f, &mut w)?;
                }
            }
            3 => {
                if c.chance(f.partition * 3) {
                    w.net.toggle_partition(c)
                }
            }
            4 => revalidate(c, &f, &mut w)?,
            _ => {
                if c.chance(f.crash * 2) {
                    // A node loses its pool, a party what it had not stored: unaccepted consignments.
                    c.fault("crash");
                    if c.chance(50) {
                        let n = c.below(nodes);
                        w.nodes[n].pool.clear();
                    } else {
                        let p = c.below(parties);
                        w.parties[p].inbox.retain(|i| i.accepted.is_some());
                    }
                }
            }
        }
        c.close();
    }
    settle(c, &mut w)
}

fn deliver(c: &mut Ctl, f: &Faults, w: &mut World) -> Res {
    let n = w.nodes.len();
    let Some((_, to, m)) = w.net.next(c) else { return Ok(()) };
    match m {
        Wire::Block(b) if to < n => w.adopt(c, to, b),
        Wire::Tx(t) if to < n => w.pool_tx(to, &t),
        Wire::Consignment(t, bytes) if to >= n => {
            let p = to - n;
            let outage = if c.chance(f.io) { 40 } else { 0 };
            receive(c, w, p, t, bytes, outage)?;
        }
        _ => {}
    }
    Ok(())
}

fn receive(c: &mut Ctl, w: &mut World, p: usize, t: usize, bytes: Vec<u8>, outage: u64) -> Res {
    let (v, tip) = w.validate(c, p, t, &bytes, outage)?;
    let tr = &w.transfers[t];
    let genuine = bytes == tr.consignment;
    let attack = !tr.honest as u64;
    let forks = w.chain.blocks.len() as u64 > w.chain.blocks[tip].height as u64 + 1;
    c.state(&[attack, v as u8 as u64, tr.step.item.closes.len() as u64, forks as u64, genuine as u64]);
    // The recipient looks for its own coin in what it validated.
    let tells = dec::<Consignment>(&bytes).is_ok_and(|x| has_step(&x, &tr.step));
    let accepted = v == Validity::Valid && tells;
    if accepted && attack == 1 {
        c.probe("transfer of a double-spender accepted");
    }
    let had = w.parties[p].inbox.iter().position(|i| i.transfer == t && i.bytes == bytes);
    let i = match had {
        Some(i) => i,
        None => {
            w.parties[p].inbox.push(Inbox { transfer: t, bytes, accepted: None });
            w.parties[p].inbox.len() - 1
        }
    };
    let first = w.parties[p].inbox[i].accepted.is_none();
    w.parties[p].inbox[i].accepted = accepted.then_some(tip);
    let (contract, seal, mut history, to) = {
        let tr = &w.transfers[t];
        (tr.contract, tr.new_coin, tr.history.clone(), tr.to)
    };
    if accepted && first && genuine && p == to && !w.parties[p].coins.iter().any(|x| x.seal == seal && x.contract == contract) {
        history.push(t);
        w.parties[p].coins.push(Coin { contract, seal, history });
    }
    if !accepted {
        w.parties[p].coins.retain(|x| x.seal != seal || x.contract != contract);
    }
    Ok(())
}

fn has_step(x: &Consignment, s: &Step) -> bool { x.steps.iter().any(|y| y.item == s.item && y.published == s.published) }

fn revalidate(c: &mut Ctl, f: &Faults, w: &mut World) -> Res {
    let p = c.below(w.parties.len());
    if w.parties[p].inbox.is_empty() {
        return Ok(());
    }
    let i = c.below(w.parties[p].inbox.len());
    let item = w.parties[p].inbox[i].clone();
    let outage = if c.chance(f.io) { 30 } else { 0 };
    receive(c, w, p, item.transfer, item.bytes, outage)
}

fn send_all(c: &mut Ctl, f: &Faults, w: &mut World, t: usize) {
    let n = w.nodes.len();
    let (from, to, bytes) = (w.transfers[t].from, w.transfers[t].to, w.transfers[t].consignment.clone());
    w.net.send(c, f, n + from, n + to, Wire::Consignment(t, bytes), |c, m| match m {
        Wire::Consignment(t, b) => Some(Wire::Consignment(*t, corrupt_bytes(c, b)?)),
        _ => Some(Wire::Ack),
    });
}

/// A party transfers one of its coins, honestly or not.
fn transfer(c: &mut Ctl, f: &Faults, w: &mut World, spare: &mut Vec<OutPoint>) -> Res {
    let owners: Vec<usize> = (0..w.parties.len()).filter(|p| !w.parties[*p].coins.is_empty()).collect();
    if owners.is_empty() {
        return Ok(());
    }
    let p = *c.pick(&owners);
    let i = c.below(w.parties[p].coins.len());
    let mut coin = w.parties[p].coins[i].clone();
    if !w.parties[p].honest {
        // Double-spenders present everything they know of the contract.
        for x in &w.parties[p].coins {
            if x.contract == coin.contract {
                coin.history.extend(x.history.iter().copied());
            }
        }
        coin.history.sort_unstable();
        coin.history.dedup();
    }
    let coin = coin;
    let to = c.below(w.parties.len());
    let node = w.parties[p].node;
    let k = coin.contract;
    let contract = pid(&w.contracts[k].0);
    let memo = c.chance(50).then(|| Memo(c.below(3) as u64));
    let honest = w.parties[p].honest;
    let item = |closes: Vec<OutPoint>, v: u32, memo: Option<Memo>| Item { contract, closes: small(closes), defines: small(vec![Vout(v)]), memo };
    c.nontrivial = true;
    let push = |c: &mut Ctl, w: &mut World, tx: &Arc<Tx>, anchor: &Anchor, it: &Item, to: usize, honest: bool| {
        let st = step(it, tx, anchor);
        let mut steps = w.history_of(&coin);
        steps.push(st.clone());
        if !honest && c.chance(20) {
            // A double-spender may also rearrange the history.
            let i = c.below(steps.len());
            match c.below(3) {
                0 => {
                    steps.remove(i);
                }
                1 => {
                    let s = steps[i].clone();
                    steps.insert(i, s);
                }
                _ => steps.reverse(),
            }
        }
        let consignment = w.consign(k, steps);
        let v = it.defines[0].0;
        w.transfers.push(Transfer { contract: k, step: st, consignment, from: p, to, honest, history: coin.history.clone(), new_coin: OutPoint { tx: tx.id(), vout: v } });
        let t = w.transfers.len() - 1;
        send_all(c, f, w, t);
        t
    };
    if honest {
        // Other coins of the same owner and of other contracts may move in the same transaction.
        let mut inputs = vec![coin.seal];
        if c.chance(30) && !spare.is_empty() {
            inputs.push(spare.remove(0));
        }
        c.shuffle(&mut inputs);
        let it = item(vec![coin.seal], c.below(3) as u32, memo);
        let Some((tx, anchors)) = w.publish(c, &[(k, it.clone())], inputs, 3) else { return fail("harness", "no commitment") };
        w.broadcast(c, f, node, &tx, None);
        let t = push(c, w, &tx, &anchors[0], &it, to, true);
        ev!(c, "party {p} transfers {} to {to}: transfer {t} transaction {:016x}", coin.seal, tx.id());
        // An honest party never closes a seal twice.
        w.parties[p].coins.remove(i);
        return Ok(());
    }
    let victim = c.below(w.parties.len());
    let attack = c.below(8);
    c.fault("byzantine.transfer");
    match attack {
        0 | 1 => {
            // Two transactions, shown to different nodes.
            let (a, b) = (item(vec![coin.seal], 0, memo), item(vec![coin.seal], 1, memo));
            let n2 = c.below(w.nodes.len());
            for (it, n, r) in [(a, node, to), (b, n2, victim)] {
                let Some((tx, anchors)) = w.publish(c, &[(k, it.clone())], vec![coin.seal], 3) else { return Ok(()) };
                if attack == 0 {
                    w.broadcast(c, f, node, &tx, Some(n));
                } else {
                    w.broadcast(c, f, node, &tx, None);
                }
                push(c, w, &tx, &anchors[0], &it, r, false);
            }
        }
        2 | 3 => {
            // One transaction and anchor, two messages.
            let a = item(vec![coin.seal], 0, memo);
            let b = match c.below(4) {
                0 => item(vec![coin.seal], 1, memo),
                1 => item(vec![coin.seal], 0, Some(Memo(77))),
                2 => item(vec![coin.seal], 0, memo.xor(Some(Memo(0)))),
                _ => Item { defines: small(vec![Vout(0), Vout(1)]), ..a.clone() },
            };
            let Some((tx, anchors)) = w.publish(c, &[(k, a.clone())], vec![coin.seal], 3) else { return Ok(()) };
            w.broadcast(c, f, node, &tx, None);
            push(c, w, &tx, &anchors[0], &a, to, false);
            push(c, w, &tx, &anchors[0], &b, victim, false);
        }
        4 => {
            // A crafted commitment with two messages for the contract: the second in a slot which is only right for
            // another cofactor.
            let (a, b) = (item(vec![coin.seal], 0, memo), item(vec![coin.seal], 1, memo));
            let depth = c.range(2, 5) as u8;
            let h = w.contracts[k].0;
            let (cof_a, cof_b) = (0u16, c.range(0, 3) as u16);
            let (pa, mut pb) = (refm::slot(&h, cof_a, depth), refm::slot(&h, cof_b, depth));
            if pa == pb {
                pb = (pa ^ 1) % (1 << depth);
            }
            let leaves: BTreeMap<u32, (H, H)> = [(pa, (h, raw(a.commit_id()))), (pb, (h, raw(b.commit_id())))].into();
            let tree = RefTree::dense(depth, cof_a, c.seed(), leaves);
            w.nonce += 1;
            let tx = Arc::new(Tx { inputs: small(vec![coin.seal]), outputs: 3, nonce: w.nonce, commitment: Bytes32::from_byte_array(tree.commitment) });
            w.all_txs.push(tx.clone());
            w.broadcast(c, f, node, &tx, None);
            for (it, pos, cof, r) in [(a, pa, cof_a, to), (b, pb, cof_b, victim)] {
                let Ok(proof) = dec(&refm::proof_bytes(pos, cof, &tree.path(pos))) else { continue };
                push(c, w, &tx, &Anchor { protocol: contract, proof }, &it, r, false);
            }
        }
        5 | 6 => {
            // The item closes more seals than the transaction spends; the others are closed elsewhere.
            let others: Vec<Coin> = w.parties[p].coins.iter().filter(|x| x.contract == k && x.seal != coin.seal).cloned().collect();
            let Some(other_coin) = others.first().cloned() else { return Ok(()) };
            let other = other_coin.seal;
            c.probe("item over more seals than its transaction spends");
            let mut closes = vec![coin.seal, other];
            c.shuffle(&mut closes);
            let a = item(closes, 0, memo);
            let b = item(vec![if attack == 5 { other } else { coin.seal }], 1, memo);
            let Some((tx, an)) = w.publish(c, &[(k, a.clone())], vec![if attack == 5 { coin.seal } else { other }], 3) else { return Ok(()) };
            w.broadcast(c, f, node, &tx, None);
            push(c, w, &tx, &an[0], &a, to, false);
            let Some((tx2, an2)) = w.publish(c, &[(k, b.clone())], b.closes.iter().copied().collect(), 3) else { return Ok(()) };
            w.broadcast(c, f, node, &tx2, None);
            push(c, w, &tx2, &an2[0], &b, victim, false);
            // The claims may hide the transaction which really closed the other seal.
            let mut st = step(&a, &tx, &an[0]);
            for x in st.claims.iter_mut() {
                if !tx.inputs.contains(&x.out) {
                    x.by = tx2.id();
                }
            }
            let mut steps = w.history_of(&coin);
            steps.push(st.clone());
            let consignment = w.consign(k, steps);
            w.transfers.push(Transfer { contract: k, step: st, consignment, from: p, to: victim, honest: false, history: coin.history.clone(), new_coin: OutPoint { tx: tx.id(), vout: 0 } });
            let t = w.transfers.len() - 1;
            send_all(c, f, w, t);
        }
        _ => {
            // A transaction that is never broadcast, or the evidence of another one.
            let a = item(vec![coin.seal], 0, memo);
            let Some((tx, an)) = w.publish(c, &[(k, a.clone())], vec![coin.seal], 3) else { return Ok(()) };
            let b = item(vec![coin.seal], 2, memo);
            let Some((tx2, an2)) = w.publish(c, &[(k, b.clone())], vec![coin.seal], 3) else { return Ok(()) };
            w.broadcast(c, f, node, &tx2, None);
            push(c, w, &tx2, &an2[0], &b, to, false);
            push(c, w, &tx, &an[0], &a, victim, false);
            push(c, w, &tx2, &an[0], &a, victim, false);
        }
    }
    ev!(c, "double-spender {p} closes {} for {to} and {victim}, attack {attack}", coin.seal);
    Ok(())
}

/// Faults stop, everybody hears of everything, the medium settles.
fn settle(c: &mut Ctl, w: &mut World) -> Res {
    c.open();
    w.net.heal();
    let calm = Faults { jitter: 5, ..Faults::none() };
    while !w.net.is_empty() {
        deliver(c, &calm, w)?;
    }
    let txs = w.all_txs.clone();
    let best = (0..w.nodes.len()).max_by_key(|n| w.chain.blocks[w.nodes[*n].tip].height).expect("a node");
    // Honest transactions are broadcast again until they are in; the others only if they were broadcast before.
    let honest: BTreeSet<u64> = w.transfers.iter().filter(|t| t.honest).map(|t| t.step.published.id()).collect();
    for t in txs {
        if honest.contains(&t.id()) {
            w.pool_tx(best, &t);
        }
    }
    for _ in 0..2 {
        w.mine(c, &calm, best);
        while !w.net.is_empty() {
            deliver(c, &calm, w)?;
        }
    }
    c.close();
    let tip = w.nodes[best].tip;
    ensure!(w.nodes.iter().all(|n| n.tip == tip), "harness", "the medium did not settle");
    ev!(c, "settled at block {tip}");
    let mut good = vec![];
    for t in 0..w.transfers.len() {
        // Whether everything the transfer builds on is really in the medium and made by the rules.
        let tr = &w.transfers[t];
        let sound = |x: usize| {
            let s = &w.transfers[x].step;
            let id = s.published.id();
            w.transfers[x].honest && s.item.closes.iter().all(|o| w.chain.blocks[tip].spent.get(o) == Some(&id))
        };
        good.push(sound(t) && tr.history.iter().all(|x| sound(*x)));
    }
    for t in 0..w.transfers.len() {
        let (to, bytes) = (w.transfers[t].to, w.transfers[t].consignment.clone());
        let (v, at) = w.validate(c, to, t, &bytes, 0)?;
        if good[t] {
            c.probe("honest transfer settled");
            ensure!(v == Validity::Valid, "honest transfer refused", "honest transfer {t} is {v} after everything settled at block {at}");
        }
        let st = &w.transfers[t].step;
        let id = st.published.id();
        let gone = st.item.closes.iter().any(|o| w.chain.blocks[tip].spent.get(o) != Some(&id));
        let tells = dec::<Consignment>(&bytes).is_ok_and(|x| has_step(&x, st));
        if gone && tells {
            c.probe("closing which is not in the settled medium");
            ensure!(v != Validity::Valid, "reorganised closing accepted", "transfer {t} is still valid although its closing is not in the medium");
        }
    }
    // The audit: whatever anybody ever received is judged against the same tip.
    let inbox: Vec<(usize, Inbox)> = w.parties.iter().enumerate().flat_map(|(p, x)| x.inbox.iter().map(move |i| (p, i.clone()))).collect();
    for (p, i) in inbox {
        let v = w.validate_at(c, tip, &i.bytes, 0, &format!("audit of party {p} transfer {}", i.transfer), i.transfer)?;
        if i.accepted.is_some() && v != Validity::Valid {
            c.probe("accepted transfer reorganised away");
        }
    }
    Ok(())
}
