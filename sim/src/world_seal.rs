//! C12: closings of seals put together from pieces of evidence that travelled over faulty networks, and closings whose
//! evidence is scripted piece by piece.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error as _;
use std::fmt::{self, Display, Formatter};

use amplify::Bytes32;
use commit_verify::mpc::{MerkleProof, MerkleTree};
use commit_verify::{CommitId, TryCommitVerify};
use single_use_seals::{ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};

use crate::codec::*;
use crate::kernel::*;
use crate::refm::H;
use crate::runner::Check;
use crate::seals::*;
use crate::{ensure, ev, gen};

pub const CHECKS: &[Check] = &[Check {
    id: "C12",
    run: run12,
    quick: 40_000,
    thorough: 1_500_000,
    rule: "one evaluation is one simulated run: either some verifiers which put closings of seals together from pieces received over a faulty \
         network, or a history of verifications against a scripted medium which answers differently over time; non-trivial if a piece of evidence \
         was missing or a fault happened; distinct by the complete event log",
    states: "distinct (kind of world, evidence missing, number of seals, outcome)",
    real: &["single_use_seals::SealWitness::{verify_seal_closing, verify_seals_closing} and its encoding", "SealError", "commit_verify::mpc proofs (in half of the runs)"],
    stub: &["seals, transactions, anchors and the publication medium", "network and clock"],
    assumptions: &["implementations of the seal traits answer as they say"],
    batch: None,
}];

fn run12(c: &mut Ctl) -> Res {
    if c.chance(40) {
        parcels(c)
    } else {
        scripted(c)
    }
}

// ---- Evidence in pieces -------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Parcel {
    Tx(Vec<u8>),
    Anchor(Vec<u8>),
    Seals(Vec<OutPoint>),
    Message(H),
    Whole(Vec<u8>),
}

#[derive(Default)]
struct Desk {
    tx: Option<Tx>,
    anchor: Option<Anchor>,
    seals: Option<Vec<OutPoint>>,
    message: Option<H>,
}

fn parcels(c: &mut Ctl) -> Res {
    c.open();
    let n = c.range(1, 3);
    let mut all = vec![];
    for k in 0..n {
        let np = c.range(1, 4);
        let pairs = gen::pairs(c, np);
        let src = gen::source(*c.pick(&[0u8, 1, 3, 4]), &pairs, Some(c.seed()));
        let Ok(tree) = MerkleTree::try_commit(&src) else { return Ok(()) };
        let mut proofs: Vec<(H, MerkleProof)> = tree.clone().into_proofs().map(|(p, x)| (raw(p), x)).collect();
        let i = c.below(proofs.len());
        let (p, proof) = proofs.swap_remove(i);
        let m = pairs.iter().find(|(x, _)| *x == p).map(|(_, m)| *m).unwrap_or_default();
        let ns = c.range(1, 4);
        // A small pool of outputs, so that closings overlap.
        let inputs: Vec<OutPoint> = (0..ns).map(|_| OutPoint { tx: c.below(2) as u64, vout: c.below(4) as u32 }).collect();
        let tx = Tx { inputs: small(inputs.clone()), outputs: 2, nonce: k as u64, commitment: Bytes32::from_byte_array(raw(tree.commit_id())) };
        all.push((tx, Anchor { protocol: pid(&p), proof }, inputs, m));
    }
    c.close();
    ev!(c, "{n} closings");
    let f = Faults::draw(c);
    let verifiers = 2;
    let mut net: Net<(usize, Parcel)> = Net::new(verifiers + 1);
    let mut desks: Vec<BTreeMap<usize, Desk>> = (0..verifiers).map(|_| BTreeMap::new()).collect();
    for round in 0..3 {
        c.open();
        let ff = if round == 2 { Faults { jitter: f.jitter, ..Faults::none() } } else { f.clone() };
        for k in 0..n {
            for v in 0..verifiers {
                let (tx, anchor, seals, m) = &all[k];
                let mut seals = seals.clone();
                if round < 2 {
                    match c.weighted(&[10, 2, 2, 2, 1]) {
                        1 => seals.push(OutPoint { tx: c.below(2) as u64, vout: c.below(5) as u32 }),
                        2 => {
                            let i = c.below(seals.len());
                            seals.insert(0, seals[i]);
                        }
                        3 => {
                            let i = c.below(seals.len());
                            seals[i].vout = c.below(5) as u32;
                        }
                        4 => seals.clear(),
                        _ => {}
                    }
                    c.shuffle(&mut seals);
                }
                let mut out = vec![
                    Parcel::Tx(enc(tx).expect("memory")),
                    Parcel::Anchor(enc(anchor).expect("memory")),
                    Parcel::Seals(seals),
                    Parcel::Message(*m),
                ];
                if c.chance(25) {
                    out.push(Parcel::Whole(enc(&Witness::new(tx.clone(), anchor.clone())).expect("memory")));
                }
                for p in out {
                    let label = if round < 2 && c.chance(f.corrupt / 2) {
                        c.fault("evidence.replaced");
                        c.below(n)
                    } else {
                        k
                    };
                    net.send(c, &ff, verifiers, v, (label, p), |c, (k, p)| {
                        Some((
                            *k,
                            match p {
                                Parcel::Tx(b) => Parcel::Tx(corrupt_bytes(c, b)?),
                                Parcel::Anchor(b) => Parcel::Anchor(corrupt_bytes(c, b)?),
                                Parcel::Whole(b) => Parcel::Whole(corrupt_bytes(c, b)?),
                                Parcel::Message(m) => {
                                    let mut m = *m;
                                    m[c.below(32)] ^= 1 << c.below(8);
                                    Parcel::Message(m)
                                }
                                Parcel::Seals(_) => return None,
                            },
                        ))
                    });
                }
            }
        }
        while let Some((_, v, (k, p))) = net.next(c) {
            let desk = desks[v].entry(k).or_default();
            match p {
                Parcel::Tx(b) => {
                    if let Ok(t) = dec::<Tx>(&b) {
                        desk.tx = Some(t);
                    }
                }
                Parcel::Anchor(b) => {
                    if let Ok(t) = dec::<Anchor>(&b) {
                        desk.anchor = Some(t);
                    }
                }
                Parcel::Whole(b) => {
                    if let Ok(w) = dec::<Witness>(&b) {
                        desk.tx = Some(w.published);
                        desk.anchor = Some(w.client);
                    }
                }
                Parcel::Seals(s) => desk.seals = Some(s),
                Parcel::Message(m) => desk.message = Some(m),
            }
            judge(c, v, k, desk)?;
        }
        c.close();
    }
    // Everything arrived undamaged in the end.
    for (v, desks) in desks.iter().enumerate() {
        for (k, (tx, anchor, seals, m)) in all.iter().enumerate() {
            let w = Witness::new(tx.clone(), anchor.clone());
            ensure!(w.verify_seals_closing(seals, msg(m)).is_ok(), "complete evidence refused", "verifier {v} refuses the complete evidence of closing {k}");
            if let Some(d) = desks.get(&k) {
                judge(c, v, k, d)?;
            }
        }
    }
    Ok(())
}

fn judge(c: &mut Ctl, v: usize, k: usize, d: &Desk) -> Res {
    let (Some(tx), Some(anchor), Some(seals), Some(m)) = (&d.tx, &d.anchor, &d.seals, &d.message) else { return Ok(()) };
    let lost: BTreeSet<OutPoint> = seals.iter().filter(|s| !tx.inputs.iter().any(|i| i == *s)).copied().collect();
    // The anchor through the reference model.
    let bytes = enc(&anchor.proof).expect("memory");
    let (pos, cofactor, path) = parse_proof(&bytes).expect("own encoding");
    let p = raw(anchor.protocol);
    let proven = ref_convolve(pos, cofactor, &path, &p, m);
    let w = Witness::new(tx.clone(), anchor.clone());
    let w = if c.chance(30) {
        let b = enc(&w).expect("memory");
        match dec::<Witness>(&b) {
            Ok(w2) => {
                ensure!(w2.published == w.published && w2.client == w.client, "witness changed", "a witness changes by encoding and decoding");
                w2
            }
            Err(e) => return fail("witness changed", format!("an encoded witness is refused: {e}")),
        }
    } else {
        w
    };
    let published = proven == Some(tx.commitment.to_byte_array());
    let good = lost.is_empty() && published;
    let one = seals.len() == 1 && c.chance(70);
    let res = if one {
        w.verify_seal_closing(seals[0], msg(m))
    } else if c.chance(50) {
        w.verify_seals_closing(seals.clone(), msg(m))
    } else {
        w.verify_seals_closing(seals.iter(), msg(m))
    };
    let missing = (!lost.is_empty()) as u64 | (proven.is_none() as u64) << 1 | (!published as u64) << 2;
    ev!(c, "verifier {v} closing {k} of {} seals, missing {missing}: {:?}", seals.len(), res.as_ref().err().map(|e| e.to_string()));
    c.state(&[1, missing, seals.len() as u64, res.is_ok() as u64]);
    if missing != 0 {
        c.nontrivial = true;
    }
    match res {
        Ok(()) => {
            ensure!(lost.is_empty(), "closing without a seal accepted", "a closing is accepted though {} is not included in the witness", lost.first().expect("not empty"));
            ensure!(good, "incomplete evidence accepted", "a closing is accepted though the published part does not confirm the commitment");
        }
        Err(e) => {
            ensure!(!good, "complete evidence refused", "complete evidence is refused: {e}");
            match e {
                SealError::NotIncluded(s, id) => {
                    ensure!(lost.contains(&s), "untruthful refusal", "{s} is included but reported as not included");
                    ensure!(id == tx.id(), "untruthful refusal", "publication {id:x} is named instead of {:x}", tx.id());
                }
                SealError::Client(e) => {
                    ensure!(proven.is_none(), "untruthful refusal", "the client-side part is fine but reported as bad: {e}");
                    ensure!(e.protocol == p, "untruthful refusal", "the error of the client-side part was altered");
                }
                SealError::Published(e) => {
                    let Some(x) = proven else { return fail("untruthful refusal", "the published part is blamed for a bad client-side part") };
                    ensure!(!published && e.txid == tx.id() && e.expected == x, "untruthful refusal", "the published part is blamed for nothing or with another commitment");
                }
            }
        }
    }
    Ok(())
}

// ---- Scripted evidence --------------------------------------------------------------------------------------------

/// What the scripted medium says at the moment. Read by the trait implementations below.
#[derive(Clone, Debug, Default)]
struct Script {
    /// Which (seal, message) are included in which (publication, client part).
    included: BTreeSet<(u32, u64, u32, u32)>,
    /// Client parts which fail, with the code of the error.
    client_err: BTreeMap<u32, u32>,
    /// Publications which cannot be read, with the code of the error.
    pub_err: BTreeMap<u32, u32>,
    /// What publications commit to.
    commits: BTreeSet<(u32, u64)>,
}

thread_local! {
    static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
}

fn with<T>(f: impl FnOnce(&mut Script) -> T) -> T { SCRIPT.with(|s| f(&mut s.borrow_mut())) }

/// What the client part of a witness makes of a message.
fn convolved(client: u32, message: u64) -> u64 {
    if client == ABSENT {
        return message;
    }
    mix(&[client as u64, message, 0xC12])
}

/// The client part of a witness of a protocol that has none.
const ABSENT: u32 = 2;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct SSeal(u32);

impl Display for SSeal {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "seal#{}#", self.0) }
}

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct SPub(u32);

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct SCli(u32);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum SErr {
    Code(u32),
    NoCommitment(u32, u64),
}

impl Display for SErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        match self {
            SErr::Code(c) => write!(f, "scripted error {c}"),
            SErr::NoCommitment(p, v) => write!(f, "publication {p} has no commitment {v:x}"),
        }
    }
}
impl std::error::Error for SErr {}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct PubName(u32);
impl Display for PubName {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "pub#{}#", self.0) }
}

impl SingleUseSeal for SSeal {
    type Message = u64;
    type PubWitness = SPub;
    type CliWitness = SCli;
    fn is_included(&self, message: u64, w: &SealWitness<Self>) -> bool {
        with(|s| s.included.contains(&(self.0, message, w.published.0, w.client.0)))
    }
}

impl ClientSideWitness for SCli {
    type Seal = SSeal;
    type Proof = u64;
    type Error = SErr;
    fn convolve_commit(&self, msg: u64) -> Result<u64, SErr> {
        match with(|s| s.client_err.get(&self.0).copied()) {
            Some(e) => Err(SErr::Code(e)),
            None if self.0 == ABSENT => {
                let mut none = NoWitness::<SSeal>::default();
                let merged = none.merge(NoWitness::default()).is_ok();
                // All absent witnesses are the same.
                if !merged || none != NoWitness::default() {
                    return Err(SErr::Code(u32::MAX));
                }
                none.convolve_commit(msg).map_err(|e| match e {})
            }
            None => Ok(convolved(self.0, msg)),
        }
    }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error>
    where Self: Sized {
        Ok::<_, std::convert::Infallible>(())
    }
}

impl PublishedWitness<SSeal> for SPub {
    type PubId = PubName;
    type Error = SErr;
    fn pub_id(&self) -> PubName { PubName(self.0) }
    fn verify_commitment(&self, proof: u64) -> Result<(), SErr> {
        if let Some(e) = with(|s| s.pub_err.get(&self.0).copied()) {
            return Err(SErr::Code(e));
        }
        if with(|s| s.commits.contains(&(self.0, proof))) { Ok(()) } else { Err(SErr::NoCommitment(self.0, proof)) }
    }
}

/// A list of seals that does not know its length, or lies about it.
struct Stream<'a>(std::slice::Iter<'a, SSeal>, usize);
impl<'a> Iterator for Stream<'a> {
    type Item = &'a SSeal;
    fn next(&mut self) -> Option<&'a SSeal> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, (self.1 > 0).then_some(self.1 + self.0.len())) }
}

fn scripted(c: &mut Ctl) -> Res {
    with(|s| *s = Script::default());
    let pubs = c.range(1, 2) as u32;
    let clis = c.range(1, 3) as u32;
    // Now and then a witness closes a lot of seals.
    let crowd = c.chance(4);
    let multitude = crowd && c.below(200) == 199;
    let pool = if multitude { 1 << 24 } else if crowd { 3000 } else { c.range(1, 5) as u32 };
    let msgs: Vec<u64> = vec![7, 8];
    let f = Faults::draw(c);
    let steps = c.range(1, 12);
    for step in 0..steps {
        c.open();
        c.sim_ms += 1 + c.below(100) as u64;
        // The true closing of this step.
        let (p, k, m) = (c.below(pubs as usize) as u32, c.below(clis as usize) as u32, *c.pick(&msgs));
        let mut seals: Vec<SSeal> = if crowd {
            let n = if multitude {
                c.probe("tens of thousands of seals");
                *c.pick(&[4097, 10000, 65535, 65536, 70000])
            } else {
                *c.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000])
            };
            c.probe("more than ten seals");
            let mut rng = c.rng();
            (0..n).map(|_| SSeal(rng.below(pool as u64) as u32)).collect()
        } else {
            let n = c.weighted(&[1, 6, 5, 4, 2, 1]);
            (0..n).map(|_| SSeal(c.below(pool as usize) as u32)).collect()
        };
        with(|s| {
            for x in &seals {
                s.included.insert((x.0, m, p, k));
            }
            s.commits.insert((p, convolved(k, m)));
        });
        // Faults of the medium, which may outlive the step.
        if c.chance(f.io) {
            let code = 1 + c.below(1000) as u32;
            c.fault("medium.unavailable");
            with(|s| s.pub_err.insert(p, code));
        }
        if c.chance(f.corrupt) {
            let code = 1000 + c.below(1000) as u32;
            c.fault("client.part.broken");
            with(|s| s.client_err.insert(k, code));
        }
        if c.chance(f.drop) && !seals.is_empty() {
            // Any of them; the last one as often as all the others.
            let x = if c.chance(30) { seals[seals.len() - 1] } else { *c.pick(&seals) };
            c.fault("seal.not.included");
            with(|s| s.included.remove(&(x.0, m, p, k)));
        }
        if c.chance(f.drop) {
            c.fault("publication.reorganised");
            with(|s| s.commits.remove(&(p, convolved(k, m))));
        }
        if c.chance(40) {
            // Outages end.
            with(|s| {
                s.pub_err.clear();
                s.client_err.clear();
            });
        }
        // What the verifier is asked about may differ from the truth.
        let mut asked = (p, k, m);
        match c.weighted(&[10, 1, 1, 1, 2, 2]) {
            1 => asked.0 = c.below(pubs as usize) as u32,
            2 => asked.1 = c.below(clis as usize) as u32,
            3 => asked.2 = *c.pick(&msgs),
            4 => {
                let at = c.below(seals.len() + 1);
                seals.insert(at, SSeal(c.below(pool as usize + 2) as u32));
            }
            5 if !seals.is_empty() => {
                let x = *c.pick(&seals);
                seals.push(x);
            }
            _ => {}
        }
        if seals.len() <= 10 {
            c.shuffle(&mut seals);
        }
        let (p, k, m) = asked;
        let s = with(|s| s.clone());
        let lost: BTreeSet<SSeal> = seals.iter().filter(|x| !s.included.contains(&(x.0, m, p, k))).copied().collect();
        let cerr = s.client_err.get(&k).copied();
        let perr = s.pub_err.get(&p).copied();
        let committed = s.commits.contains(&(p, convolved(k, m)));
        let good = lost.is_empty() && cerr.is_none() && perr.is_none() && committed;
        let w: SealWitness<SSeal> = SealWitness::new(SPub(p), SCli(k));
        let w = if c.chance(20) { dec(&enc(&w).expect("memory")).map_err(|e| Fail { class: "witness changed".into(), detail: e })? } else { w };
        let way = c.below(5);
        let res = match way {
            0 if seals.len() == 1 => w.verify_seal_closing(seals[0], m),
            1 if seals.len() == 1 => w.verify_seal_closing(&seals[0], m),
            2 => w.verify_seals_closing(seals.clone(), m),
            3 => w.verify_seals_closing(Stream(seals.iter(), c.below(3)), m),
            _ => w.verify_seals_closing(&seals, m),
        };
        let missing = (!lost.is_empty()) as u64 | (cerr.is_some() as u64) << 1 | (perr.is_some() as u64) << 2 | (!committed as u64) << 3;
        let named = if seals.len() > 10 { format!("{:?}… {}", &seals[..3], seals.len()) } else { format!("{seals:?}") };
        ev!(c, "step {step} seals {named} publication {p} client {k} message {m} missing {missing}: {res:?}");
        c.state(&[2, missing, seals.len() as u64, way as u64, res.is_ok() as u64]);
        if missing != 0 {
            c.nontrivial = true;
        }
        match res {
            Ok(()) => {
                ensure!(lost.is_empty(), "closing without a seal accepted", "a closing of {seals:?} is accepted though {} is not included", lost.first().expect("not empty"));
                ensure!(cerr.is_none(), "incomplete evidence accepted", "a closing is accepted though its client-side part fails");
                ensure!(good, "incomplete evidence accepted", "a closing is accepted though the published part does not confirm it");
            }
            Err(e) => {
                ensure!(!good, "complete evidence refused", "complete evidence for {seals:?} is refused: {e}");
                let text = e.to_string();
                let (inner, source): (Option<String>, bool) = match &e {
                    SealError::NotIncluded(x, id) => {
                        ensure!(lost.contains(x), "untruthful refusal", "{x} is included but reported as not included");
                        ensure!(id.0 == p, "untruthful refusal", "publication {} is named instead of {p}", id.0);
                        ensure!(text.contains(&x.to_string()) && text.contains(&id.to_string()), "untruthful refusal", "the refusal does not name {x} and {id}: {text}");
                        (None, e.source().is_none())
                    }
                    SealError::Client(x) => {
                        ensure!(cerr.map(SErr::Code).as_ref() == Some(x), "untruthful refusal", "error {x} of the client-side part is none: {cerr:?}");
                        (Some(x.to_string()), e.source().is_some())
                    }
                    SealError::Published(x) => {
                        ensure!(cerr.is_none(), "untruthful refusal", "the published part is blamed though the client-side part fails");
                        let want = match perr {
                            Some(x) => Some(SErr::Code(x)),
                            None if !committed => Some(SErr::NoCommitment(p, convolved(k, m))),
                            None => None,
                        };
                        ensure!(want.as_ref() == Some(x), "untruthful refusal", "error {x} of the published part instead of {want:?}");
                        (Some(x.to_string()), e.source().is_some())
                    }
                };
                if let Some(inner) = inner {
                    ensure!(text.contains(&inner), "untruthful refusal", "the refusal '{text}' does not tell '{inner}'");
                    ensure!(source, "untruthful refusal", "the refusal hides its source");
                }
            }
        }
        c.close();
    }
    Ok(())
}

