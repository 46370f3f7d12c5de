//! C14: committers and verifiers using schemes built on the traits of the library; what they exchange travels over a
//! faulty network, and the device that makes commitments fails for some of them at some times.

use std::cell::Cell;
use std::collections::BTreeSet;
use std::fmt::{self, Display, Formatter};

use amplify::confinement::Confined;
use amplify::num::u5;
use commit_verify::mpc::{MerkleTree, Method, MultiSource};
use commit_verify::{
    CommitVerify, CommitmentProtocol, ConvolveCommit, ConvolveCommitProof, ConvolveVerifyError, EmbedCommitProof, EmbedCommitVerify,
    EmbedVerifyError, TryCommitVerify, VerifyEq, VerifyError,
};
use sha2::{Digest, Sha256};

use crate::codec::*;
use crate::kernel::*;
use crate::refm::H;
use crate::runner::Check;
use crate::{ensure, ev, gen};

pub const CHECKS: &[Check] = &[Check {
    id: "C14",
    run: run14,
    quick: 300_000,
    thorough: 5_000_000,
    rule: "one evaluation is one simulated run: up to three committers of one scheme, up to 20 deliveries of their messages, commitments, containers and \
         proofs (also exchanged with one another or damaged) to verifiers whose commitment device fails now and then; non-trivial if something \
         differed from what was committed or a device failed; distinct by the complete event log",
    states: "distinct (scheme, what differs, device state, outcome)",
    real: &[
        "default verification of CommitVerify, TryCommitVerify, EmbedCommitVerify, ConvolveCommitProof; VerifyEq for Eq types",
        "TryCommitVerify of mpc::MerkleTree",
    ],
    stub: &["schemes of the client library (hash based)", "commitment device", "network, clock"],
    assumptions: &["SHA-256 collisions do not occur"],
    batch: None,
}];

fn run14(c: &mut Ctl) -> Res {
    match c.below(7) {
        0 => world::<Plain>(c),
        1 => world::<Fallible>(c),
        2 | 3 => world::<Embedded>(c),
        4 | 5 => world::<Convolved>(c),
        _ => world::<Mpc>(c),
    }
}

// ---- Commitment device --------------------------------------------------------------------------------------------

thread_local! {
    static DEVICE: Cell<Option<u8>> = const { Cell::new(None) };
    static CALLS: Cell<u32> = const { Cell::new(0) };
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Trouble {
    Device(u8),
    Message(usize),
    Full,
}

impl Display for Trouble {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for Trouble {}

const LIMIT: usize = 40;

/// Everything that can't be committed to.
fn device(msg: &[u8]) -> Result<(), Trouble> {
    CALLS.with(|n| n.set(n.get() + 1));
    if let Some(code) = DEVICE.with(Cell::get) {
        return Err(Trouble::Device(code));
    }
    if msg.len() > LIMIT {
        return Err(Trouble::Message(msg.len()));
    }
    Ok(())
}

fn digest(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update((p.len() as u64).to_le_bytes());
        h.update(p);
    }
    h.finalize().into()
}

struct Sim;
impl CommitmentProtocol for Sim {}

// ---- Schemes ------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
enum Verdict {
    Accepted,
    /// The data do not belong together.
    Mismatch(&'static str),
    /// The commitment procedure can't process them; with the reason it gave, where the scheme tells.
    CantCommit(Option<Trouble>),
}

/// What a committer publishes and sends, cut into parts each of which can differ on its own.
trait Scheme {
    const NAME: &'static str;
    /// Number of parts: the first one is the message.
    const PARTS: usize;
    type Bundle: Clone;
    fn make(c: &mut Ctl, msg: Vec<u8>) -> Result<Self::Bundle, Trouble>;
    /// Identity of a part as far as the scheme regards it.
    fn part(b: &Self::Bundle, i: usize) -> Vec<u8>;
    fn exchange(b: &mut Self::Bundle, with: &Self::Bundle, i: usize);
    fn damage(c: &mut Ctl, b: &mut Self::Bundle, i: usize);
    fn verify(b: &Self::Bundle) -> Verdict;
    /// What the procedure must say about these data, if it can't process them.
    fn trouble(b: &Self::Bundle) -> Option<Trouble>;
}

fn flip(c: &mut Ctl, v: &mut Vec<u8>) {
    match c.below(4) {
        0 if !v.is_empty() => {
            let i = c.below(v.len());
            v[i] ^= 1 << c.below(8);
        }
        1 if !v.is_empty() => {
            v.pop();
        }
        2 => v.extend([7; 50]),
        _ => v.push(c.below(256) as u8),
    }
}

fn flip_hash(c: &mut Ctl, h: &mut H) { h[c.below(32)] ^= 1 << c.below(8); }

// -- Plain and fallible

#[derive(Clone, PartialEq, Eq, Debug)]
struct PlainCommitment(H);

impl CommitVerify<Vec<u8>, Sim> for PlainCommitment {
    fn commit(msg: &Vec<u8>) -> Self { PlainCommitment(digest(&[b"plain", msg])) }
}

enum Plain {}
impl Scheme for Plain {
    const NAME: &'static str = "plain";
    const PARTS: usize = 2;
    type Bundle = (Vec<u8>, PlainCommitment);
    fn make(_: &mut Ctl, msg: Vec<u8>) -> Result<Self::Bundle, Trouble> {
        let x = PlainCommitment::commit(&msg);
        Ok((msg, x))
    }
    fn part(b: &Self::Bundle, i: usize) -> Vec<u8> { if i == 0 { b.0.clone() } else { b.1 .0.to_vec() } }
    fn exchange(b: &mut Self::Bundle, with: &Self::Bundle, i: usize) {
        if i == 0 {
            b.0 = with.0.clone()
        } else {
            b.1 = with.1.clone()
        }
    }
    fn damage(c: &mut Ctl, b: &mut Self::Bundle, i: usize) {
        if i == 0 {
            flip(c, &mut b.0)
        } else {
            flip_hash(c, &mut b.1 .0)
        }
    }
    fn verify(b: &Self::Bundle) -> Verdict { verdict(CommitVerify::verify(&b.1, &b.0)) }
    fn trouble(_: &Self::Bundle) -> Option<Trouble> { None }
}

fn verdict(r: Result<(), VerifyError>) -> Verdict {
    match r {
        Ok(()) => Verdict::Accepted,
        Err(VerifyError::InvalidCommitment) => Verdict::Mismatch("commitment"),
        Err(VerifyError::InvalidMessage) => Verdict::CantCommit(None),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct FallibleCommitment(H);

impl TryCommitVerify<Vec<u8>, Sim> for FallibleCommitment {
    type Error = Trouble;
    fn try_commit(msg: &Vec<u8>) -> Result<Self, Trouble> {
        device(msg)?;
        Ok(FallibleCommitment(digest(&[b"fallible", msg])))
    }
}

enum Fallible {}
impl Scheme for Fallible {
    const NAME: &'static str = "fallible";
    const PARTS: usize = 2;
    type Bundle = (Vec<u8>, FallibleCommitment);
    fn make(_: &mut Ctl, msg: Vec<u8>) -> Result<Self::Bundle, Trouble> {
        let x = FallibleCommitment::try_commit(&msg)?;
        Ok((msg, x))
    }
    fn part(b: &Self::Bundle, i: usize) -> Vec<u8> { if i == 0 { b.0.clone() } else { b.1 .0.to_vec() } }
    fn exchange(b: &mut Self::Bundle, with: &Self::Bundle, i: usize) {
        if i == 0 {
            b.0 = with.0.clone()
        } else {
            b.1 = with.1.clone()
        }
    }
    fn damage(c: &mut Ctl, b: &mut Self::Bundle, i: usize) {
        if i == 0 {
            flip(c, &mut b.0)
        } else {
            flip_hash(c, &mut b.1 .0)
        }
    }
    fn verify(b: &Self::Bundle) -> Verdict { verdict(TryCommitVerify::verify(&b.1, &b.0)) }
    fn trouble(b: &Self::Bundle) -> Option<Trouble> { device(&b.0).err() }
}

// -- Multi-protocol commitments

enum Mpc {}
impl Scheme for Mpc {
    const NAME: &'static str = "multi-protocol";
    const PARTS: usize = 2;
    type Bundle = (MultiSource, MerkleTree);
    fn make(c: &mut Ctl, msg: Vec<u8>) -> Result<Self::Bundle, Trouble> {
        let n = c.below(5);
        let pairs: Vec<(H, H)> = (0..n).map(|i| (digest(&[b"p", &[i as u8]]), digest(&[b"m", &msg, &[i as u8]]))).collect();
        let depth = if n == 0 { 1 } else { c.below(4) as u8 };
        let src = gen::source(depth, &pairs, Some(msg.len() as u64));
        let t = MerkleTree::try_commit(&src).map_err(|_| Trouble::Full)?;
        Ok((src, t))
    }
    fn part(b: &Self::Bundle, i: usize) -> Vec<u8> {
        if i == 0 {
            format!("{:?}", b.0).into_bytes()
        } else {
            enc(&b.1).unwrap_or_default()
        }
    }
    fn exchange(b: &mut Self::Bundle, with: &Self::Bundle, i: usize) {
        if i == 0 {
            b.0 = with.0.clone()
        } else {
            b.1 = with.1.clone()
        }
    }
    fn damage(c: &mut Ctl, b: &mut Self::Bundle, i: usize) {
        if i == 0 {
            let mut list: Vec<(H, H)> = b.0.messages.iter().map(|(p, m)| (raw(*p), raw(*m))).collect();
            match c.below(4) {
                0 if !list.is_empty() => {
                    let k = c.below(list.len());
                    flip_hash(c, &mut list[k].1)
                }
                1 if !list.is_empty() => {
                    list.pop();
                }
                2 => {
                    // Nothing to commit to at all.
                    list.clear();
                    b.0.min_depth = u5::ZERO;
                }
                _ => list.push(([9; 32], [9; 32])),
            }
            b.0.messages = Confined::try_from_iter(list.iter().map(|(p, m)| (pid(p), msg(m)))).expect("few messages");
            b.0.method = Method::Sha256t;
        } else {
            let mut other = b.0.clone();
            other.static_entropy = Some(c.seed());
            if let Ok(t) = MerkleTree::try_commit(&other) {
                b.1 = t;
            }
        }
    }
    fn verify(b: &Self::Bundle) -> Verdict { verdict(TryCommitVerify::verify(&b.1, &b.0)) }
    fn trouble(b: &Self::Bundle) -> Option<Trouble> {
        (b.0.messages.is_empty() && b.0.min_depth == u5::ZERO).then_some(Trouble::Full)
    }
}

// -- Embedded

/// A document with a slot for a commitment. The note is not a part of what is committed to.
#[derive(Clone, Debug)]
struct Doc {
    text: Vec<u8>,
    slot: H,
    spare: u8,
    note: u8,
}

impl VerifyEq for Doc {
    fn verify_eq(&self, other: &Self) -> bool { (&self.text, self.slot, self.spare) == (&other.text, other.slot, other.spare) }
}

#[derive(Clone, Debug)]
struct DocProof {
    former: H,
    receipt: H,
    note: u8,
}

impl VerifyEq for DocProof {
    fn verify_eq(&self, other: &Self) -> bool { (self.former, self.receipt) == (other.former, other.receipt) }
}

impl EmbedCommitProof<Vec<u8>, Doc, Sim> for DocProof {
    fn restore_original_container(&self, doc: &Doc) -> Result<Doc, EmbedVerifyError<Trouble>> {
        if self.former[0] == 0xEE {
            return Err(EmbedVerifyError::InvalidProof);
        }
        Ok(Doc { text: doc.text.clone(), slot: self.former, spare: doc.spare + 1, note: 77 })
    }
}

impl EmbedCommitVerify<Vec<u8>, Sim> for Doc {
    type Proof = DocProof;
    type CommitError = Trouble;
    fn embed_commit(&mut self, msg: &Vec<u8>) -> Result<DocProof, Trouble> {
        let former = self.slot;
        // A failing procedure leaves the container half done.
        self.slot = [0; 32];
        if self.spare == 0 || self.spare > 200 {
            return Err(Trouble::Full);
        }
        device(msg)?;
        self.slot = digest(&[b"slot", &self.text, &former, &[self.spare], msg]);
        self.spare -= 1;
        Ok(DocProof { former, receipt: digest(&[b"receipt", msg]), note: 1 })
    }
}

enum Embedded {}
impl Scheme for Embedded {
    const NAME: &'static str = "embedded";
    const PARTS: usize = 6;
    type Bundle = (Vec<u8>, Doc, DocProof);
    fn make(c: &mut Ctl, msg: Vec<u8>) -> Result<Self::Bundle, Trouble> {
        let n = c.below(4);
        let mut doc = Doc { text: c.rng().bytes(n), slot: digest(&[&[c.below(2) as u8]]), spare: c.range(1, 3) as u8, note: c.below(3) as u8 };
        let mut proof = doc.embed_commit(&msg)?;
        proof.note = c.below(3) as u8;
        Ok((msg, doc, proof))
    }
    fn part(b: &Self::Bundle, i: usize) -> Vec<u8> {
        match i {
            0 => b.0.clone(),
            1 => b.1.text.clone(),
            2 => b.1.slot.to_vec(),
            3 => vec![b.1.spare],
            4 => b.2.former.to_vec(),
            _ => b.2.receipt.to_vec(),
        }
    }
    fn exchange(b: &mut Self::Bundle, with: &Self::Bundle, i: usize) {
        match i {
            0 => b.0 = with.0.clone(),
            1 => b.1.text = with.1.text.clone(),
            2 => b.1.slot = with.1.slot,
            3 => (b.1.spare, b.1.note) = (with.1.spare, with.1.note),
            4 => b.2.former = with.2.former,
            _ => (b.2.receipt, b.2.note) = (with.2.receipt, with.2.note),
        }
    }
    fn damage(c: &mut Ctl, b: &mut Self::Bundle, i: usize) {
        match i {
            0 => flip(c, &mut b.0),
            1 => flip(c, &mut b.1.text),
            2 => flip_hash(c, &mut b.1.slot),
            3 => b.1.spare = *c.pick(&[0u8, 1, 5, 200, 250]),
            4 => {
                flip_hash(c, &mut b.2.former);
                if c.chance(30) {
                    b.2.former[0] = 0xEE;
                }
            }
            _ => flip_hash(c, &mut b.2.receipt),
        }
        if c.chance(30) {
            b.1.note ^= 1;
            b.2.note ^= 1;
        }
    }
    fn verify(b: &Self::Bundle) -> Verdict {
        match b.1.verify(&b.0, &b.2) {
            Ok(()) => Verdict::Accepted,
            Err(EmbedVerifyError::CommitmentMismatch) => Verdict::Mismatch("commitment"),
            Err(EmbedVerifyError::InvalidProof) => Verdict::Mismatch("proof"),
            Err(EmbedVerifyError::ProofMismatch) => Verdict::Mismatch("proof"),
            Err(EmbedVerifyError::InvalidMessage(e)) => Verdict::CantCommit(Some(e)),
        }
    }
    fn trouble(b: &Self::Bundle) -> Option<Trouble> {
        if b.2.former[0] == 0xEE {
            // It does not come to a commitment.
            return None;
        }
        let spare = b.1.spare as u32 + 1;
        if spare > 200 {
            return Some(Trouble::Full);
        }
        device(&b.0).err()
    }
}

// -- Convolved

#[derive(Clone, Debug)]
struct Key(H);

#[derive(Clone, Debug)]
struct Tweaked {
    key: H,
    note: u8,
}

impl VerifyEq for Tweaked {
    fn verify_eq(&self, other: &Self) -> bool { self.key == other.key }
}

#[derive(Clone, Debug)]
struct KeyProof {
    original: H,
    suppl: Vec<u8>,
    receipt: H,
    note: u8,
}

impl VerifyEq for KeyProof {
    fn verify_eq(&self, other: &Self) -> bool {
        (self.original, &self.suppl, self.receipt) == (other.original, &other.suppl, other.receipt)
    }
}

impl ConvolveCommitProof<Vec<u8>, Key, Sim> for KeyProof {
    type Suppl = Vec<u8>;
    fn restore_original(&self, _: &Tweaked) -> Key { Key(self.original) }
    fn extract_supplement(&self) -> &Vec<u8> { &self.suppl }
}

impl ConvolveCommit<Vec<u8>, KeyProof, Sim> for Key {
    type Commitment = Tweaked;
    type CommitError = Trouble;
    fn convolve_commit(&self, suppl: &Vec<u8>, msg: &Vec<u8>) -> Result<(Tweaked, KeyProof), Trouble> {
        device(msg)?;
        if suppl.len() > LIMIT {
            return Err(Trouble::Full);
        }
        let key = digest(&[b"key", &self.0, suppl, msg]);
        let receipt = digest(&[b"receipt", suppl, msg]);
        Ok((Tweaked { key, note: 5 }, KeyProof { original: self.0, suppl: suppl.clone(), receipt, note: 6 }))
    }
}

enum Convolved {}
impl Scheme for Convolved {
    const NAME: &'static str = "convolved";
    const PARTS: usize = 5;
    type Bundle = (Vec<u8>, Tweaked, KeyProof);
    fn make(c: &mut Ctl, msg: Vec<u8>) -> Result<Self::Bundle, Trouble> {
        let n = c.below(3);
        let suppl = c.rng().bytes(n);
        let (mut t, mut p) = Key(digest(&[&[c.below(2) as u8]])).convolve_commit(&suppl, &msg)?;
        t.note = c.below(3) as u8;
        p.note = c.below(3) as u8;
        Ok((msg, t, p))
    }
    fn part(b: &Self::Bundle, i: usize) -> Vec<u8> {
        match i {
            0 => b.0.clone(),
            1 => b.1.key.to_vec(),
            2 => b.2.original.to_vec(),
            3 => b.2.suppl.clone(),
            _ => b.2.receipt.to_vec(),
        }
    }
    fn exchange(b: &mut Self::Bundle, with: &Self::Bundle, i: usize) {
        match i {
            0 => b.0 = with.0.clone(),
            1 => b.1 = with.1.clone(),
            2 => b.2.original = with.2.original,
            3 => b.2.suppl = with.2.suppl.clone(),
            _ => (b.2.receipt, b.2.note) = (with.2.receipt, with.2.note),
        }
    }
    fn damage(c: &mut Ctl, b: &mut Self::Bundle, i: usize) {
        match i {
            0 => flip(c, &mut b.0),
            1 => flip_hash(c, &mut b.1.key),
            2 => flip_hash(c, &mut b.2.original),
            3 => flip(c, &mut b.2.suppl),
            _ => flip_hash(c, &mut b.2.receipt),
        }
        if c.chance(30) {
            b.1.note ^= 1;
            b.2.note ^= 1;
        }
    }
    fn verify(b: &Self::Bundle) -> Verdict {
        match b.2.verify(&b.0, &b.1) {
            Ok(()) => Verdict::Accepted,
            Err(ConvolveVerifyError::CommitmentMismatch) => Verdict::Mismatch("commitment"),
            Err(ConvolveVerifyError::InvalidProof) => Verdict::Mismatch("proof"),
            Err(ConvolveVerifyError::ImpossibleMessage) => Verdict::CantCommit(None),
        }
    }
    fn trouble(b: &Self::Bundle) -> Option<Trouble> {
        device(&b.0).err().or_else(|| (b.2.suppl.len() > LIMIT).then_some(Trouble::Full))
    }
}

// ---- World --------------------------------------------------------------------------------------------------------

fn identity<S: Scheme>(b: &S::Bundle) -> Vec<Vec<u8>> { (0..S::PARTS).map(|i| S::part(b, i)).collect() }

struct Parcel<S: Scheme> {
    bundle: S::Bundle,
    changed: u32,
}

impl<S: Scheme> Clone for Parcel<S> {
    fn clone(&self) -> Self { Parcel { bundle: self.bundle.clone(), changed: self.changed } }
}

fn world<S: Scheme>(c: &mut Ctl) -> Res {
    DEVICE.with(|d| d.set(None));
    let f = Faults { corrupt: *c.pick(&[20, 0, 50]), ..Faults::draw(c) };
    let outage = *c.pick(&[0u32, 10, 40]);
    let mut made: Vec<S::Bundle> = vec![];
    let mut produced: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    for i in 0..c.range(1, 3) {
        let n = match c.below(3) {
            0 => c.below(3),
            1 => c.below(33),
            _ => c.range(LIMIT - 1, LIMIT + 2),
        };
        let msg = c.rng().bytes(n);
        match S::make(c, msg) {
            Ok(b) => {
                produced.insert(identity::<S>(&b));
                made.push(b);
                ev!(c, "{} commitment {i} to {n} bytes", S::NAME);
            }
            Err(e) => ev!(c, "{} commitment {i} to {n} bytes impossible: {e}", S::NAME),
        }
    }
    if made.is_empty() {
        return Ok(());
    }
    let mut net: Net<Parcel<S>> = Net::new(4);
    for _ in 0..c.range(1, 10) {
        c.open();
        let i = c.below(made.len());
        let mut p = Parcel::<S> { bundle: made[i].clone(), changed: 0 };
        if made.len() > 1 && c.chance(30) {
            // Parts of two commitments are mixed up.
            for part in c.subset(S::PARTS) {
                let j = c.below(made.len());
                S::exchange(&mut p.bundle, &made[j], part);
                p.changed |= 1 << part;
            }
        }
        let to = 1 + c.below(3);
        net.send(c, &f, 0, to, p, |c, p| {
            let mut p = p.clone();
            for _ in 0..c.range(1, 2) {
                let part = c.below(S::PARTS);
                S::damage(c, &mut p.bundle, part);
                p.changed |= 1 << part;
            }
            Some(p)
        });
        c.close();
    }
    while let Some((_, to, p)) = net.next(c) {
        let down = c.chance(outage).then(|| c.below(3) as u8 + 1);
        DEVICE.with(|d| d.set(down));
        if down.is_some() {
            c.fault("device.failure");
        }
        let trouble = S::trouble(&p.bundle);
        let genuine = produced.contains(&identity::<S>(&p.bundle));
        if !genuine {
            c.fault("evidence.altered");
        }
        CALLS.with(|n| n.set(0));
        let got = S::verify(&p.bundle);
        let again = S::verify(&p.bundle);
        DEVICE.with(|d| d.set(None));
        ev!(c, "verifier {to}: {} changed {:b} device {down:?}: {got:?}", S::NAME, p.changed);
        c.state(&[hash_str(S::NAME), p.changed as u64, down.is_some() as u64, hash_str(&format!("{got:?}"))]);
        ensure!(got == again, "verdict changes", "{}: first {got:?}, then {again:?}", S::NAME);
        match (&trouble, &got) {
            (_, Verdict::Accepted) if !genuine => {
                return fail("altered evidence accepted", format!("{}: parts {:b} differ from all commitments made", S::NAME, p.changed))
            }
            (Some(e), Verdict::Accepted) => {
                return fail("accepted without verification", format!("{}: the procedure could not work ({e})", S::NAME));
            }
            (Some(e), Verdict::Mismatch(what)) => {
                return fail("wrong reason", format!("{}: {what} mismatch is reported although the procedure could not work ({e})", S::NAME));
            }
            (Some(e), Verdict::CantCommit(Some(told))) => {
                ensure!(e == told, "wrong reason", "{}: the procedure failed with {e}, the verifier reports {told}", S::NAME);
            }
            (Some(_), Verdict::CantCommit(None)) => {}
            (None, Verdict::CantCommit(_)) => {
                return fail("wrong reason", format!("{}: the procedure worked, the verifier reports {got:?}", S::NAME));
            }
            (None, Verdict::Mismatch(what)) if genuine => {
                return fail("genuine evidence refused", format!("{}: {what} mismatch", S::NAME));
            }
            (None, _) => {}
        }
        if genuine && down.is_some() {
            // The device works again.
            ensure!(S::verify(&p.bundle) == Verdict::Accepted, "genuine evidence refused", "{} after the device recovered", S::NAME);
        }
    }
    for b in &made {
        ensure!(S::verify(b) == Verdict::Accepted, "genuine evidence refused", "{}: by the committer", S::NAME);
    }
    Ok(())
}
