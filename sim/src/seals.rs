//! Seals, witnesses and the publication medium of the simulated world. They implement the traits of the crates under
//! test the way a client library does.

use std::fmt::{self, Display, Formatter};

use amplify::confinement::{Confined, SmallVec};
use amplify::Bytes32;
use commit_verify::mpc::{Commitment, MerkleProof, Message, ProtocolId};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealWitness, SingleUseSeal};
use sha2::{Digest, Sha256};

use crate::refm::{self, H};

pub const LIB: &str = "CsvSim";

/// An output of a transaction.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct OutPoint {
    pub tx: u64,
    pub vout: u32,
}

impl Display for OutPoint {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{:016x}:{}", self.tx, self.vout) }
}

/// A transaction: spends outputs and carries one commitment.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Tx {
    pub inputs: SmallVec<OutPoint>,
    pub outputs: u32,
    pub nonce: u64,
    pub commitment: Bytes32,
}

impl Tx {
    pub fn id(&self) -> u64 {
        let mut h = Sha256::new();
        for i in self.inputs.iter() {
            h.update([1]);
            h.update(i.tx.to_le_bytes());
            h.update(i.vout.to_le_bytes());
        }
        h.update([0]);
        h.update(self.outputs.to_le_bytes());
        h.update(self.nonce.to_le_bytes());
        h.update(self.commitment.to_byte_array());
        u64::from_le_bytes(h.finalize()[..8].try_into().expect("8 bytes"))
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct OtherCommitment {
    pub txid: u64,
    pub expected: H,
}

impl Display for OtherCommitment {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "transaction {:016x} does not commit to {}", self.txid, crate::kernel::hex(&self.expected))
    }
}
impl std::error::Error for OtherCommitment {}

/// Client-side witness: the place of the message in the multi-protocol commitment of the transaction.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Anchor {
    pub protocol: ProtocolId,
    pub proof: MerkleProof,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct BadAnchor {
    pub protocol: H,
}

impl Display for BadAnchor {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "the anchor has no valid place for protocol {}", crate::kernel::hex(&self.protocol))
    }
}
impl std::error::Error for BadAnchor {}

impl ClientSideWitness for Anchor {
    type Seal = OutPoint;
    type Proof = Commitment;
    type Error = BadAnchor;

    fn convolve_commit(&self, msg: Message) -> Result<Commitment, BadAnchor> {
        self.proof.convolve(self.protocol, msg).map_err(|_| BadAnchor { protocol: crate::codec::raw(self.protocol) })
    }

    fn merge(&mut self, other: Self) -> Result<(), impl std::error::Error>
    where Self: Sized {
        if *self == other { Ok(()) } else { Err(BadAnchor { protocol: crate::codec::raw(other.protocol) }) }
    }
}

impl PublishedWitness<OutPoint> for Tx {
    type PubId = u64;
    type Error = OtherCommitment;

    fn pub_id(&self) -> u64 { self.id() }

    fn verify_commitment(&self, proof: Commitment) -> Result<(), OtherCommitment> {
        let expected = crate::codec::raw(proof);
        if self.commitment.to_byte_array() == expected {
            Ok(())
        } else {
            Err(OtherCommitment { txid: self.id(), expected })
        }
    }
}

impl SingleUseSeal for OutPoint {
    type Message = Message;
    type PubWitness = Tx;
    type CliWitness = Anchor;

    fn is_included(&self, _: Message, witness: &SealWitness<Self>) -> bool { witness.published.inputs.contains(self) }
}

pub type Witness = SealWitness<OutPoint>;

/// What an anchor proves for a message according to the reference model; `None` if it is unusable.
pub fn ref_convolve(pos: u32, cofactor: u16, path: &[H], protocol: &H, message: &H) -> Option<H> {
    let depth = path.len();
    if depth > 31 || refm::slot(protocol, cofactor, depth as u8) != pos {
        return None;
    }
    let width = 1u64 << depth;
    let mut hash = refm::leaf(protocol, message);
    for (i, sibling) in path.iter().enumerate().rev() {
        let bit = pos >> (depth - 1 - i) & 1;
        hash = if bit == 0 { refm::branches(i as u8, width, &hash, sibling) } else { refm::branches(i as u8, width, sibling, &hash) };
    }
    Some(refm::commitment(depth as u8, cofactor, &hash))
}

/// Splits an encoded proof.
pub fn parse_proof(b: &[u8]) -> Option<(u32, u16, Vec<H>)> {
    if b.len() < 8 || b[0] != 0 {
        return None;
    }
    let pos = u32::from_le_bytes(b[1..5].try_into().ok()?);
    let cofactor = u16::from_le_bytes(b[5..7].try_into().ok()?);
    let n = b[7] as usize;
    let path: Vec<H> = b[8..].chunks(32).map(|c| c.try_into().ok()).collect::<Option<_>>()?;
    (path.len() == n).then_some((pos, cofactor, path))
}

pub fn small<T>(v: Vec<T>) -> SmallVec<T> { Confined::try_from(v).expect("few items") }
