//! C15: a fleet of parties running different versions of the software computes the ids of client data that travel
//! between them. The published formats are frozen here, independently of the code under test; they play the part of
//! every version released before.

use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

use amplify::confinement::{Confined, LargeVec, MediumOrdMap, MediumOrdSet, MediumVec, SmallOrdMap, SmallOrdSet, SmallVec, TinyOrdMap, TinyOrdSet, TinyVec};
use amplify::Bytes32;
use commit_verify::{
    CommitEncode, CommitEngine, CommitId, CommitmentId, Conceal, DigestExt, MerkleHash, MerkleLeaves, ReservedBytes, Ripemd160, Sha256,
    StrictHash,
};
use sha2::Digest;

use crate::kernel::*;
use crate::refm::{self, H};
use crate::runner::Check;
use crate::{ensure, ev};

pub const CHECKS: &[Check] = &[Check {
    id: "C15",
    run: run15,
    quick: 40_000,
    thorough: 5_000_000,
    rule: "one evaluation is one simulated run: two to four parties, each on the frozen published format or on the code under test, author up to \
         eight data items and near misses of them, send them over a faulty network, compute and announce ids, crash within the computation, \
         restart and upgrade; non-trivial if an id was computed on both sides; distinct by the complete event log",
    states: "distinct (kind of data, sequence of ways of commitment, role, size class)",
    real: &[
        "CommitEngine (all ways of commitment), CommitId, CommitEncode derivation (all strategies)",
        "MerkleHash::merklize as a part of commitments, ReservedBytes, StrictHash",
        "DigestExt of Sha256 and Ripemd160",
    ],
    stub: &["data types of the client library", "earlier versions of the software (the frozen published format)", "network, clock, crashes"],
    assumptions: &["collisions of SHA-256 and RIPEMD-160 do not occur", "the crates sha2 and ripemd compute these functions"],
    batch: None,
}];

#[path = "world_layout.rs"]
pub mod layout;

// ---- Data types of a client library ---------------------------------------------------------------------------------

const LIB: &str = "CsvSim";

trait Frozen {
    fn frozen(&self, o: &mut Vec<u8>);
}

macro_rules! frozen_int {
    ($($t:ty)*) => { $(impl Frozen for $t { fn frozen(&self, o: &mut Vec<u8>) { o.extend(self.to_le_bytes()) } })* };
}
frozen_int!(u8 u16 u32 u64 u128);

/// Number of items, in as many bytes as the longest permitted collection needs.
fn count(o: &mut Vec<u8>, len: usize, max: usize) {
    let bytes = match max {
        0..=0xFF => 1,
        0x100..=0xFFFF => 2,
        0x1_0000..=0xFF_FFFF => 3,
        0x100_0000..=0xFFFF_FFFF => 4,
        _ => 8,
    };
    o.extend(&(len as u64).to_le_bytes()[..bytes]);
}

impl<T: Frozen> Frozen for Option<T> {
    fn frozen(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                v.frozen(o);
            }
        }
    }
}
impl<T: Frozen, const MIN: usize, const MAX: usize> Frozen for Confined<Vec<T>, MIN, MAX> {
    fn frozen(&self, o: &mut Vec<u8>) {
        count(o, self.len(), MAX);
        self.iter().for_each(|v| v.frozen(o));
    }
}
impl<T: Frozen + Ord, const MIN: usize, const MAX: usize> Frozen for Confined<BTreeSet<T>, MIN, MAX> {
    fn frozen(&self, o: &mut Vec<u8>) {
        count(o, self.len(), MAX);
        self.iter().for_each(|v| v.frozen(o));
    }
}
impl<K: Frozen + Ord + std::hash::Hash, V: Frozen, const MIN: usize, const MAX: usize> Frozen for Confined<BTreeMap<K, V>, MIN, MAX> {
    fn frozen(&self, o: &mut Vec<u8>) {
        count(o, self.len(), MAX);
        self.iter().for_each(|(k, v)| {
            k.frozen(o);
            v.frozen(o);
        });
    }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
#[repr(u8)]
enum Unit {
    #[strict_type(dumb)]
    A = 1,
    B = 2,
    C = 0x80,
}
impl Frozen for Unit {
    fn frozen(&self, o: &mut Vec<u8>) { o.push(*self as u8) }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
struct Item(u16, u8);
impl Frozen for Item {
    fn frozen(&self, o: &mut Vec<u8>) {
        self.0.frozen(o);
        self.1.frozen(o);
    }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
struct Rec {
    a: u8,
    b: u64,
    body: SmallVec<u8>,
    opt: Option<u16>,
    unit: Unit,
    items: TinyVec<Item>,
}
impl Frozen for Rec {
    fn frozen(&self, o: &mut Vec<u8>) {
        self.a.frozen(o);
        self.b.frozen(o);
        self.body.frozen(o);
        self.opt.frozen(o);
        self.unit.frozen(o);
        self.items.frozen(o);
    }
}

#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom, dumb = Self::Empty)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
enum Assoc {
    #[strict_type(tag = 8)]
    One { hash: [u8; 32], ord: u8 },
    #[strict_type(tag = 2)]
    Two(u8, u128),
    #[strict_type(tag = 3)]
    Empty,
}
impl Frozen for Assoc {
    fn frozen(&self, o: &mut Vec<u8>) {
        match self {
            Assoc::One { hash, ord } => {
                o.push(8);
                o.extend(hash);
                o.push(*ord);
            }
            Assoc::Two(a, b) => {
                o.push(2);
                a.frozen(o);
                b.frozen(o);
            }
            Assoc::Empty => o.push(3),
        }
    }
}

/// A value of any size.
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
struct Blob {
    body: MediumVec<u8>,
}
impl Frozen for Blob {
    fn frozen(&self, o: &mut Vec<u8>) { self.body.frozen(o) }
}

/// Concealed into a value of any size.
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Veil(Blob);
impl Conceal for Veil {
    type Concealed = Blob;
    fn conceal(&self) -> Blob { Blob { body: Confined::try_from_iter(self.0.body.iter().map(|b| b | 1)).expect("size") } }
}

/// A value that may be concealed: commitments are made to the concealed form only.
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom, dumb = Self::none())]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = StrictHash)]
enum Secret {
    #[strict_type(tag = 1)]
    Open { value: u64, blinding: u64 },
    #[strict_type(tag = 0)]
    Sealed([u8; 32]),
}
impl Secret {
    fn none() -> Self { Secret::Sealed([0; 32]) }
}
impl Conceal for Secret {
    type Concealed = Self;
    fn conceal(&self) -> Self {
        match self {
            Secret::Open { value, blinding } => {
                let mut h = refm::engine("csvsim:secret");
                h.update(value.to_le_bytes());
                h.update(blinding.to_le_bytes());
                Secret::Sealed(h.finalize().into())
            }
            s => s.clone(),
        }
    }
}
impl Frozen for Secret {
    fn frozen(&self, o: &mut Vec<u8>) {
        match self.conceal() {
            Secret::Sealed(h) => {
                o.push(0);
                o.extend(h);
            }
            Secret::Open { .. } => unreachable!("concealed"),
        }
    }
}

/// Concealed into another type.
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Amount {
    value: u64,
    blinding: u64,
}
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Pedersen([u8; 20]);
impl Conceal for Amount {
    type Concealed = Pedersen;
    fn conceal(&self) -> Pedersen {
        let mut h = refm::engine("csvsim:amount");
        h.update(self.value.to_le_bytes());
        h.update(self.blinding.to_le_bytes());
        let h: H = h.finalize().into();
        Pedersen(h[..20].try_into().expect("20 bytes"))
    }
}

#[derive(Wrapper, Clone, PartialEq, Eq, Hash, Debug, From)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = StrictHash)]
struct Wrapped(Rec);

#[derive(Wrapper, Copy, Clone, PartialEq, Eq, Hash, Debug, From)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdA)]
struct WrappedInt(u32);

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
struct Leaf(u32, u16);
impl Frozen for Leaf {
    fn frozen(&self, o: &mut Vec<u8>) {
        self.0.frozen(o);
        self.1.frozen(o);
    }
}

fn frozen_root<'a>(leaves: impl Iterator<Item = &'a Leaf>) -> H {
    let hashes: Vec<H> = leaves
        .map(|l| {
            let mut b = vec![];
            l.frozen(&mut b);
            hashed(refm::TAG_NODE, &b)
        })
        .collect();
    refm::merklize(&hashes)
}

#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = IdB)]
struct Grove(SmallVec<Leaf>);
impl MerkleLeaves for Grove {
    type Leaf = Leaf;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Leaf> { self.0.iter() }
}

// ---- Ids ----------------------------------------------------------------------------------------------------------

macro_rules! id_type {
    ($name:ident, $tag:expr) => {
        #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
        #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
        #[strict_type(lib = LIB)]
        struct $name(Bytes32);
        impl CommitmentId for $name {
            const TAG: &'static str = $tag;
        }
        impl From<Sha256> for $name {
            fn from(hash: Sha256) -> Self { $name(hash.finish().into()) }
        }
    };
}
id_type!(IdA, "urn:csvsim:contract#2024-01-01");
id_type!(IdB, "urn:csvsim:contract#2024-01-02");
id_type!(IdC, "");
id_type!(IdD, "urn:csvsim:a-tag-which-is-longer-than-one-block-of-the-hash-function-and-a-half#2024-02-10");

fn hashed(tag: &str, data: &[u8]) -> H {
    let mut e = refm::engine(tag);
    e.update(data);
    e.finalize().into()
}

// ---- Data ---------------------------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Eq, Debug)]
enum Field {
    Ser(Rec),
    SerUnit(Unit),
    SerAssoc(Assoc),
    SerInt(u64),
    SerReserved(ReservedBytes<4>),
    Opt(Option<Rec>),
    OptInt(Option<u8>),
    HashRec(Rec),
    HashUnit(Unit),
    HashAssoc(Assoc),
    HashReserved(ReservedBytes<3, 0xAA>),
    HashSecret(Secret),
    MerkleTiny(TinyVec<Leaf>),
    MerkleSmall(SmallVec<Leaf>),
    MerkleLarge(LargeVec<Leaf>),
    MerkleSet(SmallOrdSet<Leaf>),
    Concealed(Secret),
    ConcealedAmount(Amount),
    ListTiny(TinyVec<Item>),
    ListSmall(SmallVec<Item>),
    ListMedium(MediumVec<Item>),
    ListLarge(LargeVec<Item>),
    ListNonEmpty(Confined<Vec<Item>, 1, 255>),
    ListMax16(Confined<Vec<Item>, 0, 16>),
    ListMax256(Confined<Vec<Item>, 0, 256>),
    ListRec(TinyVec<Rec>),
    SetTiny(TinyOrdSet<Item>),
    SetSmall(SmallOrdSet<Item>),
    SetMedium(MediumOrdSet<Item>),
    MapTiny(TinyOrdMap<u16, Item>),
    MapSmall(SmallOrdMap<Item, u64>),
    MapMedium(MediumOrdMap<u8, Rec>),
    MapWide(MediumOrdMap<u32, u8>),
    SerBlob(Blob),
    OptBlob(Option<Blob>),
    HashBlob(Blob),
    ConcealedBlob(Veil),
}

const FIELDS: usize = 37;

impl Field {
    fn commit(&self, e: &mut CommitEngine) {
        use Field::*;
        match self {
            Ser(v) => e.commit_to_serialized(v),
            SerUnit(v) => e.commit_to_serialized(v),
            SerAssoc(v) => e.commit_to_serialized(v),
            SerInt(v) => e.commit_to_serialized(v),
            SerReserved(v) => e.commit_to_serialized(v),
            Opt(v) => e.commit_to_option(v),
            OptInt(v) => e.commit_to_option(v),
            HashRec(v) => e.commit_to_hash(v),
            HashUnit(v) => e.commit_to_hash(v),
            HashAssoc(v) => e.commit_to_hash(v),
            HashReserved(v) => e.commit_to_hash(v),
            HashSecret(v) => e.commit_to_hash(v),
            MerkleTiny(v) => e.commit_to_merkle(v),
            MerkleSmall(v) => e.commit_to_merkle(v),
            MerkleLarge(v) => e.commit_to_merkle(v),
            MerkleSet(v) => e.commit_to_merkle(v),
            Concealed(v) => e.commit_to_concealed(v),
            ConcealedAmount(v) => e.commit_to_concealed(v),
            ListTiny(v) => e.commit_to_linear_list(v),
            ListSmall(v) => e.commit_to_linear_list(v),
            ListMedium(v) => e.commit_to_linear_list(v),
            ListLarge(v) => e.commit_to_linear_list(v),
            ListNonEmpty(v) => e.commit_to_linear_list(v),
            ListMax16(v) => e.commit_to_linear_list(v),
            ListMax256(v) => e.commit_to_linear_list(v),
            ListRec(v) => e.commit_to_linear_list(v),
            SetTiny(v) => e.commit_to_linear_set(v),
            SetSmall(v) => e.commit_to_linear_set(v),
            SetMedium(v) => e.commit_to_linear_set(v),
            MapTiny(v) => e.commit_to_linear_map(v),
            MapSmall(v) => e.commit_to_linear_map(v),
            MapMedium(v) => e.commit_to_linear_map(v),
            MapWide(v) => e.commit_to_linear_map(v),
            SerBlob(v) => e.commit_to_serialized(v),
            OptBlob(v) => e.commit_to_option(v),
            HashBlob(v) => e.commit_to_hash(v),
            ConcealedBlob(v) => e.commit_to_concealed(v),
        }
    }

    fn frozen(&self, o: &mut Vec<u8>) {
        use Field::*;
        let strict = |v: &dyn Fn(&mut Vec<u8>), o: &mut Vec<u8>| {
            let mut b = vec![];
            v(&mut b);
            o.extend(hashed(refm::TAG_STRICT, &b));
        };
        match self {
            Ser(v) => v.frozen(o),
            SerUnit(v) => v.frozen(o),
            SerAssoc(v) => v.frozen(o),
            SerInt(v) => v.frozen(o),
            SerReserved(_) => o.extend([0; 4]),
            Opt(v) => v.frozen(o),
            OptInt(v) => v.frozen(o),
            HashRec(v) => strict(&|b| v.frozen(b), o),
            HashUnit(v) => strict(&|b| v.frozen(b), o),
            HashAssoc(v) => strict(&|b| v.frozen(b), o),
            HashReserved(_) => strict(&|b| b.extend([0xAA; 3]), o),
            HashSecret(v) => strict(&|b| v.frozen(b), o),
            MerkleTiny(v) => o.extend(frozen_root(v.iter())),
            MerkleSmall(v) => o.extend(frozen_root(v.iter())),
            MerkleLarge(v) => o.extend(frozen_root(v.iter())),
            MerkleSet(v) => o.extend(frozen_root(v.iter())),
            Concealed(v) => v.frozen(o),
            ConcealedAmount(v) => o.extend(v.conceal().0),
            ListTiny(v) => v.frozen(o),
            ListSmall(v) => v.frozen(o),
            ListMedium(v) => v.frozen(o),
            ListLarge(v) => v.frozen(o),
            ListNonEmpty(v) => v.frozen(o),
            ListMax16(v) => v.frozen(o),
            ListMax256(v) => v.frozen(o),
            ListRec(v) => v.frozen(o),
            SetTiny(v) => v.frozen(o),
            SetSmall(v) => v.frozen(o),
            SetMedium(v) => v.frozen(o),
            MapTiny(v) => v.frozen(o),
            MapSmall(v) => v.frozen(o),
            MapMedium(v) => v.frozen(o),
            MapWide(v) => v.frozen(o),
            SerBlob(v) => v.frozen(o),
            OptBlob(v) => v.frozen(o),
            HashBlob(v) => strict(&|b| v.frozen(b), o),
            ConcealedBlob(v) => v.conceal().frozen(o),
        }
    }

    /// Whether two fields are the same data; concealed values only count in their concealed form.
    fn same(&self, other: &Field) -> bool {
        use Field::*;
        match (self, other) {
            (Concealed(a), Concealed(b)) | (HashSecret(a), HashSecret(b)) => a.conceal() == b.conceal(),
            (ConcealedAmount(a), ConcealedAmount(b)) => a.conceal() == b.conceal(),
            (ConcealedBlob(a), ConcealedBlob(b)) => a.conceal() == b.conceal(),
            (a, b) => a == b,
        }
    }

    fn kind(&self) -> String { name(self) }

    fn random(c: &mut Ctl) -> Field {
        use Field::*;
        match c.below(FIELDS) {
            0 => Ser(rec(c)),
            1 => SerUnit(unit(c)),
            2 => SerAssoc(assoc(c)),
            3 => SerInt(int(c)),
            4 => SerReserved(ReservedBytes::default()),
            5 => Opt(maybe(c, rec)),
            6 => OptInt(maybe(c, |c| c.below(3) as u8)),
            7 => HashRec(rec(c)),
            8 => HashUnit(unit(c)),
            9 => HashAssoc(assoc(c)),
            10 => HashReserved(ReservedBytes::default()),
            11 => HashSecret(secret(c)),
            12 => MerkleTiny(list(c, 255, leaf)),
            13 => MerkleSmall(list(c, 300, leaf)),
            14 => MerkleLarge(list(c, HUGE, leaf)),
            15 => MerkleSet(set(c, 300, leaf)),
            16 => Concealed(secret(c)),
            17 => ConcealedAmount(Amount { value: int(c), blinding: int(c) }),
            18 => ListTiny(list(c, 255, item)),
            19 => ListSmall(list(c, 300, item)),
            20 => ListMedium(list(c, HUGE, item)),
            21 => ListLarge(list(c, HUGE, item)),
            22 => {
                let v: TinyVec<Item> = list(c, 255, item);
                let mut v = v.release();
                if v.is_empty() {
                    v.push(item(c));
                }
                ListNonEmpty(Confined::try_from(v).expect("size"))
            }
            23 => ListMax16(list(c, 16, item)),
            24 => ListMax256(list(c, 256, item)),
            25 => ListRec(list(c, 5, rec)),
            26 => SetTiny(set(c, 255, item)),
            27 => SetSmall(set(c, 300, item)),
            28 => SetMedium(set(c, HUGE, item)),
            29 => MapTiny(map(c, 255, |c| c.below(1000) as u16, item)),
            30 => MapSmall(map(c, 300, item, int)),
            31 => MapMedium(map(c, 5, |c| c.below(256) as u8, rec)),
            32 => MapWide(map(c, HUGE, |c| c.below(1 << 24) as u32, |c| c.below(256) as u8)),
            33 => SerBlob(blob(c)),
            34 => OptBlob(maybe(c, blob)),
            35 => HashBlob(blob(c)),
            _ => ConcealedBlob(Veil(blob(c))),
        }
    }
}

/// Name of the variant.
fn name<T: std::fmt::Debug>(v: &T) -> String {
    struct Start(String);
    impl std::fmt::Write for Start {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            // Nothing after the name is of interest.
            match s.find(['(', ' ']) {
                Some(n) => {
                    self.0.push_str(&s[..n]);
                    Err(std::fmt::Error)
                }
                None => {
                    self.0.push_str(s);
                    Ok(())
                }
            }
        }
    }
    let mut w = Start(String::new());
    let _ = std::fmt::write(&mut w, format_args!("{v:?}"));
    w.0
}

fn int(c: &mut Ctl) -> u64 {
    match c.below(5) {
        0 => 0,
        1 => 1,
        2 => 1 << c.below(64),
        3 => u64::MAX - c.below(2) as u64,
        _ => c.seed(),
    }
}
fn unit(c: &mut Ctl) -> Unit { *c.pick(&[Unit::A, Unit::B, Unit::C]) }
fn item(c: &mut Ctl) -> Item { Item(c.below(65536) as u16, c.below(4) as u8) }
fn leaf(c: &mut Ctl) -> Leaf { Leaf(c.below(1 << 20) as u32, c.below(3) as u16) }
fn maybe<T>(c: &mut Ctl, f: impl FnOnce(&mut Ctl) -> T) -> Option<T> { if c.chance(65) { Some(f(c)) } else { None } }
fn assoc(c: &mut Ctl) -> Assoc {
    match c.below(3) {
        0 => Assoc::Empty,
        1 => Assoc::Two(c.below(256) as u8, (int(c) as u128) << c.below(64)),
        _ => Assoc::One { hash: c.rng().bytes32(), ord: c.below(256) as u8 },
    }
}
fn rec(c: &mut Ctl) -> Rec {
    Rec {
        a: c.below(256) as u8,
        b: int(c),
        body: list(c, 400, |c| c.below(256) as u8),
        opt: maybe(c, |c| c.below(65536) as u16),
        unit: unit(c),
        items: list(c, 255, item),
    }
}
fn secret(c: &mut Ctl) -> Secret {
    let open = Secret::Open { value: c.below(5) as u64, blinding: c.below(5) as u64 };
    if c.chance(30) {
        open.conceal()
    } else {
        open
    }
}
fn blob(c: &mut Ctl) -> Blob {
    if c.below(500) == 499 {
        c.probe("value of 16 MiB");
        // With the length in front of it these take more than three bytes can count.
        let n = *c.pick(&[0xFF_FFFDusize, 0xFF_FFFE]);
        let first = c.below(256);
        return Blob { body: Confined::try_from((0..n).map(|i| (first + i) as u8).collect::<Vec<_>>()).expect("size") };
    }
    Blob { body: list(c, HUGE, |c| c.below(256) as u8) }
}

/// Permits collections of more than 65535 items, which are rare.
const HUGE: usize = 100_000;

/// Sizes: mostly small, sometimes at the limits of the length classes. The items of long collections are
/// derived from one choice.
fn size(c: &mut Ctl, max: usize) -> usize {
    if max == HUGE {
        let long = 60;
        return if c.below(long) == long - 1 {
            c.probe("more than 65530 items");
            *c.pick(&[65534, 65535, 65536, 65537, 70_000, 95_000])
        } else {
            size(c, 300)
        };
    }
    match c.below(12) {
        0..=2 => 0,
        3..=8 => c.range(0, 5.min(max)),
        9 => c.range(0, 40.min(max)),
        10 => max - c.below(3).min(max),
        _ => *c.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257]),
    }
    .min(max)
}
fn some<T>(c: &mut Ctl, max: usize, mut f: impl FnMut(&mut Ctl) -> T) -> Vec<T> {
    let n = size(c, max);
    if n <= 6 {
        return (0..n).map(|_| f(c)).collect();
    }
    let seed = c.seed();
    let mut inner = Ctl::generate(seed);
    (0..n)
        .map(|i| {
            if i % 1000 == 999 {
                inner = Ctl::generate(mix(&[seed, i as u64]));
            }
            f(&mut inner)
        })
        .collect()
}
fn list<T, const MIN: usize, const MAX: usize>(c: &mut Ctl, max: usize, f: impl FnMut(&mut Ctl) -> T) -> Confined<Vec<T>, MIN, MAX> {
    Confined::try_from(some(c, max, f)).expect("size")
}
fn set<T: Ord, const MIN: usize, const MAX: usize>(c: &mut Ctl, max: usize, f: impl FnMut(&mut Ctl) -> T) -> Confined<BTreeSet<T>, MIN, MAX> {
    Confined::try_from(some(c, max, f).into_iter().collect::<BTreeSet<_>>()).expect("size")
}
fn map<K: Ord + std::hash::Hash, V, const MIN: usize, const MAX: usize>(
    c: &mut Ctl,
    max: usize,
    mut k: impl FnMut(&mut Ctl) -> K,
    mut v: impl FnMut(&mut Ctl) -> V,
) -> Confined<BTreeMap<K, V>, MIN, MAX> {
    Confined::try_from(some(c, max, |c| (k(c), v(c))).into_iter().collect::<BTreeMap<_, _>>()).expect("size")
}

/// Data with a commitment made of several fields, in a role given by its id type.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Doc {
    role: u8,
    fields: Vec<Field>,
}

struct As<'d, I>(&'d Doc, PhantomData<I>);
impl<I: CommitmentId> CommitEncode for As<'_, I> {
    type CommitmentId = I;
    fn commit_encode(&self, e: &mut CommitEngine) { self.0.fields.iter().for_each(|f| f.commit(e)) }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Algo {
    Sha,
    Ripemd,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Part {
    Raw(Vec<u8>),
    Len8(Vec<u8>),
    Len16(Vec<u8>),
    Len24(Vec<u8>),
    Len32(Vec<u8>),
    /// Limits between the powers of two.
    Len100(Vec<u8>),
    Len256(Vec<u8>),
    Len65536(Vec<u8>),
    Len2p24(Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Prim {
    algo: Algo,
    tag: Vec<u8>,
    parts: Vec<Part>,
}

fn feed<D: DigestExt<N>, const N: usize>(mut d: D, parts: &[Part]) -> Vec<u8> {
    for p in parts {
        match p {
            Part::Raw(b) => d.input_raw(b),
            Part::Len8(b) => d.input_with_len::<{ u8::MAX as usize }>(b),
            Part::Len16(b) => d.input_with_len::<{ u16::MAX as usize }>(b),
            Part::Len24(b) => d.input_with_len::<0xFF_FFFF>(b),
            Part::Len32(b) => d.input_with_len::<{ u32::MAX as usize }>(b),
            Part::Len100(b) => d.input_with_len::<100>(b),
            Part::Len256(b) => d.input_with_len::<256>(b),
            Part::Len65536(b) => d.input_with_len::<65536>(b),
            Part::Len2p24(b) => d.input_with_len::<0x100_0000>(b),
        }
    }
    d.finish().to_vec()
}

fn frozen_parts(parts: &[Part]) -> Vec<u8> {
    let mut o = vec![];
    for p in parts {
        let (b, max) = match p {
            Part::Raw(b) => {
                o.extend(b);
                continue;
            }
            Part::Len8(b) => (b, 255),
            Part::Len16(b) => (b, 0xFFFF),
            Part::Len24(b) => (b, 0xFF_FFFF),
            Part::Len32(b) => (b, 0xFFFF_FFFF),
            Part::Len100(b) => (b, 100),
            Part::Len256(b) => (b, 256),
            Part::Len65536(b) => (b, 65536),
            Part::Len2p24(b) => (b, 0x100_0000),
        };
        count(&mut o, b.len(), max);
        o.extend(b);
    }
    o
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Data {
    Doc(Doc),
    Rec(Rec),
    Unit(Unit),
    Assoc(Assoc),
    Secret(Secret),
    Wrapped(Wrapped),
    WrappedInt(WrappedInt),
    Grove(Grove),
    Leaf(Leaf),
    /// Number of reserved bytes.
    Reserved(u8),
    Prim(Prim),
}

const ROLES: [&str; 4] = [IdA::TAG, IdB::TAG, IdC::TAG, IdD::TAG];

impl Data {
    fn random(c: &mut Ctl) -> Data {
        match c.weighted(&[10, 2, 1, 1, 1, 1, 1, 2, 1, 1, 6]) {
            0 => {
                let n = match c.below(8) {
                    0 => 0,
                    1..=4 => 1,
                    5 => c.range(2, 3),
                    6 => c.range(2, 8),
                    _ => {
                        if c.chance(10) {
                            c.range(200, 255)
                        } else {
                            2
                        }
                    }
                };
                let role = c.below(4) as u8;
                let fields = if n > 8 {
                    let mut inner = Ctl::generate(c.seed());
                    let mixed = if c.chance(50) { 20 } else { 0 };
                    (0..n).map(|_| if inner.chance(mixed) { Field::random(&mut inner) } else { Field::SerInt(int(&mut inner)) }).collect()
                } else {
                    (0..n).map(|_| Field::random(c)).collect()
                };
                Data::Doc(Doc { role, fields })
            }
            1 => Data::Rec(rec(c)),
            2 => Data::Unit(unit(c)),
            3 => Data::Assoc(assoc(c)),
            4 => Data::Secret(secret(c)),
            5 => Data::Wrapped(Wrapped(rec(c))),
            6 => Data::WrappedInt(WrappedInt(int(c) as u32)),
            7 => Data::Grove(Grove(list(c, 300, leaf))),
            8 => Data::Leaf(leaf(c)),
            9 => Data::Reserved(c.below(4) as u8),
            _ => {
                let algo = *c.pick(&[Algo::Sha, Algo::Ripemd]);
                let n = *c.pick(&[0, 1, 5, 63, 64, 65, 200]);
                let tag = c.rng().bytes(n);
                let parts = (0..c.below(4)).map(|_| part(c)).collect();
                Data::Prim(Prim { algo, tag, parts })
            }
        }
    }

    /// Something that differs a little. May come out the same.
    fn near(&self, c: &mut Ctl) -> Data {
        match self {
            Data::Doc(d) => {
                let mut d = d.clone();
                let n = d.fields.len();
                match c.below(6) {
                    0 => d.role = c.below(4) as u8,
                    1 if n > 0 => {
                        d.fields.remove(c.below(n));
                    }
                    2 if n > 1 => d.fields.swap(c.below(n), c.below(n)),
                    3 if n < 255 => d.fields.push(Field::random(c)),
                    _ if n > 0 => {
                        let i = c.below(n);
                        d.fields[i] = near_field(c, &d.fields[i]);
                    }
                    _ => d.role = (d.role + 1) % 4,
                }
                Data::Doc(d)
            }
            Data::Prim(p) => {
                let mut p = p.clone();
                let n = p.parts.len();
                match c.below(5) {
                    0 => p.algo = if p.algo == Algo::Sha { Algo::Ripemd } else { Algo::Sha },
                    1 => {
                        // Tags which have nearly everything in common.
                        let len = p.tag.len();
                        match c.below(4) {
                            _ if len == 0 => p.tag.push(0),
                            0 => {
                                p.tag.pop();
                            }
                            1 => p.tag.insert(0, 0),
                            2 => p.tag[c.below(len.min(20))] ^= 1,
                            _ => p.tag[c.below(len)] ^= 1,
                        }
                    }
                    2 if n > 0 => {
                        let i = c.below(n);
                        let b = match p.parts[i].clone() {
                            Part::Raw(b)
                            | Part::Len8(b)
                            | Part::Len16(b)
                            | Part::Len24(b)
                            | Part::Len32(b)
                            | Part::Len100(b)
                            | Part::Len256(b)
                            | Part::Len65536(b)
                            | Part::Len2p24(b) => b,
                        };
                        p.parts[i] = wrap_part(c, b);
                    }
                    3 if n > 0 => {
                        p.parts.remove(c.below(n));
                    }
                    _ => p.parts.push(part(c)),
                }
                Data::Prim(p)
            }
            Data::Grove(g) => {
                let mut v = g.0.release_clone();
                if v.is_empty() || c.chance(30) {
                    v.push(leaf(c))
                } else {
                    let i = c.below(v.len());
                    match c.below(3) {
                        0 => v[i].1 ^= 1,
                        1 => {
                            v.remove(i);
                        }
                        _ => v.swap(i, 0),
                    }
                }
                Data::Grove(Grove(Confined::try_from(v).expect("size")))
            }
            Data::Rec(r) => Data::Rec(near_rec(c, r)),
            Data::Wrapped(r) => Data::Wrapped(Wrapped(near_rec(c, &r.0))),
            Data::Reserved(_) => Data::Reserved(c.below(4) as u8),
            _ => Data::random(c),
        }
    }

    /// Id computed by the code under test.
    fn real(&self) -> Vec<u8> {
        fn of<T: CommitId<CommitmentId = StrictHash>>(v: &T) -> Vec<u8> { v.commit_id().to_vec() }
        match self {
            Data::Doc(d) => match d.role {
                0 => As::<IdA>(d, PhantomData).commit_id().0.to_vec(),
                1 => As::<IdB>(d, PhantomData).commit_id().0.to_vec(),
                2 => As::<IdC>(d, PhantomData).commit_id().0.to_vec(),
                _ => As::<IdD>(d, PhantomData).commit_id().0.to_vec(),
            },
            Data::Rec(v) => of(v),
            Data::Unit(v) => of(v),
            Data::Assoc(v) => of(v),
            Data::Secret(v) => of(v),
            Data::Wrapped(v) => of(v),
            Data::WrappedInt(v) => v.commit_id().0.to_vec(),
            Data::Grove(v) => v.commit_id().0.to_vec(),
            Data::Leaf(v) => v.commit_id().to_vec(),
            Data::Reserved(0) => of(&ReservedBytes::<1>::default()),
            Data::Reserved(1) => of(&ReservedBytes::<8, 0xFF>::default()),
            Data::Reserved(2) => of(&ReservedBytes::<32, 1>::default()),
            Data::Reserved(_) => of(&ReservedBytes::<2>::from([0; 2])),
            Data::Prim(p) => match p.algo {
                Algo::Sha => feed(Sha256::from_tag(&p.tag), &p.parts),
                Algo::Ripemd => feed(Ripemd160::from_tag(&p.tag), &p.parts),
            },
        }
    }

    /// Id defined by the published format.
    fn frozen(&self) -> Vec<u8> {
        fn plain(tag: &str, v: &dyn Frozen) -> Vec<u8> {
            let mut o = vec![];
            v.frozen(&mut o);
            hashed(tag, &o).to_vec()
        }
        match self {
            Data::Doc(d) => {
                let mut o = vec![];
                d.fields.iter().for_each(|f| f.frozen(&mut o));
                hashed(ROLES[d.role as usize], &o).to_vec()
            }
            Data::Rec(v) => plain(refm::TAG_STRICT, v),
            Data::Unit(v) => plain(refm::TAG_STRICT, v),
            Data::Assoc(v) => plain(refm::TAG_STRICT, v),
            Data::Secret(v) => plain(refm::TAG_STRICT, v),
            Data::Wrapped(v) => plain(refm::TAG_STRICT, &v.0),
            Data::WrappedInt(v) => plain(IdA::TAG, &v.0),
            Data::Grove(v) => hashed(IdB::TAG, &frozen_root(v.0.iter())).to_vec(),
            Data::Leaf(v) => plain(refm::TAG_NODE, v),
            Data::Reserved(k) => {
                let b: &[u8] = match k {
                    0 => &[0],
                    1 => &[0xFF; 8],
                    2 => &[1; 32],
                    _ => &[0; 2],
                };
                hashed(refm::TAG_STRICT, b).to_vec()
            }
            Data::Prim(p) => {
                let b = frozen_parts(&p.parts);
                match p.algo {
                    Algo::Sha => {
                        let t = Sha256::digest(&p.tag);
                        Sha256::new().chain_update(t).chain_update(t).chain_update(b).finalize().to_vec()
                    }
                    Algo::Ripemd => {
                        let t = Ripemd160::digest(&p.tag);
                        Ripemd160::new().chain_update(t).chain_update(t).chain_update(b).finalize().to_vec()
                    }
                }
            }
        }
    }

    /// Data are compared within one schema: the types of what is committed to and how. Two items of the same schema
    /// that differ in their meaning must have different ids.
    fn schema(&self) -> String {
        match self {
            Data::Doc(d) => d.fields.iter().map(|f| f.kind() + ",").collect::<String>(),
            Data::Prim(p) => std::iter::once("Prim,".to_string())
                .chain(p.parts.iter().map(|p| {
                    // Raw input is not delimited: its length is a part of the schema.
                    if let Part::Raw(b) = p {
                        format!("Raw{},", b.len())
                    } else {
                        name(p) + ","
                    }
                }))
                .collect(),
            d => name(d),
        }
    }

    /// Hash function and tag.
    fn role(&self) -> String {
        let sha = |tag: &str| format!("Sha {}", hex(tag.as_bytes()));
        match self {
            Data::Doc(d) => sha(ROLES[d.role as usize]),
            Data::Prim(p) => format!("{:?} {}", p.algo, hex(&p.tag)),
            Data::Rec(_) | Data::Unit(_) | Data::Assoc(_) | Data::Secret(_) | Data::Wrapped(_) | Data::Reserved(_) => sha(refm::TAG_STRICT),
            Data::WrappedInt(_) => sha(IdA::TAG),
            Data::Grove(_) => sha(IdB::TAG),
            Data::Leaf(_) => sha(refm::TAG_NODE),
        }
    }

    fn same(&self, other: &Data) -> bool {
        match (self, other) {
            (Data::Doc(a), Data::Doc(b)) => a.fields.len() == b.fields.len() && a.fields.iter().zip(&b.fields).all(|(a, b)| a.same(b)),
            (Data::Secret(a), Data::Secret(b)) => a.conceal() == b.conceal(),
            // The tag is a part of the role.
            (a, b) => a == b,
        }
    }
}

trait ReleaseClone<T> {
    fn release_clone(&self) -> Vec<T>;
}
impl<T: Clone, const MIN: usize, const MAX: usize> ReleaseClone<T> for Confined<Vec<T>, MIN, MAX> {
    fn release_clone(&self) -> Vec<T> { self.iter().cloned().collect() }
}

fn near_rec(c: &mut Ctl, r: &Rec) -> Rec {
    let mut r = r.clone();
    match c.below(6) {
        0 => r.a ^= 1 << c.below(8),
        1 => r.b ^= 1 << c.below(64),
        2 => {
            let mut b = r.body.release_clone();
            match c.below(3) {
                0 => b.push(0),
                1 if !b.is_empty() => {
                    let i = c.below(b.len());
                    b[i] ^= 1
                }
                _ => {
                    b.pop();
                }
            }
            r.body = Confined::try_from(b).expect("size");
        }
        3 => r.opt = if r.opt.is_some() { None } else { Some(0) },
        4 => r.unit = unit(c),
        _ => r.items = list(c, 255, item),
    }
    r
}

fn near_blob(c: &mut Ctl, b: &Blob) -> Blob {
    let mut v = b.body.release_clone();
    match c.below(3) {
        0 => v.push(0),
        1 if !v.is_empty() => {
            // Anywhere, and at the very end.
            let n = v.len();
            let i = if c.chance(50) { n - 1 } else { c.below(n) };
            v[i] ^= 2;
        }
        _ => {
            v.pop();
        }
    }
    Blob { body: Confined::try_from(v).expect("size") }
}

/// The same items, committed to in another way or with another length class; or other items in the same way.
fn near_field(c: &mut Ctl, f: &Field) -> Field {
    use Field::*;
    let items: Option<Vec<Item>> = match f {
        ListTiny(v) => Some(v.release_clone()),
        ListSmall(v) => Some(v.release_clone()),
        ListMedium(v) => Some(v.release_clone()),
        ListLarge(v) => Some(v.release_clone()),
        ListNonEmpty(v) => Some(v.release_clone()),
        ListMax16(v) => Some(v.release_clone()),
        ListMax256(v) => Some(v.release_clone()),
        SetTiny(v) => Some(v.iter().copied().collect()),
        SetSmall(v) => Some(v.iter().copied().collect()),
        _ => None,
    };
    if let Some(mut v) = items {
        if c.chance(40) && !v.is_empty() {
            let i = c.below(v.len());
            match c.below(3) {
                0 => v[i].1 ^= 1,
                1 => {
                    v.remove(i);
                }
                _ => v.swap(0, i),
            }
        }
        let other = match c.below(8) {
            0 => Confined::try_from(v).map(ListTiny).ok(),
            1 => Confined::try_from(v).map(ListSmall).ok(),
            2 => Confined::try_from(v).map(ListMedium).ok(),
            3 => Confined::try_from(v).map(ListLarge).ok(),
            4 => Confined::try_from(v).map(ListMax16).ok(),
            5 => Confined::try_from(v).map(ListMax256).ok(),
            6 => Confined::try_from(v.into_iter().collect::<BTreeSet<_>>()).map(SetTiny).ok(),
            _ => Confined::try_from(v.into_iter().collect::<BTreeSet<_>>()).map(SetSmall).ok(),
        };
        return other.unwrap_or_else(|| f.clone());
    }
    match f {
        Ser(r) => match c.below(4) {
            0 => Opt(Some(r.clone())),
            1 => HashRec(r.clone()),
            _ => Ser(near_rec(c, r)),
        },
        Opt(Some(r)) => match c.below(3) {
            0 => Opt(None),
            1 => Opt(Some(near_rec(c, r))),
            _ => Ser(r.clone()),
        },
        HashRec(r) => match c.below(3) {
            0 => Ser(r.clone()),
            _ => HashRec(near_rec(c, r)),
        },
        OptInt(v) => OptInt(match v {
            None => Some(0),
            Some(0) => None,
            Some(v) => Some(v - 1),
        }),
        Concealed(s) => match c.below(3) {
            0 => Concealed(s.conceal()),
            1 => HashSecret(s.clone()),
            _ => Concealed(secret(c)),
        },
        HashSecret(s) => match c.below(2) {
            0 => HashSecret(s.conceal()),
            _ => Concealed(s.clone()),
        },
        SerBlob(b) => match c.below(4) {
            0 => OptBlob(Some(b.clone())),
            1 => HashBlob(b.clone()),
            _ => SerBlob(near_blob(c, b)),
        },
        OptBlob(Some(b)) => match c.below(3) {
            0 => OptBlob(None),
            _ => OptBlob(Some(near_blob(c, b))),
        },
        HashBlob(b) => HashBlob(near_blob(c, b)),
        ConcealedBlob(b) => ConcealedBlob(Veil(near_blob(c, &b.0))),
        SerInt(v) => SerInt(v ^ (1 << c.below(64))),
        MerkleTiny(v) => {
            let mut v = v.release_clone();
            match c.below(4) {
                0 => return Confined::try_from(v).map(MerkleSmall).expect("size"),
                1 => v.push(leaf(c)),
                2 => v.reverse(),
                _ => {
                    v.pop();
                }
            }
            Confined::try_from(v).map(MerkleTiny).unwrap_or_else(|_| f.clone())
        }
        MapTiny(m) => {
            let mut m: BTreeMap<u16, Item> = m.iter().map(|(k, v)| (*k, *v)).collect();
            match m.pop_first() {
                None => {
                    m.insert(0, Item(0, 0));
                }
                Some((k, v)) => {
                    if c.chance(50) {
                        m.insert(k ^ 1, v);
                    } else {
                        m.insert(k, Item(v.0 ^ 1, v.1));
                    }
                }
            }
            Confined::try_from(m).map(MapTiny).unwrap_or_else(|_| f.clone())
        }
        _ => Field::random(c),
    }
}

fn part(c: &mut Ctl) -> Part {
    let n = match c.below(12) {
        0..=1 => 0,
        2..=6 => c.below(70),
        7..=8 => c.range(99, 101),
        9 => c.range(253, 258),
        10 => c.range(65533, 65540) * c.below(2),
        _ => 300,
    };
    let b = c.rng().bytes(n);
    wrap_part(c, b)
}

fn wrap_part(c: &mut Ctl, b: Vec<u8>) -> Part {
    let n = b.len();
    match c.below(9) {
        0 => Part::Raw(b),
        1 if n < 256 => Part::Len8(b),
        2 if n < 65536 => Part::Len16(b),
        3 => Part::Len24(b),
        4 => Part::Len32(b),
        5 if n <= 100 => Part::Len100(b),
        6 if n <= 256 => Part::Len256(b),
        7 if n <= 65536 => Part::Len65536(b),
        8 => Part::Len2p24(b),
        _ => Part::Len32(b),
    }
}

// ---- The fleet ----------------------------------------------------------------------------------------------------

#[derive(Clone)]
enum Msg {
    Data(usize),
    Claim(usize, Vec<u8>),
}

struct Party {
    /// Runs the code under test; otherwise the frozen format.
    current: bool,
    /// Durable.
    data: BTreeSet<usize>,
    ids: BTreeMap<usize, Vec<u8>>,
}

#[derive(Default)]
struct Registry {
    items: Vec<Data>,
    by_item: BTreeMap<usize, Vec<u8>>,
    by_id: BTreeMap<Vec<u8>, Vec<usize>>,
    both: bool,
    seen: BTreeMap<usize, u8>,
}

impl Registry {
    /// Judges an id which some party computed or announced.
    fn judge(&mut self, who: usize, i: usize, id: &[u8], current: bool) -> Res {
        let d = &self.items[i];
        let seen = self.seen.entry(i).or_default();
        *seen |= 1 << current as u8;
        self.both |= *seen == 3;
        match self.by_item.get(&i) {
            Some(known) => ensure!(known == id, "versions-disagree", "party {who} has id {} for {}; others have {}", short(id), brief(d), short(known)),
            None => {
                self.by_item.insert(i, id.to_vec());
            }
        }
        for j in self.by_id.get(id).into_iter().flatten() {
            let other = &self.items[*j];
            let same = other.role() == d.role() && other.schema() == d.schema() && other.same(d);
            // Different schemas are only compared where nothing but one of them changed.
            if other.schema() == d.schema() {
                ensure!(same, "shared-id", "{} and {} share the id {}", brief(d), brief(other), short(id));
            } else {
                ensure!(other.role() == d.role(), "shared-id", "{} and {} share the id {}", brief(d), brief(other), short(id));
                ensure!(!one_list(d, other), "shared-id", "{} and {} share the id {}", brief(d), brief(other), short(id));
            }
        }
        let list = self.by_id.entry(id.to_vec()).or_default();
        if !list.contains(&i) {
            list.push(i);
        }
        Ok(())
    }
}

/// Both are a single list, with different length classes.
fn one_list(a: &Data, b: &Data) -> bool {
    let class = |d: &Data| match d {
        Data::Doc(d) if d.fields.len() == 1 => match d.fields[0] {
            Field::ListTiny(_) | Field::ListMax16(_) | Field::ListNonEmpty(_) => Some(1),
            Field::ListSmall(_) | Field::ListMax256(_) => Some(2),
            Field::ListMedium(_) => Some(3),
            Field::ListLarge(_) => Some(4),
            _ => None,
        },
        _ => None,
    };
    matches!((class(a), class(b)), (Some(x), Some(y)) if x != y)
}

/// Start of the data in text. The rest of long data is not even formatted.
fn brief(d: &Data) -> String {
    struct Start(String);
    impl std::fmt::Write for Start {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.push_str(s);
            if self.0.len() > 300 {
                return Err(std::fmt::Error);
            }
            Ok(())
        }
    }
    let mut w = Start(String::new());
    match std::fmt::Write::write_fmt(&mut w, format_args!("{d:?}")) {
        Ok(()) => w.0,
        Err(_) => w.0.chars().take(300).collect::<String>() + "…",
    }
}

/// Computes the id the way party `p` does. The computation may be interrupted by a crash.
fn compute(c: &mut Ctl, p: &Party, d: &Data) -> Option<Vec<u8>> {
    if !p.current {
        return Some(d.frozen());
    }
    if let Data::Doc(doc) = d {
        match c.below(6) {
            0 => {
                // The process dies within the computation.
                let k = c.below(doc.fields.len() + 1);
                let mut e = CommitEngine::new(ROLES[doc.role as usize]);
                doc.fields[..k].iter().for_each(|f| f.commit(&mut e));
                c.fault("crash within a computation");
                return None;
            }
            1 => {
                // By hand, from a copy of a half-fed engine.
                let k = c.below(doc.fields.len() + 1);
                let mut e = CommitEngine::new(ROLES[doc.role as usize]);
                doc.fields[..k].iter().for_each(|f| f.commit(&mut e));
                let mut copy = e.clone();
                doc.fields[k..].iter().for_each(|f| f.commit(&mut copy));
                if c.chance(50) {
                    copy.set_finished();
                    return Some(copy.finish_layout().0.finish().to_vec());
                }
                doc.fields[k..].iter().for_each(|f| f.commit(&mut e));
                return Some(e.finish().finish().to_vec());
            }
            _ => {}
        }
    }
    Some(d.real())
}

fn run15(c: &mut Ctl) -> Res {
    let f = Faults::draw(c);
    let n = c.range(2, 4);
    let mut net: Net<Msg> = Net::new(n);
    let mut parties: Vec<Party> = (0..n)
        .map(|i| Party { current: if i < 2 { i == 0 } else { c.chance(60) }, data: BTreeSet::new(), ids: BTreeMap::new() })
        .collect();
    let mut reg = Registry::default();
    let steps = c.range(1, 14);
    for _ in 0..steps {
        c.open();
        let p = c.below(n);
        match c.weighted(&[6, 5, 2, 2]) {
            0 if reg.items.len() < 8 => {
                let d = if !reg.items.is_empty() && c.chance(60) {
                    let i = c.below(reg.items.len());
                    reg.items[i].clone().near(c)
                } else {
                    Data::random(c)
                };
                let i = reg.items.iter().position(|x| *x == d).unwrap_or(reg.items.len());
                if i == reg.items.len() {
                    c.state(&[hash_str(&d.schema()), hash_str(&d.role()), brief(&d).len().min(300) as u64 / 64]);
                    reg.items.push(d.clone());
                }
                ev!(c, "party {p} authors item {i}: {}", brief(&d));
                parties[p].data.insert(i);
                for q in 0..n {
                    if q != p {
                        net.send(c, &f, p, q, Msg::Data(i), |_, _| None);
                    }
                }
            }
            1 => {
                let Some(i) = parties[p].data.iter().copied().find(|i| !parties[p].ids.contains_key(i)) else {
                    c.close();
                    continue;
                };
                let Some(id) = compute(c, &parties[p], &reg.items[i].clone()) else {
                    ev!(c, "party {p} crashes while it computes the id of item {i}");
                    parties[p].ids.clear();
                    c.close();
                    continue;
                };
                ev!(c, "party {p} ({}) id of item {i}: {}", if parties[p].current { "current" } else { "frozen" }, short(&id));
                reg.judge(p, i, &id, parties[p].current)?;
                parties[p].ids.insert(i, id.clone());
                for q in 0..n {
                    if q != p {
                        net.send(c, &f, p, q, Msg::Claim(i, id.clone()), |c, m| {
                            let Msg::Claim(i, id) = m else { return None };
                            Some(Msg::Claim(*i, corrupt_bytes(c, id)?))
                        });
                    }
                }
            }
            2 => {
                if c.chance(f.crash.max(20)) {
                    c.fault("restart");
                    parties[p].ids.clear();
                    ev!(c, "party {p} restarts");
                }
            }
            _ => {
                parties[p].current ^= true;
                parties[p].ids.clear();
                c.fault("upgrade or downgrade");
                ev!(c, "party {p} changes its version");
            }
        }
        deliver(c, &mut net, &mut parties, &mut reg)?;
        c.close();
    }
    // The faults stop: everything is delivered and every party of either version has every id.
    for p in 0..n {
        for i in 0..reg.items.len() {
            parties[p].data.insert(i);
            let id = if parties[p].current { reg.items[i].real() } else { reg.items[i].frozen() };
            reg.judge(p, i, &id, parties[p].current)?;
        }
    }
    c.nontrivial |= reg.both;
    Ok(())
}

fn deliver(c: &mut Ctl, net: &mut Net<Msg>, parties: &mut [Party], reg: &mut Registry) -> Res {
    let k = c.below(4);
    for _ in 0..k {
        let Some((from, to, m)) = net.next(c) else { break };
        match m {
            Msg::Data(i) => {
                parties[to].data.insert(i);
            }
            Msg::Claim(i, id) => {
                // A party checks what others announce against what it computes itself.
                let own = if parties[to].current { reg.items[i].real() } else { reg.items[i].frozen() };
                let honest = reg.by_item.get(&i) == Some(&id);
                ev!(c, "party {to} checks the id {} of item {i} from {from}: {}", short(&id), own == id);
                reg.judge(to, i, &own, parties[to].current)?;
                ensure!((own == id) == honest, "claim", "party {to} takes the claim {} of party {from} about {} wrongly", short(&id), brief(&reg.items[i]));
            }
        }
    }
    Ok(())
}
