//! C20: authors publish ids of data; auditors who never saw the code that commits to the data get the layout of the
//! commitment and the values, in parcels over the faulty network, and compute the id from these alone.

use std::cell::RefCell;

use commit_verify::{mpc, CommitColType, CommitLayout, CommitStep, CommitmentLayout, TryCommitVerify};
use strict_encoding::StrictDumb;

use super::*;
use crate::codec::{msg, pid};

pub const CHECKS: &[Check] = &[Check {
    id: "C20",
    run: run20,
    quick: 30_000,
    thorough: 3_000_000,
    rule: "one evaluation is one simulated run: one or two authors commit to up to five items of data (any sequence of ways of commitment, derived \
           types, multi-protocol commitments), crash and restart within the commitment, and send the layout (as a structure or as its text) and \
           the values, each in a parcel of its own, over a faulty network to one to three auditors who compute the ids from what they got; \
           non-trivial if an audit was completed",
    states: "distinct (sequence of ways of commitment and size classes, id type)",
    real: &["CommitEngine and the layouts it collects (as_layout, into_layout, finish_layout)", "CommitmentLayout, CommitLayout, its Vesper text", "CommitEncode derivation"],
    stub: &["data types of the client library", "auditors (an interpreter of layouts)", "network, clock, crashes"],
    assumptions: &["the crate vesper prints the expression it is given", "collisions of SHA-256 do not occur"],
    batch: None,
}];

// ---- What is committed to -------------------------------------------------------------------------------------------

thread_local! {
    static CURRENT: RefCell<Option<Doc>> = const { RefCell::new(None) };
}

/// A type of the client library whose definition is the current document.
struct Dyn<I>(Doc, PhantomData<I>);
impl<I> StrictDumb for Dyn<I> {
    fn strict_dumb() -> Self { Dyn(CURRENT.with(|d| d.borrow().clone().expect("document")), PhantomData) }
}
impl<I: CommitmentId> CommitEncode for Dyn<I> {
    type CommitmentId = I;
    fn commit_encode(&self, e: &mut CommitEngine) { self.0.fields.iter().for_each(|f| f.commit(e)) }
}

impl StrictDumb for Wrapped {
    fn strict_dumb() -> Self { Wrapped(Rec::strict_dumb()) }
}
impl StrictDumb for WrappedInt {
    fn strict_dumb() -> Self { WrappedInt(7) }
}
impl StrictDumb for Grove {
    fn strict_dumb() -> Self { Grove(Confined::try_from(vec![Leaf(1, 2)]).expect("size")) }
}

#[derive(Clone, Debug)]
enum Thing {
    Data(Data),
    MpcLeaf(mpc::Leaf),
    Tree(mpc::MerkleTree),
    Block(mpc::MerkleBlock),
    Root(mpc::MerkleConcealed),
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Way {
    Serialized,
    Hashed,
    Merklized,
    Concealed,
    List,
    Set,
    Map,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Step {
    way: Way,
    ty: String,
    key: Option<String>,
    range: Option<(u64, u64)>,
}

fn step(way: Way, ty: &str) -> Step { Step { way, ty: ty.into(), key: None, range: None } }

fn read_step(s: &CommitStep) -> Step {
    match s {
        CommitStep::Serialized(t) => step(Way::Serialized, &t.to_string()),
        CommitStep::Hashed(t) => step(Way::Hashed, &t.to_string()),
        CommitStep::Merklized(t) => step(Way::Merklized, &t.to_string()),
        CommitStep::Concealed(t) => step(Way::Concealed, &t.to_string()),
        CommitStep::Collection(col, sizing, t) => {
            let (way, key) = match col {
                CommitColType::List => (Way::List, None),
                CommitColType::Set => (Way::Set, None),
                CommitColType::Map { key } => (Way::Map, Some(key.to_string())),
            };
            Step { way, ty: t.to_string(), key, range: Some((sizing.min, sizing.max)) }
        }
    }
}

/// The layout as the auditor sees it.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Sheet {
    id_type: String,
    tag: String,
    steps: Vec<Step>,
}

fn read_layout(l: &CommitLayout) -> Sheet {
    Sheet { id_type: l.idty().to_string(), tag: l.tag().to_string(), steps: l.fields().iter().map(read_step).collect() }
}

fn bare(t: &str) -> String { t.rsplit('.').next().unwrap_or(t).to_string() }

/// The text does not name libraries.
fn without_libs(s: &Sheet) -> Sheet {
    let steps = s.steps.iter().map(|s| Step { ty: bare(&s.ty), key: s.key.as_deref().map(bare), ..s.clone() }).collect();
    Sheet { id_type: bare(&s.id_type), tag: s.tag.clone(), steps }
}

/// Reads the published text of a layout.
fn read_text(text: &str) -> Option<Sheet> {
    let mut sheet: Option<Sheet> = None;
    for line in text.lines() {
        if line.trim().is_empty() {
            continue;
        }
        let mut parts = line.trim_start().split(", ");
        let mut head = parts.next()?.split(' ');
        let (pred, subject) = (head.next()?, head.next()?.trim().to_string());
        let attr: Vec<(&str, &str)> = parts.map(|p| p.split_once(' ').unwrap_or((p, ""))).collect();
        let get = |name: &str| attr.iter().find(|(n, _)| *n == name).map(|(_, v)| v.trim().to_string());
        let range = get("len").and_then(|r| {
            let (a, b) = r.split_once("..")?;
            let max = match b {
                "MAX8" => 0xFF,
                "MAX16" => 0xFFFF,
                "MAX24" => 0xFF_FFFF,
                "MAX32" => 0xFFFF_FFFF,
                "MAX64" => u64::MAX,
                b => b.parse().ok()?,
            };
            Some((a.parse().ok()?, max))
        });
        if pred == "commitment" {
            if sheet.is_some() || get("hasher")? != "SHA256" {
                return None;
            }
            sheet = Some(Sheet { id_type: subject, tag: get("tagged")?, steps: vec![] });
            continue;
        }
        let sheet = sheet.as_mut()?;
        let way = match pred {
            "serialized" => Way::Serialized,
            "hashed" => Way::Hashed,
            "merklized" => Way::Merklized,
            "concealed" => {
                // Named twice: as what is committed to, and as what it was made of.
                if get("concealed")? != subject {
                    return None;
                }
                Way::Concealed
            }
            "list" => Way::List,
            "set" => Way::Set,
            "map" => Way::Map,
            "element" | "mapValue" => {
                if sheet.steps.last()?.ty != subject {
                    return None;
                }
                continue;
            }
            "mapKey" => {
                sheet.steps.last_mut()?.key = Some(subject);
                continue;
            }
            _ => return None,
        };
        sheet.steps.push(Step { way, ty: subject, key: None, range });
    }
    sheet
}

// ---- Values revealed to auditors --------------------------------------------------------------------------------------

/// A value, independent of the way in which it is committed to.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Value {
    ty: &'static str,
    key: Option<&'static str>,
    /// Encoding of a single value, and of its concealed form if it has one.
    one: Option<(Vec<u8>, Option<Vec<u8>>)>,
    /// Items of a collection with what they are ordered by. Sent in any order.
    many: Vec<(Vec<u8>, Vec<u8>)>,
    /// The order of the items matters.
    ordered: bool,
}

fn enc(v: &dyn Frozen) -> Vec<u8> {
    let mut o = vec![];
    v.frozen(&mut o);
    o
}

trait Order {
    fn order(&self) -> Vec<u8>;
}
macro_rules! order_int {
    ($($t:ty)*) => { $(impl Order for $t { fn order(&self) -> Vec<u8> { self.to_be_bytes().to_vec() } })* };
}
order_int!(u8 u16 u32);
impl Order for Item {
    fn order(&self) -> Vec<u8> { [self.0.order(), self.1.order()].concat() }
}
impl Order for Leaf {
    fn order(&self) -> Vec<u8> { [self.0.order(), self.1.order()].concat() }
}

fn one(ty: &'static str, v: &dyn Frozen) -> Value { Value { ty, key: None, one: Some((enc(v), None)), many: vec![], ordered: true } }
fn hidden(ty: &'static str, open: Vec<u8>, concealed: Vec<u8>) -> Value {
    Value { ty, key: None, one: Some((open, Some(concealed))), many: vec![], ordered: true }
}
fn list_of<'a, T: Frozen + 'a>(ty: &'static str, v: impl Iterator<Item = &'a T>) -> Value {
    Value { ty, key: None, one: None, many: v.map(|x| (vec![], enc(x))).collect(), ordered: true }
}
fn set_of<'a, T: Frozen + Order + 'a>(ty: &'static str, v: impl Iterator<Item = &'a T>) -> Value {
    Value { ty, key: None, one: None, many: v.map(|x| (x.order(), enc(x))).collect(), ordered: false }
}
fn map_of<'a, K: Frozen + Order + 'a, V: Frozen + 'a>(key: &'static str, ty: &'static str, v: impl Iterator<Item = (&'a K, &'a V)>) -> Value {
    let many = v.map(|(k, v)| (k.order(), [enc(k), enc(v)].concat())).collect();
    Value { ty, key: Some(key), one: None, many, ordered: false }
}

const REC: &str = "CsvSim.Rec";
const ITEM: &str = "CsvSim.Item";
const LEAF: &str = "CsvSim.Leaf";

/// What is committed to and in which way.
fn field(f: &Field) -> (Way, Option<(u64, u64)>, Value) {
    use Field::*;
    const M8: u64 = 0xFF;
    const M16: u64 = 0xFFFF;
    const M24: u64 = 0xFF_FFFF;
    const M32: u64 = 0xFFFF_FFFF;
    let plain = |way: Way, v: Value| (way, None, v);
    let col = |way: Way, min: u64, max: u64, v: Value| (way, Some((min, max)), v);
    match f {
        Ser(v) => plain(Way::Serialized, one(REC, v)),
        SerUnit(v) => plain(Way::Serialized, one("CsvSim.Unit", v)),
        SerAssoc(v) => plain(Way::Serialized, one("CsvSim.Assoc", v)),
        SerInt(v) => plain(Way::Serialized, one("_.U64", v)),
        SerReserved(_) => plain(Way::Serialized, one("CommitVerify.ReservedBytes4", &0u32)),
        SerBlob(v) => plain(Way::Serialized, one("CsvSim.Blob", v)),
        Opt(v) => plain(Way::Serialized, one(REC, v)),
        OptInt(v) => plain(Way::Serialized, one("_.U8", v)),
        OptBlob(v) => plain(Way::Serialized, one("CsvSim.Blob", v)),
        HashRec(v) => plain(Way::Hashed, one(REC, v)),
        HashUnit(v) => plain(Way::Hashed, one("CsvSim.Unit", v)),
        HashAssoc(v) => plain(Way::Hashed, one("CsvSim.Assoc", v)),
        HashBlob(v) => plain(Way::Hashed, one("CsvSim.Blob", v)),
        HashReserved(_) => {
            let v = Value { one: Some((vec![0xAA; 3], None)), ..one("CommitVerify.ReservedBytes3170", &0u8) };
            plain(Way::Hashed, v)
        }
        // Its own commitment is to the concealed form.
        HashSecret(v) => plain(Way::Hashed, one("CsvSim.Secret", v)),
        MerkleTiny(v) => plain(Way::Merklized, list_of(LEAF, v.iter())),
        MerkleSmall(v) => plain(Way::Merklized, list_of(LEAF, v.iter())),
        MerkleLarge(v) => plain(Way::Merklized, list_of(LEAF, v.iter())),
        MerkleSet(v) => plain(Way::Merklized, list_of(LEAF, v.iter())),
        Concealed(v) => plain(Way::Concealed, hidden("CsvSim.Secret", enc(v), enc(v))),
        ConcealedAmount(v) => {
            let open = [v.value.to_le_bytes(), v.blinding.to_le_bytes()].concat();
            plain(Way::Concealed, hidden("CsvSim.Amount", open, v.conceal().0.to_vec()))
        }
        ConcealedBlob(v) => plain(Way::Concealed, hidden("CsvSim.Veil", enc(&v.0), enc(&v.conceal()))),
        ListTiny(v) => col(Way::List, 0, M8, list_of(ITEM, v.iter())),
        ListSmall(v) => col(Way::List, 0, M16, list_of(ITEM, v.iter())),
        ListMedium(v) => col(Way::List, 0, M24, list_of(ITEM, v.iter())),
        ListLarge(v) => col(Way::List, 0, M32, list_of(ITEM, v.iter())),
        ListNonEmpty(v) => col(Way::List, 1, 255, list_of(ITEM, v.iter())),
        ListMax16(v) => col(Way::List, 0, 16, list_of(ITEM, v.iter())),
        ListMax256(v) => col(Way::List, 0, 256, list_of(ITEM, v.iter())),
        ListRec(v) => col(Way::List, 0, M8, list_of(REC, v.iter())),
        SetTiny(v) => col(Way::Set, 0, M8, set_of(ITEM, v.iter())),
        SetSmall(v) => col(Way::Set, 0, M16, set_of(ITEM, v.iter())),
        SetMedium(v) => col(Way::Set, 0, M24, set_of(ITEM, v.iter())),
        MapTiny(v) => col(Way::Map, 0, M8, map_of("_.U16", ITEM, v.iter())),
        MapSmall(v) => col(Way::Map, 0, M16, map_of(ITEM, "_.U64", v.iter())),
        MapMedium(v) => col(Way::Map, 0, M24, map_of("_.U8", REC, v.iter())),
        MapWide(v) => col(Way::Map, 0, M24, map_of("_.U32", "_.U8", v.iter())),
    }
}

const STRICT_HASH: &str = "CommitVerify.StrictHash";
const ID_TYPES: [&str; 4] = ["CsvSim.IdA", "CsvSim.IdB", "CsvSim.IdC", "CsvSim.IdD"];

impl Thing {
    fn random(c: &mut Ctl) -> Thing {
        let k = c.below(12);
        if k < 8 {
            return Thing::Data(Data::random(c));
        }
        if k == 8 {
            return Thing::MpcLeaf(if c.chance(50) {
                mpc::Leaf::Inhabited { protocol: pid(&c.rng().bytes32()), message: msg(&c.rng().bytes32()) }
            } else {
                mpc::Leaf::Entropy { entropy: c.seed(), pos: c.below(1 << 31) as u32 }
            });
        }
        let n = c.range(1, 6);
        let mut rng = c.rng();
        let messages = (0..n).map(|_| (pid(&rng.bytes32()), msg(&rng.bytes32()))).collect::<BTreeMap<_, _>>();
        let source = mpc::MultiSource {
            method: mpc::Method::Sha256t,
            messages: Confined::try_from(messages).expect("size"),
            min_depth: amplify::num::u5::with(rng.below(4) as u8),
            static_entropy: Some(rng.next()),
        };
        let tree = mpc::MerkleTree::try_commit(&source).expect("placeable");
        match k {
            9 => Thing::Tree(tree),
            10 => Thing::Block(mpc::MerkleBlock::from(tree)),
            _ => Thing::Root(tree.conceal()),
        }
    }

    /// Id computed by the code under test, with the steps the engine noted meanwhile.
    fn commit(&self, c: &mut Ctl) -> (Vec<u8>, Vec<Step>) {
        fn read(v: &[CommitStep]) -> Vec<Step> { v.iter().map(read_step).collect() }
        let mut e = match self {
            Thing::Data(Data::Doc(d)) => match d.role {
                0 => As::<IdA>(d, PhantomData).commit(),
                1 => As::<IdB>(d, PhantomData).commit(),
                2 => As::<IdC>(d, PhantomData).commit(),
                _ => As::<IdD>(d, PhantomData).commit(),
            },
            Thing::Data(Data::Rec(v)) => v.commit(),
            Thing::Data(Data::Unit(v)) => v.commit(),
            Thing::Data(Data::Assoc(v)) => v.commit(),
            Thing::Data(Data::Secret(v)) => v.commit(),
            Thing::Data(Data::Wrapped(v)) => v.commit(),
            Thing::Data(Data::WrappedInt(v)) => v.commit(),
            Thing::Data(Data::Grove(v)) => v.commit(),
            Thing::Data(Data::Leaf(v)) => v.commit(),
            Thing::Data(Data::Reserved(_)) | Thing::Data(Data::Prim(_)) => ReservedBytes::<1>::default().commit(),
            Thing::MpcLeaf(v) => v.commit(),
            Thing::Tree(v) => v.commit(),
            Thing::Block(v) => v.commit(),
            Thing::Root(v) => v.commit(),
        };
        match c.below(3) {
            0 => {
                let (hash, steps) = e.finish_layout();
                (hash.finish().to_vec(), read(&steps))
            }
            1 => {
                let steps = read(e.as_layout());
                (e.finish().finish().to_vec(), steps)
            }
            _ => {
                let steps = read(&e.clone().into_layout());
                (e.finish().finish().to_vec(), steps)
            }
        }
    }

    /// Layout published for the type.
    fn layout(&self) -> CommitLayout {
        match self {
            Thing::Data(Data::Doc(d)) => {
                CURRENT.with(|x| *x.borrow_mut() = Some(d.clone()));
                match d.role {
                    0 => Dyn::<IdA>::commitment_layout(),
                    1 => Dyn::<IdB>::commitment_layout(),
                    2 => Dyn::<IdC>::commitment_layout(),
                    _ => Dyn::<IdD>::commitment_layout(),
                }
            }
            Thing::Data(Data::Rec(_)) => Rec::commitment_layout(),
            Thing::Data(Data::Unit(_)) => Unit::commitment_layout(),
            Thing::Data(Data::Assoc(_)) => Assoc::commitment_layout(),
            Thing::Data(Data::Secret(_)) => Secret::commitment_layout(),
            Thing::Data(Data::Wrapped(_)) => Wrapped::commitment_layout(),
            Thing::Data(Data::WrappedInt(_)) => WrappedInt::commitment_layout(),
            Thing::Data(Data::Grove(_)) => Grove::commitment_layout(),
            Thing::Data(Data::Leaf(_)) => Leaf::commitment_layout(),
            Thing::Data(Data::Reserved(_)) | Thing::Data(Data::Prim(_)) => ReservedBytes::<1>::commitment_layout(),
            Thing::MpcLeaf(_) => mpc::Leaf::commitment_layout(),
            Thing::Tree(_) => mpc::MerkleTree::commitment_layout(),
            Thing::Block(_) => mpc::MerkleBlock::commitment_layout(),
            Thing::Root(_) => mpc::MerkleConcealed::commitment_layout(),
        }
    }

    /// What is really committed to.
    fn spec(&self) -> (Sheet, Vec<Value>) {
        let sheet = |id_type: &str, tag: &str, v: (Way, Option<(u64, u64)>, Value)| {
            let s = Step { way: v.0, ty: v.2.ty.into(), key: v.2.key.map(Into::into), range: v.1 };
            (Sheet { id_type: id_type.into(), tag: tag.into(), steps: vec![s] }, vec![v.2])
        };
        let strict = |way: Way, v: Value| sheet(STRICT_HASH, refm::TAG_STRICT, (way, None, v));
        let node = "CommitVerify.MerkleHash";
        let comm = "CommitVerify.Commitment";
        let root = "CommitVerify.MerkleConcealed";
        let bytes = |v: &mpc::MerkleConcealed| crate::codec::enc(v).expect("short");
        match self {
            Thing::Data(Data::Doc(d)) => {
                let parts: Vec<_> = d.fields.iter().map(field).collect();
                let steps = parts.iter().map(|(way, range, v)| Step { way: *way, ty: v.ty.into(), key: v.key.map(Into::into), range: *range }).collect();
                let r = d.role as usize;
                (Sheet { id_type: ID_TYPES[r].into(), tag: ROLES[r].into(), steps }, parts.into_iter().map(|p| p.2).collect())
            }
            Thing::Data(Data::Rec(v)) => strict(Way::Serialized, one(REC, v)),
            Thing::Data(Data::Unit(v)) => strict(Way::Serialized, one("CsvSim.Unit", v)),
            Thing::Data(Data::Assoc(v)) => strict(Way::Serialized, one("CsvSim.Assoc", v)),
            Thing::Data(Data::Secret(v)) => strict(Way::Concealed, hidden("CsvSim.Secret", enc(v), enc(v))),
            Thing::Data(Data::Wrapped(v)) => strict(Way::Serialized, one(REC, &v.0)),
            Thing::Data(Data::WrappedInt(v)) => sheet(ID_TYPES[0], IdA::TAG, (Way::Serialized, None, one("_.U32", &v.0))),
            Thing::Data(Data::Grove(v)) => sheet(ID_TYPES[1], IdB::TAG, (Way::Merklized, None, list_of(LEAF, v.0.iter()))),
            Thing::Data(Data::Leaf(v)) => sheet(node, refm::TAG_NODE, (Way::Serialized, None, one(LEAF, v))),
            Thing::Data(Data::Reserved(_)) | Thing::Data(Data::Prim(_)) => strict(Way::Serialized, one("CommitVerify.ReservedBytes1", &0u8)),
            Thing::MpcLeaf(v) => {
                let b = match v {
                    mpc::Leaf::Inhabited { protocol, message } => [vec![0x10], protocol.to_vec(), message.to_vec()].concat(),
                    mpc::Leaf::Entropy { entropy, pos } => [vec![0x11], entropy.to_le_bytes().to_vec(), pos.to_le_bytes().to_vec()].concat(),
                };
                let v = Value { one: Some((b, None)), ..one("CommitVerify.Leaf", &0u8) };
                sheet(node, refm::TAG_NODE, (Way::Serialized, None, v))
            }
            Thing::Root(v) => {
                let v = Value { one: Some((bytes(v), None)), ..one(root, &0u8) };
                sheet(comm, refm::TAG_COMMITMENT, (Way::Serialized, None, v))
            }
            Thing::Tree(v) => sheet(comm, refm::TAG_COMMITMENT, (Way::Concealed, None, hidden(root, vec![], bytes(&v.conceal())))),
            Thing::Block(v) => sheet(comm, refm::TAG_COMMITMENT, (Way::Concealed, None, hidden(root, vec![], bytes(&v.conceal())))),
        }
    }
}

// ---- The auditor ----------------------------------------------------------------------------------------------------

/// What one step adds to the commitment. None: the step does not fit the value.
fn interpret(s: &Step, v: &Value, libs: bool) -> Option<Vec<u8>> {
    let same = |a: &str, b: &str| if libs { a == b } else { bare(a) == bare(b) };
    if !same(&s.ty, v.ty) {
        return None;
    }
    match (&s.key, v.key) {
        (None, None) => {}
        (Some(a), Some(b)) if same(a, b) => {}
        _ => return None,
    }
    match s.way {
        Way::Serialized => Some(v.one.clone()?.0),
        Way::Hashed => Some(hashed(refm::TAG_STRICT, &v.one.clone()?.0).to_vec()),
        Way::Concealed => v.one.clone()?.1,
        Way::Merklized if v.one.is_none() => {
            let hashes: Vec<H> = v.many.iter().map(|(_, b)| hashed(refm::TAG_NODE, b)).collect();
            Some(refm::merklize(&hashes).to_vec())
        }
        Way::List | Way::Set | Way::Map if v.one.is_none() => {
            let (min, max) = s.range?;
            let n = v.many.len() as u64;
            if n < min || n > max {
                return None;
            }
            let mut items = v.many.clone();
            if s.way != Way::List {
                items.sort();
            }
            let mut o = vec![];
            count(&mut o, items.len(), max as usize);
            items.iter().for_each(|(_, b)| o.extend(b));
            Some(o)
        }
        _ => None,
    }
}

fn audit(sheet: &Sheet, values: &[&Value], libs: bool) -> Option<Vec<u8>> {
    if sheet.steps.len() != values.len() {
        return None;
    }
    let mut b = vec![];
    for (s, v) in sheet.steps.iter().zip(values) {
        b.extend(interpret(s, v, libs)?);
    }
    Some(hashed(&sheet.tag, &b).to_vec())
}

#[derive(Clone)]
enum Parcel {
    /// Item, layout, whether it names libraries, whether it was damaged on the way.
    Layout(usize, Sheet, bool, bool),
    Value(usize, usize, Value, bool),
}

#[derive(Default)]
struct Auditor {
    layouts: BTreeMap<usize, (Sheet, bool, bool)>,
    values: BTreeMap<(usize, usize), (Value, bool)>,
    done: BTreeSet<usize>,
}

struct Published {
    id: Vec<u8>,
    sheet: Sheet,
    from_text: Option<Sheet>,
    values: Vec<Value>,
}

/// More than a layout can list must be refused, and never be committed to without being listed.
fn too_long(c: &mut Ctl) -> Res {
    let n = c.range(256, 300);
    let mut inner = Ctl::generate(c.seed());
    let values: Vec<u64> = (0..n).map(|_| int(&mut inner)).collect();
    let res = crate::runner::catching(|| {
        let mut e = CommitEngine::new(IdA::TAG);
        values.iter().for_each(|v| e.commit_to_serialized(v));
        e.into_layout().len()
    });
    match res {
        Err(_) => c.probe("too many fields refused"),
        Ok(listed) => ensure!(listed == n, "missing-step", "{n} fields are committed to and {listed} of them listed"),
    }
    Ok(())
}

/// An author commits to something: the layout has to be what is really committed to.
fn publish(c: &mut Ctl, t: &Thing) -> Res<Option<Published>> {
    if let Thing::Data(Data::Doc(d)) = t {
        if c.chance(15) {
            let k = c.below(d.fields.len() + 1);
            let mut e = CommitEngine::new(ROLES[d.role as usize]);
            d.fields[..k].iter().for_each(|f| f.commit(&mut e));
            if c.chance(50) {
                // Somebody looks at the layout meanwhile.
                let n = e.as_layout().len();
                ensure!(n == k, "missing-step", "{n} steps after {k} commitments");
            }
            c.fault("crash within a commitment");
            return Ok(None);
        }
    }
    let (id, steps) = t.commit(c);
    let (spec, values) = t.spec();
    let layout = t.layout();
    let sheet = read_layout(&layout);
    let text = layout.to_string();
    ensure!(steps == spec.steps, "steps", "committing notes the steps {steps:?} instead of {:?}", spec.steps);
    ensure!(sheet.id_type == spec.id_type, "id-type", "the layout is for ids {}, not {}", sheet.id_type, spec.id_type);
    ensure!(sheet.tag == spec.tag, "tag", "the layout has the tag '{}', not '{}'", sheet.tag, spec.tag);
    ensure!(sheet.steps == spec.steps, "layout", "the layout has the steps {:?} instead of {:?}", sheet.steps, spec.steps);
    let from_text = read_text(&text);
    match &from_text {
        None => return fail("text", format!("the text does not describe a layout: {text}")),
        Some(s) => ensure!(*s == without_libs(&spec), "text", "the text describes {s:?} instead of {spec:?}: {text}"),
    }
    c.state(&[
        hash_str(&sheet.steps.iter().map(|s| format!("{:?}{:?};", s.way, s.range)).collect::<String>()),
        hash_str(&sheet.id_type),
        values.iter().map(|v| v.many.len().min(3) as u64).sum(),
    ]);
    Ok(Some(Published { id, sheet, from_text, values }))
}

fn damage_sheet(c: &mut Ctl, s: &Sheet) -> Option<Sheet> {
    let mut d = s.clone();
    let n = d.steps.len();
    match c.below(5) {
        0 => d.tag.push('x'),
        1 if n > 1 => d.steps.swap(c.below(n), c.below(n)),
        2 if n > 0 => {
            d.steps.remove(c.below(n));
        }
        3 if n > 0 => d.steps[c.below(n)].way = *c.pick(&[Way::Serialized, Way::Hashed, Way::List, Way::Set]),
        _ if n > 0 => {
            let i = c.below(n);
            let s = d.steps[i].clone();
            d.steps.push(s);
        }
        _ => return None,
    }
    (d != *s).then_some(d)
}

fn damage_value(c: &mut Ctl, v: &Value) -> Option<Value> {
    let mut d = v.clone();
    match &mut d.one {
        Some((b, _)) if !b.is_empty() => {
            let i = c.below(b.len());
            b[i] ^= 1 << c.below(8)
        }
        None if !d.many.is_empty() => {
            d.many.remove(c.below(d.many.len()));
        }
        _ => return None,
    }
    Some(d)
}

fn send(c: &mut Ctl, f: &Faults, net: &mut Net<Parcel>, from: usize, to: usize, i: usize, p: &Published) {
    let text = c.chance(50);
    let sheet = if text { p.from_text.clone().expect("read") } else { p.sheet.clone() };
    net.send(c, f, from, to, Parcel::Layout(i, sheet, !text, false), |c, m| {
        let Parcel::Layout(i, s, libs, _) = m else { return None };
        Some(Parcel::Layout(*i, damage_sheet(c, s)?, *libs, true))
    });
    for (k, v) in p.values.iter().enumerate() {
        let mut v = v.clone();
        if !v.ordered && v.many.len() > 1 && c.chance(50) {
            if v.many.len() < 8 {
                c.shuffle(&mut v.many);
            } else {
                v.many.reverse();
            }
        }
        net.send(c, f, from, to, Parcel::Value(i, k, v, false), |c, m| {
            let Parcel::Value(i, k, v, _) = m else { return None };
            Some(Parcel::Value(*i, *k, damage_value(c, v)?, true))
        });
    }
}

fn run20(c: &mut Ctl) -> Res {
    let f = Faults::draw(c);
    let (authors, auditors) = (c.range(1, 2), c.range(1, 3));
    let mut net: Net<Parcel> = Net::new(authors + auditors);
    let mut things: Vec<Thing> = vec![];
    let mut public: BTreeMap<usize, Published> = BTreeMap::new();
    let mut parties: Vec<Auditor> = (0..auditors).map(|_| Auditor::default()).collect();
    if c.below(200) == 199 {
        too_long(c)?;
    }
    for _ in 0..c.range(1, 10) {
        c.open();
        match c.weighted(&[5, 4, 2, 2]) {
            0 if things.len() < 5 => {
                let mut t = Thing::random(c);
                if let Thing::Data(Data::Doc(d)) = &mut t {
                    // Parcels of very long documents would hide everything else.
                    d.fields.truncate(c.range(6, 255));
                }
                things.push(t);
            }
            1 => {
                let Some(i) = (0..things.len()).find(|i| !public.contains_key(i)) else {
                    c.close();
                    continue;
                };
                match publish(c, &things[i])? {
                    None => ev!(c, "the author of item {i} crashes while committing"),
                    Some(p) => {
                        ev!(c, "item {i} is published as {} with {} steps", short(&p.id), p.sheet.steps.len());
                        for a in 0..auditors {
                            send(c, &f, &mut net, i % authors, authors + a, i, &p);
                        }
                        public.insert(i, p);
                    }
                }
            }
            2 => {
                let a = c.below(auditors);
                if let Some(i) = public.keys().copied().find(|i| !parties[a].done.contains(i)) {
                    ev!(c, "auditor {a} asks for item {i} again");
                    send(c, &f, &mut net, i % authors, authors + a, i, &public[&i]);
                }
            }
            _ => {
                if c.chance(f.crash) {
                    let a = c.below(auditors);
                    c.fault("restart of an auditor");
                    ev!(c, "auditor {a} restarts");
                    parties[a] = Auditor::default();
                }
            }
        }
        let k = c.below(6);
        for _ in 0..k {
            if !deliver(c, &mut net, &mut parties, authors, &public)? {
                break;
            }
        }
        c.close();
    }
    // The faults stop: every auditor gets everything.
    while deliver(c, &mut net, &mut parties, authors, &public)? {}
    for (i, t) in things.iter().enumerate() {
        if !public.contains_key(&i) {
            let p = loop {
                if let Some(p) = publish(c, t)? {
                    break p;
                }
            };
            public.insert(i, p);
        }
        for a in 0..auditors {
            if !parties[a].done.contains(&i) {
                parties[a].layouts.remove(&i);
                parties[a].values.retain(|(j, _), _| *j != i);
                send(c, &Faults::none(), &mut net, i % authors, authors + a, i, &public[&i]);
            }
        }
    }
    while deliver(c, &mut net, &mut parties, authors, &public)? {}
    for (a, p) in parties.iter().enumerate() {
        for i in public.keys() {
            ensure!(p.done.contains(i), "no-audit", "auditor {a} was not able to reproduce the id of item {i}");
        }
    }
    c.nontrivial |= !public.is_empty();
    Ok(())
}

fn deliver(c: &mut Ctl, net: &mut Net<Parcel>, parties: &mut [Auditor], authors: usize, public: &BTreeMap<usize, Published>) -> Res<bool> {
    let Some((_, to, m)) = net.next(c) else { return Ok(false) };
    let a = to - authors;
    let i = match m {
        Parcel::Layout(i, s, libs, bad) => {
            parties[a].layouts.insert(i, (s, libs, bad));
            i
        }
        Parcel::Value(i, k, v, bad) => {
            parties[a].values.insert((i, k), (v, bad));
            i
        }
    };
    let p = &public[&i];
    let party = &mut parties[a];
    let Some((sheet, libs, bad_sheet)) = party.layouts.get(&i) else { return Ok(true) };
    let have: Vec<&(Value, bool)> = party.values.range((i, 0)..=(i, usize::MAX)).map(|(_, v)| v).collect();
    if party.done.contains(&i) || have.len() < p.values.len() {
        return Ok(true);
    }
    let damaged = *bad_sheet || have.iter().any(|(_, bad)| *bad);
    let id = audit(sheet, &have.iter().map(|(v, _)| v).collect::<Vec<_>>(), *libs);
    let ok = id.as_ref() == Some(&p.id);
    ev!(c, "auditor {a} computes the id of item {i}: {ok}");
    ensure!(ok || damaged, "audit", "auditor {a} computes {:?} for item {i} from its layout and values; published {}", id.as_deref().map(short), short(&p.id));
    if ok {
        c.probe("audit completed");
        party.done.insert(i);
    } else {
        c.probe("damaged evidence found by an audit");
        party.layouts.remove(&i);
        party.values.retain(|(j, _), _| *j != i);
    }
    Ok(true)
}
