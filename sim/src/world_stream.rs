//! C08: evidence written to and read from streams which deliver short, interrupted and failing transfers, and kept in
//! an append-only log which crashes tear at any byte.

use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use std::sync::Arc;

use amplify::confinement::Confined;
use commit_verify::merkle::NodeBranching;
use commit_verify::mpc::{Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, Method, ProtocolId};
use commit_verify::{CommitId, Conceal, MerkleHash, MerkleNode, ReservedBytes, StrictHash, TryCommitVerify};
use single_use_seals::SealWitness;
use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictDeserialize, StrictEncode, StrictReader, StrictSerialize};

use crate::codec::*;
use crate::kernel::*;
use crate::refm::{Disclosure, RefTree, H};
use crate::runner::Check;
use crate::seals::*;
use crate::{ensure, ev, gen};

pub const CHECKS: &[Check] = &[Check {
    id: "C08",
    run: run08,
    quick: 20_000,
    thorough: 600_000,
    rule: "one evaluation is one simulated run: a party with evidence of one commitment and up to a dozen transfers over faulty streams, writes to faulty \
         devices, cuts of an encoding and appends to a log that is torn by crashes and recovered; non-trivial if a fault happened; distinct \
         by the complete event log",
    states: "distinct (kind of evidence, kind of transfer, fault, outcome)",
    real: &[
        "strict encoding and decoding of MerkleBlock, MerkleProof, MerkleTree, MerkleConcealed, Leaf, MerkleNode, NodeBranching, Method, ids, ReservedBytes and SealWitness",
        "their serde form through serde_json and bincode",
        "strict_encoding::{StreamWriter, StreamReader}, StrictSerialize, StrictDeserialize",
    ],
    stub: &["devices and links behind io::Write and io::Read", "the file of the log"],
    assumptions: &["bytes which a device accepted before a crash are kept in order (no bytes are lost in the middle of a log)"],
    batch: None,
}];

// ---- Faulty devices -----------------------------------------------------------------------------------------------

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum Hard {
    Error(io::ErrorKind),
    /// A write accepts nothing; a read finds the end.
    Nothing,
}

/// What a stream does wrong.
#[derive(Clone, Debug, Default)]
struct Temper {
    /// Percentage of calls that transfer fewer bytes than asked for.
    short: u32,
    /// Percentage of calls that are interrupted by a signal.
    interrupt: u32,
    /// The transfer of this byte and of all later ones fails.
    fail: Option<(usize, Hard)>,
    seed: u64,
}

impl Temper {
    fn draw(c: &mut Ctl, fail: Option<(usize, Hard)>) -> Temper {
        Temper { short: *c.pick(&[0, 20, 60, 100]), interrupt: *c.pick(&[0, 10, 40]), fail, seed: c.seed() }
    }
}

struct Pipe {
    data: Vec<u8>,
    pos: usize,
    temper: Temper,
    rng: Rng,
    shorts: u64,
    interrupts: u64,
    in_row: u32,
    hit: bool,
}

impl Pipe {
    fn new(data: Vec<u8>, temper: Temper) -> Pipe {
        let rng = Rng::new(temper.seed);
        Pipe { data, pos: 0, temper, rng, shorts: 0, interrupts: 0, in_row: 0, hit: false }
    }

    /// How many of `want` bytes pass; the error if none.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        if want == 0 {
            return Ok(0);
        }
        if self.in_row < 3 && self.rng.below(100) < self.temper.interrupt as u64 {
            self.in_row += 1;
            self.interrupts += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.in_row = 0;
        let mut n = want;
        if let Some((at, hard)) = self.temper.fail {
            if self.pos >= at {
                self.hit = true;
                return match hard {
                    Hard::Error(kind) => Err(kind.into()),
                    Hard::Nothing => Ok(0),
                };
            }
            n = n.min(at - self.pos);
        }
        if n > 1 && self.rng.below(100) < self.temper.short as u64 {
            self.shorts += 1;
            n = 1 + self.rng.below(n as u64 - 1) as usize;
        }
        Ok(n)
    }

    fn account(&self, c: &mut Ctl, write: bool) {
        let kinds: [&'static str; 3] = if write {
            ["io.short write", "io.interrupted write", "io.failed write"]
        } else {
            ["io.short read", "io.interrupted read", "io.failed read"]
        };
        for (n, k) in [(self.shorts, kinds[0]), (self.interrupts, kinds[1]), (self.hit as u64, kinds[2])] {
            if n > 0 {
                c.fault(k);
            }
        }
    }
}

impl Write for Pipe {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len())?;
        self.data.extend(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl Read for Pipe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step(buf.len().min(self.data.len() - self.pos))?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

const KINDS: &[Hard] = &[
    Hard::Error(io::ErrorKind::StorageFull),
    Hard::Error(io::ErrorKind::BrokenPipe),
    Hard::Error(io::ErrorKind::WouldBlock),
    Hard::Error(io::ErrorKind::UnexpectedEof),
    Hard::Error(io::ErrorKind::ConnectionReset),
    Hard::Error(io::ErrorKind::WriteZero),
    Hard::Nothing,
];

// ---- Evidence -----------------------------------------------------------------------------------------------------

/// Formats used through serde.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Form {
    Json,
    /// With white space, read by way of a tree of values, whose maps are in another order.
    Pretty,
    /// Binary, with neither names nor types of fields.
    Bincode,
    /// What is displayed, and parsed.
    Text,
}

/// Something that is written and read.
trait Rec: StrictEncode + StrictDecode + Clone {
    const NAME: &'static str;
    fn show(&self) -> String;
    fn equal(&self, other: &Self) -> bool;
    /// Observable meaning besides equality.
    fn meaning(&self) -> Vec<u8> { vec![] }
    fn to_serde(&self, _: Form, _: &mut Pipe) -> Option<Result<(), String>> { None }
    fn from_serde(_: Form, _: &mut Pipe) -> Result<Self, String> { Err("no such form".into()) }
    fn to_text(&self, _: &mut Pipe) -> Option<Result<(), String>> { None }
    fn from_text(_: &mut Pipe) -> Result<Self, String> { Err("no such form".into()) }
    /// The helpers of the library for whole buffers: encoding and length, if the type has them.
    fn serialized(&self) -> Option<Result<(Vec<u8>, usize), String>> { None }
    fn deserialized(_: Vec<u8>) -> Result<Self, String> { Err("no such form".into()) }
}

macro_rules! plain {
    () => {
        fn show(&self) -> String { format!("{self:?}") }
        fn equal(&self, other: &Self) -> bool { self == other }
    };
}

macro_rules! json {
    () => {
        #[cfg(feature = "full")]
        fn to_serde(&self, form: Form, w: &mut Pipe) -> Option<Result<(), String>> {
            Some(match form {
                Form::Json => serde_json::to_writer(w, self).map_err(|e| e.to_string()),
                Form::Pretty => serde_json::to_writer_pretty(w, self).map_err(|e| e.to_string()),
                Form::Bincode => bincode::serialize_into(w, self).map_err(|e| e.to_string()),
                Form::Text => return None,
            })
        }
        #[cfg(feature = "full")]
        fn from_serde(form: Form, r: &mut Pipe) -> Result<Self, String> {
            match form {
                Form::Json => serde_json::from_reader(r).map_err(|e| e.to_string()),
                Form::Pretty => {
                    let v: serde_json::Value = serde_json::from_reader(r).map_err(|e| e.to_string())?;
                    serde_json::from_value(v).map_err(|e| e.to_string())
                }
                Form::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
                Form::Text => Err("no such form".into()),
            }
        }
    };
}

macro_rules! text {
    () => {
        fn to_text(&self, w: &mut Pipe) -> Option<Result<(), String>> {
            Some(io::Write::write_all(w, self.to_string().as_bytes()).map_err(|e| e.to_string()))
        }
        fn from_text(r: &mut Pipe) -> Result<Self, String> {
            let mut s = String::new();
            io::Read::read_to_string(r, &mut s).map_err(|e| e.to_string())?;
            s.parse().map_err(|e| format!("{e}"))
        }
    };
}

fn block_meaning(b: &MerkleBlock) -> Vec<u8> {
    let mut v = raw(b.commit_id()).to_vec();
    v.extend(enc(&b.conceal()).unwrap_or_default());
    for (p, m) in b.to_known_message_map().iter() {
        v.extend(raw(*p));
        v.extend(raw(*m));
    }
    let ids: Vec<ProtocolId> = b.known_protocol_ids().collect();
    for id in ids.iter().step_by(1 + ids.len() / 3) {
        v.extend(enc(&b.to_merkle_proof(*id).expect("the message is known")).unwrap_or_default());
    }
    v.extend(format!("{:?} {} {}", b.entropy(), b.width_limit(), b.factored_width()).bytes());
    v
}

impl Rec for MerkleBlock {
    const NAME: &'static str = "disclosure";
    plain!();
    fn meaning(&self) -> Vec<u8> { block_meaning(self) }
    json!();
    fn serialized(&self) -> Option<Result<(Vec<u8>, usize), String>> {
        let data = self.to_strict_serialized::<0xFF_FFFF>().map_err(|e| e.to_string());
        let len = self.strict_serialized_len::<0xFF_FFFF>().map_err(|e| e.to_string());
        Some(data.and_then(|d| Ok((d.release(), len?))))
    }
    fn deserialized(b: Vec<u8>) -> Result<Self, String> {
        let data = Confined::try_from(b).map_err(|_| "too long")?;
        MerkleBlock::from_strict_serialized::<0xFF_FFFF>(data).map_err(|e| e.to_string())
    }
}
impl Rec for MerkleProof {
    const NAME: &'static str = "proof";
    plain!();
    fn meaning(&self) -> Vec<u8> {
        let mut v = format!("{:?} {} {} {:?} {}", self.method(), self.pos(), self.cofactor(), self.merkle_root(), self.depth()).into_bytes();
        self.as_path().iter().for_each(|h| v.extend(raw(*h)));
        v
    }
    json!();
}
impl Rec for MerkleTree {
    const NAME: &'static str = "tree";
    plain!();
    fn meaning(&self) -> Vec<u8> {
        let mut v = raw(self.commit_id()).to_vec();
        v.extend(raw(self.root()));
        v.extend(block_meaning(&MerkleBlock::from(self)));
        v
    }
}
impl Rec for MerkleConcealed {
    const NAME: &'static str = "concealed";
    plain!();
    fn meaning(&self) -> Vec<u8> { raw(self.commit_id()).to_vec() }
    json!();
}
impl Rec for Leaf {
    const NAME: &'static str = "leaf";
    plain!();
    fn meaning(&self) -> Vec<u8> { raw(self.commit_id()).to_vec() }
}
impl Rec for MerkleNode {
    const NAME: &'static str = "node";
    plain!();
    fn meaning(&self) -> Vec<u8> { raw(self.commit_id()).to_vec() }
}
impl Rec for NodeBranching {
    const NAME: &'static str = "branching";
    plain!();
}
impl Rec for Method {
    const NAME: &'static str = "method";
    plain!();
    json!();
}
impl Rec for Commitment {
    const NAME: &'static str = "commitment";
    plain!();
    json!();
    text!();
}
impl Rec for Message {
    const NAME: &'static str = "message";
    plain!();
    json!();
    text!();
}
impl Rec for ProtocolId {
    const NAME: &'static str = "protocol id";
    plain!();
    json!();
    text!();
}
impl Rec for MerkleHash {
    const NAME: &'static str = "merkle hash";
    plain!();
    json!();
    text!();
}
impl Rec for StrictHash {
    const NAME: &'static str = "strict hash";
    plain!();
    json!();
    text!();
}
impl Rec for ReservedBytes<3, 0> {
    const NAME: &'static str = "reserved 3";
    plain!();
    fn meaning(&self) -> Vec<u8> { raw(self.commit_id()).to_vec() }
    json!();
}
impl Rec for ReservedBytes<32, 0xA5> {
    const NAME: &'static str = "reserved 32";
    plain!();
    fn meaning(&self) -> Vec<u8> { raw(self.commit_id()).to_vec() }
    json!();
}
impl Rec for SealWitness<OutPoint> {
    const NAME: &'static str = "witness";
    fn show(&self) -> String { format!("{:?} {:?}", self.published, self.client) }
    fn equal(&self, other: &Self) -> bool { self.published == other.published && self.client == other.client }
    fn meaning(&self) -> Vec<u8> {
        let mut v = self.published.id().to_le_bytes().to_vec();
        v.extend(raw(self.client.protocol));
        v.extend(self.client.proof.meaning());
        v
    }
    json!();
}

#[derive(Clone)]
enum Val {
    Block(MerkleBlock),
    Proof(MerkleProof),
    Tree(MerkleTree),
    Concealed(MerkleConcealed),
    Leaf(Leaf),
    Node(MerkleNode),
    Branching(NodeBranching),
    Method(Method),
    Commitment(Commitment),
    Message(Message),
    ProtocolId(ProtocolId),
    MerkleHash(MerkleHash),
    StrictHash(StrictHash),
    Reserved3(ReservedBytes<3, 0>),
    Reserved32(ReservedBytes<32, 0xA5>),
    Witness(SealWitness<OutPoint>),
}

macro_rules! with {
    ($val:expr, $v:ident => $body:expr) => {
        match $val {
            Val::Block($v) => $body,
            Val::Proof($v) => $body,
            Val::Tree($v) => $body,
            Val::Concealed($v) => $body,
            Val::Leaf($v) => $body,
            Val::Node($v) => $body,
            Val::Branching($v) => $body,
            Val::Method($v) => $body,
            Val::Commitment($v) => $body,
            Val::Message($v) => $body,
            Val::ProtocolId($v) => $body,
            Val::MerkleHash($v) => $body,
            Val::StrictHash($v) => $body,
            Val::Reserved3($v) => $body,
            Val::Reserved32($v) => $body,
            Val::Witness($v) => $body,
        }
    };
}

fn write_limited<T: Rec>(v: &T, limit: usize, w: &mut Pipe) -> Result<(), String> {
    let r = match limit {
        0 => v.strict_write(StreamWriter::new::<16>(w)),
        1 => v.strict_write(StreamWriter::new::<64>(w)),
        2 => v.strict_write(StreamWriter::new::<300>(w)),
        3 => v.strict_write(StreamWriter::new::<0xFFFF>(w)),
        _ => v.strict_write(StreamWriter::new::<{ usize::MAX }>(w)),
    };
    r.map_err(|e| e.to_string())
}
const LIMITS: [usize; 5] = [16, 64, 300, 0xFFFF, usize::MAX];

fn read_limited<T: Rec>(limit: usize, r: &mut Pipe) -> Result<T, String> {
    macro_rules! go {
        ($n:expr) => {
            T::strict_decode(&mut StrictReader::with(StreamReader::new::<{ $n }>(r)))
        };
    }
    match limit {
        0 => go!(16),
        1 => go!(64),
        2 => go!(300),
        3 => go!(0xFFFF),
        _ => go!(usize::MAX),
    }
    .map_err(|e| e.to_string())
}

fn same<T: Rec>(v: &T, got: &T, what: &str) -> Res {
    ensure!(v.equal(got), "restored value differs", "{what}: {} was {}, restored {}", T::NAME, v.show(), got.show());
    ensure!(v.meaning() == got.meaning(), "restored meaning differs", "{what}: {} {} means something else than {}", T::NAME, v.show(), got.show());
    Ok(())
}

fn fail_point(c: &mut Ctl, len: usize) -> (usize, Hard) {
    // Also at, and one behind, the end, where nothing must be noticed.
    let at = match c.below(4) {
        0 => c.below(len + 2),
        1 => len.saturating_sub(c.below(4)),
        2 => c.below(12).min(len),
        _ => c.below(len + 1),
    };
    (at, *c.pick(KINDS))
}

// ---- World --------------------------------------------------------------------------------------------------------

fn run08(c: &mut Ctl) -> Res {
    let (vals, _) = evidence(c)?;
    let steps = c.range(1, 12);
    let mut log = Log::default();
    for _ in 0..steps {
        c.open();
        let r = (|| {
            let v = vals[c.below(vals.len())].clone();
            match c.weighted(&[4, 3, 2, 3, 2, 2]) {
                0 => with!(&v, v => transfer(c, v)),
                1 => with!(&v, v => failing_write(c, v)),
                2 => with!(&v, v => failing_read(c, v)),
                3 => log.append(c, &v),
                4 => with!(&v, v => cuts(c, v)),
                _ => with!(&v, v => serde_link(c, v)),
            }
        })();
        c.close();
        r?;
    }
    log.recover(c)
}

/// Values of all kinds which belong to one commitment.
fn evidence(c: &mut Ctl) -> Res<(Vec<Val>, H)> {
    let mut vals = vec![];
    let sparse = c.chance(35);
    let tree: Arc<RefTree> = if sparse {
        let (depth, cofactor, map) = gen::sparse_parts(c);
        let mut rng = c.rng();
        Arc::new(RefTree::sparse(depth, cofactor, map, &mut rng))
    } else {
        let max = *c.pick(&[4u8, 3, 5, 6]);
        let spec = gen::spec(c, max);
        let entropy = c.seed();
        let Ok(t) = MerkleTree::try_commit(&gen::source(spec.min_depth, &spec.pairs, Some(entropy))) else {
            return fail("harness", "a placeable source was refused");
        };
        if c.chance(50) {
            vals.push(Val::Block(MerkleBlock::from(&t)));
        }
        vals.push(Val::Concealed(t.conceal()));
        let tree = Arc::new(RefTree::dense(t.depth().to_u8(), t.cofactor(), entropy, spec.slots.clone()));
        vals.push(Val::Tree(t));
        tree
    };
    let positions: Vec<u32> = tree.leaves.keys().copied().collect();
    for _ in 0..c.range(1, 3) {
        let keep: BTreeSet<u32> = c.subset(positions.len()).into_iter().map(|i| positions[i]).collect();
        let mut d = Disclosure::minimal(&tree, &keep);
        if tree.depth <= 8 && c.chance(30) {
            d.entropy = Some(c.seed());
        }
        let bytes = d.bytes();
        match dec::<MerkleBlock>(&bytes) {
            Ok(b) => vals.push(Val::Block(b)),
            Err(e) => return fail("canonical encoding refused", format!("disclosure {}: {e}", hex(&bytes))),
        }
    }
    let pos = *c.pick(&positions);
    let (p, m) = tree.leaves[&pos];
    let bytes = tree.proof_bytes(pos);
    let proof = match dec::<MerkleProof>(&bytes) {
        Ok(p) => p,
        Err(e) => return fail("canonical encoding refused", format!("proof {}: {e}", hex(&bytes))),
    };
    let inputs: Vec<OutPoint> = (0..c.below(5)).map(|i| OutPoint { tx: 7 * i as u64, vout: i as u32 }).collect();
    let tx = Tx { inputs: small(inputs), outputs: c.below(4) as u32, nonce: c.seed(), commitment: tree.commitment.into() };
    vals.push(Val::Witness(SealWitness::new(tx, Anchor { protocol: pid(&p), proof: proof.clone() })));
    vals.push(Val::Proof(proof));
    vals.push(Val::Leaf(Leaf::inhabited(pid(&p), msg(&m))));
    vals.push(Val::Leaf(Leaf::entropy(c.seed(), pos)));
    let (h1, h2) = (MerkleHash::from(p), MerkleHash::from(m));
    vals.push(Val::Node(match c.below(3) {
        0 => MerkleNode::branches(tree.depth, 1u64 << tree.depth, h1, h2),
        1 => MerkleNode::single(tree.depth, 3u64, h1),
        _ => MerkleNode::void(0u8, 0u64),
    }));
    vals.push(Val::Branching(*c.pick(&[NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch])));
    vals.push(Val::Method(Method::Sha256t));
    vals.push(Val::Commitment(Commitment::from(tree.commitment)));
    vals.push(Val::Message(msg(&m)));
    vals.push(Val::ProtocolId(pid(&p)));
    vals.push(Val::MerkleHash(h1));
    vals.push(Val::StrictHash(StrictHash::from(m)));
    vals.push(Val::Reserved3(ReservedBytes::default()));
    vals.push(Val::Reserved32(ReservedBytes::default()));
    // Big values come up more often.
    let again: Vec<Val> = vals.iter().filter(|v| matches!(v, Val::Block(_) | Val::Proof(_) | Val::Tree(_) | Val::Witness(_))).cloned().collect();
    for _ in 0..2 {
        vals.extend(again.iter().cloned());
    }
    Ok((vals, tree.commitment))
}

fn expected<T: Rec>(v: &T) -> Res<Vec<u8>> {
    match enc(v) {
        Ok(b) => Ok(b),
        Err(e) => fail("refused without a fault", format!("{} can't be encoded: {e}", T::NAME)),
    }
}

/// Sender, link and recipient: partial and interrupted transfers only.
fn transfer<T: Rec>(c: &mut Ctl, v: &T) -> Res {
    let bytes = expected(v)?;
    let limit = if c.chance(30) { c.below(5) } else { 4 };
    let mut w = Pipe::new(vec![], Temper::draw(c, None));
    let res = write_limited(v, limit, &mut w);
    w.account(c, true);
    let fits = bytes.len() <= LIMITS[limit];
    ev!(c, "write {} {} bytes limit {limit} -> {}", T::NAME, bytes.len(), res.is_ok());
    c.state(&[hash_str(T::NAME), 0, limit as u64, res.is_ok() as u64]);
    if !fits {
        c.fault("io.size limit");
        ensure!(res.is_err(), "incomplete write accepted", "{} of {} bytes written within {} bytes", T::NAME, bytes.len(), LIMITS[limit]);
        ensure!(bytes.starts_with(&w.data), "wrong bytes written", "{}: {} is not a beginning of {}", T::NAME, hex(&w.data), hex(&bytes));
        return Ok(());
    }
    if let Err(e) = res {
        return fail("refused without a fault", format!("write of {}: {e}", T::NAME));
    }
    ensure!(w.data == bytes, "wrong bytes written", "{}: {} instead of {}", T::NAME, hex(&w.data), hex(&bytes));
    // What follows on the link does not belong to the value.
    let tail = c.below(3) * 40;
    let mut data = w.data;
    data.extend(c.rng().bytes(tail));
    let limit = if c.chance(20) { c.below(5) } else { 4 };
    let mut r = Pipe::new(data, Temper::draw(c, None));
    let res = read_limited::<T>(limit, &mut r);
    r.account(c, false);
    ev!(c, "read {} limit {limit} -> {}", T::NAME, res.is_ok());
    if bytes.len() > LIMITS[limit] {
        c.fault("io.size limit");
        ensure!(res.is_err(), "incomplete read accepted", "{} of {} bytes read within {} bytes", T::NAME, bytes.len(), LIMITS[limit]);
        return Ok(());
    }
    match res {
        Ok(got) => {
            same(v, &got, "stream")?;
            ensure!(r.pos == bytes.len(), "wrong number of bytes read", "{}: {} of {} bytes taken", T::NAME, r.pos, bytes.len());
        }
        Err(e) => return fail("refused without a fault", format!("read of {}: {e}", T::NAME)),
    }
    if let Some(res) = v.serialized() {
        match res {
            Ok((data, len)) => {
                ensure!(data == bytes && len == bytes.len(), "wrong bytes written", "serialized {} has {len} bytes {}", T::NAME, hex(&data));
                match T::deserialized(data.clone()) {
                    Ok(got) => same(v, &got, "buffer")?,
                    Err(e) => return fail("refused without a fault", format!("deserialization of {}: {e}", T::NAME)),
                }
                let mut cut = data;
                cut.truncate(c.below(bytes.len()));
                c.fault("io.torn buffer");
                if let Ok(got) = T::deserialized(cut.clone()) {
                    return fail("torn encoding accepted", format!("{} restored from {} of {} bytes: {}", T::NAME, cut.len(), bytes.len(), got.show()));
                }
            }
            Err(e) => return fail("refused without a fault", format!("serialization of {}: {e}", T::NAME)),
        }
    }
    Ok(())
}

/// The device fails for good somewhere.
fn failing_write<T: Rec>(c: &mut Ctl, v: &T) -> Res {
    let bytes = expected(v)?;
    let point = fail_point(c, bytes.len());
    let mut w = Pipe::new(vec![], Temper::draw(c, Some(point)));
    let res = write_limited(v, 4, &mut w);
    w.account(c, true);
    ev!(c, "write {} failing at {point:?} of {} -> {}", T::NAME, bytes.len(), res.is_ok());
    c.state(&[hash_str(T::NAME), 1, hash_str(&format!("{:?}", point.1)), res.is_ok() as u64]);
    ensure!(bytes.starts_with(&w.data), "wrong bytes written", "{}: {} is not a beginning of {}", T::NAME, hex(&w.data), hex(&bytes));
    if point.0 < bytes.len() {
        ensure!(res.is_err(), "failed write accepted", "{}: only {} of {} bytes were written ({:?})", T::NAME, w.data.len(), bytes.len(), point.1);
    } else {
        ensure!(res.is_ok(), "refused without a fault", "write of {}: {:?}", T::NAME, res);
        ensure!(w.data == bytes, "wrong bytes written", "{}: {} instead of {}", T::NAME, hex(&w.data), hex(&bytes));
    }
    Ok(())
}

fn failing_read<T: Rec>(c: &mut Ctl, v: &T) -> Res {
    let bytes = expected(v)?;
    let point = fail_point(c, bytes.len());
    let mut r = Pipe::new(bytes.clone(), Temper::draw(c, Some(point)));
    let res = read_limited::<T>(4, &mut r);
    r.account(c, false);
    ev!(c, "read {} failing at {point:?} of {} -> {}", T::NAME, bytes.len(), res.is_ok());
    c.state(&[hash_str(T::NAME), 2, hash_str(&format!("{:?}", point.1)), res.is_ok() as u64]);
    match res {
        Ok(got) if point.0 < bytes.len() => fail(
            "failed read accepted",
            format!("{}: {} restored although only {} of {} bytes were read", T::NAME, got.show(), point.0, bytes.len()),
        ),
        Ok(got) => same(v, &got, "stream"),
        Err(_) if point.0 < bytes.len() => Ok(()),
        Err(e) => fail("refused without a fault", format!("read of {}: {e}", T::NAME)),
    }
}

/// An encoding torn at any byte.
fn cuts<T: Rec>(c: &mut Ctl, v: &T) -> Res {
    let bytes = expected(v)?;
    let temper = Temper::draw(c, None);
    let all: Vec<usize> = if bytes.len() <= 160 {
        (0..bytes.len()).collect()
    } else {
        let mut rng = c.rng();
        let mut v: Vec<usize> = (0..60).map(|_| rng.below(bytes.len() as u64) as usize).collect();
        v.extend(0..24);
        v.extend(bytes.len() - 24..bytes.len());
        v
    };
    ev!(c, "cut {} of {} bytes at {} places", T::NAME, bytes.len(), all.len());
    c.fault("disk.torn record");
    c.state(&[hash_str(T::NAME), 3]);
    for cut in all {
        let mut r = Pipe::new(bytes[..cut].to_vec(), temper.clone());
        if let Ok(got) = read_limited::<T>(4, &mut r) {
            return fail("torn encoding accepted", format!("{} restored from {cut} of {} bytes: {}", T::NAME, bytes.len(), got.show()));
        }
    }
    Ok(())
}

fn write_as<T: Rec>(v: &T, form: Form, w: &mut Pipe) -> Option<Result<(), String>> {
    if form == Form::Text { v.to_text(w) } else { v.to_serde(form, w) }
}

fn read_as<T: Rec>(form: Form, r: &mut Pipe) -> Result<T, String> {
    if form == Form::Text { T::from_text(r) } else { T::from_serde(form, r) }
}

fn serde_link<T: Rec>(c: &mut Ctl, v: &T) -> Res {
    let form = [Form::Json, Form::Bincode, Form::Pretty, Form::Text][c.weighted(&[3, 2, 1, 1])];
    let mut w = Pipe::new(vec![], Temper { seed: 1, ..Temper::default() });
    let Some(res) = write_as(v, form, &mut w) else { return transfer(c, v) };
    ensure!(res.is_ok(), "refused without a fault", "{form:?} write of {}: {res:?}", T::NAME);
    let text = w.data;
    let hard = c.chance(50).then(|| fail_point(c, text.len()));
    let mut w = Pipe::new(vec![], Temper::draw(c, hard));
    let res = write_as(v, form, &mut w).expect("has such a form");
    w.account(c, true);
    ev!(c, "{form:?} write {} {} bytes {hard:?} -> {}", T::NAME, text.len(), res.is_ok());
    c.state(&[hash_str(T::NAME), 4 + form as u64, hard.is_some() as u64, res.is_ok() as u64]);
    if hard.is_some_and(|(at, _)| at < text.len()) {
        ensure!(res.is_err(), "failed write accepted", "{form:?} {}: only {} of {} bytes were written", T::NAME, w.data.len(), text.len());
    } else {
        ensure!(res.is_ok(), "refused without a fault", "{form:?} write of {}: {res:?}", T::NAME);
        ensure!(w.data == text, "wrong bytes written", "{form:?} {}: {:?}", T::NAME, String::from_utf8_lossy(&w.data));
    }
    // The other side gets what was written, or only a part of it.
    let cut = if c.chance(40) && !text.is_empty() { c.below(text.len()) } else { text.len() };
    if cut < text.len() {
        c.fault("disk.torn record");
    }
    let mut r = Pipe::new(text[..cut].to_vec(), Temper::draw(c, None));
    let res = read_as::<T>(form, &mut r);
    r.account(c, false);
    ev!(c, "{form:?} read {} {cut} of {} -> {}", T::NAME, text.len(), res.is_ok());
    match res {
        Ok(got) if cut < text.len() => {
            fail("torn encoding accepted", format!("{} restored from {cut} of {} bytes: {}", T::NAME, text.len(), got.show()))
        }
        Ok(got) => same(v, &got, &format!("{form:?}")),
        Err(_) if cut < text.len() => Ok(()),
        Err(e) => fail("refused without a fault", format!("{form:?} {} {}: {e}", T::NAME, String::from_utf8_lossy(&text))),
    }
}

/// An append-only log. What was appended before a crash is there up to some byte.
#[derive(Default)]
struct Log {
    disk: Vec<u8>,
    /// The records which are known to be complete, by their encoding.
    written: Vec<(Val, Vec<u8>)>,
    /// A record at the end which may be incomplete.
    torn: Option<(Val, Vec<u8>)>,
}

impl Log {
    fn append(&mut self, c: &mut Ctl, v: &Val) -> Res {
        if self.torn.is_some() {
            self.recover(c)?;
        }
        let bytes = with!(v, v => expected(v))?;
        let crash = c.chance(35).then(|| c.below(bytes.len() + 1));
        let temper = Temper::draw(c, crash.map(|at| (at, Hard::Error(io::ErrorKind::Other))));
        let mut w = Pipe::new(vec![], temper);
        let res = with!(v, v => write_limited(v, 4, &mut w));
        w.account(c, true);
        ensure!(bytes.starts_with(&w.data), "wrong bytes written", "log: {} is not a beginning of {}", hex(&w.data), hex(&bytes));
        self.disk.extend(&w.data);
        ev!(c, "append {} bytes crash {crash:?} -> {}", bytes.len(), res.is_ok());
        c.state(&[5, self.written.len() as u64, crash.is_some() as u64, res.is_ok() as u64]);
        if crash.is_some() {
            // The process dies; it never learns what the result was.
            c.fault("crash.during append");
            self.torn = Some((v.clone(), bytes));
            self.recover(c)
        } else {
            if let Err(e) = res {
                return fail("refused without a fault", format!("append: {e}"));
            }
            ensure!(w.data == bytes, "wrong bytes written", "log: {} instead of {}", hex(&w.data), hex(&bytes));
            self.written.push((v.clone(), bytes));
            Ok(())
        }
    }

    /// A restarted process reads the log record by record and drops what was not written completely.
    fn recover(&mut self, c: &mut Ctl) -> Res {
        let mut r = Pipe::new(self.disk.clone(), Temper::draw(c, None));
        let mut end = 0;
        let expect: Vec<(Val, Vec<u8>)> = self.written.iter().cloned().chain(self.torn.clone()).collect();
        let mut kept = 0;
        for (i, (v, bytes)) in expect.iter().enumerate() {
            let left = self.disk.len() - end;
            let whole = left >= bytes.len();
            let res: Result<Result<(), Fail>, String> = with!(v, v => {
                fn one<T: Rec>(v: &T, r: &mut Pipe) -> Result<Result<(), Fail>, String> {
                    read_limited::<T>(4, r).map(|got| same(v, &got, "log"))
                }
                one(v, &mut r)
            });
            match res {
                Ok(eq) => {
                    ensure!(whole, "torn encoding accepted", "record {i} restored from {left} of {} bytes", bytes.len());
                    eq?;
                    end += bytes.len();
                    kept += 1;
                    ensure!(r.pos == end, "wrong number of bytes read", "record {i} ends at {end}, read up to {}", r.pos);
                }
                Err(e) => {
                    ensure!(!whole, "record lost", "complete record {i} ({} bytes): {e}", bytes.len());
                    ensure!(i >= self.written.len(), "record lost", "record {i} of {} can't be read: {e}", self.written.len());
                    break;
                }
            }
        }
        r.account(c, false);
        ev!(c, "recovered {kept} of {} records", expect.len());
        if kept < expect.len() {
            c.probe("torn record dropped");
        }
        self.written = expect[..kept].to_vec();
        self.torn = None;
        self.disk.truncate(end);
        Ok(())
    }
}

