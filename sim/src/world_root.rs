//! C16: replicas of a collection receive its history over a faulty network, lose and restore their state, and
//! compare Merkle roots to find out whether they agree. Some are faulty: they lose, repeat or swap entries.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, LargeOrdSet, LargeVec, SmallOrdSet, SmallVec, TinyOrdSet, TinyVec};
use commit_verify::{CommitEncode, CommitEngine, MerkleHash, MerkleLeaves};
use sha2::Digest;

use crate::codec::*;
use crate::kernel::*;
use crate::refm::{self, H};
use crate::runner::Check;
use crate::{ensure, ev};

pub const CHECKS: &[Check] = &[Check {
    id: "C16",
    run: run16,
    quick: 16_000,
    thorough: 800_000,
    rule: "one evaluation is one simulated run: two to five replicas of a list or set (up to 255, 65535 or more entries, held in collections of \
         different kinds) apply a history of insertions, removals and exchanges that arrives reordered and repeated, crash and restore snapshots \
         which may be torn, and compare roots after every step; non-trivial if contents both agreed and differed; distinct by the complete event log",
    states: "distinct (number of entries, kinds of collection, nesting)",
    real: &["MerkleHash::merklize and MerkleNode commitments", "MerkleLeaves of Confined Vec and BTreeSet of all sizes", "CommitEngine::commit_to_merkle"],
    stub: &["replicas, replication log, durable snapshots", "network, clock, crashes"],
    assumptions: &["collisions of SHA-256 do not occur", "an encoded entry is not the encoding of a Merkle node"],
    batch: None,
}];

const LIB: &str = "CsvSim";

/// An entry. Its commitment is either to the entry or, for groups, to the root of its parts.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom, dumb = Self::none())]
enum Entry {
    #[strict_type(tag = 0x20)]
    Num(u32),
    #[strict_type(tag = 0x21)]
    Blob(SmallVec<u8>),
    #[strict_type(tag = 0x22)]
    Group(TinyVec<Part>),
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
struct Part(u16);

impl Entry {
    fn none() -> Self { Entry::Num(0) }
}

impl CommitEncode for Entry {
    type CommitmentId = MerkleHash;
    fn commit_encode(&self, e: &mut CommitEngine) {
        match self {
            Entry::Group(parts) => e.commit_to_merkle(parts),
            entry => e.commit_to_serialized(entry),
        }
    }
}

fn node(bytes: &[u8]) -> H {
    let mut e = refm::engine(refm::TAG_NODE);
    e.update(bytes);
    e.finalize().into()
}

fn expected(e: &Entry) -> H {
    match e {
        Entry::Num(n) => {
            let mut b = vec![0x20];
            b.extend(n.to_le_bytes());
            node(&b)
        }
        Entry::Blob(v) => {
            let mut b = vec![0x21];
            b.extend((v.len() as u16).to_le_bytes());
            b.extend(v.iter());
            node(&b)
        }
        Entry::Group(g) => {
            let leaves: Vec<H> = g.iter().map(|p| node(&p.0.to_le_bytes())).collect();
            node(&refm::merklize(&leaves))
        }
    }
}

/// A collection of the client library which isn't one of the predefined ones.
struct ByKey(BTreeMap<u32, Entry>);
impl MerkleLeaves for ByKey {
    type Leaf = Entry;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Entry> { self.0.values() }
}
struct Borrowed<'a>(&'a [Entry]);
impl MerkleLeaves for Borrowed<'_> {
    type Leaf = Entry;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Entry> { self.0.iter() }
}

/// How a replica holds its entries.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Kind {
    Tiny,
    Small,
    Large,
    Tiny1,
    Small1,
    Large1,
    TinySet,
    SmallSet,
    LargeSet,
    SmallSet1,
    Map,
    Slice,
    Engine,
}
const LISTS: [Kind; 9] =
    [Kind::Tiny, Kind::Small, Kind::Large, Kind::Tiny1, Kind::Small1, Kind::Large1, Kind::Map, Kind::Slice, Kind::Engine];
const SETS: [Kind; 5] = [Kind::TinySet, Kind::SmallSet, Kind::LargeSet, Kind::SmallSet1, Kind::Tiny];

fn list<const MIN: usize, const MAX: usize>(v: &[Entry]) -> Option<Confined<Vec<Entry>, MIN, MAX>> { Confined::try_from(v.to_vec()).ok() }
fn set<const MIN: usize, const MAX: usize>(v: &[Entry]) -> Option<Confined<BTreeSet<Entry>, MIN, MAX>> {
    Confined::try_from(v.iter().cloned().collect::<BTreeSet<_>>()).ok()
}

/// The root, unless such a collection can't hold so many entries.
fn root(kind: Kind, v: &[Entry]) -> Option<H> {
    let h = match kind {
        Kind::Tiny => MerkleHash::merklize(&list::<0, { u8::MAX as usize }>(v)?),
        Kind::Small => MerkleHash::merklize(&list::<0, { u16::MAX as usize }>(v)?),
        Kind::Large => MerkleHash::merklize(&LargeVec::<Entry>::try_from(v.to_vec()).ok()?),
        Kind::Tiny1 => MerkleHash::merklize(&list::<1, { u8::MAX as usize }>(v)?),
        Kind::Small1 => MerkleHash::merklize(&list::<1, { u16::MAX as usize }>(v)?),
        Kind::Large1 => MerkleHash::merklize(&list::<1, { u32::MAX as usize }>(v)?),
        Kind::TinySet => MerkleHash::merklize(&TinyOrdSet::<Entry>::try_from(v.iter().cloned().collect::<BTreeSet<_>>()).ok()?),
        Kind::SmallSet => MerkleHash::merklize(&SmallOrdSet::<Entry>::try_from(v.iter().cloned().collect::<BTreeSet<_>>()).ok()?),
        Kind::LargeSet => MerkleHash::merklize(&LargeOrdSet::<Entry>::try_from(v.iter().cloned().collect::<BTreeSet<_>>()).ok()?),
        Kind::SmallSet1 => MerkleHash::merklize(&set::<1, { u16::MAX as usize }>(v)?),
        Kind::Map => MerkleHash::merklize(&ByKey(v.iter().cloned().enumerate().map(|(i, e)| (i as u32, e)).collect())),
        Kind::Slice => MerkleHash::merklize(&Borrowed(v)),
        // The root as a part of another commitment.
        Kind::Engine => {
            let mut e = CommitEngine::new(refm::TAG_NODE);
            e.commit_to_merkle(&Borrowed(v));
            let whole = e.finish().finalize();
            let alone = MerkleHash::merklize(&Borrowed(v));
            return (whole[..] == node(&raw(alone))[..]).then(|| raw(alone)).or(Some([0xEE; 32]));
        }
    };
    Some(raw(h))
}

#[derive(Clone, Debug)]
enum Op {
    Push(Entry),
    Insert(usize, Entry),
    Remove(usize),
    Swap(usize, usize),
    Truncate(usize),
}

fn apply(v: &mut Vec<Entry>, set: bool, op: &Op) {
    let n = v.len();
    match op {
        Op::Push(e) | Op::Insert(_, e) if set => {
            if let Err(i) = v.binary_search(e) {
                v.insert(i, e.clone());
            }
        }
        Op::Push(e) => v.push(e.clone()),
        Op::Insert(i, e) => v.insert((*i).min(n), e.clone()),
        Op::Remove(i) if n > 0 => {
            v.remove(i % n);
        }
        Op::Swap(i, j) if n > 0 && !set => v.swap(i % n, j % n),
        Op::Truncate(k) => v.truncate(*k),
        _ => {}
    }
}

struct Replica {
    kind: Kind,
    content: Vec<Entry>,
    /// Number of operations applied.
    at: usize,
    inbox: BTreeMap<usize, Op>,
    /// Durable: encoded content and the number of operations in it.
    snapshot: (Vec<u8>, usize, bool),
    /// Did something to its content which isn't in the log.
    faulty: bool,
}

fn entry(c: &mut Ctl) -> Entry {
    match c.below(8) {
        0..=4 => Entry::Num(c.below(30) as u32),
        5 => Entry::Num(c.seed() as u32),
        6 => {
            let n = *c.pick(&[0usize, 1, 2, 31, 32, 33, 64, 97]);
            Entry::Blob(Confined::try_from(c.rng().bytes(n)).expect("size"))
        }
        _ => {
            let n = c.below(4);
            Entry::Group(Confined::try_from((0..n).map(|_| Part(c.below(5) as u16)).collect::<Vec<_>>()).expect("size"))
        }
    }
}

fn bulk(c: &mut Ctl, set: bool) -> Vec<Entry> {
    let n = match c.below(80) {
        0..=52 => c.below(6),
        53..=66 => c.below(40),
        67..=77 => *c.pick(&[3usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257]),
        78 => c.range(200, 1100),
        _ => {
            if c.chance(4) {
                *c.pick(&[4095usize, 4097, 32767, 32769, 65534, 65535, 65536, 65537, 70001])
            } else {
                c.range(500, 513)
            }
        }
    };
    let mut rng = c.rng();
    let mut v: Vec<Entry> = (0..n)
        .map(|_| if n > 40 { Entry::Num(rng.next() as u32) } else { Entry::Num(rng.below(40) as u32) })
        .collect();
    if set {
        v = v.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
    }
    v
}

struct World {
    set: bool,
    log: Vec<Op>,
    start: Vec<Entry>,
    /// Contents and roots seen in this run.
    seen: BTreeMap<Vec<Entry>, H>,
    roots: BTreeMap<H, Vec<Entry>>,
    agreed: bool,
    differed: bool,
}

fn brief(v: &[Entry]) -> String { format!("{} entries {:?}", v.len(), &v[..v.len().min(8)]) }

impl World {
    fn observe(&mut self, c: &mut Ctl, who: usize, kind: Kind, v: &[Entry]) -> Res {
        let Some(r) = root(kind, v) else { return Ok(()) };
        c.state(&[v.len() as u64, kind as u64, v.iter().filter(|e| matches!(e, Entry::Group(_))).count().min(3) as u64]);
        match self.seen.get(v) {
            Some(known) => {
                self.agreed = true;
                ensure!(*known == r, "same-content", "replica {who} ({kind:?}) has root {} for {}, others have {}", short(&r), brief(v), short(known));
            }
            None => {
                let leaves: Vec<H> = v.iter().map(expected).collect();
                let want = refm::merklize(&leaves);
                ensure!(
                    r == want,
                    "wrong-root",
                    "replica {who} ({kind:?}) has root {} for {}; the published procedure gives {}",
                    short(&r),
                    brief(v),
                    short(&want)
                );
                if let Some(other) = self.roots.get(&r) {
                    return fail("shared-root", format!("{} and {} share the root {}", brief(v), brief(other), short(&r)));
                }
                self.differed |= !self.seen.is_empty();
                if v.len() < 3000 {
                    self.seen.insert(v.to_vec(), r);
                    self.roots.insert(r, v.to_vec());
                }
            }
        }
        ev!(c, "replica {who} ({kind:?}, {} entries) has root {}", v.len(), short(&r));
        Ok(())
    }
}

fn snapshot(v: &[Entry]) -> Vec<u8> { enc(&LargeVec::<Entry>::try_from(v.to_vec()).expect("size")).unwrap_or_default() }

fn run16(c: &mut Ctl) -> Res {
    let f = Faults::draw(c);
    let set = c.chance(40);
    let kinds: &[Kind] = if set { &SETS } else { &LISTS };
    let start = bulk(c, set);
    let big = start.len() > 2000;
    let n = if big { 2 } else { c.range(2, 5) };
    let snap = if big { vec![] } else { snapshot(&start) };
    let mut w = World { set, log: vec![], start: start.clone(), seen: BTreeMap::new(), roots: BTreeMap::new(), agreed: false, differed: false };
    let mut replicas: Vec<Replica> = (0..n)
        .map(|_| Replica {
            kind: *c.pick(kinds),
            content: start.clone(),
            at: 0,
            inbox: BTreeMap::new(),
            snapshot: (snap.clone(), 0, false),
            faulty: false,
        })
        .collect();
    ev!(c, "{} of {}, {n} replicas", if set { "set" } else { "list" }, brief(&start));
    for (i, r) in replicas.iter().enumerate() {
        w.observe(c, i, r.kind, &r.content)?;
    }
    let mut net: Net<(usize, Op)> = Net::new(n + 1);
    let steps = if big { c.range(1, 3) } else { c.range(1, 18) };
    for _ in 0..steps {
        c.open();
        let p = c.below(n);
        match c.weighted(&[8, 2, 2, 3, 2, if f.partition > 0 { 1 } else { 0 }]) {
            0 => {
                let len = w.start.len() + 3;
                let op = match c.below(10) {
                    0..=4 => Op::Push(entry(c)),
                    5 => Op::Insert(c.below(len), entry(c)),
                    6 | 7 => Op::Remove(c.below(len)),
                    8 => Op::Swap(c.below(len), c.below(len)),
                    _ => Op::Truncate(c.below(len)),
                };
                ev!(c, "operation {}: {op:?}", w.log.len());
                w.log.push(op.clone());
                for q in 0..n {
                    net.send(c, &f, n, q, (w.log.len() - 1, op.clone()), |_, _| None);
                }
            }
            1 if !big => {
                let r = &mut replicas[p];
                let mut s = snapshot(&r.content);
                if c.chance(f.io) && !s.is_empty() {
                    c.fault("torn snapshot");
                    s.truncate(c.below(s.len()));
                }
                r.snapshot = (s, r.at, r.faulty);
                ev!(c, "replica {p} saves a snapshot of {} bytes", r.snapshot.0.len());
            }
            2 if !big => {
                c.fault("crash and restart");
                let r = &mut replicas[p];
                r.inbox.clear();
                r.faulty = false;
                match dec::<LargeVec<Entry>>(&r.snapshot.0) {
                    Ok(v) => {
                        r.content = v.release();
                        r.at = r.snapshot.1;
                        r.faulty = r.snapshot.2;
                    }
                    Err(_) => {
                        r.content = start.clone();
                        r.at = 0;
                    }
                }
                r.kind = *c.pick(kinds);
                ev!(c, "replica {p} restarts as {:?} at operation {}", r.kind, r.at);
                w.observe(c, p, replicas[p].kind, &replicas[p].content)?;
            }
            3 => {
                // Something goes wrong within a replica: its content is no longer that of the log.
                let r = &mut replicas[p];
                let k = r.content.len();
                if k > 0 {
                    let before = r.content.clone();
                    let i = if c.chance(50) { k - 1 } else { c.below(k) };
                    match c.below(7) {
                        0 => {
                            r.content.remove(i);
                        }
                        1 if !set => r.content.insert(i, r.content[i].clone()),
                        2 if !set => r.content.swap(i, (i + 1) % k),
                        3 if !set => {
                            // The end is repeated.
                            let m = 1 << c.below(4);
                            let tail = r.content[k.saturating_sub(m)..].to_vec();
                            r.content.extend(tail);
                        }
                        4 if !set => {
                            let m = c.below(k);
                            r.content.rotate_left(m);
                        }
                        5 if !set => {
                            // Two entries become a group or a group is taken apart.
                            match r.content[i].clone() {
                                Entry::Group(g) => {
                                    r.content.remove(i);
                                    for part in g.iter().rev() {
                                        r.content.insert(i, Entry::Num(part.0 as u32));
                                    }
                                }
                                _ => r.content[i] = Entry::Group(Confined::try_from(vec![Part(i as u16)]).expect("size")),
                            }
                        }
                        _ => {
                            let e = entry(c);
                            apply(&mut r.content, set, &Op::Push(e));
                        }
                    }
                    if r.content != before {
                        r.faulty = true;
                        c.fault("entry lost, repeated or moved");
                        ev!(c, "replica {p} corrupts its content");
                        w.observe(c, p, r.kind, &replicas[p].content)?;
                    }
                }
            }
            4 => {
                replicas[p].kind = *c.pick(kinds);
                ev!(c, "replica {p} moves to {:?}", replicas[p].kind);
                w.observe(c, p, replicas[p].kind, &replicas[p].content)?;
            }
            5 => net.toggle_partition(c),
            _ => {}
        }
        let k = c.below(2 * n);
        deliver(c, &mut w, &mut net, &mut replicas, k)?;
        c.close();
    }
    // The faults stop: replicas fetch what they miss from the log; the faulty ones start over.
    for p in 0..n {
        let r = &mut replicas[p];
        if r.faulty || r.at > w.log.len() {
            r.content = start.clone();
            r.at = 0;
        }
        while r.at < w.log.len() {
            let op = w.log[r.at].clone();
            apply(&mut r.content, set, &op);
            r.at += 1;
        }
        w.observe(c, p, r.kind, &replicas[p].content)?;
        ensure!(replicas[p].content == replicas[0].content, "harness", "replicas did not converge");
    }
    let mut last = None;
    for r in &replicas {
        let Some(h) = root(r.kind, &r.content) else { continue };
        ensure!(last.is_none() || last == Some(h), "no-convergence", "replicas with the same content have different roots");
        last = Some(h);
    }
    c.nontrivial |= w.agreed && w.differed;
    Ok(())
}

fn deliver(c: &mut Ctl, w: &mut World, net: &mut Net<(usize, Op)>, replicas: &mut [Replica], k: usize) -> Res {
    for _ in 0..k {
        let Some((_, to, (i, op))) = net.next(c) else { break };
        let r = &mut replicas[to];
        if i < r.at {
            continue;
        }
        r.inbox.insert(i, op);
        let mut changed = false;
        while let Some(op) = r.inbox.remove(&r.at) {
            apply(&mut r.content, w.set, &op);
            r.at += 1;
            changed = true;
        }
        if changed {
            w.observe(c, to, replicas[to].kind, &replicas[to].content)?;
        }
    }
    Ok(())
}
