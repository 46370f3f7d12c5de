//! C06 and C07: commitments made from their sources by parties with different randomness devices, crashing and
//! receiving the parts of the source in different orders.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::u5;
use commit_verify::mpc::{Method, MerkleBlock, MerkleTree, MultiSource};
use commit_verify::{CommitId, TryCommitVerify};

use crate::codec::*;
use crate::gen;
use crate::kernel::*;
use crate::refm::{self, RefTree, H};
use crate::runner::{catching, Check};
use crate::{ensure, ev};

const REAL: &[&str] = &[
    "commit_verify::mpc::MerkleTree::try_commit, verify, proofs and hashing",
    "rand::thread_rng over the simulated randomness device, in OS threads which the simulator runs one at a time",
];
const STUB: &[&str] = &["randomness device (getrandom)", "network, disks, clock and scheduler"];

pub const CHECKS: &[Check] = &[
    Check {
        id: "C06",
        run: run06,
        quick: 2000,
        thorough: 150_000,
        rule: "one evaluation is one simulated run: one source (up to some hundreds of messages, any minimal depth), a committer and up to four replicas \
             which receive the entries of the source over a faulty network, crash and recover; non-trivial if the source has at least two \
             messages or is unplaceable; distinct by the complete event log",
        states: "distinct (minimal depth, depth, cofactor, number of messages)",
        real: REAL,
        stub: STUB,
        assumptions: &["trees deeper than 7 levels are compared by their complete layout and encoding, not by hashing all leaves"],
        batch: None,
    },
    Check {
        id: "C07",
        run: run07,
        quick: 8000,
        thorough: 60_000,
        rule: "one evaluation is one simulated run: several committers in threads of their own with randomness devices of their own, making some \
             hundred commitments altogether while devices fail, get stuck and committers restart; all runs are non-trivial; distinct by \
             the complete event log",
        states: "distinct (committer incarnation, device state, kind of commitment, outcome)",
        real: REAL,
        stub: STUB,
        assumptions: &["a device which works yields different bytes on every request"],
        batch: None,
    },
];

fn commit(src: &MultiSource) -> Result<MerkleTree, String> {
    MerkleTree::try_commit(src).map_err(|e| e.to_string())
}

/// Runs something on a machine of its own: a fresh thread with the given randomness device.
fn on_machine<T: Send>(dev: getrandom::Source, f: impl FnOnce() -> T + Send) -> (Result<T, String>, getrandom::Source) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, || {
                getrandom::install(dev);
                let r = catching(f);
                (r, getrandom::inspect())
            })
            .expect("thread")
            .join()
            .expect("guarded")
    })
}

fn device(c: &mut Ctl) -> getrandom::Source {
    let mut s = getrandom::Source { state: c.seed(), ..Default::default() };
    match c.below(4) {
        1 => {
            c.fault("rng.unavailable");
            s.fail_from = Some(0);
        }
        2 => {
            c.fault("rng.stuck");
            s.stuck = Some(0);
        }
        _ => {}
    }
    s
}

fn multi(min_depth: u8, map: &BTreeMap<H, H>, entropy: Option<u64>) -> MultiSource {
    MultiSource {
        method: Method::Sha256t,
        min_depth: u5::with(min_depth),
        messages: Confined::try_from_iter(map.iter().map(|(p, m)| (pid(p), msg(m)))).expect("few messages"),
        static_entropy: entropy,
    }
}

/// Identifiers equal modulo every width that the deepest level offers.
fn unplaceable(c: &mut Ctl, n: usize) -> Vec<(H, H)> {
    let mut rng = c.rng();
    let step: u128 = (1u128 << 31) * ((1u128 << 31) - 1);
    let base = rng.next() as u128;
    (0..n)
        .map(|i| {
            let mut p = [0u8; 32];
            p[..16].copy_from_slice(&(base + step * i as u128).to_le_bytes());
            (p, rng.bytes32())
        })
        .collect()
}

/// What a machine committed to before, to sources which have much in common with the one of the run.
type Earlier = Vec<(u8, BTreeMap<H, H>, u64)>;

fn earlier(c: &mut Ctl, min_depth: u8, map: &BTreeMap<H, H>) -> Earlier {
    if map.is_empty() || map.len() > 200 || !c.chance(35) {
        return vec![];
    }
    c.probe("machine with a history");
    let n = c.range(1, 3);
    (0..n)
        .map(|_| {
            c.open();
            let depth = match c.weighted(&[3, 3, 2]) {
                0 => (min_depth + c.range(1, 5) as u8).min(31),
                1 => min_depth,
                _ => c.range(0, 20) as u8,
            };
            let mut m = map.clone();
            let keys: Vec<H> = map.keys().copied().collect();
            match c.weighted(&[5, 3, 2, 1]) {
                1 => {
                    // The same protocols with other messages.
                    let k = *c.pick(&keys);
                    m.insert(k, c.rng().bytes32());
                }
                2 => {
                    let k = *c.pick(&keys);
                    m.remove(&k);
                }
                3 => {
                    let k = c.rng().bytes32();
                    m.insert(k, [7; 32]);
                }
                _ => {}
            }
            let entropy = c.seed();
            c.close();
            (depth, m, entropy)
        })
        .filter(|(_, m, _)| !m.is_empty())
        .collect()
}

/// Commits on a machine with a history; what it did before is judged too.
fn commit_after(dev: getrandom::Source, before: &Earlier, src: &MultiSource) -> Result<Result<Result<MerkleTree, String>, String>, Fail> {
    let (made, _) = on_machine(dev, || {
        let old: Vec<_> = before.iter().map(|(d, m, e)| commit(&multi(*d, m, Some(*e)))).collect();
        (old, commit(src))
    });
    let (old, made) = match made {
        Ok(x) => x,
        Err(e) => return Ok(Err(e)),
    };
    for ((d, m, e), t) in before.iter().zip(old) {
        let ids: Vec<H> = m.keys().copied().collect();
        let want = refm::place(*d, &ids).map(|(depth, cofactor, slots)| {
            let full: BTreeMap<u32, (H, H)> = slots.iter().map(|(pos, p)| (*pos, (*p, m[p]))).collect();
            refm::tree_bytes(depth, cofactor, *e, m, &full)
        });
        let got = t.as_ref().ok().and_then(|t| enc(t).ok());
        ensure!(got == want, "tree differs", "{} messages from depth {d}: the tree made by a machine with a history is not the prescribed one", m.len());
    }
    Ok(Ok(made))
}

struct Replica {
    got: BTreeMap<H, H>,
    disk: BTreeMap<H, H>,
}

fn run06(c: &mut Ctl) -> Res {
    c.open();
    let style = c.weighted(&[64, 15, 6, 5, 3]);
    let (min_depth, pairs): (u8, Vec<(H, H)>) = match style {
        0 => {
            let d = *c.pick(&[3u8, 0, 1, 2, 4, 5, 6, 7]);
            let n = gen::count(c, 60);
            (d, gen::pairs(c, n))
        }
        1 => {
            let d = c.range(8, 31) as u8;
            let n = c.range(1, 12);
            (d, gen::pairs(c, n))
        }
        2 => {
            let n = c.range(61, if c.thorough { 1500 } else { 140 });
            (*c.pick(&[0u8, 3, 7, 9]), gen::pairs(c, n))
        }
        3 => {
            let n = c.range(2, 5);
            c.probe("source that cannot be placed");
            (31, unplaceable(c, n))
        }
        _ => (0, vec![]),
    };
    let pinned = (style != 4 && c.chance(70)).then(|| *c.pick(&[1u64, 0, u64::MAX, 0x0123_4567_89ab_cdef]));
    c.close();
    let map: BTreeMap<H, H> = pairs.iter().copied().collect();
    let ids: Vec<H> = map.keys().copied().collect();
    let want = if ids.is_empty() { None } else { refm::place(min_depth, &ids) };
    if pairs.len() > 1 {
        c.nontrivial = true;
    }

    // The committer.
    let mut dev = device(c);
    if pinned.is_none() {
        dev = getrandom::Source { state: c.seed(), ..Default::default() };
    }
    let mut src = multi(min_depth, &map, pinned);
    if min_depth == 3 {
        // What everybody uses who does not choose another one.
        src.min_depth = MultiSource::default().min_depth;
        if let (Some(e), true) = (pinned, c.chance(40)) {
            src = MultiSource { messages: src.messages, ..MultiSource::with_static_entropy(e) };
        }
    }
    let before = earlier(c, min_depth, &map);
    let made = match commit_after(dev, &before, &src)? {
        Ok(m) => m,
        Err(e) => return fail("commit crashed", format!("committing to {} messages from depth {min_depth} panics: {e}", map.len())),
    };
    let Some((depth, cofactor, slots)) = want else {
        ev!(c, "source of {} messages from depth {min_depth} cannot be placed: {:?}", map.len(), made.as_ref().err());
        c.state(&[min_depth as u64, 99, 0, map.len() as u64]);
        ensure!(made.is_err(), "impossible source accepted", "{} messages which cannot be placed from depth {min_depth} are committed to", map.len());
        if style == 4 {
            // With a minimal depth even an empty commitment is possible.
            let depth = c.range(1, 6) as u8;
            let tree = match commit(&multi(depth, &map, Some(5))) {
                Ok(t) => t,
                Err(e) => return fail("commit refused", format!("an empty tree of depth {depth} is refused: {e}")),
            };
            let r = RefTree::dense(depth, 0, 5, BTreeMap::new());
            ensure!(enc(&tree).ok() == Some(r.tree_bytes()), "tree differs", "an empty tree of depth {depth} is not the prescribed one");
        }
        // Whoever checks somebody's commitment against such a source must refuse too.
        let other: BTreeMap<H, H> = gen::pairs(c, 2).into_iter().collect();
        if let Ok(t) = commit(&multi(3, &other, Some(1))) {
            ensure!(t.verify(&src).is_err(), "wrong source accepted", "a commitment verifies against a source that cannot be committed to");
        }
        return Ok(());
    };
    c.state(&[min_depth as u64, depth as u64, cofactor as u64, map.len() as u64]);
    let tree = match made {
        Ok(t) => t,
        Err(e) => return fail("commit refused", format!("{} messages fit in depth {depth} but are refused: {e}", map.len())),
    };
    let entropy = tree.entropy();
    if let Some(e) = pinned {
        ensure!(e == entropy, "entropy changed", "pinned entropy {e:x} became {entropy:x}");
    }
    ev!(c, "{} messages from depth {min_depth}: expected depth {depth} cofactor {cofactor}, got {} {}", map.len(), tree.depth().to_u8(), tree.cofactor());
    if cofactor > 0 {
        c.probe("cofactor above 0");
    }
    if depth > min_depth && min_depth > 0 {
        c.probe("deeper than the minimum");
    }
    ensure!(
        (tree.depth().to_u8(), tree.cofactor()) == (depth, cofactor),
        "placement",
        "depth {} and cofactor {} are used instead of {depth} and {cofactor}",
        tree.depth().to_u8(),
        tree.cofactor()
    );
    let full: BTreeMap<u32, (H, H)> = slots.iter().map(|(pos, p)| (*pos, (*p, map[p]))).collect();
    for (pos, p) in &slots {
        ensure!(tree.protocol_id_pos(pid(p)) == *pos, "placement", "slot {} for {} instead of {pos}", tree.protocol_id_pos(pid(p)), short(p));
    }
    ensure!(tree.width_limit() as u64 == 1u64 << depth, "placement", "width {} at depth {depth}", tree.width_limit());
    let bytes = refm::tree_bytes(depth, cofactor, entropy, &map, &full);
    ensure!(enc(&tree).ok().as_ref() == Some(&bytes), "tree differs", "the tree is not the one prescribed for its source");

    // The replicas get the entries one by one.
    let f = Faults::draw(c);
    let n = c.range(1, 4);
    let mut net: Net<(H, H)> = Net::new(n + 1);
    let mut reps: Vec<Replica> = (0..n).map(|_| Replica { got: BTreeMap::new(), disk: BTreeMap::new() }).collect();
    for round in 0..3 {
        let last = round == 2;
        let ff = if last { Faults { jitter: f.jitter, ..Faults::none() } } else { f.clone() };
        let small = map.len() <= 40;
        for r in 0..n {
            let mut missing: Vec<(H, H)> = map.iter().filter(|(p, _)| !reps[r].got.contains_key(*p)).map(|(p, m)| (*p, *m)).collect();
            if small {
                c.shuffle(&mut missing);
                for e in missing {
                    net.send(c, &ff, n, r, e, |_, _| None);
                }
            } else {
                // Big sources travel as a file.
                reps[r].got.extend(missing);
            }
        }
        while let Some((_, r, (p, m))) = net.next(c) {
            reps[r].got.insert(p, m);
            if c.chance(20) {
                reps[r].disk = reps[r].got.clone();
            }
            if !last && c.chance(f.crash / 4) {
                c.fault("crash");
                reps[r].got = reps[r].disk.clone();
            }
        }
        if c.chance(40) {
            let r = c.below(n);
            // A replica which re-creates the commitment from a part of the source gets a different one.
            if reps[r].got.len() < map.len() && !reps[r].got.is_empty() {
                c.probe("partial source");
                if let Ok(t) = commit(&multi(min_depth, &reps[r].got, Some(entropy))) {
                    ensure!(t != tree, "tree differs", "a tree from a part of the source equals the complete one");
                }
                let part = multi(min_depth, &reps[r].got, Some(entropy));
                ensure!(tree.verify(&part).is_err(), "wrong source accepted", "a commitment verifies against a part of its source");
            }
        }
    }
    let source = multi(min_depth, &map, Some(entropy));
    for (r, rep) in reps.iter().enumerate() {
        ensure!(rep.got == map, "harness", "replica {r} is incomplete");
        let mine = multi(min_depth, &rep.got, Some(entropy));
        let before = earlier(c, min_depth, &map);
        match commit_after(device(c), &before, &mine)? {
            Ok(Ok(t)) => {
                ensure!(t == tree && enc(&t).ok().as_ref() == Some(&bytes), "replica differs", "replica {r} creates another tree from the same source");
                ensure!(t.verify(&source).is_ok() && tree.verify(&mine).is_ok(), "own source refused", "a commitment does not verify against its source");
            }
            Ok(Err(e)) => return fail("commit refused", format!("replica {r} cannot repeat the commitment: {e}")),
            Err(e) => return fail("commit crashed", format!("replica {r} crashes repeating the commitment: {e}")),
        }
    }
    // A restart: the tree comes back from the disk.
    let back: MerkleTree = match dec(&bytes) {
        Ok(t) => t,
        Err(e) => return fail("restore", format!("an encoded tree is refused: {e}")),
    };
    ensure!(back == tree && back.verify(&source).is_ok(), "restore", "a tree restored from its encoding differs or does not verify");
    if depth <= 7 && (depth <= 5 || c.chance(30)) {
        let r = RefTree::dense(depth, cofactor, entropy, full.clone());
        let id = raw(tree.commit_id());
        ensure!(raw(back.commit_id()) == id, "commitment differs", "a restored tree has another commitment");
        ensure!(id == r.commitment, "commitment differs", "the commitment is not the one prescribed for the source");
        let mut seen = BTreeSet::new();
        for (p, proof) in tree.clone().into_proofs() {
            let p = raw(p);
            seen.insert(p);
            let Some(pos) = r.pos_of(&p) else { return fail("proof differs", "a proof for an unknown protocol") };
            ensure!(enc(&proof).ok() == Some(r.proof_bytes(pos)), "proof differs", "the proof for slot {pos} is not the prescribed one");
        }
        ensure!(seen.len() == map.len(), "proof differs", "{} proofs for {} messages", seen.len(), map.len());
        ensure!(raw(MerkleBlock::from(&tree).commit_id()) == id, "commitment differs", "the disclosure of a tree has another commitment");
        c.probe("hashed completely");
    }
    // Complete trees that are too big for everything above.
    let share = match depth {
        8..=10 => 40,
        11..=12 => 15,
        13..=14 => 5,
        _ => 0,
    };
    if c.chance(share) {
        let r = RefTree::dense(depth, cofactor, entropy, full.clone());
        let id = raw(tree.commit_id());
        ensure!(id == r.commitment, "commitment differs", "the commitment of {depth} levels is not the one prescribed for the source");
        let p = *c.pick(&ids);
        let block = MerkleBlock::from(&tree);
        let proof = match block.into_merkle_proof(pid(&p)) {
            Ok(p) => p,
            Err(e) => return fail("proof differs", format!("a proof is refused: {e}")),
        };
        let pos = r.pos_of(&p).expect("own message");
        ensure!(enc(&proof).ok() == Some(r.proof_bytes(pos)), "proof differs", "the proof for slot {pos} is not the prescribed one");
        ensure!(raw(proof.convolve(pid(&p), msg(&map[&p])).expect("own proof")) == id, "proof differs", "the proof for slot {pos} does not verify");
        c.probe("more than 7 levels hashed completely");
    }
    // Sources that are not the committed one.
    for _ in 0..3 {
        let mut other = map.clone();
        let mut e = entropy;
        let keys: Vec<H> = map.keys().copied().collect();
        let k = *c.pick(&keys);
        let kind = c.below(6);
        match kind {
            0 => {
                let m = other.get_mut(&k).expect("own key");
                m[c.below(32)] ^= 1 << c.below(8);
            }
            1 => e ^= 1 << c.below(64),
            2 => {
                other.remove(&k);
            }
            3 => {
                other.insert(c.rng().bytes32(), c.rng().bytes32());
            }
            4 => {
                let k2 = *c.pick(&keys);
                let (a, b) = (map[&k], map[&k2]);
                other.insert(k, b);
                other.insert(k2, a);
            }
            _ => {
                let m = other.remove(&k).expect("own key");
                let mut k2 = k;
                k2[c.below(32)] ^= 1 << c.below(8);
                other.insert(k2, m);
            }
        }
        if (&other, e) == (&map, entropy) || other.is_empty() {
            continue;
        }
        ev!(c, "verification against an altered source of kind {kind}");
        let bad = multi(min_depth, &other, Some(e));
        ensure!(tree.verify(&bad).is_err(), "wrong source accepted", "a commitment verifies against another source (kind {kind})");
    }
    Ok(())
}

fn run07(c: &mut Ctl) -> Res {
    c.nontrivial = true;
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    let mut fresh: Vec<u64> = vec![];
    let machines = c.range(2, 5);
    let base: Vec<BTreeMap<H, H>> = (0..2)
        .map(|_| {
            let n = c.range(1, 4);
            gen::pairs(c, n).into_iter().collect()
        })
        .collect();
    let depth = *c.pick(&[3u8, 1, 2, 4]);
    for m in 0..machines {
        c.open();
        // Several incarnations of each committer.
        for life in 0..c.range(1, 3) {
            let mut dev = getrandom::Source { state: c.seed() | 1, ..Default::default() };
            let mode = c.weighted(&[6, 2, 1]);
            match mode {
                1 => dev.fail_from = Some(0),
                2 => dev.stuck = Some(c.below(256) as u8),
                _ => {}
            }
            let jobs: Vec<(usize, Option<u64>)> = (0..c.range(2, 30))
                .map(|_| {
                    let pin = if c.chance(15) { Some(*c.pick(&[0u64, 1, u64::MAX, 0xdead_beef_0bad_cafe])) } else { None };
                    (c.below(2), pin)
                })
                .collect();
            let sources: Vec<(MultiSource, Option<u64>)> = jobs.iter().map(|(s, pin)| (multi(depth, &base[*s], *pin), *pin)).collect();
            let die_at = c.chance(30).then(|| c.below(jobs.len()));
            let (res, after) = on_machine(dev.clone(), || {
                let mut out = vec![];
                for (i, (s, _)) in sources.iter().enumerate() {
                    if die_at == Some(i) {
                        break;
                    }
                    // A committer survives a failure of the device and may try again later.
                    let t = catching(|| commit(s));
                    out.push((t, getrandom::inspect().served));
                }
                out
            });
            let Ok(out) = res else { return fail("harness", "a committer died") };
            if die_at.is_some() {
                c.fault("crash");
            }
            let mut drawn = false;
            for (i, (t, served)) in out.into_iter().enumerate() {
                let pin = sources[i].1;
                let ok = matches!(t, Ok(Ok(_)));
                c.state(&[life as u64, mode as u64, pin.is_some() as u64, ok as u64, (i > 0) as u64]);
                match (pin, t) {
                    (Some(want), Ok(Ok(tree))) => {
                        ensure!(tree.entropy() == want, "pinned entropy changed", "pinned entropy {want:x} became {:x}", tree.entropy());
                        check_used(c, &tree, &base[jobs[i].0])?;
                    }
                    (Some(_), Ok(Err(e)) | Err(e)) => {
                        return fail("pinned commitment refused", format!("a commitment with pinned entropy is refused with device mode {mode}: {e}"));
                    }
                    (None, Ok(Ok(tree))) => {
                        let e = tree.entropy();
                        ev!(c, "machine {m}.{life} commitment {i} entropy {e:016x}");
                        ensure!(mode != 1, "commitment without randomness", "an unpinned commitment is made although the randomness device fails");
                        drawn = true;
                        ensure!(served > 0, "entropy not from the system", "the entropy of a fresh committer was not taken from the system's randomness");
                        if mode == 0 {
                            let me = format!("machine {m}.{life} commitment {i}");
                            if let Some(who) = seen.insert(e, me.clone()) {
                                return fail("entropy repeated", format!("{who} and {me} both use entropy {e:016x}"));
                            }
                            ensure!(tree.entropy() == e, "entropy changed", "the entropy is not stable");
                            fresh.push(e);
                        } else {
                            c.fault("rng.stuck");
                        }
                        check_used(c, &tree, &base[jobs[i].0])?;
                    }
                    (None, Ok(Err(e)) | Err(e)) => {
                        ensure!(mode == 1, "commitment refused", "an unpinned commitment is refused though the device works: {e}");
                        c.fault("rng.unavailable");
                        c.probe("refused for lack of randomness");
                    }
                }
            }
            if drawn && mode == 0 {
                ensure!(after.served > 0, "entropy not from the system", "entropy was not taken from the system's randomness");
            }
            ev!(c, "machine {m}.{life} mode {mode} ends after {} requests to the device", after.served + after.failed);
            c.sim_ms += 1000;
        }
        c.close();
    }
    judge(c, &fresh)?;
    Ok(())
}

/// Values drawn from a working device must be spread over all of the 64 bits. The limits are those which a perfect
/// source exceeds in less than one of 10^10 runs.
fn judge(c: &mut Ctl, fresh: &[u64]) -> Res {
    let n = fresh.len();
    if n < 30 {
        return Ok(());
    }
    // A value of a part of the entropy that comes again and again
    for (bits, most) in [(32u32, 2usize), (16, 5), (8, 15)] {
        for at in (0..64 - bits + 1).step_by(bits as usize / 2) {
            let mut times: BTreeMap<u64, usize> = BTreeMap::new();
            for e in fresh {
                *times.entry(e >> at & ((1 << bits) - 1)).or_default() += 1;
            }
            let (v, k) = times.into_iter().max_by_key(|(_, k)| *k).expect("not empty");
            ensure!(
                k <= most || bits == 8 && n > 160,
                "entropy not of full width",
                "in {k} of {n} commitments the {bits} bits of the entropy from bit {at} on are {v:x}"
            );
        }
    }
    // Bits which are set too often or too rarely, alone or in the sum with another one
    let far = |ones: usize| (2.0 * ones as f64 - n as f64).abs() > 8.0 * (n as f64).sqrt();
    for i in 0..64 {
        for j in 0..=i {
            let ones = fresh.iter().filter(|e| (*e >> i ^ if i == j { 0 } else { *e >> j }) & 1 == 1).count();
            ensure!(!far(ones) || n < 64, "entropy not of full width", "bits {i} and {j} of the entropy agree in {ones} of {n} commitments (differing, or set)");
        }
    }
    c.probe("all bits judged");
    Ok(())
}

/// The entropy that a tree reports is the one its empty slots are filled with.
fn check_used(c: &mut Ctl, tree: &MerkleTree, map: &BTreeMap<H, H>) -> Res {
    if tree.depth().to_u8() > 6 || !c.chance(25) {
        return Ok(());
    }
    let slots: BTreeMap<u32, (H, H)> = map.iter().map(|(p, m)| (tree.protocol_id_pos(pid(p)), (*p, *m))).collect();
    let r = RefTree::dense(tree.depth().to_u8(), tree.cofactor(), tree.entropy(), slots);
    ensure!(raw(tree.root()) == r.root(), "entropy not used", "the empty slots are not filled with the entropy of the tree");
    ensure!(raw(tree.commit_id()) == r.commitment, "entropy not used", "the commitment does not depend on the entropy as prescribed");
    c.probe("placeholders recomputed");
    Ok(())
}
