//! C18: the exporter of the type library, the real program, runs on a simulated disk that fails, fills up, transfers
//! less than it is asked to, is interrupted, or stops the program for good. The disk sits between the program and
//! the kernel (simdisk.c) and follows the plan which the scheduler drew.

use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use crate::kernel::*;
use crate::runner::{root, Check};
use crate::{ensure, ev};

pub const CHECKS: &[Check] = &[Check {
    id: "C18",
    run: run18,
    quick: 2_500,
    thorough: 150_000,
    rule: "one evaluation is one simulated run: up to four exports one after another into the same place (three formats, files or standard output), \
         with a disk that fails at chosen operations or fills up, the program killed at any operation, and what earlier exports left behind; \
         non-trivial if a fault was met; distinct by the complete event log (all operations on the disk are a part of it)",
    states: "distinct (format, operation at which a fault hit, fault, outcome)",
    real: &["program commit-stl as built from /repo, with strict_types, its files and standard output"],
    stub: &["disk: results of open, write, writev, fsync, rename and the like are decided by the simulator"],
    assumptions: &[
        "errors reported by close are not simulated (the standard library ignores them)",
        "loss of data after the program ended successfully is not simulated (nothing is promised about durability)",
    ],
    batch: None,
}];

static SERIAL: AtomicU64 = AtomicU64::new(0);

fn exporter() -> PathBuf { root().join("target/debug/commit-stl") }
fn disk() -> PathBuf { root().join("target/simdisk.so") }

const MODES: [&str; 4] = ["stl", "sta", "sty", "stdout"];

struct Place(PathBuf);
impl Place {
    fn new() -> Place {
        let p = root().join(format!("target/work/export-{}-{}", std::process::id(), SERIAL.fetch_add(1, SeqCst)));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(p.join("out")).expect("scratch directory");
        fs::create_dir_all(p.join("sub")).expect("scratch directory");
        Place(p)
    }
    fn out(&self) -> PathBuf { self.0.join("out") }
}
impl Drop for Place {
    fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); }
}

type Files = BTreeMap<String, Vec<u8>>;

fn files(dir: &Path) -> Files {
    let mut m = Files::new();
    let Ok(list) = fs::read_dir(dir) else { return m };
    for f in list.flatten() {
        if f.path().is_file() {
            m.insert(f.file_name().to_string_lossy().into_owned(), fs::read(f.path()).unwrap_or_default());
        }
    }
    m
}

struct Ran {
    /// Exit code; none if the program was killed.
    code: Option<i32>,
    hang: bool,
    trace: Vec<(u64, String, i64)>,
}

/// One run of the exporter.
fn export(place: &Place, mode: &str, plan: &str, space: Option<u64>) -> Ran {
    let log = place.0.join("trace");
    let _ = fs::remove_file(&log);
    let mut c = Command::new(exporter());
    c.env_clear();
    c.env("LD_PRELOAD", disk());
    c.env("SIMDISK_DIR", place.out());
    c.env("SIMDISK_PLAN", plan);
    c.env("SIMDISK_LOG", &log);
    if let Some(s) = space {
        c.env("SIMDISK_SPACE", s.to_string());
    }
    c.stdin(Stdio::null()).stderr(Stdio::null());
    if mode == "stdout" {
        // The specification goes to the working directory, the library to standard output.
        let f = fs::File::create(place.0.join("stdout")).expect("scratch file");
        c.stdout(f).env("SIMDISK_STDOUT", "1").current_dir(place.out());
    } else {
        c.arg(format!("--{mode}")).arg(place.out()).stdout(Stdio::null()).current_dir(place.0.join("sub"));
    }
    let mut child = c.spawn().expect("exporter");
    let started = Instant::now();
    let mut hang = false;
    let status = loop {
        if let Some(s) = child.try_wait().expect("child") {
            break s;
        }
        if started.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            hang = true;
            break child.wait().expect("child");
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    let text = fs::read_to_string(&log).unwrap_or_default();
    let trace = text
        .lines()
        .filter_map(|l| {
            let mut w = l.split(' ');
            Some((w.next()?.parse().ok()?, w.next()?.to_string(), w.next()?.parse().ok()?))
        })
        .collect();
    Ran { code: status.code(), hang, trace }
}

fn produced(place: &Place, mode: &str) -> Files {
    let mut m = files(&place.out());
    if mode == "stdout" {
        m.insert("(standard output)".into(), fs::read(place.0.join("stdout")).unwrap_or_default());
    }
    m
}

struct Reference {
    files: Files,
    ops: Vec<String>,
    bytes: u64,
}

#[cfg(not(feature = "full"))]
fn lacks(_: &Files, _: usize) -> Option<String> { None }

/// What an export must contain according to the library itself, but doesn't.
#[cfg(feature = "full")]
fn lacks(files: &Files, mode: usize) -> Option<String> {
    use commit_verify::{mpc, CommitmentLayout, MerkleNode};
    use strict_encoding::{StreamWriter, StrictEncode, StrictWriter};
    let has = |part: &[u8]| files.values().any(|f| f.windows(part.len().max(1)).any(|w| w == part));
    let lib = commit_verify::stl::commit_verify_stl();
    let binary = || {
        let mut b = vec![];
        lib.strict_encode(StrictWriter::with(StreamWriter::new::<{ u32::MAX as usize }>(&mut b))).map(|_| ()).expect("memory");
        b
    };
    let wanted: Vec<(&str, Vec<u8>)> = match MODES[mode] {
        "stl" => vec![("the library in binary form", binary())],
        "sta" => vec![("the library in armored form", lib.to_armored().into_bytes())],
        _ => lib.types.keys().map(|name| ("the data type", format!("data {name}").into_bytes())).collect(),
    };
    let layouts = [
        MerkleNode::commitment_layout(),
        mpc::Leaf::commitment_layout(),
        mpc::MerkleConcealed::commitment_layout(),
        mpc::MerkleBlock::commitment_layout(),
        mpc::MerkleTree::commitment_layout(),
    ];
    let layouts = layouts.iter().map(|l| ("the layout", l.to_string().into_bytes()));
    let sys = strict_types::SystemBuilder::new()
        .import(commit_verify::stl::commit_verify_stl())
        .and_then(|b| b.import(strict_types::stl::strict_types_stl()))
        .and_then(|b| b.import(strict_types::stl::std_stl()))
        .map(|b| b.finalize());
    let trees: Vec<(&str, Vec<u8>)> = match &sys {
        Ok(Ok(sys)) => ["CommitVerify.MerkleNode", "CommitVerify.Leaf", "CommitVerify.MerkleConcealed", "CommitVerify.MerkleBlock", "CommitVerify.MerkleTree"]
            .into_iter()
            .filter_map(|t| sys.type_tree(t))
            .map(|t| ("the structure", t.to_string().into_bytes()))
            .collect(),
        _ => vec![],
    };
    wanted.into_iter().chain(layouts).chain(trees).find(|(_, p)| !has(p)).map(|(what, p)| format!("{what} {}", String::from_utf8_lossy(&p[..p.len().min(60)])))
}

#[cfg(feature = "full")]
trait Armored {
    fn to_armored(&self) -> String;
}
#[cfg(feature = "full")]
impl Armored for strict_types::TypeLib {
    fn to_armored(&self) -> String {
        use armor::AsciiArmor;
        self.to_ascii_armored_string()
    }
}

/// An undisturbed export.
fn reference(mode: usize) -> &'static Result<Reference, String> {
    static REF: [OnceLock<Result<Reference, String>>; 4] = [const { OnceLock::new() }; 4];
    REF[mode].get_or_init(|| {
        let place = Place::new();
        let r = export(&place, MODES[mode], "", None);
        if r.code != Some(0) {
            return Err(format!("undisturbed export of {} ends with {:?}", MODES[mode], r.code));
        }
        if r.trace.is_empty() {
            return Err("harness: nothing passed through the simulated disk".into());
        }
        let files = produced(&place, MODES[mode]);
        if let Some(part) = lacks(&files, mode) {
            return Err(format!("an undisturbed export of {} succeeds without {part}", MODES[mode]));
        }
        let bytes = files.values().map(|f| f.len() as u64).sum();
        Ok(Reference { files, ops: r.trace.into_iter().map(|t| t.1).collect(), bytes })
    })
}

const EINTR: i64 = 4;
const WRITE_ERRORS: [(i64, &str); 6] = [(5, "EIO"), (28, "ENOSPC"), (122, "EDQUOT"), (27, "EFBIG"), (11, "EAGAIN"), (32, "EPIPE")];
const OPEN_ERRORS: [(i64, &str); 6] = [(13, "EACCES"), (30, "EROFS"), (24, "EMFILE"), (28, "ENOSPC"), (5, "EIO"), (1, "EPERM")];

fn run18(c: &mut Ctl) -> Res {
    let place = Place::new();
    let n = c.range(1, 4);
    for k in 0..n {
        c.open();
        let m = c.below(4);
        let mode = MODES[m];
        let want = match reference(m) {
            Ok(r) => r,
            Err(e) if e.starts_with("harness") => return fail("harness", e.clone()),
            Err(e) => return fail("undisturbed", e.clone()),
        };
        // What is in the way.
        let mut obstacle = false;
        match c.below(12) {
            0 => {
                for (name, data) in &want.files {
                    if !name.starts_with('(') {
                        let mut old = data.clone();
                        match c.below(3) {
                            0 => old.extend(vec![b'x'; 1 + c.below(5000)]),
                            1 => old.truncate(c.below(old.len().max(1))),
                            _ => old.iter_mut().for_each(|b| *b ^= 1),
                        }
                        let p = place.out().join(name);
                        if !p.is_dir() {
                            fs::write(p, old).expect("scratch file");
                        }
                    }
                }
                c.fault("stale files of an earlier export");
                ev!(c, "stale files");
            }
            1 if k + 1 == n => {
                obstacle = true;
                let names: Vec<&String> = want.files.keys().filter(|f| !f.starts_with('(')).collect();
                match c.below(3) {
                    0 if !names.is_empty() => {
                        let p = place.out().join(names[c.below(names.len())]);
                        let _ = fs::remove_file(&p);
                        let _ = fs::create_dir(&p);
                        c.fault("directory in the place of a file");
                        ev!(c, "a directory in the place of a file");
                    }
                    1 if mode != "stdout" => {
                        let _ = fs::remove_dir_all(place.out());
                        c.fault("missing directory");
                        ev!(c, "the directory is missing");
                    }
                    _ if mode != "stdout" => {
                        let _ = fs::remove_dir_all(place.out());
                        fs::write(place.out(), b"file").expect("scratch file");
                        c.fault("file in the place of the directory");
                        ev!(c, "a file in the place of the directory");
                    }
                    _ => obstacle = false,
                }
            }
            _ => {}
        }
        // What the disk does.
        let total = want.ops.len();
        let mut plan = vec![];
        let mut space = None;
        let faults = c.weighted(&[3, 6, 2, 1, 2]);
        if faults == 4 {
            let room = match c.below(4) {
                0 => 0,
                1 => want.bytes - 1 - c.below(3) as u64,
                _ => c.below(want.bytes as usize) as u64,
            };
            space = Some(room);
        }
        for _ in 0..faults {
            // An operation is chosen by what it does as well as by its place.
            let at = match c.below(5) {
                0 => total - 1 - c.below(3.min(total)),
                1 => {
                    let rare: Vec<usize> = (0..total).filter(|i| want.ops[*i] != "write").collect();
                    if rare.is_empty() {
                        0
                    } else {
                        (rare[c.below(rare.len())] + c.below(2)).min(total - 1)
                    }
                }
                _ => c.below(total),
            };
            let op = want.ops[at].as_str();
            let step = match (op, c.below(10)) {
                (_, 0) => format!("{at}k0"),
                (_, 1) => format!("{at}K0"),
                ("write", 2 | 3) => format!("{at}s{}", c.below(8)),
                (_, 2 | 3) => format!("{at}e{EINTR}"),
                ("write", 4 | 5) => {
                    // A storm of interruptions.
                    let many = 1 + c.below(6);
                    (0..many).map(|i| format!("{}e{EINTR}", at + i)).collect::<Vec<_>>().join(",")
                }
                ("write", _) => format!("{at}e{}", c.pick(&WRITE_ERRORS).0),
                (_, _) => format!("{at}e{}", c.pick(&OPEN_ERRORS).0),
            };
            plan.push(step);
        }
        let plan = plan.join(",");
        let ran = export(&place, mode, &plan, space);
        let mut met = obstacle;
        for (op, what, arg) in &ran.trace {
            let name = match (what.as_str(), *arg) {
                ("write" | "open" | "sync" | "truncate" | "rename" | "unlink" | "mkdir" | "link", 0) => continue,
                ("killed-before" | "killed-after", _) => "kill",
                ("write-short", _) => "short write",
                ("disk-full" | "disk-nearly-full", _) => "disk full",
                (_, EINTR) => "interrupted",
                ("write-error", _) => "write error",
                ("open", _) => "open error",
                _ => "other error",
            };
            met = true;
            c.fault(name);
            c.state(&[m as u64, *op, hash_str(what), *arg as u64, ran.code.unwrap_or(-1) as u64]);
            ev!(c, "export {k}: operation {op}: {what} {arg}");
        }
        c.sim_ms += ran.trace.len() as u64;
        let ok = ran.code == Some(0);
        ev!(c, "export {k} of {mode} on a disk with plan [{plan}] and space {space:?}: {} operations, exit {:?}", ran.trace.len(), ran.code);
        ensure!(!ran.hang, "hang", "export of {mode} does not end");
        if ok {
            let got = produced(&place, mode);
            for (name, data) in &want.files {
                match got.get(name) {
                    None => return fail("missing-file", format!("export of {mode} succeeded, {name} is missing")),
                    Some(g) => ensure!(
                        g == data,
                        "wrong-file",
                        "export of {mode} succeeded, {name} has {} bytes where an undisturbed export writes {}, first difference at {:?}",
                        g.len(),
                        data.len(),
                        g.iter().zip(data).position(|(a, b)| a != b)
                    ),
                }
            }
        }
        ensure!(ok || met, "undisturbed", "export of {mode} met no fault and ended with {:?}", ran.code);
        c.nontrivial |= met;
        c.close();
    }
    Ok(())
}
