//! Runs batches of simulated runs, minimises and replays failures, writes the evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::kernel::*;

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Ctl) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub states: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Evaluates facts that only show over the whole batch: receives the number of times each probe was met.
    pub batch: Option<fn(&BTreeMap<String, u64>, u64) -> Option<Fail>>,
}

const WORKERS: usize = 8;
const HANG: Duration = Duration::from_secs(100);
/// The same for runs still going on when another one has failed already, and for candidates in minimisation.
const SLOW: Duration = Duration::from_secs(20);

pub struct Outcome {
    pub ctl: Ctl,
    pub fail: Option<Fail>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Calls into the code under test where a panic is a legitimate outcome; returns its message and place.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("{msg} at {loc}")
    })
}

/// One simulated run, in an OS thread of its own, so that no thread-local state of the code under test
/// survives from one run to the next.
pub fn execute(check: &'static Check, mut ctl: Ctl) -> Outcome {
    let thread = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (check.run)(&mut ctl)));
        let fail = match res {
            Ok(Ok(())) => None,
            Ok(Err(f)) => Some(f),
            Err(_) => {
                let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                let first = msg.lines().next().unwrap_or_default().to_string();
                let short: String = first.chars().take(300).collect();
                if loc.starts_with("src/") {
                    Some(Fail { class: "harness".into(), detail: format!("{short} at {loc}") })
                } else {
                    let file = loc.rsplit("/registry/src/").next().unwrap_or(&loc).to_string();
                    Some(Fail { class: format!("panic {file}"), detail: format!("the code under test panicked: {short}") })
                }
            }
        };
        Outcome { ctl, fail }
    });
    thread.expect("thread").join().expect("the run is guarded")
}

pub fn run_seed(seed: u64, check: &Check, run: u64) -> u64 { mix(&[seed, hash_str(check.id), run]) }

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Keys of listed findings and the lines to print for them.
pub fn known_findings(id: &str) -> (Vec<String>, Vec<String>) {
    let text = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let (mut keys, mut lines) = (vec![], vec![]);
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("finding: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={id} ")) else { continue };
        let Some(rest) = rest.strip_prefix("key=") else { continue };
        let (key, text) = rest.split_once(' ').unwrap_or((rest, ""));
        keys.push(key.to_string());
        lines.push(format!("KNOWN-FINDING: property={id} {text}"));
    }
    (keys, lines)
}

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: HashSet<u64>,
    fingerprints: HashSet<u64>,
    states: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    sim_ms: u64,
    events: u64,
    choices: u64,
    rerun: u64,
    diverged: u64,
}

fn prepare(ctl: &mut Ctl, thorough: bool, listed: &Arc<Vec<String>>) {
    ctl.thorough = thorough;
    ctl.listed = listed.clone();
}

/// The batch, in a child process.
pub fn batch(check: &'static Check, seed: u64, thorough: bool, runs: u64, dir: &Path) -> i32 {
    quiet_panics();
    let listed = Arc::new(known_findings(check.id).0);
    let started = Instant::now();
    let cap = Duration::from_secs(if thorough { 3000 } else { 420 });
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let stats = Mutex::new(Stats::default());
    let fails: Mutex<BTreeMap<u64, (Fail, Vec<u64>, Vec<(usize, usize)>)>> = Mutex::new(BTreeMap::new());
    let inflight: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(0)).collect();
    let since: Vec<AtomicU64> = (0..WORKERS).map(|_| AtomicU64::new(u64::MAX)).collect();
    let done = AtomicU64::new(0);
    let file = fs::File::create(dir.join("inflight")).expect("work file");
    std::thread::scope(|s| {
        s.spawn(|| {
            // Only guards against hangs of the code under test; decides nothing within a run.
            while done.load(SeqCst) < WORKERS as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for w in 0..WORKERS {
                    let at = since[w].load(SeqCst);
                    if at == u64::MAX {
                        continue;
                    }
                    let took = (started.elapsed().as_millis() as u64).saturating_sub(at);
                    if took > HANG.as_millis() as u64 || (worst.load(SeqCst) != u64::MAX && took > SLOW.as_millis() as u64) {
                        // The hung run is not needed if another one has failed.
                        let mut fails = fails.lock().unwrap_or_else(|e| e.into_inner());
                        if let Some((run, fail)) = std::mem::take(&mut *fails).into_iter().next() {
                            std::process::exit(conclude(check, seed, thorough, &listed, run, fail, dir));
                        }
                        if took > HANG.as_millis() as u64 {
                            std::process::abort();
                        }
                    }
                }
            }
        });
        for w in 0..WORKERS {
            let (next, worst, stats, fails, inflight, since, done, file, listed) =
                (&next, &worst, &stats, &fails, &inflight, &since, &done, &file, &listed);
            s.spawn(move || {
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= runs || i > worst.load(SeqCst) || started.elapsed() > cap {
                        break;
                    }
                    use std::os::unix::fs::FileExt;
                    let _ = file.write_all_at(&(i + 1).to_le_bytes(), w as u64 * 8);
                    inflight[w].store(i, SeqCst);
                    since[w].store(started.elapsed().as_millis() as u64, SeqCst);
                    let mut ctl = Ctl::generate(run_seed(seed, check, i));
                    prepare(&mut ctl, thorough, listed);
                    let out = execute(check, ctl);
                    let mut redo = None;
                    if i % 50 == 7 && out.fail.is_none() {
                        let mut ctl = Ctl::generate(run_seed(seed, check, i));
                        prepare(&mut ctl, thorough, listed);
                        redo = Some(execute(check, ctl));
                    }
                    since[w].store(u64::MAX, SeqCst);
                    let c = out.ctl;
                    let mut st = stats.lock().expect("lock");
                    if let Some(redo) = redo {
                        st.rerun += 1;
                        if redo.ctl.choices != c.choices || redo.ctl.fingerprint != c.fingerprint || redo.fail.is_some() {
                            st.diverged += 1;
                        }
                    }
                    st.runs += 1;
                    st.fingerprints.insert(c.fingerprint);
                    if c.nontrivial {
                        st.nontrivial.insert(c.fingerprint);
                    }
                    st.sim_ms += c.sim_ms;
                    st.events += c.events;
                    st.choices += c.choices.len() as u64;
                    for (k, v) in &c.faults {
                        *st.faults.entry(k.to_string()).or_default() += v;
                    }
                    for (k, v) in &c.probes {
                        *st.probes.entry(k.to_string()).or_default() += v;
                    }
                    for (k, v) in &c.known {
                        *st.known.entry(k.to_string()).or_default() += v;
                    }
                    if st.states.len() < 5_000_000 {
                        st.states.extend(c.states.iter().copied());
                    }
                    drop(st);
                    if let Some(f) = out.fail {
                        worst.fetch_min(i, SeqCst);
                        fails.lock().expect("lock").insert(i, (f, c.choices, c.spans));
                    }
                }
                done.fetch_add(1, SeqCst);
            });
        }
    });
    let st = stats.into_inner().expect("lock");
    let wall = started.elapsed().as_secs_f64();
    let mut text = String::new();
    let _ = writeln!(text, "runs={}", st.runs);
    let _ = writeln!(text, "wall={wall}");
    let _ = writeln!(text, "nontrivial={}", st.nontrivial.len());
    let _ = writeln!(text, "fingerprints={}", st.fingerprints.len());
    let _ = writeln!(text, "states={}", st.states.len());
    let _ = writeln!(text, "sim_ms={}", st.sim_ms);
    let _ = writeln!(text, "events={}", st.events);
    let _ = writeln!(text, "choices={}", st.choices);
    let _ = writeln!(text, "rerun={}", st.rerun);
    let _ = writeln!(text, "diverged={}", st.diverged);
    for (k, v) in &st.faults {
        let _ = writeln!(text, "fault:{k}={v}");
    }
    for (k, v) in &st.probes {
        let _ = writeln!(text, "probe:{k}={v}");
    }
    for (k, v) in &st.known {
        let _ = writeln!(text, "known:{k}={v}");
    }
    fs::write(dir.join("stats"), text).expect("work file");

    let fails = fails.into_inner().expect("lock");
    let Some((run, (fail, choices, spans))) = fails.into_iter().next() else {
        if let Some(f) = check.batch.and_then(|b| b(&st.probes, st.runs)) {
            let r = Replay {
                property: check.id.into(),
                class: f.class.clone(),
                detail: f.detail.clone(),
                seed,
                run: st.runs,
                thorough,
                mode: "batch".into(),
                build: THIS_BUILD.into(),
                choices: vec![],
                log: vec![],
            };
            r.save(&dir.join("violation")).expect("work file");
            return 1;
        }
        return 0;
    };
    conclude(check, seed, thorough, &listed, run, (fail, choices, spans), dir)
}

type Failed = (Fail, Vec<u64>, Vec<(usize, usize)>);

/// Minimises and saves a violation.
fn conclude(check: &'static Check, seed: u64, thorough: bool, listed: &Arc<Vec<String>>, run: u64, fail: Failed, dir: &Path) -> i32 {
    let (fail, choices, spans) = fail;
    eprintln!("run {run} (seed {:#x}) fails: {}: {}", run_seed(seed, check, run), fail.class, fail.detail);
    let record = move |choices: Vec<u64>, fail: &Fail, mode: &str| Replay {
        property: check.id.into(),
        class: fail.class.clone(),
        detail: fail.detail.clone(),
        seed,
        run,
        thorough,
        mode: mode.into(),
        build: THIS_BUILD.into(),
        choices,
        log: vec![],
    };
    // Changed choices may make the code under test hang: what was reached until then is kept.
    let best: Arc<Mutex<(Instant, Vec<u64>, Fail)>> = Arc::new(Mutex::new((Instant::now(), choices.clone(), fail.clone())));
    let done = Arc::new(AtomicBool::new(false));
    {
        let (best, done, to) = (best.clone(), done.clone(), dir.join("violation"));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            if done.load(SeqCst) {
                break;
            }
            let b = best.lock().unwrap_or_else(|e| e.into_inner());
            if b.0.elapsed() > SLOW {
                record(b.1.clone(), &b.2, "choices").save(&to).expect("work file");
                std::process::exit(1);
            }
        });
    }
    let (choices, fail, mode) = minimise(check, thorough, listed, choices, spans, fail, &best);
    let mut out = record(choices, &fail, mode);
    if mode == "choices" {
        best.lock().unwrap_or_else(|e| e.into_inner()).0 = Instant::now();
        let o = replay_choices(check, thorough, listed, out.choices.clone());
        out.log = o.ctl.log;
        if let Some(f) = o.fail {
            out.detail = f.detail;
        }
    }
    done.store(true, SeqCst);
    out.save(&dir.join("violation")).expect("work file");
    1
}

fn replay_choices(check: &'static Check, thorough: bool, listed: &Arc<Vec<String>>, choices: Vec<u64>) -> Outcome {
    let mut ctl = Ctl::replay(choices);
    prepare(&mut ctl, thorough, listed);
    ctl.keep_log = true;
    execute(check, ctl)
}

/// Deletes steps and simplifies choices while the same kind of violation remains.
fn minimise(
    check: &'static Check,
    thorough: bool,
    listed: &Arc<Vec<String>>,
    choices: Vec<u64>,
    spans: Vec<(usize, usize)>,
    fail: Fail,
    reached: &Mutex<(Instant, Vec<u64>, Fail)>,
) -> (Vec<u64>, Fail, &'static str) {
    let started = Instant::now();
    let tries = RefCell::new(0u32);
    let attempt = |cand: Vec<u64>| -> Option<(Vec<u64>, Vec<(usize, usize)>, Fail)> {
        if *tries.borrow() > 6000 || started.elapsed() > Duration::from_secs(25) {
            return None;
        }
        *tries.borrow_mut() += 1;
        reached.lock().unwrap_or_else(|e| e.into_inner()).0 = Instant::now();
        let o = replay_choices(check, thorough, listed, cand);
        let mut reached = reached.lock().unwrap_or_else(|e| e.into_inner());
        reached.0 = Instant::now();
        match o.fail {
            Some(f) if f.class == fail.class => {
                if o.ctl.choices.len() <= reached.1.len() {
                    (reached.1, reached.2) = (o.ctl.choices.clone(), f.clone());
                }
                Some((o.ctl.choices, o.ctl.spans, f))
            }
            _ => None,
        }
    };
    let Some((mut best, mut spans, mut best_fail)) = attempt(choices.clone()).map(|(c, s, f)| (c, if s.is_empty() { spans } else { s }, f)) else {
        return (choices, fail, "history");
    };
    loop {
        let before = (best.len(), best.iter().map(|v| *v as u128).sum::<u128>());
        // Remove whole steps, the biggest first.
        let mut order: Vec<(usize, usize)> = spans.clone();
        order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        let mut i = 0;
        while i < order.len() {
            let (a, b) = order[i];
            i += 1;
            if b > best.len() || a >= b {
                continue;
            }
            let mut cand = best.clone();
            cand.drain(a..b);
            if let Some((c, s, f)) = attempt(cand) {
                if c.len() < best.len() {
                    best = c;
                    spans = s;
                    best_fail = f;
                    order = spans.clone();
                    order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
                    i = 0;
                }
            }
        }
        // Remove blocks of choices.
        let mut size = 16;
        while size > 0 {
            let mut pos = 0;
            while pos + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(pos..pos + size);
                match attempt(cand) {
                    Some((c, s, f)) if c.len() < best.len() => {
                        best = c;
                        spans = s;
                        best_fail = f;
                    }
                    _ => pos += size,
                }
            }
            size /= 2;
        }
        // Simplify single choices.
        let mut pos = 0;
        while pos < best.len() {
            let v = best[pos];
            let mut cands = vec![0, v / 2, v.saturating_sub(1)];
            cands.retain(|x| *x < v);
            cands.dedup();
            for x in cands {
                let mut cand = best.clone();
                cand[pos] = x;
                if let Some((c, s, f)) = attempt(cand) {
                    if c.len() <= best.len() && c < best {
                        best = c;
                        spans = s;
                        best_fail = f;
                        break;
                    }
                }
            }
            pos += 1;
        }
        let after = (best.len(), best.iter().map(|v| *v as u128).sum::<u128>());
        if after >= before || *tries.borrow() > 6000 || started.elapsed() > Duration::from_secs(25) {
            break;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, best_fail, "choices")
}

pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub run: u64,
    pub thorough: bool,
    /// `choices`: the choices below are the run. `history`: the failure needs the runs before it in the same
    /// process. `process`: the run kills its process. `batch`: shows over a whole batch.
    pub mode: String,
    /// `checked` or `production`.
    pub build: String,
    pub choices: Vec<u64>,
    pub log: Vec<String>,
}

impl Replay {
    pub fn save(&self, path: &Path) -> std::io::Result<()> {
        let one = |s: &str| s.replace('\n', " ");
        let mut t = String::new();
        let _ = writeln!(t, "property: {}", self.property);
        let _ = writeln!(t, "class: {}", one(&self.class));
        let _ = writeln!(t, "detail: {}", one(&self.detail));
        let _ = writeln!(t, "seed: {}", self.seed);
        let _ = writeln!(t, "run: {}", self.run);
        let _ = writeln!(t, "thorough: {}", self.thorough);
        let _ = writeln!(t, "mode: {}", self.mode);
        let _ = writeln!(t, "build: {}", self.build);
        let list: Vec<String> = self.choices.iter().map(u64::to_string).collect();
        let _ = writeln!(t, "choices: {}", list.join(" "));
        let _ = writeln!(t, "log:");
        for l in &self.log {
            let _ = writeln!(t, "  {}", one(l));
        }
        fs::write(path, t)
    }

    pub fn load(path: &Path) -> Option<Replay> {
        let t = fs::read_to_string(path).ok()?;
        let field = |name: &str| {
            t.lines()
                .find_map(|l| l.strip_prefix(&format!("{name}: ")))
                .map(str::to_string)
                .unwrap_or_default()
        };
        Some(Replay {
            property: field("property"),
            class: field("class"),
            detail: field("detail"),
            seed: field("seed").parse().ok()?,
            run: field("run").parse().ok()?,
            thorough: field("thorough") == "true",
            mode: field("mode"),
            build: field("build"),
            choices: field("choices").split_whitespace().filter_map(|v| v.parse().ok()).collect(),
            log: t.lines().skip_while(|l| *l != "log:").skip(1).map(|l| l.trim_start().to_string()).collect(),
        })
    }
}

/// The same simulator without assertions and overflow checks, the way client libraries are shipped.
fn production() -> PathBuf { root().join("target/release/csvsim") }
/// Child processes are those of the production build.
static PRODUCTION: AtomicBool = AtomicBool::new(false);
const THIS_BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "production" };

/// Bounds on memory make exhaustion show in the same way everywhere. A single run gets less than the batch,
/// so that a run which took more than its share in the batch also fails alone.
fn self_cmd(gigabytes: u32, args: &[String]) -> Command {
    let exe = if PRODUCTION.load(SeqCst) { production() } else { std::env::current_exe().expect("own path") };
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -v {gigabytes}000000; ulimit -c 0; exec \"$0\" \"$@\"")).arg(exe).args(args);
    c.env_remove("RUST_BACKTRACE");
    c
}

/// Runs one recorded list of choices (or the run of a seed) in a process of its own.
/// Returns true if the process died.
fn dies(check: &Check, thorough: bool, what: &str, dir: &Path) -> bool {
    let mut child = self_cmd(2, &[
        "single".into(),
        check.id.into(),
        thorough.to_string(),
        what.to_string(),
        dir.join("choices").display().to_string(),
    ])
    .stdout(Stdio::null())
    .stderr(Stdio::null())
    .spawn()
    .expect("own process");
    let started = Instant::now();
    loop {
        if let Some(st) = child.try_wait().expect("child") {
            return st.code().is_none();
        }
        if started.elapsed() > HANG + Duration::from_secs(10) {
            let _ = child.kill();
            let _ = child.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// `single`: one run; choices are saved as they are drawn.
pub fn single(check: &'static Check, thorough: bool, what: &str, sink: &Path) -> i32 {
    quiet_panics();
    let listed = Arc::new(known_findings(check.id).0);
    let mut ctl = if let Some(seed) = what.strip_prefix("seed:") {
        Ctl::generate(seed.parse().expect("seed"))
    } else {
        let text = fs::read_to_string(what).unwrap_or_default();
        Ctl::replay(text.split_whitespace().filter_map(|v| v.parse().ok()).collect())
    };
    prepare(&mut ctl, thorough, &listed);
    ctl.sink = fs::File::create(sink).ok();
    let started = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        if started.elapsed() > HANG {
            std::process::abort();
        }
    });
    let out = execute(check, ctl);
    match out.fail {
        None => 0,
        Some(f) => {
            println!("{}: {}", f.class, f.detail);
            1
        }
    }
}

fn read_choices(path: &Path) -> Vec<u64> {
    fs::read_to_string(path)
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|v| v.parse().ok())
        .collect()
}

fn write_choices(path: &Path, c: &[u64]) {
    let list: Vec<String> = c.iter().map(u64::to_string).collect();
    let _ = fs::write(path, list.join(" "));
}

/// Finds and minimises the run that killed the batch.
fn investigate(check: &'static Check, seed: u64, thorough: bool, dir: &Path) -> Option<Replay> {
    let raw = fs::read(dir.join("inflight")).unwrap_or_default();
    let mut runs: Vec<u64> = raw
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().expect("8 bytes")))
        .filter(|v| *v > 0)
        .map(|v| v - 1)
        .collect();
    runs.sort_unstable();
    for run in runs {
        let started = Instant::now();
        if !dies(check, thorough, &format!("seed:{}", run_seed(seed, check, run)), dir) {
            continue;
        }
        let hang = started.elapsed() >= HANG;
        let mut best = read_choices(&dir.join("choices"));
        let cand_file = dir.join("candidate");
        let started = Instant::now();
        let mut tries = 0;
        if !hang {
            let mut size = best.len().next_power_of_two() / 2;
            while size > 0 {
                let mut pos = 0;
                while pos + size <= best.len() && tries < 1500 && started.elapsed() < Duration::from_secs(40) {
                    let mut cand = best.clone();
                    cand.drain(pos..pos + size);
                    write_choices(&cand_file, &cand);
                    tries += 1;
                    if dies(check, thorough, &cand_file.display().to_string(), dir) {
                        let got = read_choices(&dir.join("choices"));
                        if got.len() < best.len() {
                            best = got;
                            continue;
                        }
                    }
                    pos += size;
                }
                size /= 2;
            }
        }
        write_choices(&cand_file, &best);
        if !hang && !dies(check, thorough, &cand_file.display().to_string(), dir) {
            continue;
        }
        return Some(Replay {
            property: check.id.into(),
            class: if hang { "hang".into() } else { "abort".into() },
            detail: if hang {
                "the code under test does not return".into()
            } else {
                "the code under test kills the process (abort, stack or memory exhaustion)".into()
            },
            seed,
            run,
            thorough,
            mode: "process".into(),
            build: if PRODUCTION.load(SeqCst) { "production".into() } else { THIS_BUILD.into() },
            choices: best,
            log: vec![],
        });
    }
    None
}

/// A batch in a process of its own: the violation it found, and its statistics.
fn explore(check: &'static Check, seed: u64, thorough: bool, runs: u64) -> Result<(Option<Replay>, String), i32> {
    let dir = root().join(format!("target/work/{}-{}", check.id, std::process::id()));
    fs::create_dir_all(&dir).expect("work directory");
    let status = self_cmd(16, &[
        "batch".into(),
        check.id.into(),
        seed.to_string(),
        thorough.to_string(),
        runs.to_string(),
        dir.display().to_string(),
    ])
    .status()
    .expect("own process");
    let mut violation = Replay::load(&dir.join("violation"));
    let stats = fs::read_to_string(dir.join("stats")).unwrap_or_default();
    if status.code().is_none() || (status.code() != Some(0) && violation.is_none()) {
        println!("the batch ended with {status:?}: looking for the run that caused it");
        violation = investigate(check, seed, thorough, &dir);
        if violation.is_none() {
            eprintln!("harness error: batch of {} failed and no single run reproduces it", check.id);
            return Err(3);
        }
    }
    let _ = fs::remove_dir_all(&dir);
    if let Some(v) = &violation {
        if v.class == "harness" {
            eprintln!("harness error: {} (seed {} run {})", v.detail, v.seed, v.run);
            return Err(3);
        }
    }
    Ok((violation, stats))
}

/// `check`: the command registered in the manifest.
pub fn check(check: &'static Check) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough");
    let runs = std::env::var("VERIF_RUNS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(if thorough { check.thorough } else { check.quick });
    println!("property={} tier={} seed={seed} runs={runs}", check.id, if thorough { "thorough" } else { "quick" });
    let (mut violation, stats) = match explore(check, seed, thorough, runs) {
        Ok(x) => x,
        Err(code) => return code,
    };
    // The same exploration, with other seeds, of the production build.
    let mut second = String::new();
    if violation.is_none() && std::env::var("VERIF_PRODUCTION").is_ok_and(|v| v == "1") {
        println!("production build: runs={}", runs / 2);
        PRODUCTION.store(true, SeqCst);
        (violation, second) = match explore(check, seed.wrapping_add(0x9e37_79b9), thorough, runs / 2) {
            Ok(x) => x,
            Err(code) => return code,
        };
        PRODUCTION.store(false, SeqCst);
    }
    let (_, findings) = known_findings(check.id);
    for line in &findings {
        println!("{line}");
    }
    evidence(check, seed, thorough, &stats, &second, violation.is_some(), &findings, started.elapsed().as_secs_f64());
    match violation {
        None => {
            println!("property {} held on everything explored", check.id);
            0
        }
        Some(v) => {
            let dir = root().join("replays");
            fs::create_dir_all(&dir).expect("replay directory");
            let path = dir.join(format!("{}-{}-{}.replay", check.id, seed, v.run));
            v.save(&path).expect("replay file");
            println!("{}: {}", v.class, v.detail);
            println!("seed {} run {}; minimised to {} choices", v.seed, v.run, v.choices.len());
            for l in v.log.iter().rev().take(40).rev() {
                println!("  {l}");
            }
            println!("VIOLATION property={} replay={}", check.id, path.display());
            1
        }
    }
}

pub fn replay(check: &'static Check, r: &Replay, path: &Path) -> i32 {
    if r.build == "production" && THIS_BUILD != "production" {
        let status = Command::new(production()).arg("replay").arg(path).status();
        return status.ok().and_then(|s| s.code()).unwrap_or(3);
    }
    quiet_panics();
    let listed = Arc::new(known_findings(check.id).0);
    match r.mode.as_str() {
        "process" => {
            let dir = root().join(format!("target/work/replay-{}", std::process::id()));
            fs::create_dir_all(&dir).expect("work directory");
            let f = dir.join("candidate");
            write_choices(&f, &r.choices);
            let dead = dies(check, r.thorough, &f.display().to_string(), &dir);
            let _ = fs::remove_dir_all(&dir);
            if dead {
                println!("{}: {}", r.class, r.detail);
                return 1;
            }
            0
        }
        "history" => {
            for i in 0..=r.run {
                let mut ctl = Ctl::generate(run_seed(r.seed, check, i));
                prepare(&mut ctl, r.thorough, &listed);
                if let Some(f) = execute(check, ctl).fail {
                    println!("run {i}: {}: {}", f.class, f.detail);
                    return 1;
                }
            }
            0
        }
        "batch" => {
            println!("violation over a batch: run the check with VERIF_SEED={}", r.seed);
            1
        }
        _ => {
            let o = replay_choices(check, r.thorough, &listed, r.choices.clone());
            for l in &o.ctl.log {
                println!("  {l}");
            }
            match o.fail {
                None => {
                    println!("no violation");
                    0
                }
                Some(f) => {
                    println!("{}: {}", f.class, f.detail);
                    let same_log = r.log == o.ctl.log.iter().map(|l| l.replace('\n', " ").trim_start().to_string()).collect::<Vec<_>>();
                    println!("same violation: {}; same event log: {same_log}", f.class == r.class);
                    1
                }
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_list(l: &[String]) -> String { format!("[{}]", l.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")) }

fn evidence(check: &'static Check, seed: u64, thorough: bool, stats: &str, second: &str, violated: bool, findings: &[String], wall: f64) {
    let get = |k: &str| -> f64 {
        stats
            .lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .and_then(|v| v.parse().ok())
            .unwrap_or(0.0)
    };
    let map = |prefix: &str| -> String {
        let items: Vec<String> = stats
            .lines()
            .filter_map(|l| l.strip_prefix(prefix))
            .filter_map(|l| l.rsplit_once('='))
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect();
        format!("{{{}}}", items.join(", "))
    };
    // Sample runs of this batch, written out.
    let mut samples = vec![];
    if !violated {
        quiet_panics();
        let listed = Arc::new(known_findings(check.id).0);
        for i in [0u64, 3, 11] {
            if i >= get("runs") as u64 {
                break;
            }
            let mut ctl = Ctl::generate(run_seed(seed, check, i));
            prepare(&mut ctl, thorough, &listed);
            ctl.keep_log = true;
            let o = execute(check, ctl);
            let mut log = o.ctl.log;
            let n = log.len();
            log.truncate(30);
            let log: Vec<String> = log.iter().map(|l| l.chars().take(240).collect()).collect();
            samples.push(format!(
                "{{\"run\": {i}, \"run_seed\": {}, \"choices\": {}, \"events\": {n}, \"log\": {}}}",
                js(&format!("{:#018x}", run_seed(seed, check, i))),
                o.ctl.choices.len(),
                js_list(&log)
            ));
        }
    }
    let strs = |l: &[&str]| js_list(&l.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let batch_wall = get("wall").max(0.001);
    let per_hour = (get("runs") / batch_wall * 3600.0) as u64;
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"simulated_runs\": {},\n  \
         \"runs_per_hour\": {per_hour},\n  \"seeds_per_hour\": {per_hour},\n  \"simulated_time_ms\": {},\n  \"events\": {},\n  \
         \"choices_drawn\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"different event logs (sequence of all \
         operations, deliveries and faults with their parameters)\",\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \
         \"faults_injected\": {},\n  \"rare_conditions_reached\": {},\n  \"known_finding_hits\": {},\n  \"determinism_reruns\": {},\n  \
         \"determinism_divergences\": {},\n  \"production_build\": {{{}}},\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"samples\": [{}]\n }},\n \
         \"assumptions\": {},\n \"known_findings\": {},\n \"wall_s\": {wall:.3},\n \"violations\": {}\n}}\n",
        js(check.id),
        js(if thorough { "thorough" } else { "quick" }),
        get("runs"),
        get("nontrivial"),
        js(check.rule),
        get("runs"),
        get("sim_ms"),
        get("events"),
        get("choices"),
        get("fingerprints"),
        get("states"),
        js(check.states),
        map("fault:"),
        map("probe:"),
        map("known:"),
        get("rerun"),
        get("diverged"),
        second
            .lines()
            .filter_map(|l| l.split_once('='))
            .filter(|(k, _)| ["runs", "nontrivial", "events", "states", "rerun", "diverged"].contains(k))
            .map(|(k, v)| format!("{}: {v}", js(k)))
            .collect::<Vec<_>>()
            .join(", "),
        strs(check.real),
        strs(check.stub),
        samples.join(", "),
        strs(check.assumptions),
        js_list(findings),
        violated as u8,
    );
    let dir = root().join("evidence");
    fs::create_dir_all(&dir).expect("evidence directory");
    let mut f = fs::File::create(dir.join(format!("{}.json", check.id))).expect("evidence file");
    f.write_all(text.as_bytes()).expect("evidence file");
}

/// `digest`: prints the fingerprint of every run, to compare processes, worker counts and machines.
pub fn digest(check: &'static Check, seed: u64, runs: u64, workers: u64) -> i32 {
    quiet_panics();
    let listed = Arc::new(known_findings(check.id).0);
    let next = AtomicU64::new(0);
    let lines = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= runs {
                    break;
                }
                let mut ctl = Ctl::generate(run_seed(seed, check, i));
                prepare(&mut ctl, false, &listed);
                let o = execute(check, ctl);
                let line = format!("{:016x} {} {}", o.ctl.fingerprint, o.ctl.choices.len(), o.fail.map(|f| f.class).unwrap_or_default());
                lines.lock().expect("lock").insert(i, line);
            });
        }
    });
    for (i, line) in lines.into_inner().expect("lock") {
        println!("{i} {line}");
    }
    0
}
