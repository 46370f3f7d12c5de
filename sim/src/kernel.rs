//! The simulation kernel: one source of choices per run, the event log, fault accounting, simulated time and
//! the simulated network. Nothing in a run reads a clock, the environment or the operating system's randomness.

use std::collections::BTreeMap;

/// Why a run failed.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fail {
    /// What kind of violation this is; minimisation keeps it unchanged.
    pub class: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Fail { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::kernel::fail($class, format!($($arg)*)); }
    };
}

/// Logs an event of the run. Never draws a choice.
#[macro_export]
macro_rules! ev {
    ($c:expr, $($arg:tt)*) => { $c.event(format!($($arg)*)) };
}

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a, b | 1)
    }

    // xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.0 = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
        self.1 = s1.rotate_left(28);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }

    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut r = [0u8; 32];
        for c in r.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        r
    }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> { (0..len).map(|_| self.next() as u8).collect() }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(words: &[u64]) -> u64 {
    let mut h = 0x243F_6A88_85A3_08D3u64;
    for w in words {
        h ^= *w;
        h = splitmix(&mut h);
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

enum Source {
    Generate(Rng),
    Replay(Vec<u64>, usize),
}

/// Cap on the number of choices in a run: from there on every choice is the simplest one.
const MAX_CHOICES: usize = 40_000;

pub struct Ctl {
    source: Source,
    pub choices: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub log: Vec<String>,
    pub keep_log: bool,
    pub events: u64,
    pub fingerprint: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub sim_ms: u64,
    pub nontrivial: bool,
    pub thorough: bool,
    /// Known findings met: key and number of times.
    pub known: BTreeMap<&'static str, u64>,
    /// Keys of the findings listed in the committed file.
    pub listed: std::sync::Arc<Vec<String>>,
    /// Where choices are saved as they are drawn (for runs that may kill the process).
    pub sink: Option<std::fs::File>,
}

impl Ctl {
    pub fn generate(seed: u64) -> Self { Self::with(Source::Generate(Rng::new(seed))) }
    pub fn replay(choices: Vec<u64>) -> Self { Self::with(Source::Replay(choices, 0)) }

    fn with(source: Source) -> Self {
        Ctl {
            source,
            choices: vec![],
            spans: vec![],
            open: vec![],
            log: vec![],
            keep_log: false,
            events: 0,
            fingerprint: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: vec![],
            sim_ms: 0,
            nontrivial: false,
            thorough: false,
            known: BTreeMap::new(),
            listed: Default::default(),
            sink: None,
        }
    }

    fn draw(&mut self, n: Option<u64>) -> u64 {
        if n == Some(0) || n == Some(1) || self.choices.len() >= MAX_CHOICES {
            return 0;
        }
        let v = match &mut self.source {
            Source::Generate(rng) => match n {
                Some(n) => rng.below(n),
                None => rng.next() >> 16,
            },
            Source::Replay(list, pos) => {
                let v = list.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                match n {
                    Some(n) => v % n,
                    None => v,
                }
            }
        };
        self.choices.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v
    }

    /// A number in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: usize) -> usize { self.draw(Some(n as u64)) as usize }

    /// A number in `lo..=hi`; `lo` is the simplest choice.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }

    /// True in `percent` of 100 cases; false is the simplest choice.
    pub fn chance(&mut self, percent: u32) -> bool {
        if percent == 0 {
            return false;
        }
        self.draw(Some(100)) >= 100 - percent.min(100) as u64
    }

    /// A seed for contents whose details do not matter for minimisation.
    pub fn seed(&mut self) -> u64 { self.draw(None) }

    pub fn rng(&mut self) -> Rng { Rng::new(self.seed()) }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.draw(Some(total as u64)) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }

    /// A subset of `0..n` (never drawn choice by choice for big `n`).
    pub fn subset(&mut self, n: usize) -> Vec<usize> {
        if n <= 12 {
            let bits = self.below(1 << n);
            (0..n).filter(|i| bits >> i & 1 == 1).collect()
        } else {
            let mut rng = self.rng();
            let density = 1 + rng.below(8);
            (0..n).filter(|_| rng.below(8) < density).collect()
        }
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            // Choice 0 keeps the item in place.
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }

    /// Marks the beginning of a step that minimisation may remove as a whole.
    pub fn open(&mut self) { self.open.push(self.choices.len()); }
    pub fn close(&mut self) {
        if let Some(start) = self.open.pop() {
            if self.choices.len() > start {
                self.spans.push((start, self.choices.len()));
            }
        }
    }

    pub fn event(&mut self, text: String) {
        self.events += 1;
        self.fingerprint = mix(&[self.fingerprint, hash_str(&text)]);
        if self.keep_log {
            self.log.push(format!("t={} {}", self.sim_ms, text));
        }
    }

    pub fn fault(&mut self, kind: &'static str) {
        self.nontrivial = true;
        *self.faults.entry(kind).or_default() += 1;
    }

    /// Notes that a rare condition of interest was reached.
    pub fn probe(&mut self, name: &'static str) { *self.probes.entry(name).or_default() += 1; }

    /// Notes an abstract state of the system, for the coverage measure.
    pub fn state(&mut self, words: &[u64]) { self.states.push(mix(words)); }

    /// A violation that is only tolerated if the committed file of findings lists its key.
    pub fn finding(&mut self, key: &'static str, class: &str, detail: String) -> Res {
        if self.listed.iter().any(|k| k == key) {
            *self.known.entry(key).or_default() += 1;
            Ok(())
        } else {
            fail(class, detail)
        }
    }
}

/// Fault intensities of one run, drawn anew for each run (swarm testing).
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub drop: u32,
    pub dup: u32,
    pub corrupt: u32,
    pub crash: u32,
    pub partition: u32,
    pub io: u32,
    pub jitter: usize,
}

impl Faults {
    pub fn draw(c: &mut Ctl) -> Faults {
        let p = |c: &mut Ctl| *c.pick(&[0u32, 4, 12, 30]);
        Faults {
            drop: p(c),
            dup: p(c),
            corrupt: p(c),
            crash: p(c),
            partition: p(c),
            io: p(c),
            jitter: *c.pick(&[0usize, 5, 50, 2000]),
        }
    }

    pub fn none() -> Faults { Faults::default() }
}

/// Simulated network: messages are delivered in the order of the delivery times which the scheduler chose.
pub struct Net<T> {
    queue: BTreeMap<(u64, u64), (usize, usize, T)>,
    seq: u64,
    /// Partition side of every node.
    pub side: Vec<u8>,
}

impl<T: Clone> Net<T> {
    pub fn new(nodes: usize) -> Self { Net { queue: BTreeMap::new(), seq: 0, side: vec![0; nodes] } }

    pub fn is_empty(&self) -> bool { self.queue.is_empty() }
    pub fn len(&self) -> usize { self.queue.len() }

    fn put(&mut self, c: &mut Ctl, f: &Faults, from: usize, to: usize, msg: T) {
        let mut delay = 1 + c.below(f.jitter + 1) as u64;
        if f.jitter > 0 && c.chance(5) {
            c.fault("net.stall");
            delay += 10_000;
        }
        if self.queue.keys().next_back().is_some_and(|(at, _)| *at > c.sim_ms + delay) {
            c.fault("net.reorder");
        }
        self.seq += 1;
        self.queue.insert((c.sim_ms + delay, self.seq), (from, to, msg));
    }

    /// Sends a message, subject to the loss, duplication and delay of the run. `corrupt` is what the
    /// network does to a message it damages.
    pub fn send(
        &mut self,
        c: &mut Ctl,
        f: &Faults,
        from: usize,
        to: usize,
        msg: T,
        corrupt: impl FnOnce(&mut Ctl, &T) -> Option<T>,
    ) {
        if self.side[from] != self.side[to] {
            c.fault("net.partitioned");
            return;
        }
        if c.chance(f.drop) {
            c.fault("net.drop");
            return;
        }
        if c.chance(f.dup) {
            c.fault("net.duplicate");
            self.put(c, f, from, to, msg.clone());
        }
        if c.chance(f.corrupt) {
            if let Some(bad) = corrupt(c, &msg) {
                c.fault("net.corrupt");
                self.put(c, f, from, to, bad);
                return;
            }
        }
        self.put(c, f, from, to, msg);
    }

    /// Takes the next message off the wire and moves the clock to its delivery time.
    pub fn next(&mut self, c: &mut Ctl) -> Option<(usize, usize, T)> {
        let ((at, _), item) = self.queue.pop_first()?;
        c.sim_ms = c.sim_ms.max(at);
        Some(item)
    }

    pub fn toggle_partition(&mut self, c: &mut Ctl) {
        if self.side.iter().any(|s| *s != 0) {
            self.side.iter_mut().for_each(|s| *s = 0);
            ev!(c, "partition heals");
        } else {
            for i in 0..self.side.len() {
                self.side[i] = c.below(2) as u8;
            }
            if self.side.iter().any(|s| *s != self.side[0]) {
                c.fault("net.partition");
                ev!(c, "partition {:?}", self.side);
            }
        }
    }

    pub fn heal(&mut self) { self.side.iter_mut().for_each(|s| *s = 0); }
}

/// What a faulty link or disk does to bytes. The result differs from the input.
pub fn corrupt_bytes(c: &mut Ctl, bytes: &[u8]) -> Option<Vec<u8>> {
    if bytes.is_empty() {
        return None;
    }
    let mut b = bytes.to_vec();
    match c.below(5) {
        0 => {
            let i = c.below(b.len());
            b[i] ^= 1 << c.below(8);
        }
        1 => {
            let i = c.below(b.len());
            b[i] = c.below(256) as u8;
        }
        2 => {
            let n = c.below(b.len());
            b.truncate(n);
        }
        3 => {
            let mut rng = c.rng();
            for _ in 0..2 + rng.below(6) {
                let i = rng.below(b.len() as u64) as usize;
                b[i] ^= 1 << rng.below(8);
            }
        }
        _ => {
            // Two 32-byte words change places, or one is repeated.
            if b.len() < 70 {
                let i = c.below(b.len());
                b[i] = b[i].wrapping_add(1);
            } else {
                let words = (b.len() - 1) / 32;
                let off = c.below(b.len() - words * 32 + 1);
                let (i, j) = (c.below(words), c.below(words));
                for k in 0..32 {
                    b.swap(off + i * 32 + k, off + j * 32 + k);
                }
            }
        }
    }
    (b != bytes).then_some(b)
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn short(b: &[u8]) -> String { hex(&b[..b.len().min(4)]) }
