//! C10 and C11: validation of client-side data against a medium that fails in all ways, by workers whose partial
//! reports travel and are merged in any order.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::{self, Display, Formatter};

use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog, ValidationReport, Validity,
};

use crate::kernel::*;
use crate::runner::Check;
use crate::{ensure, ev};

pub const CHECKS: &[Check] = &[
    Check {
        id: "C10",
        run: run10,
        quick: 120_000,
        thorough: 1_500_000,
        rule: "one evaluation is one simulated run: some pieces of client-side data (up to thousands of items and seals) validated again and again while the \
                medium has outages, answers differently over time and recovers; non-trivial if something was raised; distinct by the complete event log",
        states: "distinct (class of item number, failing whole, failing items, failing seals, verdict)",
        real: &["ClientSideValidate::client_side_validate (default implementation)", "Status"],
        stub: &["client-side data and their consistency checks (scripted)", "resolver and medium (scripted outages and answers)", "clock"],
        assumptions: &["implementations of the data traits list all of their items and seals"],
        batch: None,
    },
    Check {
        id: "C11",
        run: run11,
        quick: 100_000,
        thorough: 1_500_000,
        rule: "one evaluation is one simulated run: up to 8 workers produce partial reports, which travel over a faulty network, are stored, restored and \
                merged in any order and grouping at several places; non-trivial if two or more reports were merged; distinct by the complete event log",
        states: "distinct (number of reports, kinds of entries present, verdict)",
        real: &["Status: construction, additions, merging, verdict, serialization"],
        stub: &["workers, network and disks"],
        assumptions: &[],
        batch: None,
    },
];

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Entry {
    pub kind: u8,
    pub code: u64,
    pub text: String,
}
impl Display for Entry {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{}:{} {}", self.kind, self.code, self.text) }
}
impl std::error::Error for Entry {}
impl ValidationLog for Entry {}
impl ValidationFailure for Entry {}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Trouble {
    pub seal: u64,
    pub request: u64,
    pub what: String,
}
impl Display for Trouble {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "seal {} request {}: {}", self.seal, self.request, self.what) }
}
impl std::error::Error for Trouble {}
impl ValidationLog for Trouble {}
impl SealIssue for Trouble {
    type Seal = u64;
    fn seal(&self) -> &u64 { &self.seal }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Rep;
impl ValidationReport for Rep {
    type SealIssue = Trouble;
    type Failure = Entry;
    type Warning = Entry;
    type Info = Entry;
}

/// What was raised, as multisets.
#[derive(Clone, Default, PartialEq, Eq, Debug)]
struct Bag {
    issues: BTreeMap<Trouble, usize>,
    failures: BTreeMap<Entry, usize>,
    warnings: BTreeMap<Entry, usize>,
    info: BTreeMap<Entry, usize>,
}

impl Bag {
    fn of(s: &Status<Rep>) -> Bag {
        let mut b = Bag::default();
        b.take(s);
        b
    }
    fn take(&mut self, s: &Status<Rep>) {
        s.seal_issues.iter().for_each(|x| *self.issues.entry(x.clone()).or_default() += 1);
        s.failures.iter().for_each(|x| *self.failures.entry(x.clone()).or_default() += 1);
        s.warnings.iter().for_each(|x| *self.warnings.entry(x.clone()).or_default() += 1);
        s.info.iter().for_each(|x| *self.info.entry(x.clone()).or_default() += 1);
    }
    fn verdict(&self) -> Validity {
        match (self.failures.is_empty(), self.issues.is_empty()) {
            (false, _) => Validity::Invalid,
            (true, false) => Validity::SealIssues,
            (true, true) => Validity::Valid,
        }
    }
    fn differs(&self, o: &Bag) -> Option<String> {
        fn one<T: Ord + Display>(name: &str, a: &BTreeMap<T, usize>, b: &BTreeMap<T, usize>) -> Option<String> {
            for (k, n) in a {
                let m = b.get(k).copied().unwrap_or(0);
                if m != *n {
                    return Some(format!("{name} '{k}' was raised {n} times and reported {m} times"));
                }
            }
            b.keys().find(|k| !a.contains_key(k)).map(|k| format!("{name} '{k}' was never raised"))
        }
        one("failure", &self.failures, &o.failures)
            .or_else(|| one("seal issue", &self.issues, &o.issues))
            .or_else(|| one("warning", &self.warnings, &o.warnings))
            .or_else(|| one("note", &self.info, &o.info))
    }
}

fn entry(c: &mut Ctl, kind: u8) -> Entry {
    // Small codes, so that equal entries are raised at different places.
    let code = c.below(6) as u64;
    Entry { kind, code, text: if c.chance(20) { "x\"\\\n\u{1F980}".into() } else { String::new() } }
}

fn status(c: &mut Ctl, trouble: u32) -> Status<Rep> {
    let mut s = Status::new();
    for kind in 0..4u8 {
        if !c.chance(trouble) {
            continue;
        }
        if c.chance(2) {
            // A lot of them at once.
            c.probe("hundreds of entries of one kind");
            let n = if c.below(250) == 249 {
                c.probe("tens of thousands of entries of one kind");
                *c.pick(&[5_000, 66_000, 33_000])
            } else {
                c.range(100, 600)
            };
            for i in 0..n as u64 {
                match kind {
                    0 => s.add_failure(Entry { kind, code: i, text: String::new() }),
                    1 => s.add_warning(Entry { kind, code: i, text: String::new() }),
                    2 => s.add_info(Entry { kind, code: i, text: String::new() }),
                    _ => s.add_seal_issue(Trouble { seal: i, request: i, what: "known".into() }),
                };
            }
            continue;
        }
        for _ in 0..1 + c.below(3) {
            match kind {
                0 => {
                    let e = entry(c, 0);
                    s.add_failure(e);
                }
                1 => {
                    let e = entry(c, 1);
                    s.add_warning(e);
                }
                2 => {
                    let e = entry(c, 2);
                    s.add_info(e);
                }
                _ => {
                    if c.chance(30) {
                        s.add_seal_issue(Trouble { seal: c.below(5) as u64, request: 0, what: "known".into() });
                    }
                }
            }
        }
    }
    s
}

// ---- C10 ----------------------------------------------------------------------------------------------------------

#[derive(Default)]
struct Piece {
    /// The seals, in a store of their own, and which of them the item lists: one place of the store may be listed again.
    store: Vec<u64>,
    list: Vec<usize>,
    report: Status<Rep>,
    visits: RefCell<(u64, u64)>,
    lazy: bool,
}

#[derive(Default)]
struct Data {
    items: Vec<Piece>,
    /// The items as they are listed: most once, some again.
    order: Vec<usize>,
    report: Status<Rep>,
    visits: RefCell<u64>,
}

/// Iterates by reference, possibly without knowing how much is left.
struct Lazy<'a, T> {
    store: &'a [T],
    list: std::slice::Iter<'a, usize>,
    lazy: bool,
}
impl<'a, T> Iterator for Lazy<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> { self.list.next().map(|i| &self.store[*i]) }
    fn size_hint(&self) -> (usize, Option<usize>) { if self.lazy { (0, None) } else { self.list.size_hint() } }
}

impl Piece {
    fn with(seals: Vec<u64>, report: Status<Rep>) -> Piece { Piece { list: (0..seals.len()).collect(), store: seals, report, ..Default::default() } }
    fn seals(&self) -> impl Iterator<Item = u64> + '_ { self.list.iter().map(|i| self.store[*i]) }
}

impl<'d> ClientData<'d> for Piece {
    type ValidationReport = Rep;
    type SealIterator = Lazy<'d, u64>;
    fn single_use_seals(&'d self) -> Self::SealIterator {
        self.visits.borrow_mut().1 += 1;
        Lazy { store: &self.store, list: self.list.iter(), lazy: self.lazy }
    }
    fn validate_internal_consistency(&'d self) -> Status<Rep> {
        self.visits.borrow_mut().0 += 1;
        self.report.clone()
    }
}

impl<'d> ClientData<'d> for Data {
    type ValidationReport = Rep;
    type SealIterator = Lazy<'d, u64>;
    fn single_use_seals(&'d self) -> Self::SealIterator { Lazy { store: &[], list: [].iter(), lazy: false } }
    fn validate_internal_consistency(&'d self) -> Status<Rep> {
        *self.visits.borrow_mut() += 1;
        self.report.clone()
    }
}

impl<'d> ClientSideValidate<'d> for Data {
    type ValidationItem = Piece;
    type ValidationIter = Lazy<'d, Piece>;
    fn validation_iter(&'d self) -> Self::ValidationIter { Lazy { store: &self.items, list: self.order.iter(), lazy: true } }
}

/// The medium as a resolver sees it: outages in windows of time, single errors, seals that are not closed yet.
struct Medium {
    rng: Rng,
    now: u64,
    flaky: u64,
    down_until: u64,
    window: u64,
    open: BTreeMap<u64, u64>,
    requests: u64,
    asked: BTreeMap<u64, usize>,
    raised: Vec<Trouble>,
    outages: u64,
    cache: bool,
    cached: BTreeMap<u64, ()>,
}

impl SealResolver<u64> for Medium {
    type Error = Trouble;
    fn resolve_trust(&mut self, seal: &u64) -> Result<(), Trouble> {
        self.requests += 1;
        *self.asked.entry(*seal).or_default() += 1;
        self.now += 1 + self.rng.below(20);
        let err = |me: &mut Medium, what: &str, same: bool| {
            // Some media report the very same issue again and again, others number their requests.
            let t = Trouble { seal: *seal, request: if same { 0 } else { me.requests }, what: what.into() };
            me.raised.push(t.clone());
            Err(t)
        };
        if self.cache && self.cached.contains_key(seal) {
            return Ok(());
        }
        if self.now < self.down_until {
            self.outages += 1;
            return err(self, "medium unreachable", true);
        }
        if self.flaky > 0 && self.rng.below(100) < self.flaky {
            self.outages += 1;
            self.down_until = self.now + self.rng.below(self.window + 1);
            return err(self, "timeout", false);
        }
        if self.open.get(seal).is_some_and(|at| *at > self.now) {
            return err(self, "not closed", true);
        }
        self.cached.insert(*seal, ());
        Ok(())
    }
}

fn run10(c: &mut Ctl) -> Res {
    let pieces = c.range(1, 2);
    for piece in 0..pieces {
        c.open();
        let f = Faults::draw(c);
        let big = c.weighted(&[400, 8, 1]);
        let n = match big {
            0 => c.below(13),
            1 => c.range(200, 700),
            _ => c.range(60_000, 66_500),
        };
        let trouble = *c.pick(&[0u32, 5, 20, 50]);
        let pool = *c.pick(&[3u64, 50, 1 << 40]);
        let mut data = Data { report: status(c, trouble), ..Default::default() };
        if big == 0 {
            for _ in 0..n {
                c.open();
                let k = c.weighted(&[3, 5, 4, 2, 1]);
                let k = if k == 4 && c.chance(10) { 300 } else { k };
                let mut rng = c.rng();
                let report = status(c, trouble);
                let mut item = Piece::with((0..k).map(|_| rng.below(pool)).collect(), report);
                item.lazy = c.chance(50);
                if k > 0 && c.chance(10) {
                    // The very same seal is listed again, possibly right away.
                    for _ in 0..1 + c.below(3) {
                        let which = c.below(item.list.len());
                        let at = if c.chance(50) { which } else { c.below(item.list.len() + 1) };
                        item.list.insert(at, item.list[which]);
                    }
                    c.probe("a seal listed twice");
                }
                data.items.push(item);
                c.close();
            }
        } else {
            // Many items of which only a few are troubled, possibly the last ones.
            let mut rng = c.rng();
            for _ in 0..n {
                let k = rng.below(3);
                data.items.push(Piece::with((0..k).map(|_| rng.below(pool)).collect(), Status::new()));
            }
            for _ in 0..c.below(4) {
                let at = if c.chance(50) { n - 1 - c.below(3) } else { c.below(n) };
                data.items[at].report = status(c, 60);
                let i = data.items[at].store.len();
                data.items[at].store.push(7);
                data.items[at].list.push(i);
            }
            c.probe("hundreds of items or more");
        }
        data.order = (0..n).collect();
        if n > 0 && c.chance(8) {
            // The very same item is listed again.
            for _ in 0..1 + c.below(2) {
                let which = c.below(data.order.len());
                let at = if c.chance(50) { which } else { c.below(data.order.len() + 1) };
                data.order.insert(at, data.order[which]);
            }
            c.probe("an item listed twice");
        }
        c.close();
        let mut m = Medium {
            rng: c.rng(),
            now: 0,
            flaky: *c.pick(&[0u64, 2, 20, 100]),
            down_until: if c.chance(f.partition) { 1 + c.below(2000) as u64 } else { 0 },
            window: *c.pick(&[0u64, 50, 500]),
            open: BTreeMap::new(),
            requests: 0,
            asked: BTreeMap::new(),
            raised: vec![],
            outages: 0,
            cache: c.chance(30),
            cached: BTreeMap::new(),
        };
        let mut want: BTreeMap<u64, usize> = BTreeMap::new();
        for i in &data.order {
            for s in data.items[*i].seals() {
                *want.entry(s).or_default() += 1;
            }
        }
        if c.chance(40) && !want.is_empty() {
            let list: Vec<u64> = want.keys().copied().collect();
            for _ in 0..1 + c.below(3) {
                let s = *c.pick(&list);
                m.open.insert(s, c.below(20_000) as u64);
            }
        }
        ev!(c, "data {piece}: {n} items, {} different seals, medium flaky {} down until {}", want.len(), m.flaky, m.down_until);
        let rounds = if big == 2 { 1 } else { c.range(1, 3) };
        for round in 0..=rounds {
            let last = round == rounds;
            if last {
                // Outages end and all the seals get closed.
                m.flaky = 0;
                m.down_until = 0;
                m.open.clear();
            }
            m.asked.clear();
            m.raised.clear();
            *data.visits.borrow_mut() = 0;
            data.items.iter().for_each(|i| *i.visits.borrow_mut() = (0, 0));
            let before = m.outages;
            let got = data_validate(&data, &mut m);
            for _ in 0..(m.outages - before).min(50) {
                c.fault("resolver.error");
            }
            let mut bag = Bag::of(&data.report);
            data.order.iter().for_each(|i| bag.take(&data.items[*i].report));
            for t in &m.raised {
                *bag.issues.entry(t.clone()).or_default() += 1;
            }
            let v = got.validity();
            ev!(c, "round {round}: {v}, {} failures {} issues {} warnings {} notes, {} requests", got.failures.len(), got.seal_issues.len(), got.warnings.len(), got.info.len(), m.asked.values().sum::<usize>());
            let class = |n: usize| (n > 0) as u64 + (n > 1) as u64;
            let bad_items = data.items.iter().filter(|i| !i.report.failures.is_empty()).count();
            c.state(&[class(n) + (n > 12) as u64, class(data.report.failures.len()), class(bad_items), class(m.raised.len()), v as u64]);
            if !bag.failures.is_empty() || !bag.issues.is_empty() {
                c.nontrivial = true;
            }
            ensure!(*data.visits.borrow() > 0, "whole not checked", "the whole was not checked");
            for (k, i) in data.items.iter().enumerate() {
                ensure!(i.visits.borrow().0 > 0, "item not checked", "item {k} of {n} was not checked");
            }
            for (s, k) in &want {
                let a = m.asked.get(s).copied().unwrap_or(0);
                ensure!(a >= *k, "seal not asked for", "seal {s} occurs {k} times but its status was asked for {a} times");
            }
            for s in m.asked.keys() {
                ensure!(want.contains_key(s), "foreign seal asked for", "the status of seal {s} was asked for, which no item has");
            }
            if let Some(d) = bag.differs(&Bag::of(&got)) {
                return fail("report differs", d);
            }
            ensure!(v == bag.verdict(), "verdict", "verdict {v} instead of {}", bag.verdict());
            if last && data.report.failures.is_empty() && bad_items == 0 && bag.issues.is_empty() {
                ensure!(v == Validity::Valid, "verdict", "consistent data with closed seals are {v}");
                c.probe("valid in the end");
            }
            c.sim_ms += m.now;
        }
    }
    Ok(())
}

/// The trait ties the lifetimes of data and resolver together, so each validation borrows both for as long.
fn data_validate(d: &Data, m: &mut Medium) -> Status<Rep> {
    // The data outlive the call, and so does the resolver.
    fn call<'a>(d: &'a Data, m: &'a mut Medium) -> Status<Rep> { d.client_side_validate(m) }
    call(d, m)
}

// ---- C11 ----------------------------------------------------------------------------------------------------------

fn produce(c: &mut Ctl) -> (Status<Rep>, Bag) {
    let mut b = Bag::default();
    let s = match c.weighted(&[10, 3, 3, 2, 2]) {
        0 => {
            let s = status(c, 40);
            b.take(&s);
            s
        }
        1 => {
            let e = entry(c, 0);
            *b.failures.entry(e.clone()).or_default() += 1;
            Status::from_failure(e)
        }
        2 => {
            let n = if c.chance(5) { c.range(250, 600) } else { c.below(5) };
            let mut list = vec![];
            for _ in 0..n.min(6) {
                list.push(entry(c, 0));
            }
            while list.len() < n {
                list.push(Entry { kind: 0, code: list.len() as u64, text: String::new() });
            }
            list.iter().for_each(|e| *b.failures.entry(e.clone()).or_default() += 1);
            list.into_iter().collect()
        }
        3 => Status::default(),
        _ => {
            let mut s = Status::new();
            for i in 0..c.below(6) {
                let t = Trouble { seal: c.below(3) as u64, request: if c.chance(50) { 0 } else { i as u64 }, what: "down".into() };
                *b.issues.entry(t.clone()).or_default() += 1;
                s.add_seal_issue(t);
            }
            if c.chance(40) {
                let e = entry(c, 1);
                *b.warnings.entry(e.clone()).or_default() += 1;
                s.add_warning(e);
            }
            s
        }
    };
    (s, b)
}

fn sum<'a>(bags: impl Iterator<Item = &'a Bag>) -> Bag {
    fn add<T: Ord + Clone>(a: &mut BTreeMap<T, usize>, b: &BTreeMap<T, usize>) {
        b.iter().for_each(|(k, n)| *a.entry(k.clone()).or_default() += n);
    }
    let mut r = Bag::default();
    for b in bags {
        add(&mut r.issues, &b.issues);
        add(&mut r.failures, &b.failures);
        add(&mut r.warnings, &b.warnings);
        add(&mut r.info, &b.info);
    }
    r
}

fn judge(c: &mut Ctl, who: &str, s: &Status<Rep>, b: &Bag) -> Res {
    if let Some(d) = b.differs(&Bag::of(s)) {
        return fail("report differs", format!("{who}: {d}"));
    }
    let v = s.validity();
    // What is shown and what is stored as a number tell the verdict, too.
    let (shown, code) = (v.to_string(), v as u8);
    ensure!((shown == "valid") == (v == Validity::Valid) && (shown == "invalid") == (v == Validity::Invalid), "verdict", "{who}: {v:?} is shown as '{shown}'");
    ensure!(code == match v { Validity::Valid => 1, Validity::Invalid => 0, Validity::SealIssues => 0xFF }, "verdict", "{who}: {v} has code {code}");
    ensure!(v == b.verdict(), "verdict", "{who}: {v} instead of {} for {} failures and {} seal issues", b.verdict(), s.failures.len(), s.seal_issues.len());
    let kinds = (!b.failures.is_empty()) as u64 | (!b.issues.is_empty() as u64) << 1 | (!b.warnings.is_empty() as u64) << 2 | (!b.info.is_empty() as u64) << 3;
    c.state(&[kinds, v as u64, who.len() as u64]);
    ensure!(s.clone() == *s, "report differs", "{who}: a copy of the report differs");
    Ok(())
}

/// What happens to a report on its way.
fn travel(c: &mut Ctl, s: Status<Rep>) -> Res<Status<Rep>> {
    #[cfg(feature = "full")]
    if c.chance(40) {
        let text = match serde_json::to_string(&s) {
            Ok(t) => t,
            Err(e) => return fail("report lost", format!("a report cannot be stored: {e}")),
        };
        return match serde_json::from_str(&text) {
            Ok(s2) => {
                ensure!(s == s2, "report differs", "a report changes when it is stored and restored");
                Ok(s2)
            }
            Err(e) => fail("report lost", format!("a stored report is refused: {e}")),
        };
    }
    let _ = c;
    Ok(s)
}

fn run11(c: &mut Ctl) -> Res {
    let workers = c.range(1, 8);
    let f = Faults::draw(c);
    // Each worker reports in several batches, which carry numbers so that repetitions are recognised.
    let mut parts: Vec<(Status<Rep>, Bag)> = vec![];
    for w in 0..workers {
        c.open();
        for _ in 0..1 + c.below(3) {
            let (s, b) = produce(c);
            judge(c, "w", &s, &b)?;
            ev!(c, "worker {w} reports {} failures {} issues", s.failures.len(), s.seal_issues.len());
            parts.push((s, b));
        }
        c.close();
    }
    if parts.len() > 1 {
        c.nontrivial = true;
    }
    let total = sum(parts.iter().map(|(_, b)| b));
    // Collectors merge what arrives in order of arrival; a collector's intermediate report may itself be merged.
    let collectors = c.range(1, 3);
    let mut net: Net<usize> = Net::new(collectors + 1);
    let mut held: Vec<BTreeMap<usize, ()>> = vec![BTreeMap::new(); collectors];
    let mut merged: Vec<Status<Rep>> = (0..collectors).map(|_| if c.chance(50) { Status::new() } else { Status::default() }).collect();
    let mut disk: Vec<(BTreeMap<usize, ()>, Status<Rep>)> = merged.iter().map(|m| (BTreeMap::new(), m.clone())).collect();
    for round in 0..3 {
        let ff = if round == 2 { Faults { jitter: f.jitter, ..Faults::none() } } else { f.clone() };
        for k in 0..collectors {
            for p in 0..parts.len() {
                if !held[k].contains_key(&p) {
                    net.send(c, &ff, collectors, k, p, |_, _| None);
                }
            }
        }
        while let Some((_, k, p)) = net.next(c) {
            if held[k].contains_key(&p) {
                continue;
            }
            let s = travel(c, parts[p].0.clone())?;
            if c.chance(15) {
                // Prepended instead of appended.
                let old = std::mem::take(&mut merged[k]);
                let mut s = s;
                s += old;
                merged[k] = s;
            } else {
                merged[k] += s;
            }
            held[k].insert(p, ());
            ev!(c, "collector {k} merges report {p}: {}", merged[k].validity());
            if c.chance(25) {
                disk[k] = (held[k].clone(), travel(c, merged[k].clone())?);
            }
            if round < 2 && c.chance(ff.crash / 4) {
                c.fault("crash");
                held[k] = disk[k].0.clone();
                merged[k] = disk[k].1.clone();
            }
            let b = sum(held[k].keys().map(|p| &parts[*p].1));
            judge(c, "cc", &merged[k], &b)?;
        }
    }
    for m in &merged {
        judge(c, "all", m, &total)?;
    }
    // Any grouping: a random binary tree of merges.
    let mut list: Vec<Status<Rep>> = parts.iter().map(|(s, _)| s.clone()).collect();
    c.shuffle(&mut list);
    while list.len() > 1 {
        let i = c.below(list.len() - 1);
        let b = list.remove(i + 1);
        list[i] += b;
    }
    judge(c, "tree", &list[0], &total)
}
