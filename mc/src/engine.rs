//! Stateless explicit enumeration: run a closed program once for every
//! sequence of answers to its choices.
use crate::journal;
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::Instant,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property does not hold in this execution
    Violation(String),
    /// The scenario is a duplicate of another one, or is not well-formed
    Prune,
    /// The machinery itself is at fault
    Machine(String),
}
pub type R<T = ()> = Result<T, Fail>;

pub fn bad<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail::Violation(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::engine::bad(format!($($arg)*)); }
    };
}

#[derive(Clone, Copy)]
pub struct Harness {
    pub name: &'static str,
    pub bounds: &'static str,
    /// Number of departures from default environment answers
    pub devs: (u32, u32),
    pub run: fn(&mut Ctx) -> R,
}

pub struct Ctx {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    dev_left: u32,
    rec: Option<Vec<String>>,
    pub tier: Tier,
    states: HashSet<u64>,
    outcomes: BTreeMap<&'static str, u64>,
    transitions: u64,
}

impl Ctx {
    pub fn new(tier: Tier) -> Self {
        Ctx {
            prefix: vec![],
            trace: vec![],
            dev_left: 0,
            rec: None,
            tier,
            states: HashSet::new(),
            outcomes: BTreeMap::new(),
            transitions: 0,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// A bound that depends on the tier
    pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    fn answer(&mut self, n: u32) -> u32 {
        let at = self.trace.len();
        let c = match self.prefix.get(at) {
            Some(c) => *c,
            None => 0,
        };
        if c >= n {
            std::panic::panic_any(Diverged(format!(
                "choice {at} replayed as {c}, but there are {n} alternatives"
            )));
        }
        self.trace.push((c, n));
        c
    }
    /// All values 0..n
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        self.answer(n as u32) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'t, T>(&mut self, items: &'t [T]) -> &'t T {
        &items[self.choose(items.len())]
    }
    /// 0 is the default answer; any other one costs a deviation
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 || n == 1 {
            return 0;
        }
        let c = self.answer(n as u32) as usize;
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(rec) = &mut self.rec {
            rec.push(f());
        }
    }
    pub fn state(&mut self, s: &impl Hash) {
        let mut h = Fnv(0xcbf29ce484222325);
        s.hash(&mut h);
        self.states.insert(h.finish());
    }
    pub fn op(&mut self) {
        self.transitions += 1;
    }
    pub fn ops(&mut self, n: usize) {
        self.transitions += n as u64;
    }
    /// Whether a violation is a listed finding, which is reported but does not
    /// fail the check
    pub fn known(&self, id: &str, key: &str, what: &str) -> bool {
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        let list = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
        let entry = format!("known: property={id} {key} ");
        let listed = list.lines().any(|l| l.starts_with(&entry));
        if listed {
            KNOWN.lock().unwrap().insert(format!("property={id} {key}: {what}"));
        }
        listed
    }
    pub fn outcome(&mut self, what: &'static str) {
        *self.outcomes.entry(what).or_default() += 1;
    }
}

pub static KNOWN: Mutex<std::collections::BTreeSet<String>> = Mutex::new(std::collections::BTreeSet::new());

struct Diverged(String);

pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^ (x >> 33)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = self.0.rotate_left(5) ^ 0x9e37;
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((at, msg)));
    }));
}

fn is_harness(at: &str) -> bool {
    at.starts_with("src/") || at.contains("/mc/src/") || at.contains("/mcthreads/src/")
}

/// Run something of the library that is not supposed to panic
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).or_else(|payload| panicked(what, payload))
}

fn panicked<T>(what: &str, payload: Box<dyn std::any::Any + Send>) -> R<T> {
    if let Some(d) = payload.downcast_ref::<Diverged>() {
        return Err(Fail::Machine(format!("replay diverged: {}", d.0)));
    }
    let (at, msg) = LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default();
    if is_harness(&at) {
        Err(Fail::Machine(format!("harness panicked at {at}: {msg}")))
    } else {
        bad(format!("{what}: panic at {at}: {msg}"))
    }
}

fn execute(h: &Harness, ctx: &mut Ctx, prefix: Vec<u32>, rec: bool) -> R {
    ctx.prefix = prefix;
    ctx.trace.clear();
    ctx.dev_left = match ctx.tier {
        Tier::Quick => h.devs.0,
        Tier::Thorough => h.devs.1,
    };
    ctx.rec = rec.then(Vec::new);
    crate::clock::set(crate::clock::DEFAULT);
    let r = catch_unwind(AssertUnwindSafe(|| (h.run)(ctx)))
        .unwrap_or_else(|payload| panicked("execution", payload));
    if !matches!(r, Err(Fail::Violation(_))) && ctx.trace.len() < ctx.prefix.len() {
        return Err(Fail::Machine(format!(
            "replay diverged: {} choices instead of {}",
            ctx.trace.len(),
            ctx.prefix.len()
        )));
    }
    r
}

pub struct Found {
    pub choices: Vec<u32>,
    pub msg: String,
    pub steps: Vec<String>,
    pub reproduced: u32,
}

pub struct Report {
    pub name: &'static str,
    pub bounds: &'static str,
    pub devs: u32,
    pub states: usize,
    pub transitions: u64,
    pub validated: u64,
    pub pruned: u64,
    pub max_choices: usize,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub wall_s: f64,
    pub found: Option<Found>,
    pub errors: Vec<String>,
}

pub fn replay(h: &Harness, tier: Tier, choices: &[u32]) -> (R, Vec<String>) {
    let mut ctx = Ctx::new(tier);
    let r = execute(h, &mut ctx, choices.to_vec(), true);
    (r, ctx.rec.take().unwrap_or_default())
}

pub fn explore(h: &Harness, index: usize, tier: Tier) -> Report {
    let t0 = Instant::now();
    let workers: usize = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or(8);
    let shared: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
    let busy = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let validated = AtomicU64::new(0);
    let pruned = AtomicU64::new(0);
    let hungry = AtomicUsize::new(0);
    let found: Mutex<Vec<(Vec<u32>, String)>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let merged: Mutex<(HashSet<u64>, BTreeMap<&'static str, u64>, u64, usize, Vec<Vec<u32>>)> =
        Mutex::new(Default::default());
    std::thread::scope(|s| {
        for w in 0..workers {
            let (shared, busy, stop, validated, pruned, found, errors, merged, hungry) = (
                &shared, &busy, &stop, &validated, &pruned, &found, &errors, &merged, &hungry,
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::new(tier);
                    let mut local: Vec<Vec<u32>> = vec![];
                    let mut max_choices = 0;
                    let mut longest: Vec<u32> = vec![];
                    'work: while !stop.load(Ordering::Relaxed) {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                hungry.fetch_add(1, Ordering::SeqCst);
                                loop {
                                    {
                                        let mut q = shared.lock().unwrap();
                                        if let Some(p) = q.pop() {
                                            busy.fetch_add(1, Ordering::SeqCst);
                                            let n = q.len() / workers;
                                            let more = q.len() - n;
                                            local.extend(q.drain(more..));
                                            hungry.fetch_sub(1, Ordering::SeqCst);
                                            break p;
                                        }
                                        if busy.load(Ordering::SeqCst) == 0 {
                                            break 'work;
                                        }
                                    }
                                    if stop.load(Ordering::Relaxed) {
                                        break 'work;
                                    }
                                    std::thread::sleep(std::time::Duration::from_micros(200));
                                }
                            }
                        };
                        journal::begin(w, index, &prefix);
                        let base = prefix.len();
                        let r = execute(h, &mut ctx, prefix, false);
                        journal::end(w);
                        if ctx.trace.len() > max_choices {
                            max_choices = ctx.trace.len();
                            longest = ctx.trace.iter().map(|c| c.0).collect();
                        }
                        match r {
                            Ok(()) => {
                                validated.fetch_add(1, Ordering::Relaxed);
                            }
                            Err(Fail::Prune) => {
                                pruned.fetch_add(1, Ordering::Relaxed);
                            }
                            Err(Fail::Violation(msg)) => {
                                validated.fetch_add(1, Ordering::Relaxed);
                                let choices: Vec<u32> = ctx.trace.iter().map(|c| c.0).collect();
                                let mut f = found.lock().unwrap();
                                f.push((choices, msg));
                                if f.len() >= 64 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                            Err(Fail::Machine(msg)) => {
                                let mut e = errors.lock().unwrap();
                                e.push(format!(
                                    "{msg} (choices {:?})",
                                    ctx.trace.iter().map(|c| c.0).collect::<Vec<_>>()
                                ));
                                if e.len() >= 8 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        for i in base..ctx.trace.len() {
                            let n = ctx.trace[i].1;
                            for alt in (1..n).rev() {
                                let mut p: Vec<u32> =
                                    ctx.trace[..i].iter().map(|c| c.0).collect();
                                p.push(alt);
                                local.push(p);
                            }
                        }
                        if local.is_empty() {
                            busy.fetch_sub(1, Ordering::SeqCst);
                        } else if local.len() > 1 && hungry.load(Ordering::Relaxed) > 0 {
                            let give = local.len() / 2;
                            shared.lock().unwrap().extend(local.drain(..give));
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    if m.0.is_empty() {
                        m.0 = std::mem::take(&mut ctx.states);
                    } else {
                        m.0.extend(ctx.states.drain());
                    }
                    for (k, v) in &ctx.outcomes {
                        *m.1.entry(k).or_default() += v;
                    }
                    m.2 += ctx.transitions;
                    m.3 = m.3.max(max_choices);
                    m.4.push(longest);
                })
                .expect("spawn worker");
        }
    });
    let (states, outcomes, transitions, max_choices, mut longest) = merged.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    // Fewest non-default choices first, then shortest, then smallest
    found.sort_by_key(|(c, _)| {
        (
            c.iter().filter(|x| **x != 0).count(),
            c.len(),
            c.iter().map(|x| *x as u64).sum::<u64>(),
            c.clone(),
        )
    });
    let best = found.into_iter().next().map(|(choices, msg)| {
        let mut reproduced = 0;
        let mut steps = vec![];
        for _ in 0..5 {
            let (r, s) = replay(h, tier, &choices);
            steps = s;
            if matches!(r, Err(Fail::Violation(_))) {
                reproduced += 1;
            }
        }
        Found {
            choices,
            msg,
            steps,
            reproduced,
        }
    });
    let mut samples = vec![];
    if best.is_none() {
        longest.sort_by_key(|c| std::cmp::Reverse(c.len()));
        longest.truncate(1);
        longest.push(vec![]);
        for c in longest {
            samples.push(replay(h, tier, &c).1);
        }
    }
    Report {
        name: h.name,
        bounds: h.bounds,
        devs: match tier {
            Tier::Quick => h.devs.0,
            Tier::Thorough => h.devs.1,
        },
        states: states.len(),
        transitions,
        validated: validated.into_inner(),
        pruned: pruned.into_inner(),
        max_choices,
        outcomes,
        samples,
        wall_s: t0.elapsed().as_secs_f64(),
        found: best,
        errors: errors.into_inner().unwrap(),
    }
}
