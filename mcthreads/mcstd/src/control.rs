//! Real threads of which exactly one runs at a time, and only as far as its
//! next scheduling point. Who goes on is decided by the caller.
use ::std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Condvar, Mutex, MutexGuard,
    },
    time::{Duration, Instant},
};

/// What a thread is about to do at a scheduling point
#[derive(Clone, Debug)]
pub enum Op {
    Go(&'static str),
    /// Waits for others to make progress
    GiveWay,
    Lock(usize),
    Read(usize),
    /// Parked on a condition variable
    Wait(usize),
    /// Until a flag is set
    Until(Arc<AtomicBool>),
}

#[derive(Default)]
struct LockState {
    writer: Option<usize>,
    readers: usize,
}

#[derive(Default)]
struct State {
    pending: Vec<Option<Op>>,
    done: Vec<bool>,
    running: Option<usize>,
    last: Option<usize>,
    taken: usize,
    steps: usize,
    end: Option<End>,
    locks: BTreeMap<usize, LockState>,
    /// Threads that a notification has reached
    notified: BTreeSet<usize>,
    /// Order in which threads started to wait
    waiting: Vec<(usize, usize)>,
}

type Next<'a> = dyn FnMut(Choice) -> usize + 'a;

/// Used by one thread at a time, while the state is locked, and not after
/// `run` returns
struct Chooser(*mut Next<'static>);
unsafe impl Send for Chooser {}
unsafe impl Sync for Chooser {}

struct Sched {
    state: Mutex<State>,
    controller: Condvar,
    threads: Vec<Condvar>,
    next: Chooser,
}

struct Abort;

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

fn me() -> Option<(Arc<Sched>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn finish(&self, s: &mut State, end: End) {
        if s.end.is_none() {
            s.end = Some(end);
        }
        for t in &self.threads {
            t.notify_one();
        }
        self.controller.notify_one();
    }
    /// All threads have stopped: decide who goes on
    fn decide(&self, s: &mut State) {
        let n = s.done.len();
        if s.end.is_some() || s.running.is_some() {
            return;
        }
        if (0..n).any(|i| s.pending[i].is_none() && !s.done[i]) {
            // not all of them have started
            return;
        }
        if s.done.iter().all(|d| *d) {
            return self.finish(s, End::AllDone);
        }
        let can = |s: &State, i: usize| match &s.pending[i] {
            None => false,
            Some(Op::Go(_)) | Some(Op::GiveWay) => true,
            Some(Op::Lock(at)) => s
                .locks
                .get(at)
                .map_or(true, |l| l.writer.is_none() && l.readers == 0),
            Some(Op::Read(at)) => s.locks.get(at).map_or(true, |l| l.writer.is_none()),
            Some(Op::Wait(_)) => s.notified.contains(&i),
            Some(Op::Until(f)) => f.load(Ordering::SeqCst),
        };
        let able: Vec<usize> = (0..n).filter(|i| can(s, *i)).collect();
        let eager: Vec<usize> = able
            .iter()
            .copied()
            .filter(|i| !matches!(s.pending[*i], Some(Op::GiveWay)))
            .collect();
        // Those that give way come last, in turns
        let enabled = if !eager.is_empty() {
            eager
        } else if able.len() > 1 {
            able.into_iter().filter(|i| Some(*i) != s.last).collect()
        } else {
            able
        };
        if enabled.is_empty() {
            let what: Vec<String> = (0..n)
                .filter(|i| !s.done[*i])
                .map(|i| match s.pending[i] {
                    Some(Op::Lock(_)) | Some(Op::Read(_)) => format!("thread {i} waits for a lock"),
                    Some(Op::Wait(_)) => format!("thread {i} waits to be notified"),
                    _ => format!("thread {i} waits to be woken"),
                })
                .collect();
            return self.finish(s, End::Deadlock(what.join(", ")));
        }
        if s.taken >= s.steps {
            return self.finish(s, End::Steps);
        }
        s.taken += 1;
        let last = s.last.filter(|l| enabled.contains(l));
        let pick = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| unsafe {
            (*self.next.0)(Choice {
                enabled: &enabled,
                last,
                ops: &s.pending,
            })
        }));
        match pick {
            Err(_) => self.finish(s, End::Lost("the choice of a thread panicked".into())),
            Ok(at) => {
                let pick = enabled[at];
                s.last = Some(pick);
                s.pending[pick] = None;
                s.running = Some(pick);
                self.threads[pick].notify_one();
            }
        }
    }
    fn stop_at(&self, id: usize, op: Op) {
        let mut s = self.lock();
        if s.end.is_none() {
            s.pending[id] = Some(op);
            if s.running == Some(id) {
                s.running = None;
            }
            self.decide(&mut s);
            while s.running != Some(id) && s.end.is_none() {
                s = self.threads[id].wait(s).unwrap_or_else(|e| e.into_inner());
            }
        }
        if s.end.is_some() {
            drop(s);
            if !::std::thread::panicking() {
                ::std::panic::resume_unwind(Box::new(Abort));
            }
        }
    }
}

/// A scheduling point; false outside of the scheduler
pub fn point(op: Op) -> bool {
    if ::std::thread::panicking() {
        return me().is_some();
    }
    match me() {
        Some((s, id)) => {
            s.stop_at(id, op);
            true
        }
        None => false,
    }
}
/// Is this thread under the scheduler?
pub fn inside() -> bool {
    me().is_some()
}
pub fn go(what: &'static str) -> bool {
    point(Op::Go(what))
}
pub fn give_way() -> bool {
    point(Op::GiveWay)
}

/// Take or release a lock in the scheduler's books
pub fn took(at: usize, write: bool) {
    if let Some((s, id)) = me() {
        let mut s = s.lock();
        let l = s.locks.entry(at).or_default();
        if write {
            l.writer = Some(id);
        } else {
            l.readers += 1;
        }
    }
}
pub fn released(at: usize, write: bool) {
    if let Some((s, _)) = me() {
        let mut s = s.lock();
        if let Some(l) = s.locks.get_mut(&at) {
            if write {
                l.writer = None;
            } else {
                l.readers = l.readers.saturating_sub(1);
            }
        }
    }
}
/// Start to wait on a condition variable
pub fn waits(at: usize) {
    if let Some((s, id)) = me() {
        s.lock().waiting.push((at, id));
    }
}
pub fn waited() {
    if let Some((s, id)) = me() {
        let mut s = s.lock();
        s.waiting.retain(|w| w.1 != id);
        s.notified.remove(&id);
    }
}
pub fn notify(at: usize, all: bool) {
    if let Some((s, _)) = me() {
        let mut s = s.lock();
        let w: Vec<usize> = s
            .waiting
            .iter()
            .filter(|(cv, id)| *cv == at && !s.notified.contains(id))
            .map(|w| w.1)
            .take(if all { usize::MAX } else { 1 })
            .collect();
        s.notified.extend(w);
    }
}

/// How an execution ended
#[derive(Debug, PartialEq, Eq)]
pub enum End {
    AllDone,
    /// No thread can go on
    Deadlock(String),
    /// The given number of steps was not enough
    Steps,
    /// A thread does not come back from outside of the scheduler
    Lost(String),
}

/// Who may go on, and who went on last
pub struct Choice<'a> {
    pub enabled: &'a [usize],
    pub last: Option<usize>,
    pub ops: &'a [Option<Op>],
}

type Body<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Threads that are kept for the next execution, per controlling thread
struct Hand {
    job: Mutex<Option<Body<'static>>>,
    ready: Condvar,
}
thread_local! {
    static HANDS: RefCell<Vec<Arc<Hand>>> = const { RefCell::new(vec![]) };
}

fn hand(i: usize) -> Arc<Hand> {
    HANDS.with(|h| {
        let mut h = h.borrow_mut();
        while h.len() <= i {
            let new = Arc::new(Hand {
                job: Mutex::new(None),
                ready: Condvar::new(),
            });
            let hand = new.clone();
            ::std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || loop {
                    let mut j = hand.job.lock().unwrap_or_else(|e| e.into_inner());
                    let body = loop {
                        match j.take() {
                            Some(b) => break b,
                            None => j = hand.ready.wait(j).unwrap_or_else(|e| e.into_inner()),
                        }
                    };
                    drop(j);
                    body();
                })
                .expect("start a thread");
            h.push(new);
        }
        h[i].clone()
    })
}

/// Run the threads; `next` picks an index of `enabled` at every step
pub fn run<'a>(bodies: Vec<Body<'a>>, steps: usize, mut next: impl FnMut(Choice) -> usize) -> End {
    let n = bodies.len();
    let chooser: &mut Next<'_> = &mut next;
    // Nothing of this is used after the end of this function: it returns when
    // all threads are through with their bodies
    let chooser: *mut Next<'static> =
        unsafe { ::std::mem::transmute::<&mut Next<'_>, &mut Next<'static>>(chooser) };
    let sched = Arc::new(Sched {
        state: Mutex::new(State {
            pending: vec![None; n],
            done: vec![false; n],
            steps,
            ..Default::default()
        }),
        controller: Condvar::new(),
        threads: (0..n).map(|_| Condvar::new()).collect(),
        next: Chooser(chooser),
    });
    for (id, body) in bodies.into_iter().enumerate() {
        let body = unsafe { ::std::mem::transmute::<Body<'a>, Body<'static>>(body) };
        let sched = sched.clone();
        let hand = hand(id);
        let job: Body<'static> = Box::new(move || {
            ME.with(|m| *m.borrow_mut() = Some((sched.clone(), id)));
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| {
                sched.stop_at(id, Op::Go("start"));
                body();
            }));
            ME.with(|m| *m.borrow_mut() = None);
            drop(r);
            let mut s = sched.lock();
            s.done[id] = true;
            s.pending[id] = None;
            if s.running == Some(id) {
                s.running = None;
            }
            sched.decide(&mut s);
            if s.done.iter().all(|d| *d) {
                sched.controller.notify_one();
            }
        });
        *hand.job.lock().unwrap_or_else(|e| e.into_inner()) = Some(job);
        hand.ready.notify_one();
    }
    let mut s = sched.lock();
    let mut since = (s.taken, Instant::now());
    while !s.done.iter().all(|d| *d) {
        let (g, _) = sched
            .controller
            .wait_timeout(s, Duration::from_secs(5))
            .unwrap_or_else(|e| e.into_inner());
        s = g;
        if since.0 != s.taken {
            since = (s.taken, Instant::now());
        } else if since.1.elapsed().as_secs() >= 60 {
            // The threads cannot be given up: what they borrow would go away
            eprintln!("thread {:?} blocks where it is not controlled", s.running);
            ::std::process::exit(2);
        }
    }
    s.end.take().unwrap_or(End::AllDone)
}
