//! Every interleaving of store operations, judged by linearizability.
use crate::{
    clock,
    engine::{self, bad, Ctx, Fail, Harness, R},
    ensure,
    world::{cid_of, parser, Tok},
};
use anyhow::anyhow;
use cid::Cid;
use libipld_core::{
    codec::Decode,
    ipld::Ipld,
    raw::RawCodec,
};
use mcstd::control::{self, Choice, End, Op};
use std::{
    future::Future,
    io::{Read, Seek},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex, OnceLock,
    },
    task::{Context, Poll, Wake, Waker},
};
use ucan::{
    chain::ProofChain,
    store::{MemoryStore, UcanJwtStore, UcanStore},
};

const STEPS: usize = 400;

// ---------------------------------------------------------------------------
// Running futures on a controlled thread

struct Woken(Arc<AtomicBool>);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn run<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let flag = Arc::new(AtomicBool::new(false));
    let waker = Waker::from(Arc::new(Woken(flag.clone())));
    loop {
        flag.store(false, Ordering::SeqCst);
        match f.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(r) => return r,
            Poll::Pending => {
                if !control::point(Op::Until(flag.clone())) && !flag.load(Ordering::SeqCst) {
                    std::thread::yield_now();
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Operations and what they may answer

struct Contents {
    texts: Vec<String>,
    cids: Vec<Cid>,
    /// A token that cites the first two
    top: String,
    top_cid: Cid,
}

/// Contents 0 and 1 are proofs, 2 is not a token at all
fn contents() -> &'static Contents {
    static C: OnceLock<Contents> = OnceLock::new();
    C.get_or_init(|| {
        let mut p0 = Tok::new(0, 1);
        p0.nnc = Some("zero".into());
        let mut p1 = Tok::new(2, 1);
        p1.nnc = Some("one".into());
        let texts = vec![p0.text(), p1.text(), "x".repeat(40)];
        let cids: Vec<Cid> = texts.iter().map(|t| cid_of(t)).collect();
        let mut top = Tok::new(1, 3);
        top.cite(cids[0].to_string());
        top.cite(cids[1].to_string());
        let top = top.text();
        Contents {
            top_cid: cid_of(&top),
            texts,
            cids,
            top,
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Do {
    /// write_token
    Write(usize),
    /// write of bytes
    WriteBytes(usize),
    /// read_token
    Token(usize),
    /// read of bytes through a handle that the threads share
    Shared(usize),
    /// read through a new handle, made now
    Clone(usize),
    /// read with a decoder that fails
    Refuse(usize),
    /// require_token
    Require(usize),
    Format,
    /// verify the token that cites the first two contents
    Verify,
    /// the same from its identifier, which is stored at the start
    VerifyCid,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Answer {
    Wrote(Cid),
    /// What a read found
    Found(Option<Vec<u8>>),
    /// A read whose decoder was called, and refused
    Refused,
    Formatted,
    /// The number of proofs of the accepted chain and whether they are right
    Accepted(usize, bool),
    Rejected,
    Failed(String),
}

struct Nothing;
impl Decode<RawCodec> for Nothing {
    fn decode<Rd: Read + Seek>(_: RawCodec, _: &mut Rd) -> anyhow::Result<Self> {
        Err(anyhow!("refused by the decoder"))
    }
}

fn perform(op: Do, own: &mut MemoryStore, shared: &MemoryStore) -> Answer {
    let c = contents();
    let found = |r: anyhow::Result<Option<Ipld>>| match r {
        Ok(Some(Ipld::Bytes(b))) => Answer::Found(Some(b)),
        Ok(Some(x)) => Answer::Failed(format!("{x:?}")),
        Ok(None) => Answer::Found(None),
        Err(e) => Answer::Failed(e.to_string()),
    };
    let wrote = |r: anyhow::Result<Cid>| match r {
        Ok(cid) => Answer::Wrote(cid),
        Err(e) => Answer::Failed(e.to_string()),
    };
    let verdict = |r: anyhow::Result<ProofChain>| match r {
        Err(_) => Answer::Rejected,
        Ok(chain) => {
            let texts: Vec<String> = chain
                .proofs()
                .iter()
                .map(|p| p.ucan().encode().unwrap_or_default())
                .collect();
            Answer::Accepted(texts.len(), texts[..] == c.texts[..2])
        }
    };
    match op {
        Do::Write(i) => wrote(run(own.write_token(&c.texts[i]))),
        Do::WriteBytes(i) => wrote(run(own.write(Ipld::Bytes(c.texts[i].as_bytes().to_vec())))),
        // an absent token is an error or nothing
        Do::Token(i) => match run(own.read_token(&c.cids[i])) {
            Ok(t) => Answer::Found(t.map(String::into_bytes)),
            Err(_) => Answer::Found(None),
        },
        Do::Require(i) => match run(own.require_token(&c.cids[i])) {
            Ok(t) => Answer::Found(Some(t.into_bytes())),
            Err(_) => Answer::Found(None),
        },
        Do::Shared(i) => found(run(shared.read::<Ipld>(&c.cids[i]))),
        Do::Clone(i) => {
            let new = own.clone();
            *own = new.clone();
            found(run(new.read::<Ipld>(&c.cids[i])))
        }
        Do::Refuse(i) => match run(own.read::<Nothing>(&c.cids[i])) {
            Ok(None) => Answer::Found(None),
            Ok(Some(_)) => Answer::Failed("a value out of nothing".into()),
            Err(e) if e.to_string().contains("refused by the decoder") => Answer::Refused,
            Err(e) => Answer::Failed(e.to_string()),
        },
        Do::Format => {
            let _ = format!("{own:?}");
            Answer::Formatted
        }
        Do::Verify => verdict(run(ProofChain::try_from_token_string(
            &c.top,
            None,
            &mut parser(),
            own,
        ))),
        Do::VerifyCid => verdict(run(ProofChain::from_cid(
            &c.top_cid,
            None,
            &mut parser(),
            shared,
        ))),
    }
}

/// A completed operation and when it began and ended
#[derive(Clone, Debug)]
struct Event {
    thread: usize,
    op: Do,
    answer: Answer,
    began: usize,
    ended: usize,
}

/// What a store that holds these contents answers, and what it holds then
fn model(op: Do, has: &mut [bool; 3], answer: &Answer) -> bool {
    let c = contents();
    match op {
        Do::Write(i) | Do::WriteBytes(i) => {
            has[i] = true;
            *answer == Answer::Wrote(c.cids[i])
        }
        Do::Token(i) | Do::Shared(i) | Do::Clone(i) | Do::Require(i) => {
            *answer == Answer::Found(has[i].then(|| c.texts[i].as_bytes().to_vec()))
        }
        Do::Refuse(i) => {
            *answer
                == if has[i] {
                    Answer::Refused
                } else {
                    Answer::Found(None)
                }
        }
        Do::Format => *answer == Answer::Formatted,
        // reads several times; judged apart
        Do::Verify | Do::VerifyCid => true,
    }
}

/// Is there a one-at-a-time order that respects real time and explains all answers?
fn linearizable(events: &[Event], has: [bool; 3], end: &[Option<bool>; 3]) -> bool {
    fn go(events: &[Event], left: u32, has: [bool; 3], end: &[Option<bool>; 3]) -> bool {
        if left == 0 {
            return (0..3).all(|i| end[i].map_or(true, |e| e == has[i]));
        }
        for (i, e) in events.iter().enumerate() {
            if left & (1 << i) == 0 {
                continue;
            }
            // nothing that is left ended before this began
            if events
                .iter()
                .enumerate()
                .any(|(j, f)| left & (1 << j) != 0 && f.ended < e.began)
            {
                continue;
            }
            let mut then = has;
            if model(e.op, &mut then, &e.answer) && go(events, left & !(1 << i), then, end) {
                return true;
            }
        }
        false
    }
    go(events, (1u32 << events.len()) - 1, has, end)
}

fn judge_chain(e: &Event, events: &[Event], start: [bool; 3]) -> R {
    let written = |i: usize, f: &dyn Fn(&Event) -> bool| {
        start[i]
            || events.iter().any(|w| {
                matches!(w.op, Do::Write(j) | Do::WriteBytes(j) if j == i) && f(w)
            })
    };
    let before = (0..2).all(|i| written(i, &|w| w.ended < e.began));
    let meanwhile = (0..2).all(|i| written(i, &|w| w.began < e.ended));
    match &e.answer {
        Answer::Accepted(2, true) => {
            ensure!(meanwhile, "a chain is accepted with proofs nobody wrote");
        }
        Answer::Accepted(n, right) => {
            return bad(format!(
                "a chain is accepted with {n} proofs (right ones: {right})"
            ))
        }
        Answer::Rejected => {
            ensure!(
                !before,
                "a chain is refused although all its proofs had been written before"
            );
        }
        a => return bad(format!("verification answered {a:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Programs

/// Every way to run the programs, one per thread
/// Keep this worker and its threads on one processor: they take turns anyway
fn stay() {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static STAYS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    if STAYS.with(|s| s.replace(true)) {
        return;
    }
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut all) != 0 {
            return;
        }
        let usable: Vec<usize> = (0..libc::CPU_SETSIZE as usize)
            .filter(|c| libc::CPU_ISSET(*c, &all))
            .collect();
        if !usable.is_empty() {
            let mut one: libc::cpu_set_t = std::mem::zeroed();
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            libc::CPU_SET(usable[n % usable.len()], &mut one);
            libc::sched_setaffinity(0, size, &one);
        }
    }
}

fn execute(ctx: &mut Ctx, programs: &[Vec<Do>], start: [bool; 3]) -> R {
    stay();
    let c = contents();
    let mut base = MemoryStore::default();
    if programs.iter().flatten().any(|o| *o == Do::VerifyCid) {
        let r = run(base.write_token(&c.top));
        ensure!(r.is_ok(), "cannot write to a new store");
    }
    for i in 0..3 {
        if start[i] {
            let r = run(base.write_token(&c.texts[i]));
            ensure!(r.is_ok(), "cannot write to a new store");
        }
    }
    ctx.log(|| format!("stored at the start: {start:?}; threads: {programs:?}"));
    let tick = AtomicUsize::new(0);
    let events: Mutex<Vec<Event>> = Mutex::new(vec![]);
    let faults: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let under_way: Vec<AtomicUsize> = programs.iter().map(|_| AtomicUsize::new(0)).collect();
    let shared = base.clone();
    let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = programs
        .iter()
        .enumerate()
        .map(|(thread, program)| {
            let mut own = base.clone();
            let (tick, events, faults, shared, under_way) =
                (&tick, &events, &faults, &shared, &under_way);
            let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                clock::set(clock::DEFAULT);
                for op in program {
                    let began = tick.fetch_add(1, Ordering::SeqCst);
                    let r = engine::no_panic("an operation on the store", || {
                        perform(*op, &mut own, shared)
                    });
                    let ended = tick.fetch_add(1, Ordering::SeqCst);
                    match r {
                        Ok(answer) => events.lock().unwrap().push(Event {
                            thread,
                            op: *op,
                            answer,
                            began,
                            ended,
                        }),
                        Err(f) => {
                            faults.lock().unwrap().push(f);
                            return;
                        }
                    }
                    under_way[thread].fetch_add(1, Ordering::SeqCst);
                }
            });
            b
        })
        .collect();
    let mut schedule: Vec<usize> = vec![];
    let key: Vec<Vec<Do>> = programs.to_vec();
    let end = control::run(bodies, STEPS, |ch: Choice| {
        let pick = match ch.last {
            Some(last) => {
                // going on is the default, anything else preempts
                let mut order: Vec<usize> = vec![last];
                order.extend(ch.enabled.iter().copied().filter(|e| *e != last));
                let who = order[ctx.dev(order.len())];
                ch.enabled.iter().position(|e| *e == who).unwrap_or(0)
            }
            None => ctx.choose(ch.enabled.len()),
        };
        let who = ch.enabled[pick];
        ctx.op();
        ctx.log(|| format!("thread {who}: {:?}", ch.ops[who]));
        schedule.push(who);
        let at: Vec<(usize, Option<String>)> = ch
            .ops
            .iter()
            .zip(&under_way)
            .map(|(o, n)| {
                (
                    n.load(Ordering::SeqCst),
                    o.as_ref().map(|o| match o {
                        Op::Go(s) => s.to_string(),
                        Op::Lock(_) => "lock".into(),
                        Op::Read(_) => "read lock".into(),
                        Op::Wait(_) => "wait".into(),
                        Op::GiveWay => "give way".into(),
                        Op::Until(_) => "until".into(),
                    }),
                )
            })
            .collect();
        ctx.state(&(&key, start, at, who));
        pick
    });
    match end {
        End::AllDone => (),
        End::Deadlock(how) => return bad(format!("deadlock: {how}")),
        // an unfair schedule, not an execution
        End::Steps => return Err(Fail::Prune),
        End::Lost(t) => {
            return Err(Fail::Machine(format!("{t} blocks where it is not controlled")))
        }
    }
    if let Some(f) = faults.into_inner().unwrap().into_iter().next() {
        return Err(f);
    }
    let events = events.into_inner().unwrap();
    for e in &events {
        ctx.log(|| {
            format!(
                "{}..{} thread {} {:?} -> {:?}",
                e.began,
                e.ended,
                e.thread,
                e.op,
                short(&e.answer)
            )
        });
    }
    // what every handle shows in the end
    let mut last = [None; 3];
    for i in 0..3 {
        for h in [&base, &shared] {
            let r = run(h.read::<Ipld>(&c.cids[i]));
            let now = match &r {
                Ok(Some(Ipld::Bytes(b))) if *b == c.texts[i].as_bytes() => true,
                Ok(None) => false,
                _ => return bad(format!("after all this, reading content {i} gives {r:?}")),
            };
            ensure!(
                last[i].map_or(true, |l| l == now),
                "two handles of one store disagree in the end"
            );
            last[i] = Some(now);
        }
    }
    for e in events
        .iter()
        .filter(|e| matches!(e.op, Do::Verify | Do::VerifyCid))
    {
        judge_chain(e, &events, start)?;
    }
    ensure!(
        linearizable(&events, start, &last),
        "no one-at-a-time order explains {:?}; in the end the store holds {last:?}",
        events
            .iter()
            .map(|e| format!("{}: {:?} {:?}", e.thread, e.op, short(&e.answer)))
            .collect::<Vec<_>>()
    );
    // and it goes on working
    let r = run(base.write_token("afterwards"));
    ensure!(r.is_ok(), "a store that was used by threads refuses a write");
    ensure!(
        matches!(run(shared.read_token(&cid_of("afterwards"))), Ok(Some(t)) if t == "afterwards"),
        "a store that was used by threads does not find what was written"
    );
    ctx.outcome(if events.iter().any(|e| matches!(e.answer, Answer::Accepted(..))) {
        "chain accepted"
    } else if events.iter().any(|e| e.answer == Answer::Rejected) {
        "chain refused"
    } else {
        "linearizable"
    });
    Ok(())
}

fn short(a: &Answer) -> String {
    match a {
        Answer::Found(Some(b)) => format!("found {} bytes", b.len()),
        Answer::Wrote(_) => "wrote".into(),
        a => format!("{a:?}"),
    }
}

const OPS: [Do; 9] = [
    Do::Write(0),
    Do::Token(0),
    Do::Write(1),
    Do::Shared(1),
    Do::Clone(0),
    Do::WriteBytes(0),
    Do::Refuse(0),
    Do::Require(1),
    Do::Format,
];

fn program(ctx: &mut Ctx, ops: &[Do], max: usize) -> Vec<Do> {
    let n = 1 + ctx.choose(max);
    (0..n).map(|_| *ctx.pick(ops)).collect()
}

fn threads(ctx: &mut Ctx, n: usize, ops: &[Do], max: usize) -> R {
    let mut ps: Vec<Vec<Do>> = vec![];
    for _ in 0..n {
        let p = program(ctx, ops, max);
        // the threads are alike: their order does not matter
        if ps.last().is_some_and(|l| *l > p) {
            return Err(Fail::Prune);
        }
        ps.push(p);
    }
    if !ps.iter().flatten().any(|o| matches!(o, Do::Write(_) | Do::WriteBytes(_))) {
        // nothing ever changes; one start with everything stored stands for these
        return execute(ctx, &ps, [true, true, false]);
    }
    let start = [ctx.flag(), false, false];
    execute(ctx, &ps, start)
}

fn pairs(ctx: &mut Ctx) -> R {
    let n = ctx.by_tier(6, 9);
    threads(ctx, 2, &OPS[..n], 2)
}

fn trios(ctx: &mut Ctx) -> R {
    threads(ctx, 3, &OPS, 1)
}

/// More threads, or longer programs, with few preemptions
fn crowd(ctx: &mut Ctx) -> R {
    let small = &OPS[..3];
    match ctx.choose(3) {
        0 => threads(ctx, 2, small, 3),
        1 => threads(ctx, 3, small, 2),
        _ => threads(ctx, 4, &OPS[..4], 1),
    }
}

/// A chain is verified while its proofs are written
fn chains(ctx: &mut Ctx) -> R {
    let verify = if ctx.flag() { Do::VerifyCid } else { Do::Verify };
    let start = [ctx.flag(), ctx.flag(), false];
    let mut ps: Vec<Vec<Do>> = match ctx.choose(5) {
        0 => vec![vec![Do::Write(0), Do::Write(1)]],
        1 => vec![vec![Do::Write(1), Do::Write(0)]],
        2 => vec![vec![Do::Write(0)], vec![Do::WriteBytes(1)]],
        3 => vec![vec![Do::Write(0), Do::Write(1), verify]],
        _ => vec![vec![Do::Write(2), Do::Write(1)], vec![Do::Write(0)]],
    };
    ps.push(match ctx.choose(ctx.by_tier(2, 3)) {
        0 => vec![verify],
        1 => vec![verify, verify],
        _ => vec![Do::Token(0), verify, Do::Token(1)],
    });
    execute(ctx, &ps, start)
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "pairs",
            bounds: "all programs of one or two operations for each of two threads (quick: 6, thorough: 9 kinds of operation), on a store with or without earlier content; any number of preemptions",
            devs: (1000, 1000),
            run: pairs,
        },
        Harness {
            name: "trios",
            bounds: "three threads with one operation each out of 9; up to 2 (quick) or 4 preemptions",
            devs: (2, 4),
            run: trios,
        },
        Harness {
            name: "chains",
            bounds: "one or two verifications of a chain of three tokens (from text, from its identifier) while one or two threads write its proofs; up to 2 (quick) or 3 preemptions",
            devs: (2, 3),
            run: chains,
        },
        Harness {
            name: "crowd",
            bounds: "2 threads of up to 3 operations, 3 of up to 2, 4 of one; up to 1 (quick) or 2 preemptions",
            devs: (1, 2),
            run: crowd,
        },
    ]
}
