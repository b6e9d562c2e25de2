//! C08: failing or slow stores and keys never cause wrong acceptance.
use crate::{
    engine::{bad, Ctx, Harness, R},
    ensure,
    exec::{poll_up_to, run},
    fault::{fault_parser, under, FaultKey, FaultStore, Shared},
    sem::{of_view, AppSemantics},
    world::{cid_of, parser, sign_text, MapStore, Tok, ToyKey},
};
use cid::Cid;
use serde_json::json;
use std::{pin::Pin, sync::Arc};
use ucan::{
    builder::UcanBuilder,
    chain::ProofChain,
    crypto::did::DidParser,
    store::{UcanJwtStore, UcanStore},
    Ucan,
};

struct Scenario {
    what: &'static str,
    tokens: Vec<String>,
    top: String,
    good: bool,
    /// Proofs at all depths
    proofs: usize,
}

fn scenarios() -> Vec<Scenario> {
    let cap = |t: &mut Tok, r: &str| t.claim(r, "app/read", json!({}));
    let chain = |depth: u8, forged: bool| {
        let mut tokens: Vec<String> = vec![];
        for i in 0..=depth {
            let mut t = Tok::new(i, i + 1);
            cap(&mut t, "app:/a");
            if let Some(last) = tokens.last() {
                t.cite(cid_of(last).to_string());
            }
            tokens.push(if forged && i == 0 {
                sign_text(&t.signed_data(), &ToyKey::new(9))
            } else {
                t.text()
            });
        }
        tokens
    };
    let mut out = vec![];
    for (what, depth, forged) in [
        ("one token", 0, false),
        ("a proof", 1, false),
        ("a chain of four", 3, false),
        ("a forged first token", 2, true),
    ] {
        let mut tokens = chain(depth, forged);
        let top = tokens.pop().unwrap_or_default();
        out.push(Scenario {
            what,
            tokens,
            top,
            good: !forged,
            proofs: depth as usize,
        });
    }
    // several proofs, one of them shared, with redelegation
    let mut leaf = Tok::new(0, 1);
    cap(&mut leaf, "app:/a");
    let leaf = leaf.text();
    let mut mids = vec![];
    for n in ["x", "y"] {
        let mut m = Tok::new(1, 2);
        m.nnc = Some(n.into());
        m.cite(cid_of(&leaf).to_string());
        m.claim("prf:0", "ucan/DELEGATE", json!({}));
        mids.push(m.text());
    }
    let mut top = Tok::new(2, 3);
    for m in &mids {
        top.cite(cid_of(m).to_string());
    }
    top.claim("prf:*", "ucan/DELEGATE", json!({}));
    let top = top.text();
    out.push(Scenario {
        what: "a tree with a shared proof",
        tokens: vec![leaf, mids[0].clone(), mids[1].clone()],
        top,
        good: true,
        proofs: 4,
    });
    // several proofs of different capabilities, of which one is redelegated
    let mut tokens = vec![];
    let mut top = Tok::new(1, 2);
    for k in 0..3u8 {
        let mut t = Tok::new(10 + k, 1);
        cap(&mut t, &format!("app:/{k}"));
        top.cite(cid_of(&t.text()).to_string());
        tokens.push(t.text());
    }
    top.claim("prf:1", "ucan/DELEGATE", json!({}));
    out.push(Scenario {
        what: "one of three proofs, redelegated",
        tokens,
        top: top.text(),
        good: true,
        proofs: 3,
    });
    // the same proof cited twice
    let mut leaf = Tok::new(0, 1);
    cap(&mut leaf, "app:/a");
    let leaf = leaf.text();
    let mut top = Tok::new(1, 2);
    cap(&mut top, "app:/a");
    for _ in 0..2 {
        top.cite(cid_of(&leaf).to_string());
    }
    out.push(Scenario {
        what: "a proof cited twice",
        tokens: vec![leaf],
        top: top.text(),
        good: true,
        proofs: 2,
    });
    // a missing proof after two good ones
    let mut a = Tok::new(0, 1);
    cap(&mut a, "app:/a");
    let mut b = Tok::new(5, 1);
    cap(&mut b, "app:/b");
    let (a, b) = (a.text(), b.text());
    let mut top = Tok::new(1, 2);
    for p in [&a, &b, &"missing".to_string()] {
        top.cite(cid_of(p).to_string());
    }
    out.push(Scenario {
        what: "a missing proof",
        tokens: vec![a, b],
        top: top.text(),
        good: false,
        proofs: 3,
    });
    out
}

fn count(c: &ProofChain) -> usize {
    c.proofs().iter().map(|p| 1 + count(p)).sum()
}

/// The tokens of a chain, in order
fn tree(c: &ProofChain, out: &mut String) {
    out.push_str(&cid_of(&c.ucan().encode().unwrap_or_default()).to_string());
    out.push('(');
    for p in c.proofs() {
        tree(p, out);
    }
    out.push(')');
}

fn show(c: &ProofChain) -> String {
    let mut caps: Vec<String> = c
        .reduce_capabilities(&AppSemantics)
        .iter()
        .map(|i| {
            format!(
                "{} {:?} {:?} {:?}",
                of_view(&i.capability).show(),
                i.originators,
                i.not_before,
                i.expires_at
            )
        })
        .collect();
    caps.sort();
    let mut tokens = String::new();
    tree(c, &mut tokens);
    format!("{} proofs, {caps:?} of {tokens}", count(c))
}

async fn verify<S: UcanJwtStore>(
    entry: usize,
    top: &str,
    parser: &mut DidParser,
    store: &S,
) -> anyhow::Result<ProofChain> {
    match entry {
        0 => ProofChain::try_from_token_string(top, None, parser, store).await,
        1 => ProofChain::from_cid(&cid_of(top), None, parser, store).await,
        _ => ProofChain::from_ucan(Ucan::try_from(top)?, None, parser, store).await,
    }
}

fn verification(ctx: &mut Ctx) -> R {
    judge(ctx, &scenarios())
}

/// Long chains, many proofs
fn large_scenarios(ctx: &Ctx) -> Vec<Scenario> {
    let mut out = vec![];
    let cap = |t: &mut Tok| t.claim("app:/a", "app/read", json!({}));
    for n in ctx.by_tier(vec![9usize, 34], vec![9, 17, 34, 66, 130]) {
        let mut tokens: Vec<String> = vec![];
        for i in 0..=n {
            let mut t = Tok::new(i as u8, i as u8 + 1);
            cap(&mut t);
            if let Some(last) = tokens.last() {
                t.cite(cid_of(last).to_string());
            }
            tokens.push(t.text());
        }
        let top = tokens.pop().unwrap_or_default();
        out.push(Scenario { what: "a long chain", tokens, top, good: true, proofs: n });
    }
    for n in ctx.by_tier(vec![9usize, 34], vec![9, 17, 34, 66, 130, 260]) {
        let mut top = Tok::new(1, 2);
        top.claim("prf:*", "ucan/DELEGATE", json!({}));
        let mut tokens = vec![];
        for i in 0..n {
            let mut t = Tok::new(10 + (i % 200) as u8, 1);
            t.nnc = Some(format!("{i}"));
            cap(&mut t);
            let t = t.text();
            top.cite(cid_of(&t).to_string());
            tokens.push(t);
        }
        let top = top.text();
        out.push(Scenario { what: "many proofs", tokens, top, good: true, proofs: n });
    }
    // three levels of three proofs each, each issuer's tokens cited once
    let mut tokens = vec![];
    let mut below: Vec<(u8, String)> = vec![];
    for level in 0..4usize {
        let width = [27, 9, 3, 1][level];
        let mut here = vec![];
        for i in 0..width {
            let iss = (level * 40 + i) as u8;
            let mut t = Tok::new(iss, ((level + 1) * 40 + i / 3) as u8);
            t.nnc = Some(format!("{level} {i}"));
            cap(&mut t);
            if level > 0 {
                for (_, b) in &below[i * 3..i * 3 + 3] {
                    t.cite(cid_of(b).to_string());
                }
            }
            here.push((iss, t.text()));
        }
        tokens.extend(here.iter().map(|(_, t)| t.clone()));
        below = here;
    }
    let top = tokens.pop().unwrap_or_default();
    out.push(Scenario { what: "a large tree", tokens, top, good: true, proofs: 39 });
    out
}

fn large(ctx: &mut Ctx) -> R {
    let all = large_scenarios(ctx);
    judge(ctx, &all)
}

fn judge(ctx: &mut Ctx, all: &[Scenario]) -> R {
    let s = ctx.pick(all);
    let entry = ctx.choose(3);
    let always = ctx.choose(2);
    let store = FaultStore::default();
    let mut plain = MapStore::default();
    for t in s.tokens.iter().chain([&s.top]) {
        store.put(t);
        plain.put(t);
    }
    let baseline = run(verify(entry, &s.top, &mut parser(), &plain))?
        .ok()
        .map(|c| show(&c));
    ensure!(
        baseline.is_some() == s.good,
        "{}: accepted {:?} without any failure",
        s.what,
        baseline
    );
    ctx.log(|| format!("{} through entry {entry}, every operation suspended {always} times", s.what));
    let mut keys = fault_parser();
    // two attempts under faults, and one without
    for attempt in 0..3 {
        let faulty = attempt < 2;
        let abandon = if faulty { ctx.dev(13) } else { 0 };
        ctx.log(|| format!("attempt {attempt}, abandoned after {abandon} polls (0: never)"));
        let (r, seen) = under(ctx, faulty, always, || -> R<Option<anyhow::Result<ProofChain>>> {
            if abandon > 0 {
                let mut f = Box::pin(verify(entry, &s.top, &mut keys, &store));
                return poll_up_to(&mut f, abandon);
            }
            run(verify(entry, &s.top, &mut keys, &store)).map(Some)
        });
        ctx.state(&(s.what, entry, always, attempt, abandon, &seen.faults, seen.calls));
        match r? {
            None => {
                ensure!(abandon > 0, "an attempt that was not abandoned has no result");
                ctx.outcome("abandoned");
            }
            Some(Ok(chain)) => {
                ensure!(
                    seen.faults.is_empty(),
                    "{}: accepted although {:?} failed",
                    s.what,
                    seen.faults
                );
                let got = show(&chain);
                ensure!(
                    baseline.as_ref() == Some(&got),
                    "{}: {got} instead of {baseline:?}",
                    s.what
                );
                ensure!(count(&chain) == s.proofs, "{}: proofs are lacking", s.what);
                ctx.outcome("accepted");
            }
            Some(Err(e)) => {
                ensure!(
                    !seen.faults.is_empty() || !s.good,
                    "{}: refused although nothing failed (in attempt {attempt}): {e:#}",
                    s.what
                );
                ctx.outcome(if seen.faults.is_empty() {
                    "refused for what it is"
                } else {
                    "refused for a failure"
                });
            }
        }
    }
    Ok(())
}

/// A single token: signature, validity, accessors of the store
fn pieces(ctx: &mut Ctx) -> R {
    let mut t = Tok::new(0, 1);
    t.claim("app:/a", "app/read", json!({}));
    let genuine = !ctx.flag();
    let text = if genuine {
        t.text()
    } else {
        sign_text(&t.signed_data(), &ToyKey::new(9))
    };
    let what = ctx.choose(6);
    let always = ctx.choose(2);
    let mut store = FaultStore::default();
    let cid = cid_of(&text);
    if what != 5 {
        store.put(&text);
    }
    let ucan = match Ucan::try_from(text.as_str()) {
        Ok(u) => u,
        Err(e) => return bad(format!("a token is not read: {e:#}")),
    };
    let mut keys = fault_parser();
    for attempt in 0..3 {
        let (r, seen) = under(ctx, attempt < 2, always, || -> R<Result<Option<String>, String>> {
            let show = |e: anyhow::Error| format!("{e:#}");
            Ok(match what {
                0 => run(ucan.check_signature(&mut keys))?.map(|_| None).map_err(show),
                1 => run(ucan.validate(None, &mut keys))?.map(|_| None).map_err(show),
                2 => run(store.require_token(&cid))?.map(Some).map_err(show),
                3 => run(store.read_token(&cid))?.map_err(show),
                _ => run(store.write_token(&text))?.map(|c| Some(c.to_string())).map_err(show),
            })
        });
        let r = r?;
        ctx.log(|| format!("operation {what}, attempt {attempt}: {r:?}"));
        ctx.state(&(what, genuine, always, attempt, &seen.faults));
        let ok = genuine || what > 1;
        match &r {
            Ok(v) => {
                let soft = what == 3 && v.is_none();
                ensure!(
                    seen.faults.is_empty() || soft || garbled(&seen.faults),
                    "operation {what} succeeds with {v:?} although {:?} failed",
                    seen.faults
                );
                ensure!(ok, "operation {what} accepts a forged token");
                if seen.faults.is_empty() {
                    let expected = match what {
                        0 | 1 => None,
                        2 | 3 => Some(text.clone()),
                        _ => Some(cid.to_string()),
                    };
                    ensure!(v == &expected, "operation {what} gives {v:?}");
                }
                ctx.outcome("succeeded");
            }
            Err(e) => {
                ensure!(
                    !seen.faults.is_empty() || !ok,
                    "operation {what} fails although nothing failed: {e}"
                );
                ctx.outcome("failed");
            }
        }
        if what >= 4 && r.is_ok() {
            let back = run(store.read_token(&cid))?;
            ensure!(
                matches!(&back, Ok(Some(t)) if t == &text),
                "an acknowledged write is not read back: {back:?}"
            );
        }
    }
    Ok(())
}

/// What is read may be other text; that is not a failed read of the accessors
fn garbled(faults: &[String]) -> bool {
    faults
        .iter()
        .all(|f| ["read (3)", "read (5)", "read (6)"].contains(&f.as_str()))
}

fn signing(ctx: &mut Ctx) -> R {
    let always = ctx.choose(3);
    let key = FaultKey(ToyKey::new(0));
    let nonce = ctx.flag();
    let parent = Tok::new(5, 0).text();
    let parent = match Ucan::try_from(parent) {
        Ok(u) => u,
        Err(e) => return bad(format!("a token is not read: {e:#}")),
    };
    let cap = ("app:/a".to_string(), "app/read".to_string(), json!({}));
    let mut builder = UcanBuilder::default()
        .issued_by(&key)
        .for_audience(&ToyKey::new(1).did())
        .with_lifetime(60)
        .claiming_capability(cap)
        .witnessed_by(&parent, None);
    if nonce {
        builder = builder.with_nonce();
    }
    let signable = match builder.build() {
        Ok(s) => s,
        Err(e) => return bad(format!("a complete builder is refused: {e:#}")),
    };
    for attempt in 0..3 {
        let faulty = attempt < 2;
        let abandon = if faulty { ctx.dev(5) } else { 0 };
        ctx.log(|| format!("signing, attempt {attempt}, abandoned after {abandon} polls (0: never)"));
        let (r, seen) = under(ctx, faulty, always, || -> R<Option<anyhow::Result<Ucan>>> {
            if abandon > 0 {
                return poll_up_to(&mut Box::pin(signable.sign()), abandon);
            }
            run(signable.sign()).map(Some)
        });
        ctx.state(&(always, nonce, attempt, abandon, &seen.faults));
        match r? {
            None => ctx.outcome("abandoned"),
            Some(Ok(u)) => {
                ensure!(
                    seen.faults.is_empty(),
                    "a token is issued although {:?} failed",
                    seen.faults
                );
                ensure!(
                    u.issuer() == key.0.did() && !u.signature().is_empty(),
                    "the token names the issuer {:?}",
                    u.issuer()
                );
                ensure!(
                    run(u.check_signature(&mut parser()))?.is_ok(),
                    "the token that was issued is not signed"
                );
                ctx.outcome("signed");
            }
            Some(Err(e)) => {
                ensure!(
                    !seen.faults.is_empty(),
                    "signing fails although nothing failed: {e:#}"
                );
                ctx.outcome("not signed");
            }
        }
    }
    Ok(())
}

type Task<'a> = Pin<Box<dyn std::future::Future<Output = ()> + 'a>>;

/// Two verifications and a write of a proof, in every order of polls
fn interleaved(ctx: &mut Ctx) -> R {
    let mut leaf = Tok::new(0, 1);
    leaf.claim("app:/a", "app/read", json!({}));
    let leaf = leaf.text();
    let mut late = Tok::new(5, 1);
    late.claim("app:/b", "app/read", json!({}));
    let late = late.text();
    let mut top = Tok::new(1, 2);
    top.cite(cid_of(&leaf).to_string());
    top.cite(cid_of(&late).to_string());
    top.claim("app:/a", "app/read", json!({}));
    let top = top.text();
    let store = Arc::new(FaultStore::default());
    store.put(&leaf);
    let mut writer = Shared(store.clone());
    let readers: Vec<Shared> = (0..2).map(|_| Shared(store.clone())).collect();
    let mut parsers = [fault_parser(), fault_parser()];
    let mut results: [Option<Result<String, String>>; 2] = [None, None];
    let mut wrote: Option<anyhow::Result<Cid>> = None;
    let two = ctx.thorough();
    // no faults; every operation is suspended, so that the schedule matters
    let mut schedule = vec![];
    let (r, _) = {
        // the schedule is chosen up front: a sequence of tasks to poll
        let tasks = if two { 3 } else { 2 };
        let mut left: Vec<usize> = match tasks {
            3 => vec![12, 6, 2],
            _ => vec![10, 2],
        };
        if !two {
            left = vec![12, 2];
        }
        loop {
            let open: Vec<usize> = (0..tasks).filter(|i| left[*i] > 0).collect();
            if open.is_empty() {
                break;
            }
            let i = *ctx.pick(&open);
            left[i] -= 1;
            schedule.push(i);
        }
        under(ctx, false, 1, || -> R<Vec<Option<usize>>> {
            let mut done: Vec<Option<usize>> = vec![None; 3];
            {
                let [p0, p1] = &mut parsers;
                let [r0, r1] = &mut results;
                let (s0, s1) = (&readers[0], &readers[1]);
                let (top0, late0) = (&top, &late);
                let first = async move {
                    *r0 = Some(
                        ProofChain::try_from_token_string(top0, None, p0, s0)
                            .await
                            .map(|c| show(&c))
                            .map_err(|e| format!("{e:#}")),
                    );
                };
                let second = async move {
                    *r1 = Some(
                        ProofChain::try_from_token_string(late0, None, p1, s1)
                            .await
                            .map(|c| show(&c))
                            .map_err(|e| format!("{e:#}")),
                    );
                };
                let w = &mut wrote;
                let writing = async move {
                    *w = Some(writer.write_token(late0).await);
                };
                let mut tasks: Vec<Option<Task>> = if two {
                    vec![Some(Box::pin(first)), Some(Box::pin(second)), Some(Box::pin(writing))]
                } else {
                    vec![Some(Box::pin(first)), Some(Box::pin(writing))]
                };
                // whatever is left is polled to completion
                let n = tasks.len();
                let rest = (0..n).flat_map(|i| std::iter::repeat_n(i, 64));
                for (step, i) in schedule.iter().copied().chain(rest).enumerate() {
                    if let Some(t) = tasks[i].as_mut() {
                        if poll_up_to(t, 1)?.is_some() {
                            tasks[i] = None;
                            done[if i == n - 1 { 2 } else { i }] = Some(step);
                        }
                    }
                }
            }
            Ok(done)
        })
    };
    let done = r?;
    ctx.log(|| format!("polls in the order {schedule:?}; done at {done:?}"));
    ctx.state(&(schedule.clone(), done.clone()));
    ctx.ops(schedule.len());
    ensure!(
        matches!(&wrote, Some(Ok(c)) if *c == cid_of(&late)),
        "the write ends with {wrote:?}"
    );
    match &results[0] {
        Some(Ok(s)) => {
            ensure!(
                s.starts_with("2 proofs"),
                "accepted with {s}, but there are two proofs"
            );
            ctx.outcome("accepted with both proofs");
        }
        Some(Err(e)) => {
            // the write must not have been over before the verification began
            let began = schedule.iter().position(|i| *i == 0).unwrap_or(usize::MAX);
            ensure!(
                done[2].is_some_and(|w| w > began),
                "refused ({e}), although the proof was in the store all the time"
            );
            ctx.outcome("refused for want of the proof");
        }
        None => return bad("the verification has no result"),
    }
    if two {
        ensure!(
            matches!(&results[1], Some(Ok(_))),
            "a verification beside another one ends with {:?}",
            results[1]
        );
    }
    // and from now on it is accepted
    let r = run(ProofChain::try_from_token_string(
        &top,
        None,
        &mut parsers[0],
        &readers[0],
    ))?;
    ensure!(r.is_ok(), "refused with all proofs in the store: {:?}", r.err());
    let _ = run(readers[0].read::<libipld_core::ipld::Ipld>(&cid_of(&late)))?;
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "verification",
            bounds: "8 token graphs x 3 entry points, three attempts in a row on one parser and store, with <=2 (thorough 3) failures, suspensions or abandonments (after 1..12 polls) in the first two, at any operation: reads failing in 6 ways, key construction, signature checks; with and without suspension of every operation",
            devs: (2, 3),
            run: verification,
        },
        Harness {
            name: "large",
            bounds: "chains of 9 and 34 (thorough to 130), 9 and 34 (thorough to 260) proofs, and a tree of 39 proofs, x 3 entry points, three attempts with one failure, suspension or abandonment at any operation of the first two",
            devs: (1, 1),
            run: large,
        },
        Harness {
            name: "pieces",
            bounds: "signature check, validation, token reads and writes, three attempts with <=3 (thorough 4) failures or suspensions",
            devs: (3, 4),
            run: pieces,
        },
        Harness {
            name: "signing",
            bounds: "signing three times in a row with <=3 (thorough 5) failures, suspensions or abandonments of DID lookup and signature",
            devs: (3, 5),
            run: signing,
        },
        Harness {
            name: "interleaved",
            bounds: "a verification, the write of its missing proof (thorough: and a second verification) as cooperating tasks, every order of polls",
            devs: (0, 0),
            run: interleaved,
        },
    ]
}
