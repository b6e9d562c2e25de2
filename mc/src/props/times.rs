//! C04: validity periods are enforced at the instant the caller names.
//! C06: reported bounds are those under which the capability holds.
use super::links::{ends_no_earlier, starts_no_later};
use crate::{
    clock,
    engine::{Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    sem::{of_view, AppSemantics},
    world::{cid_of, parser, MapStore, Tok},
};
use serde_json::json;
use ucan::{chain::ProofChain, Ucan};

const T: u64 = 1_000_000;
const EDGES: [Option<u64>; 10] = [
    None,
    Some(0),
    Some(1),
    Some(T - 1),
    Some(T),
    Some(T + 1),
    Some(2 * T),
    Some(i64::MAX as u64),
    Some(u64::MAX - 1),
    Some(u64::MAX),
];

fn parse(text: &str) -> R<Ucan> {
    Ucan::try_from(text)
        .map_err(|e| Fail::Violation(format!("a well-formed token is not read: {e:#}")))
}

/// The verdict of each of the ways to verify a token, which agree
fn verdict(ctx: &mut Ctx, text: &str, asked: Option<u64>, store: &MapStore) -> R<bool> {
    let mut store = store.clone();
    store.put(text);
    let cid = cid_of(text);
    let ucan = parse(text)?;
    ctx.ops(3);
    let by_text = run(ProofChain::try_from_token_string(text, asked, &mut parser(), &store))?.is_ok();
    let by_cid = run(ProofChain::from_cid(&cid, asked, &mut parser(), &store))?.is_ok();
    let parsed = run(ProofChain::from_ucan(ucan, asked, &mut parser(), &store))?.is_ok();
    ensure!(
        by_text == by_cid && by_text == parsed,
        "accepted by its text: {by_text}, by its identifier: {by_cid}, parsed: {parsed}"
    );
    Ok(by_text)
}

fn single(ctx: &mut Ctx) -> R {
    let mut tok = Tok::new(0, 1);
    tok.nbf = *ctx.pick(&EDGES);
    tok.exp = *ctx.pick(&EDGES);
    let asked = *ctx.pick(&[
        None,
        Some(0),
        Some(1),
        Some(T - 1),
        Some(T),
        Some(T + 1),
        Some(2 * T),
        Some(u64::MAX - 1),
        Some(u64::MAX),
    ]);
    let now = *ctx.pick(&[0, 1, T - 1, T, T + 1, 3 * T, 1 << 40]);
    let nanos = *ctx.pick(&clock::WITHIN);
    clock::set_within(now, nanos);
    let text = tok.text();
    ctx.state(&(&text, asked, now));
    ctx.log(|| {
        format!(
            "valid {:?}..{:?}, asked for {asked:?}, the clock says {now}.{nanos:09}",
            tok.nbf, tok.exp
        )
    });
    let ucan = parse(&text)?;
    let at = asked.unwrap_or(now);
    let early = |t: u64| tok.nbf.is_some_and(|b| t < b);
    let expired = |t: u64| tok.exp.is_some_and(|e| t > e);
    ctx.ops(6);
    ensure!(
        ucan.is_expired(asked) == expired(at),
        "is_expired({asked:?}) is {} at {at}",
        ucan.is_expired(asked)
    );
    ensure!(
        ucan.is_expired(None) == expired(now),
        "is_expired(None) is {} at {now}",
        ucan.is_expired(None)
    );
    ensure!(
        ucan.is_too_early() == early(now),
        "is_too_early() is {} at {now}",
        ucan.is_too_early()
    );
    let expected = !early(at) && !expired(at);
    let got = run(ucan.validate(asked, &mut parser()))?.is_ok();
    ensure!(
        got == expected,
        "validate({asked:?}) accepts: {got}; expected {expected} at {at}"
    );
    let store = MapStore::default();
    let got = verdict(ctx, &text, asked, &store)?;
    ensure!(
        got == expected,
        "a chain of one token at {asked:?}: accepted {got}; expected {expected} at {at}"
    );
    ensure!(
        ucan.not_before() == &tok.nbf && ucan.expires_at() == &tok.exp,
        "the token shows other bounds than {:?}..{:?}",
        tok.nbf,
        tok.exp
    );
    ctx.outcome(match (early(at), expired(at)) {
        (false, false) => "valid",
        (true, false) => "too early",
        (false, true) => "expired",
        _ => "empty period",
    });
    Ok(())
}

fn pairs(ctx: &mut Ctx) -> R {
    let period = |c: &mut Ctx| (*c.pick(&EDGES), *c.pick(&EDGES));
    let a = period(ctx);
    let b = period(ctx);
    let make = |p: (Option<u64>, Option<u64>)| {
        let mut t = Tok::new(0, 1);
        t.nbf = p.0;
        t.exp = p.1;
        parse(&t.text())
    };
    ctx.state(&(a, b));
    ctx.log(|| format!("{a:?} against {b:?}"));
    let (x, y) = (make(a)?, make(b)?);
    ctx.ops(3);
    let begins = starts_no_later(a.0, b.0);
    let ends = ends_no_earlier(a.1, b.1);
    ensure!(
        x.lifetime_begins_before(&y) == begins,
        "begins before: {} instead of {begins}",
        !begins
    );
    ensure!(
        x.lifetime_ends_after(&y) == ends,
        "ends after: {} instead of {ends}",
        !ends
    );
    ensure!(
        x.lifetime_encompasses(&y) == (begins && ends),
        "encompasses: {} instead of {}",
        x.lifetime_encompasses(&y),
        begins && ends
    );
    ctx.outcome(if begins && ends {
        "contained"
    } else {
        "not contained"
    });
    Ok(())
}

fn chain(ctx: &mut Ctx) -> R {
    let n = 2 + ctx.choose(2);
    let near = [None, Some(T - 1), Some(T), Some(T + 1)];
    let wide = [None, Some(T)];
    let asked = *ctx.pick(&[None, Some(T - 1), Some(T), Some(T + 1)]);
    let now = *ctx.pick(&[T - 1, T, T + 1, 5, 9 * T]);
    clock::set(now);
    let at = asked.unwrap_or(now);
    let mut store = MapStore::default();
    let mut last: Option<(Tok, String)> = None;
    let mut expected = true;
    for level in 0..n {
        let mut tok = Tok::new(level as u8, level as u8 + 1);
        let full = n == 2 || ctx.thorough();
        tok.nbf = *if full { ctx.pick(&near) } else { ctx.pick(&wide) };
        tok.exp = *if full { ctx.pick(&near) } else { ctx.pick(&near) };
        if let Some((proof, text)) = &last {
            tok.cite(store.put(text));
            expected &=
                starts_no_later(proof.nbf, tok.nbf) && ends_no_earlier(proof.exp, tok.exp);
        }
        expected &= tok.nbf.is_none_or(|b| b <= at) && tok.exp.is_none_or(|e| at <= e);
        ctx.log(|| format!("token {level}: valid {:?}..{:?}", tok.nbf, tok.exp));
        let text = tok.text();
        ctx.state(&(&text, asked, now));
        last = Some((tok, text));
    }
    let Some((_, text)) = last else {
        return Err(Fail::Prune);
    };
    ctx.log(|| format!("asked for {asked:?}, the clock says {now}; legitimate: {expected}"));
    ctx.ops(n);
    let got = verdict(ctx, &text, asked, &store)?;
    ensure!(
        got == expected,
        "accepted at {asked:?} with the clock at {now}: {got}; expected {expected}"
    );
    ctx.outcome(if expected { "accepted" } else { "refused" });
    Ok(())
}

/// Every token of a tree is looked at: one of several proofs is out of its period
fn siblings(ctx: &mut Ctx) -> R {
    let n = 1 + ctx.choose(ctx.by_tier(4, 6));
    let deep = ctx.flag();
    let asked = *ctx.pick(&[None, Some(T)]);
    let now = *ctx.pick(&[T, 5, 9 * T]);
    clock::set(now);
    let at = asked.unwrap_or(now);
    let odd = ctx.choose(n + 1);
    let how = ctx.choose(4);
    let mut store = MapStore::default();
    let mut top = Tok::new(1, 2);
    let mut expected = true;
    for k in 0..n {
        let mut leaf = Tok::new(10 + k as u8, if deep { 7 } else { 1 });
        if k == odd {
            match how {
                0 => leaf.exp = Some(T - 1),
                1 => leaf.nbf = Some(T + 1),
                2 => leaf.exp = Some(T),
                _ => leaf.nbf = Some(T),
            }
            // any bound is narrower than the unlimited token that cites it
            expected = false;
        }
        if deep {
            let mut mid = Tok::new(7, 1);
            mid.nnc = Some(format!("{k}"));
            mid.cite(store.put(&leaf.text()));
            leaf = mid;
        }
        top.cite(store.put(&leaf.text()));
    }
    let _ = at;
    let text = top.text();
    ctx.state(&(&text, asked, now));
    ctx.log(|| format!("{n} proofs (below another token: {deep}), number {odd} bounded ({how})"));
    ctx.ops(n + 1);
    let got = verdict(ctx, &text, asked, &store)?;
    ensure!(got == expected, "accepted: {got}; expected {expected}");
    ctx.outcome(if expected { "accepted" } else { "refused" });
    Ok(())
}

/// The instant asked for is the one at every depth and for every proof
fn far(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(if ctx.thorough() {
        &[4usize, 5, 6, 8, 9, 16, 17, 32, 33, 64, 65, 66, 100, 128, 129, 180][..]
    } else {
        &[4usize, 5, 8, 9, 17, 33, 65][..]
    });
    let row = ctx.flag();
    let bounds = [None, Some(0), Some(1), Some(T - 1), Some(T), Some(T + 1), Some(u64::MAX)];
    let nbf = *ctx.pick(&bounds);
    let exp = *ctx.pick(&bounds);
    // below this level, or before this proof, there is no such bound
    let from = ctx.choose(3) * (n - 1) / 2;
    let asked = *ctx.pick(&[None, Some(0), Some(T - 1), Some(T), Some(T + 1), Some(u64::MAX)]);
    let now = *ctx.pick(&[T, 5, 9 * T]);
    clock::set(now);
    let at = asked.unwrap_or(now);
    let within = nbf.is_none_or(|b| b <= at) && exp.is_none_or(|e| at <= e);
    let mut store = MapStore::default();
    let mut top = Tok::new(1, 2);
    let mut expected = true;
    if row {
        for k in 0..n {
            let mut leaf = Tok::new(10 + k as u8 % 200, 1);
            leaf.nnc = Some(format!("{k}"));
            if k >= from {
                (leaf.nbf, leaf.exp) = (nbf, exp);
            }
            top.cite(store.put(&leaf.text()));
        }
        (top.nbf, top.exp) = (nbf, exp);
        expected &= within;
    } else {
        let mut last: Option<String> = None;
        for k in 0..n {
            top = Tok::new(k as u8, k as u8 + 1);
            if k >= from {
                (top.nbf, top.exp) = (nbf, exp);
            }
            if let Some(t) = &last {
                top.cite(store.put(t));
            }
            last = Some(top.text());
        }
        expected &= within;
    }
    let text = top.text();
    ctx.state(&(&text, asked, now));
    ctx.log(|| format!("{n} tokens (in a row: {row}) valid {nbf:?}..{exp:?} from number {from}; asked for {asked:?}, the clock says {now}; legitimate: {expected}"));
    ctx.ops(n);
    let got = verdict(ctx, &text, asked, &store)?;
    ensure!(got == expected, "accepted: {got}; expected {expected}");
    ctx.outcome(if expected { "accepted" } else { "refused" });
    Ok(())
}

pub fn c04() -> Vec<Harness> {
    vec![
        Harness {
            name: "far",
            bounds: "chains of 4..65 (thorough 180) tokens and as many proofs of one, with 49 periods from any of 3 places on, x 6 instants x 3 clock readings",
            devs: (0, 0),
            run: far,
        },
        Harness {
            name: "single",
            bounds: "10 not-before times x 10 expirations x 9 instants (one of them the clock's) x 7 clock readings at 5 points within the second, on one token",
            devs: (0, 0),
            run: single,
        },
        Harness {
            name: "pairs",
            bounds: "all pairs of 100 periods",
            devs: (0, 0),
            run: pairs,
        },
        Harness {
            name: "chain",
            bounds: "chains of 2 tokens with all pairs of 16 periods, of 3 tokens with 8 (thorough 16) periods each, x 4 instants x 5 clock readings",
            devs: (0, 0),
            run: chain,
        },
        Harness {
            name: "siblings",
            bounds: "1..4 (thorough 6) proofs, direct or one level down, one of them with a bound, 2 instants x 3 clock readings",
            devs: (0, 0),
            run: siblings,
        },
    ]
}

// ---------------------------------------------------------------------------

fn judge_bounds(ctx: &mut Ctx, text: &str, top: &Tok, store: &MapStore, at_least: usize) -> R {
    ctx.state(&text);
    ctx.ops(2);
    let mut store = store.clone();
    store.put(text);
    let cid = cid_of(text);
    let mut infos = vec![];
    for entry in 0..3 {
        let mut keys = parser();
        let r = match entry {
            0 => run(ProofChain::try_from_token_string(text, Some(T), &mut keys, &store))?,
            1 => run(ProofChain::from_cid(&cid, Some(T), &mut keys, &store))?,
            _ => run(ProofChain::from_ucan(parse(text)?, Some(T), &mut keys, &store))?,
        };
        match r {
            Ok(c) => infos.extend(c.reduce_capabilities(&AppSemantics)),
            Err(e) => {
                ctx.outcome("refused");
                ctx.log(|| format!("refused: {e:#}"));
                return Ok(());
            }
        }
    }
    for i in &infos {
        ctx.log(|| {
            format!(
                "reported {} from {:?} to {:?}",
                of_view(&i.capability).show(),
                i.not_before,
                i.expires_at
            )
        });
        ensure!(
            i.not_before == top.nbf && i.expires_at == top.exp,
            "{} is reported as valid {:?}..{:?}, but the token is valid {:?}..{:?}",
            of_view(&i.capability).show(),
            i.not_before,
            i.expires_at,
            top.nbf,
            top.exp
        );
    }
    ctx.outcome(match infos.len() {
        0 => "nothing reported",
        1..=3 => "one capability",
        _ => "several capabilities",
    });
    let _ = at_least;
    Ok(())
}

const PATHS: [&str; 2] = ["app:/a", "app:/a/b"];

fn claims(ctx: &mut Ctx, tok: &mut Tok, proofs: usize) {
    match ctx.choose(if proofs == 0 { 3 } else { 8 }) {
        0 => tok.claim(PATHS[0], "app/write", json!({})),
        1 => {
            tok.claim(PATHS[0], "app/write", json!({}));
            tok.claim(PATHS[1], "app/read", json!({}));
        }
        2 => tok.claim(PATHS[1], "app/write", json!({})),
        3 => tok.claim("prf:0", "ucan/DELEGATE", json!({})),
        4 => tok.claim("prf:*", "ucan/DELEGATE", json!({})),
        5 => {
            tok.claim(PATHS[1], "app/read", json!({}));
            tok.claim("prf:0", "ucan/DELEGATE", json!({}));
        }
        6 => {
            tok.claim(PATHS[0], "app/admin", json!({}));
            tok.claim("prf:*", "ucan/DELEGATE", json!({}));
        }
        _ => tok.claim(
            &format!("prf:{}", proofs - 1),
            "ucan/DELEGATE",
            json!({}),
        ),
    }
}

/// The next period inside the given one
fn inside(ctx: &mut Ctx, outer: (Option<u64>, Option<u64>)) -> (Option<u64>, Option<u64>) {
    let nbf = match outer.0 {
        None => *ctx.pick(&[None, Some(10)]),
        Some(n) => *ctx.pick(&[Some(n), Some(n + 10)]),
    };
    let exp = match outer.1 {
        None => *ctx.pick(&[None, Some(9 * T)]),
        Some(e) => *ctx.pick(&[Some(e), Some(e - 10)]),
    };
    (nbf, exp)
}

fn bounds_chain(ctx: &mut Ctx) -> R {
    let n = 1 + ctx.choose(ctx.by_tier(4, 5));
    let mut store = MapStore::default();
    let mut period = (None, None);
    let mut last: Option<(Tok, String)> = None;
    for level in 0..n {
        let mut tok = Tok::new(level as u8, level as u8 + 1);
        period = inside(ctx, period);
        (tok.nbf, tok.exp) = period;
        if level > 0 || n == 1 {
            let proofs = usize::from(level > 0);
            claims(ctx, &mut tok, proofs);
        } else {
            tok.claim(PATHS[0], "app/write", json!({}));
            tok.claim(PATHS[1], "app/admin", json!({}));
        }
        if let Some((_, text)) = &last {
            tok.cite(store.put(text));
        }
        let text = tok.text();
        ctx.log(|| {
            format!(
                "token {level}: valid {:?}..{:?} claims {:?}",
                tok.nbf,
                tok.exp,
                tok.caps.iter().map(|c| &c.0).collect::<Vec<_>>()
            )
        });
        last = Some((tok, text));
    }
    let Some((top, text)) = last else {
        return Err(Fail::Prune);
    };
    judge_bounds(ctx, &text, &top, &store, 1)
}

fn bounds_tree(ctx: &mut Ctx) -> R {
    let mut store = MapStore::default();
    let wide = [
        (None, None),
        (Some(10), None),
        (None, Some(9 * T)),
        (Some(20), Some(8 * T)),
    ];
    let mut cids = vec![];
    let three = ctx.flag();
    for k in 0..if three { 3 } else { 2 } {
        let mut root = Tok::new(10 + k, 1);
        (root.nbf, root.exp) = *ctx.pick(&wide);
        root.claim(*ctx.pick(&PATHS), "app/write", json!({}));
        ctx.log(|| format!("proof {k}: valid {:?}..{:?}", root.nbf, root.exp));
        cids.push(store.put(&root.text()));
    }
    let mut mid = Tok::new(1, 2);
    (mid.nbf, mid.exp) = *ctx.pick(&[(Some(20), Some(8 * T)), (Some(30), Some(7 * T))]);
    claims(ctx, &mut mid, cids.len());
    for c in cids {
        mid.cite(c);
    }
    let text = mid.text();
    if ctx.flag() {
        return judge_bounds(ctx, &text, &mid, &store, 1);
    }
    let mut top = Tok::new(2, 3);
    (top.nbf, top.exp) = *ctx.pick(&[(Some(30), Some(7 * T)), (Some(40), Some(6 * T))]);
    claims(ctx, &mut top, 1);
    top.cite(store.put(&text));
    ctx.log(|| {
        format!(
            "token: valid {:?}..{:?} claims {:?}",
            top.nbf,
            top.exp,
            top.caps.iter().map(|c| &c.0).collect::<Vec<_>>()
        )
    });
    let text = top.text();
    judge_bounds(ctx, &text, &top, &store, 1)
}

/// Bounds that start anywhere in a long chain
fn bounds_deep(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(if ctx.thorough() {
        &[5usize, 6, 8, 9, 16, 17, 32, 33, 64, 65, 66, 100, 129][..]
    } else {
        &[5usize, 9, 33, 65][..]
    });
    let usual = ctx.choose(3);
    let odd = ctx.choose(4);
    let places = if ctx.thorough() {
        vec![0, 1, 2, 3, n / 2, n - 3, n - 2, n - 1]
    } else {
        vec![0, 1, n / 2, n - 1]
    };
    let odd_at = *ctx.pick(&places);
    let begin_at = *ctx.pick(&places);
    let end_at = *ctx.pick(&places);
    // the first bound, and by how much it is narrowed on each level
    let (begin, step) = *ctx.pick(&[(Some(0), 0), (Some(10), 1), (Some(T), 0), (None, 0)]);
    let (end, back) = *ctx.pick(&[(Some(u64::MAX), 0), (Some(u64::MAX), 1), (Some(T + 1000), 1), (Some(T), 0), (None, 0)]);
    let mut store = MapStore::default();
    let mut last: Option<String> = None;
    let mut top = Tok::new(0, 1);
    for level in 0..n {
        let mut tok = Tok::new(level as u8, level as u8 + 1);
        if level >= begin_at {
            tok.nbf = begin.map(|b| b + step * (level - begin_at) as u64);
        }
        if level >= end_at {
            tok.exp = end.map(|e| e - back * (level - end_at) as u64);
        }
        let kind = match level {
            0 => 0,
            l if l == odd_at => 3 + odd,
            _ => usual,
        };
        match kind {
            0 => {
                tok.claim(PATHS[0], "app/write", json!({}));
                tok.claim(PATHS[1], "app/admin", json!({}));
            }
            1 => tok.claim("prf:0", "ucan/DELEGATE", json!({})),
            2 => tok.claim("prf:*", "ucan/DELEGATE", json!({})),
            3 => tok.claim(PATHS[1], "app/read", json!({})),
            4 => {
                tok.claim(PATHS[1], "app/read", json!({}));
                tok.claim("prf:0", "ucan/DELEGATE", json!({}));
            }
            5 => {
                tok.claim(PATHS[0], "app/admin", json!({}));
                tok.claim("prf:*", "ucan/DELEGATE", json!({}));
            }
            _ => {}
        }
        if let Some(t) = &last {
            tok.cite(store.put(t));
        }
        last = Some(tok.text());
        top = tok;
    }
    ctx.log(|| format!("{n} tokens, step {usual}, but {odd} on level {odd_at}; not before {begin:?} (+{step} a level) from level {begin_at}, expiring {end:?} (-{back}) from level {end_at}"));
    let text = top.text();
    judge_bounds(ctx, &text, &top, &store, 1)
}

/// Many proofs of different periods
fn bounds_wide(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(if ctx.thorough() {
        &[4usize, 5, 8, 9, 16, 17, 33, 65, 129, 257, 300][..]
    } else {
        &[4usize, 5, 9, 17, 33, 65, 257][..]
    });
    let odd = *ctx.pick(&[0, 1, n / 2, n - 2, n - 1]);
    let all = [
        (None, None),
        (Some(0), Some(u64::MAX)),
        (Some(10), None),
        (None, Some(9 * T)),
        (Some(20), Some(8 * T)),
        (Some(T), Some(T)),
    ];
    let usual = *ctx.pick(&all);
    let other = *ctx.pick(&all);
    let mut store = MapStore::default();
    let mut top = Tok::new(1, 2);
    (top.nbf, top.exp) = *ctx.pick(&all);
    for k in 0..n {
        let mut p = Tok::new(10 + (k % 200) as u8, 1);
        p.nnc = Some(format!("{k}"));
        (p.nbf, p.exp) = if k == odd { other } else { usual };
        p.claim(PATHS[k % 2], "app/write", json!({}));
        top.cite(store.put(&p.text()));
    }
    match ctx.choose(6) {
        0 => top.claim(PATHS[0], "app/write", json!({})),
        1 => top.claim("prf:*", "ucan/DELEGATE", json!({})),
        2 => top.claim(&format!("prf:{odd}"), "ucan/DELEGATE", json!({})),
        3 => {
            top.claim(PATHS[1], "app/read", json!({}));
            top.claim(&format!("prf:{odd}"), "ucan/DELEGATE", json!({}));
        }
        4 => {
            top.claim("app:/other", "app/read", json!({}));
            top.claim("prf:*", "ucan/DELEGATE", json!({}));
        }
        _ => {
            for k in 0..n {
                top.claim(&format!("prf:{k}"), "ucan/DELEGATE", json!({}));
            }
        }
    }
    ctx.log(|| format!("{n} proofs valid {usual:?}, number {odd} {other:?}; the token {:?}..{:?} claims {:?}", top.nbf, top.exp, top.caps.iter().map(|c| &c.0).take(5).collect::<Vec<_>>()));
    let text = top.text();
    judge_bounds(ctx, &text, &top, &store, 1)
}

pub fn c06() -> Vec<Harness> {
    vec![
        Harness {
            name: "bounds_deep",
            bounds: "chains of 5..65 (thorough 129) tokens in which all steps but one are alike (3 x 4 kinds at 4, thorough 8, places), bounds of 20 kinds starting at 4 x 4 (thorough 8 x 8) places",
            devs: (0, 0),
            run: bounds_deep,
        },
        Harness {
            name: "bounds_wide",
            bounds: "4..257 (thorough 300) proofs of one period, but one (at 5 places) of another, and the token of a third (6 each), 6 kinds of claims",
            devs: (0, 0),
            run: bounds_wide,
        },
        Harness {
            name: "bounds_chain",
            bounds: "chains of 1..4 (thorough 5) tokens with every nesting of 2 x 2 bounds per level and 8 kinds of claims and redelegations per level",
            devs: (0, 0),
            run: bounds_chain,
        },
        Harness {
            name: "bounds_tree",
            bounds: "2..3 proofs with 4 periods and 2 claims each under one or two further tokens with 2 periods and 8 kinds of claims each",
            devs: (0, 0),
            run: bounds_tree,
        },
    ]
}
