//! C01 and C02: what a verified chain reports, against a reference model of
//! delegation that works on plain sets of (capability, originator).
use crate::{
    engine::{Ctx, Harness, R},
    ensure,
    exec::run,
    sem::{of_view, ref_parse, AppSemantics, RCap},
    world::{cid_of, name_of, parser, MapStore, Tok, ToyKey},
};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use ucan::{chain::ProofChain, Ucan};

#[derive(Clone, Copy, PartialEq)]
enum Side {
    /// Nothing reported beyond what was delegated
    Sound,
    /// Nothing delegated is missing from the report
    Complete,
}

type Claim = (String, String, Value);

struct Node {
    tok: Tok,
    proofs: Vec<usize>,
}

#[derive(Default)]
struct World {
    nodes: Vec<Node>,
    store: MapStore,
    texts: Vec<String>,
    /// What the tokens say besides their claims
    dress: usize,
}

const NOW: u64 = 1_000_000;

#[derive(Clone)]
struct Grant {
    cap: RCap,
    origins: BTreeSet<String>,
    /// A redelegated proof would back it too (the origin may be read as either)
    or_backed: bool,
}

impl World {
    /// Tokens that say the same besides their claims
    fn any(ctx: &mut Ctx) -> Self {
        World {
            dress: ctx.choose(5),
            ..Default::default()
        }
    }

    /// The same, with fewer ways in the quick check
    fn some(ctx: &mut Ctx, ways: &[usize]) -> Self {
        match ctx.thorough() {
            true => World::any(ctx),
            false => World {
                dress: *ctx.pick(ways),
                ..Default::default()
            },
        }
    }

    fn two(ctx: &mut Ctx) -> Self {
        World {
            dress: *ctx.pick(&[0, 3]),
            ..Default::default()
        }
    }

    fn add(&mut self, mut tok: Tok, proofs: Vec<usize>) -> usize {
        for p in &proofs {
            let cid = cid_of(&self.texts[*p]).to_string();
            tok.cite(cid);
        }
        let i = self.nodes.len() as u64;
        match self.dress {
            0 => {}
            1 => tok.nbf = Some(NOW - 1),
            2 => {
                (tok.nbf, tok.exp) = (Some(NOW), Some(NOW));
                tok.nnc = Some("same".into());
                tok.fct = json!({"same": {"b": []}}).as_object().cloned();
            }
            3 => {
                (tok.nbf, tok.exp) = (Some(i), Some(NOW * 2 - i));
                tok.nnc = Some("same".into());
            }
            _ => {
                tok.exp = Some(NOW + 1);
                tok.nnc = Some(format!("{i}"));
                tok.fct = json!({"a": i, "b": {"c": []}}).as_object().cloned();
            }
        }
        let text = tok.text();
        self.store.put(&text);
        self.texts.push(text);
        self.nodes.push(Node { tok, proofs });
        self.nodes.len() - 1
    }

    fn redelegated(&self, i: usize) -> BTreeSet<usize> {
        let node = &self.nodes[i];
        let mut out = BTreeSet::new();
        for (r, a, _) in &node.tok.caps {
            if a != "ucan/DELEGATE" {
                continue;
            }
            match r.strip_prefix("prf:") {
                Some("*") => out.extend(0..node.proofs.len()),
                Some(n) => {
                    if let Ok(n) = n.parse::<usize>() {
                        out.insert(n);
                    }
                }
                None => {}
            }
        }
        out
    }

    /// Everything token `i` passes on, and the capabilities it may report
    fn grants(&self, i: usize) -> (Vec<Grant>, Vec<RCap>) {
        let node = &self.nodes[i];
        let redelegated = self.redelegated(i);
        let mut inherited = vec![];
        let mut passed_on = vec![];
        let mut may = vec![];
        for (k, p) in node.proofs.iter().enumerate() {
            let (g, m) = self.grants(*p);
            if redelegated.contains(&k) {
                passed_on.extend(g);
                may.extend(m);
            } else {
                inherited.extend(g);
            }
        }
        let mut out = vec![];
        for (r, a, c) in &node.tok.caps {
            let Some(cap) = ref_parse(r, a, c) else {
                continue;
            };
            let mut origins = BTreeSet::new();
            for g in inherited.iter().filter(|g| g.cap.enables(&cap)) {
                origins.extend(g.origins.iter().cloned());
            }
            let self_made = origins.is_empty();
            if self_made {
                origins.insert(ToyKey::new(node.tok.iss).did());
            }
            may.push(cap.clone());
            out.push(Grant {
                or_backed: self_made && passed_on.iter().any(|g| g.cap.enables(&cap)),
                cap,
                origins,
            });
        }
        out.extend(passed_on);
        (out, may)
    }

    fn show(&self, i: usize) -> String {
        let n = &self.nodes[i];
        format!(
            "token {i}: {} -> {} claims [{}] proofs {:?}",
            name_of(&ToyKey::new(n.tok.iss).did()),
            name_of(&n.tok.aud),
            n.tok
                .caps
                .iter()
                .map(|(r, a, c)| format!("{r} {a} {c}"))
                .collect::<Vec<_>>()
                .join("; "),
            n.proofs
        )
    }

    /// Verify the last token and compare its report with the reference model
    fn judge(&self, ctx: &mut Ctx, side: Side) -> R {
        let top = self.nodes.len() - 1;
        for i in 0..=top {
            ctx.log(|| self.show(i));
            ctx.state(&self.texts[i]);
        }
        ctx.ops(top + 1);
        let mut did_parser = parser();
        let text = &self.texts[top];
        ctx.log(|| format!("dressed in way {}", self.dress));
        let verified = match self.dress % 3 {
            0 => run(ProofChain::try_from_token_string(text, Some(NOW), &mut did_parser, &self.store))?,
            1 => run(ProofChain::from_cid(&cid_of(text), Some(NOW), &mut did_parser, &self.store))?,
            _ => match Ucan::try_from(text.as_str()) {
                Ok(u) => run(ProofChain::from_ucan(u, Some(NOW), &mut did_parser, &self.store))?,
                Err(e) => Err(e),
            },
        };
        let chain = match verified {
            Ok(chain) => chain,
            Err(e) => {
                ctx.outcome("refused");
                ensure!(
                    side == Side::Sound,
                    "a chain in which every link is legitimate is refused: {e:#}"
                );
                return Ok(());
            }
        };
        let infos = chain.reduce_capabilities(&AppSemantics);
        ctx.op();
        let reported: Vec<(RCap, &BTreeSet<String>)> = infos
            .iter()
            .map(|i| (of_view(&i.capability), &i.originators))
            .collect();
        for (c, o) in &reported {
            ctx.log(|| {
                format!(
                    "reported: {} originators {:?}",
                    c.show(),
                    o.iter().map(|d| name_of(d)).collect::<Vec<_>>()
                )
            });
        }
        let (grants, may) = self.grants(top);
        match side {
            Side::Sound => {
                for (c, origins) in &reported {
                    ensure!(
                        may.contains(c),
                        "reports {}, which the token neither claims nor redelegates",
                        c.show()
                    );
                    ensure!(
                        !origins.is_empty(),
                        "reports {} without any originator",
                        c.show()
                    );
                    for o in origins.iter() {
                        let due = grants
                            .iter()
                            .any(|g| g.origins.contains(o) && g.cap.enables(c))
                            || grants.iter().any(|g| {
                                g.or_backed
                                    && g.cap == *c
                                    && grants
                                        .iter()
                                        .any(|h| h.origins.contains(o) && h.cap.enables(c))
                            });
                        ensure!(
                            due,
                            "credits {} with {}, which {} never granted",
                            name_of(o),
                            c.show(),
                            name_of(o)
                        );
                    }
                }
            }
            Side::Complete => {
                for g in &grants {
                    if g.or_backed {
                        continue;
                    }
                    for o in &g.origins {
                        ensure!(
                            reported
                                .iter()
                                .any(|(c, origins)| origins.contains(o) && c.enables(&g.cap)),
                            "{} granted by {} is missing from the report",
                            g.cap.show(),
                            name_of(o)
                        );
                    }
                }
                // redelegation of a proof also satisfies the caps named above
                for g in grants.iter().filter(|g| g.or_backed) {
                    ensure!(
                        reported.iter().any(|(c, _)| c.enables(&g.cap)),
                        "{} is claimed, but missing from the report",
                        g.cap.show()
                    );
                }
            }
        }
        ctx.outcome(match (reported.len(), grants.len()) {
            (0, _) => "nothing reported",
            (r, g) if r < g => "some capabilities merged",
            _ => "all capabilities reported separately",
        });
        if reported.iter().any(|(_, o)| o.len() > 1) {
            ctx.outcome("several originators");
        }
        Ok(())
    }
}

fn cross(resources: &[&str], abilities: &[&str], caveats: &[Value]) -> Vec<Claim> {
    let mut out = vec![];
    for r in resources {
        for a in abilities {
            for c in caveats {
                out.push((r.to_string(), a.to_string(), c.clone()));
            }
        }
    }
    out
}

/// Any set of at most `max` of the claims
fn some_of(ctx: &mut Ctx, from: &[Claim], max: usize) -> Vec<Claim> {
    let mut out = vec![];
    let mut at = 0;
    while out.len() < max && at < from.len() {
        let c = ctx.choose(from.len() - at + 1);
        if c == 0 {
            break;
        }
        out.push(from[at + c - 1].clone());
        at += c;
    }
    out
}

/// Any multiset, in ascending or descending order
fn some_of_repeated(ctx: &mut Ctx, from: &[Claim], max: usize) -> Vec<Claim> {
    let mut out = vec![];
    let mut at = 0;
    while out.len() < max {
        let c = ctx.choose(from.len() - at + 1);
        if c == 0 {
            break;
        }
        at += c - 1;
        out.push(from[at].clone());
    }
    if out.len() > 1 && ctx.flag() {
        out.reverse();
    }
    out
}

fn delegate(what: &str) -> Claim {
    (what.into(), "ucan/DELEGATE".into(), json!({}))
}

fn token(iss: u8, aud: u8, claims: Vec<Claim>) -> Tok {
    let mut t = Tok::new(iss, aud);
    t.caps = claims;
    t
}

const ALICE: u8 = 0;
const BOB: u8 = 1;
const CAROL: u8 = 2;
const DAVE: u8 = 3;
const ERIN: u8 = 4;

fn two_level(ctx: &mut Ctx, side: Side) -> R {
    let all = cross(
        &["app:/", "app:/a", "app:/a/b"],
        &["app/read", "app/write"],
        &[json!({}), json!({"x": 1})],
    );
    let mut w = World::any(ctx);
    let claims = some_of(ctx, &all, 2);
    w.add(token(ALICE, BOB, claims), vec![]);
    let max = ctx.by_tier(3, 4);
    let mut claims = some_of(ctx, &all, max);
    match ctx.choose(4) {
        0 => {}
        1 => claims.push(delegate("prf:0")),
        2 => claims.push(delegate("prf:*")),
        _ => claims.push(("prf:0".into(), "ucan/delegate".into(), json!({}))),
    }
    w.add(token(BOB, CAROL, claims), vec![0]);
    w.judge(ctx, side)
}

fn two_proofs(ctx: &mut Ctx, side: Side) -> R {
    let all = cross(
        &["app:/a", "app:/a/b"],
        &["app/read", "app/write"],
        &[json!({}), json!({"x": 1})],
    );
    let mut w = World::any(ctx);
    let each = ctx.by_tier(1, 2);
    let claims = some_of(ctx, &all, each);
    w.add(token(ALICE, BOB, claims), vec![]);
    let claims = some_of(ctx, &all, each);
    w.add(token(DAVE, BOB, claims), vec![]);
    let mut claims = some_of(ctx, &all, 3);
    match ctx.choose(5) {
        0 => {}
        1 => claims.push(delegate("prf:0")),
        2 => claims.push(delegate("prf:1")),
        3 => claims.push(delegate("prf:*")),
        _ => claims.extend([delegate("prf:0"), delegate("prf:1")]),
    }
    w.add(token(BOB, CAROL, claims), vec![0, 1]);
    w.judge(ctx, side)
}

fn three_level(ctx: &mut Ctx, side: Side) -> R {
    let mut all = cross(
        &["app:/a", "app:/a/b"],
        &["app/read", "app/write"],
        &[json!({})],
    );
    all.push(("app:/a".into(), "app/write".into(), json!({"x": 1})));
    all.push(("app:*".into(), "app/write".into(), json!({})));
    let mut w = World::some(ctx, &[0, 2]);
    let claims = some_of(ctx, &all, 1);
    w.add(token(ALICE, BOB, claims), vec![]);
    let claims = some_of(ctx, &all, 1);
    w.add(token(DAVE, BOB, claims), vec![]);
    let max = ctx.by_tier(2, 3);
    let mut claims = some_of(ctx, &all, max);
    match ctx.choose(4) {
        0 => {}
        1 => claims.push(delegate("prf:0")),
        2 => claims.push(delegate("prf:1")),
        _ => claims.push(delegate("prf:*")),
    }
    w.add(token(BOB, CAROL, claims), vec![0, 1]);
    let mut claims = some_of(ctx, &all, max);
    if ctx.flag() {
        claims.push(delegate("prf:0"));
    }
    w.add(token(CAROL, ERIN, claims), vec![2]);
    w.judge(ctx, side)
}

fn shared(ctx: &mut Ctx, side: Side) -> R {
    let all = cross(
        &["app:/a", "app:/a/b"],
        &["app/read", "app/write"],
        &[json!({})],
    );
    let mut w = World::any(ctx);
    let leaf = ctx.pick(&all).clone();
    w.add(token(ALICE, BOB, vec![leaf]), vec![]);
    for _ in 0..2 {
        let mut claims = some_of(ctx, &all, 1);
        if ctx.flag() {
            claims.push(delegate("prf:0"));
        }
        w.add(token(BOB, CAROL, claims), vec![0]);
    }
    let max = ctx.by_tier(2, 4);
    let mut claims = some_of(ctx, &all, max);
    let cited = match ctx.choose(4) {
        0 => vec![1, 2],
        1 => vec![2, 1],
        2 => vec![1, 1],
        _ => vec![1, 2, 1],
    };
    match ctx.choose(4) {
        0 => {}
        1 => claims.push(delegate("prf:0")),
        2 => claims.push(delegate("prf:1")),
        _ => claims.push(delegate("prf:*")),
    }
    w.add(token(CAROL, ERIN, claims), cited);
    w.judge(ctx, side)
}

fn long_chain(ctx: &mut Ctx, side: Side) -> R {
    let longest = ctx.by_tier(6, 8);
    let n = 2 + ctx.choose(longest - 1);
    let mut w = World::two(ctx);
    let mut path = "/a".to_string();
    let mut ability = 2usize;
    let mut caveat = json!({});
    let claim = |path: &str, ability: usize, caveat: &Value| {
        (
            format!("app:{path}"),
            crate::sem::ABILITIES[ability].to_string(),
            caveat.clone(),
        )
    };
    w.add(
        token(0, 1, vec![claim(&path, ability, &caveat)]),
        vec![],
    );
    for level in 1..n {
        let kinds = ctx.by_tier(7, 8);
        let claims = match ctx.choose(kinds) {
            0 => vec![claim(&path, ability, &caveat)],
            1 => vec![delegate("prf:0")],
            2 => {
                path = format!("{}/x", path.trim_end_matches('/'));
                vec![claim(&path, ability, &caveat)]
            }
            3 => {
                // Broader than what was granted: originates here
                path = match path.rsplit_once('/') {
                    Some((p, _)) if !p.is_empty() => p.to_string(),
                    _ => "/".into(),
                };
                vec![claim(&path, ability, &caveat)]
            }
            4 => {
                ability = ability.saturating_sub(1);
                vec![claim(&path, ability, &caveat)]
            }
            5 => {
                caveat = json!({"x": level});
                vec![claim(&path, ability, &caveat)]
            }
            6 => {
                // a redelegation next to a narrower and an unrelated claim
                vec![
                    claim(&format!("{}/y", path.trim_end_matches('/')), ability, &caveat),
                    claim("/other", 0, &json!({})),
                    delegate("prf:*"),
                ]
            }
            _ => vec![],
        };
        w.add(
            token(level as u8, level as u8 + 1, claims),
            vec![level - 1],
        );
    }
    w.judge(ctx, side)
}

/// A place in a long list: anywhere in a short one, else about its ends and
/// about powers of two
fn place(ctx: &mut Ctx, n: usize) -> usize {
    if n <= 24 {
        return ctx.choose(n);
    }
    let mut places: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n - 2, n - 1]
        .into_iter()
        .filter(|i| *i < n)
        .collect();
    places.sort();
    places.dedup();
    *ctx.pick(&places)
}

/// Long chains in which all steps but two are alike
fn deep(ctx: &mut Ctx, side: Side) -> R {
    let n = *ctx.pick(if ctx.thorough() {
        &[9usize, 10, 16, 17, 24, 32, 33, 34, 64, 65, 66, 100, 128, 129][..]
    } else {
        &[9usize, 16, 17, 18, 33, 34, 65, 66][..]
    });
    let usual = ctx.choose(3);
    let first = 1 + place(ctx, n - 1);
    let second = 1 + place(ctx, n - 1);
    if second < first {
        return Err(crate::engine::Fail::Prune);
    }
    let one = ctx.choose(5);
    let other = if second > first { ctx.choose(5) } else { 0 };
    let mut path = "/a".to_string();
    let claim = |path: &str, ability: &str| (format!("app:{path}"), ability.to_string(), json!({}));
    let mut ability = "app/write";
    let mut w = World::some(ctx, &[0, 3]);
    w.add(
        token(0, 1, vec![claim(&path, ability), claim("/zz", "app/read")]),
        vec![],
    );
    for level in 1..n {
        let kind = if level == first {
            3 + one
        } else if level == second {
            3 + other
        } else {
            usual
        };
        let claims = match kind {
            0 => vec![claim(&path, ability), claim("/zz", "app/read")],
            1 => vec![delegate("prf:0")],
            2 => vec![delegate("prf:*")],
            // narrower
            3 => {
                path = format!("{path}/x");
                vec![claim(&path, ability)]
            }
            // originates here
            4 => {
                path = "/b".to_string();
                vec![claim(&path, ability)]
            }
            5 => {
                ability = "app/read";
                vec![claim(&path, ability), delegate("prf:0")]
            }
            6 => vec![claim("/", "app/write"), delegate("prf:0")],
            _ => vec![],
        };
        w.add(token(level as u8, level as u8 + 1, claims), vec![level - 1]);
    }
    w.judge(ctx, side)
}

fn many_proofs(ctx: &mut Ctx, side: Side) -> R {
    let most = ctx.by_tier(12, 24);
    let long: &[usize] = ctx.by_tier(&[33, 65, 130, 257], &[33, 64, 65, 66, 129, 257, 300]);
    let n = match ctx.choose(most + long.len()) {
        k if k < most => 1 + k,
        k => long[k - most],
    };
    let mut w = World::any(ctx);
    for k in 0..n {
        w.add(
            token(
                10 + (k % 200) as u8,
                BOB,
                vec![
                    (format!("app:/p{k}"), "app/write".into(), json!({})),
                    ("app:/common".into(), "app/read".into(), json!({})),
                ],
            ),
            vec![],
        );
    }
    let claims = match ctx.choose(5) {
        0 => vec![delegate(&format!("prf:{}", place(ctx, n)))],
        1 => {
            let i = place(ctx, n);
            let j = place(ctx, n);
            vec![delegate(&format!("prf:{i}")), delegate(&format!("prf:{j}"))]
        }
        2 => vec![delegate("prf:*")],
        3 => {
            let i = place(ctx, n);
            vec![
                (format!("app:/p{i}/sub"), "app/read".into(), json!({})),
                ("app:/common".into(), "app/read".into(), json!({})),
            ]
        }
        _ => {
            let i = place(ctx, n);
            let j = place(ctx, n);
            vec![
                delegate(&format!("prf:{i}")),
                (format!("app:/p{j}"), "app/write".into(), json!({})),
            ]
        }
    };
    w.add(token(BOB, CAROL, claims), (0..n).collect());
    w.judge(ctx, side)
}

/// Claims that are not capabilities, next to `app:/r<k>`
fn unrecognised(kind: usize, k: usize) -> Claim {
    let (r, a) = match kind {
        0 => (format!("app:/r{k:02}"), "app/unknown".to_string()),
        1 => (format!("app:/r{k:02}"), "APP/READ".to_string()),
        2 => (format!("app:r{k:02}"), "app/read".to_string()),
        3 => ("aaa:thing".to_string(), "app/read".to_string()),
        4 => ("zzz:thing".to_string(), "app/read".to_string()),
        5 => ("".to_string(), "app/read".to_string()),
        6 => ("no uri".to_string(), "app/read".to_string()),
        7 => ("as:did:web:x:app:/r".to_string(), "app/read".to_string()),
        8 => ("my:thing".to_string(), "app/read".to_string()),
        9 => ("prf:x".to_string(), "ucan/DELEGATE".to_string()),
        10 => ("prf:0".to_string(), "app/read".to_string()),
        _ => (format!("app:/r{k:02}/"), "".to_string()),
    };
    (r, a, json!({}))
}

fn many_claims(ctx: &mut Ctx, side: Side) -> R {
    let most = ctx.by_tier(8, 20);
    let long: &[usize] = ctx.by_tier(&[33, 65, 129], &[33, 64, 65, 66, 100, 129, 257, 300]);
    let n = match ctx.choose(most + long.len()) {
        k if k < most => 1 + k,
        k => long[k - most],
    };
    let mut claims: Vec<Claim> = (0..n)
        .map(|k| {
            (
                format!("app:/r{k:02}"),
                crate::sem::ABILITIES[k % 3].to_string(),
                if k % 4 == 3 { json!({"k": k}) } else { json!({}) },
            )
        })
        .collect();
    let mut empty = vec![];
    for _ in 0..ctx.by_tier(1, 2) {
        let kind = ctx.choose(14);
        if kind == 13 {
            let at = place(ctx, n);
            empty.push((format!("app:/r{at:02}"), "app/other".to_string()));
        } else if kind > 0 {
            let at = if matches!(kind - 1, 0 | 1 | 2 | 11) {
                place(ctx, n)
            } else {
                0
            };
            claims.push(unrecognised(kind - 1, at));
        }
    }
    let mut w = World::two(ctx);
    let mut top = token(BOB, CAROL, claims.clone());
    top.empty = empty.clone();
    match ctx.choose(3) {
        0 => {
            w.add(top, vec![]);
        }
        1 => {
            let mut proof = token(ALICE, BOB, claims);
            proof.empty = empty;
            w.add(proof, vec![]);
            w.add(top, vec![0]);
        }
        _ => {
            let mut proof = token(ALICE, BOB, claims);
            proof.empty = empty;
            w.add(proof, vec![]);
            w.add(token(BOB, CAROL, vec![delegate("prf:0")]), vec![0]);
        }
    }
    w.judge(ctx, side)
}

fn kinds(ctx: &mut Ctx, side: Side) -> R {
    let all = cross(
        &[
            "app:/a",
            "app:/a/b",
            "app:*",
            "*",
            "my:/a",
            "my:*",
            "as:did:key:zX:app:/a",
            "as:did:key:zY:app:/a",
            "as:did:key:zX:*",
        ],
        &["app/read", "app/write"],
        &[json!({})],
    );
    let mut w = World::any(ctx);
    let each = ctx.by_tier(1, 2);
    let claims = some_of(ctx, &all, each);
    w.add(token(ALICE, BOB, claims), vec![]);
    let max = ctx.by_tier(2, 3);
    let mut claims = some_of(ctx, &all, max);
    match ctx.choose(3) {
        0 => {}
        1 => claims.push(delegate("prf:0")),
        _ => claims.push(delegate("prf:*")),
    }
    w.add(token(BOB, CAROL, claims), vec![0]);
    w.judge(ctx, side)
}

fn caveats(ctx: &mut Ctx, side: Side) -> R {
    let all = cross(
        &["app:/a"],
        &["app/write"],
        &[
            json!({}),
            json!({"x": 1}),
            json!({"y": 2}),
            json!({"x": 1, "y": 2}),
            json!({"x": 2}),
            json!({"x": {"a": 1}}),
        ],
    );
    let mut w = World::any(ctx);
    let max = ctx.by_tier(2, 3);
    let claims = some_of_repeated(ctx, &all, max);
    w.add(token(ALICE, BOB, claims), vec![]);
    let claims = some_of_repeated(ctx, &all, 1);
    w.add(token(DAVE, BOB, claims), vec![]);
    let max = ctx.by_tier(2, 3);
    let mut claims = some_of_repeated(ctx, &all, max);
    match ctx.choose(3) {
        0 => {}
        1 => claims.push(delegate("prf:0")),
        _ => claims.push(delegate("prf:1")),
    }
    w.add(token(BOB, CAROL, claims), vec![0, 1]);
    w.judge(ctx, side)
}

/// The same few people everywhere, also as their own audience
fn people(ctx: &mut Ctx, side: Side) -> R {
    let all = cross(&["app:/a", "app:/a/b"], &["app/write"], &[json!({})]);
    let mut w = World::some(ctx, &[0]);
    let n = 2 + ctx.choose(ctx.by_tier(3, 4));
    let who: Vec<u8> = (0..n + 1).map(|_| ctx.choose(3) as u8).collect();
    // a second proof of the last token
    let extra = ctx.choose(4);
    let mut last: Vec<usize> = vec![];
    for level in 0..n {
        let claims = match ctx.choose(3) {
            0 => vec![all[0].clone()],
            1 => vec![all[1].clone()],
            _ if last.is_empty() => all.clone(),
            _ => vec![delegate("prf:0")],
        };
        let (iss, aud) = (who[level], who[level + 1]);
        if level + 1 == n && extra > 0 {
            last.push(w.add(token(extra as u8 - 1, iss, vec![all[0].clone()]), vec![]));
        }
        last = vec![w.add(token(iss, aud, claims), last)];
    }
    w.judge(ctx, side)
}

macro_rules! families {
    ($($name:ident: $bounds:literal),* $(,)?) => {
        pub fn c01() -> Vec<Harness> {
            vec![$(Harness { name: stringify!($name), bounds: $bounds, devs: (0, 0), run: |ctx| $name(ctx, Side::Sound) }),*]
        }
        pub fn c02() -> Vec<Harness> {
            vec![$(Harness { name: stringify!($name), bounds: $bounds, devs: (0, 0), run: |ctx| $name(ctx, Side::Complete) }),*]
        }
    };
}

families! {
    people: "chains of 2..4 (thorough 2..5) tokens among 3 people, each of whom may issue to anyone, himself included, 3 kinds of claims each, with a second proof by any of them or none (thorough: x 5 ways to dress the tokens)",
    two_level: "one proof with every set of <=2 of 12 capabilities (3 nested paths x 2 abilities x 2 caveats), token with every set of <=3 (thorough 4) of them, 4 redelegation forms, x 5 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    two_proofs: "two proofs from different issuers with <=1 (thorough <=2) of 8 capabilities each, token with <=3, 5 redelegation forms, x 5 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    three_level: "two roots with <=1 of 6 capabilities, two further levels with <=2 (thorough <=3) claims each, all redelegation forms, x 2 (thorough 5) ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    shared: "a root cited by two tokens that are cited by a third, in 4 citation patterns, claims and redelegations on every level, x 5 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    long_chain: "chains of 2..6 (thorough 2..8) tokens with every sequence of 7 (thorough 8) kinds of step, x 2 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    deep: "chains of 9..66 (thorough 9..129) tokens in which all steps but two are alike (3 kinds), the two being any of 5 kinds at any of the places about the ends and powers of two, x 2 (thorough 5) ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    many_proofs: "1..12, 33, 65, 130, 257 (thorough 1..24 and 7 numbers to 300) proofs with every index, pair of indices or all redelegated, and with claims, x 5 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    many_claims: "1..8, 33, 65, 129 (thorough 1..20 and 8 numbers to 300) recognised claims with 1 (thorough 2) of 13 kinds of unrecognised or empty claim at every position, original, inherited and redelegated, x 2 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    kinds: "plain, own, other's and wildcard resources: proof with <=1 (thorough 2) of 18 claims, token with <=2 (thorough 3), 3 redelegation forms, x 5 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
    caveats: "6 caveat objects on one resource: all multisets of <=2 (thorough 3) in both orders on a proof and on the token, a second proof, 3 redelegation forms, x 5 ways to dress the tokens (plain, not-before times, one instant with the same facts and nonce, nested periods with the same nonce, expirations with facts and nonces of their own)",
}
