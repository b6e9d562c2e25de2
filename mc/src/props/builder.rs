//! C10: a built token says exactly what the builder was told.
use super::encoding::shows;
use crate::{
    clock,
    engine::{Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    jsons,
    sem::{Act, PathScope, View},
    world::{cid_with, Tok, ToyKey, B64, CODES},
};
use base64::Engine;
use cid::multihash::Code;
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Map, Value};
use std::sync::OnceLock;
use ucan::{
    builder::UcanBuilder,
    crypto::KeyMaterial,
    capability::{Capability, Resource, ResourceUri},
    Ucan,
};

/// A fact that cannot be written down
struct Unwritable;
impl Serialize for Unwritable {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("not today"))
    }
}
impl<'de> Deserialize<'de> for Unwritable {
    fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Ok(Unwritable)
    }
}

#[derive(Serialize, Deserialize)]
struct Fact {
    b: Vec<Option<u8>>,
    a: String,
}

fn proofs() -> &'static [(Ucan, String)] {
    static P: OnceLock<Vec<(Ucan, String)>> = OnceLock::new();
    P.get_or_init(|| {
        (0..3u8)
            .filter_map(|i| {
                let mut t = Tok::new(40 + i, 0);
                t.claim("app:/p", "app/write", json!({}));
                let text = t.text();
                Ucan::try_from(text.as_str()).ok().map(|u| (u, text))
            })
            .collect()
    })
}

fn signers() -> &'static [ToyKey] {
    static K: OnceLock<Vec<ToyKey>> = OnceLock::new();
    K.get_or_init(|| vec![ToyKey::new(0), ToyKey::new(1)])
}

#[derive(Clone, Default)]
struct Expected {
    issuer: Option<usize>,
    audience: Option<String>,
    lifetime: Option<u64>,
    expiration: Option<u64>,
    not_before: Option<u64>,
    facts: Map<String, Value>,
    nonce: bool,
    proofs: Vec<String>,
    caps: Vec<(String, String, Value)>,
}

type B = UcanBuilder<'static, ToyKey>;

fn fact<T: Serialize + DeserializeOwned>(b: B, e: &mut Expected, k: &str, v: T, shown: Value) -> B {
    e.facts.insert(k.into(), shown);
    b.with_fact(k, v)
}

const OPS: [&str; 32] = [
    "issued_by(0)",
    "issued_by(1)",
    "for_audience(a)",
    "for_audience(b)",
    "for_audience()",
    "with_lifetime(0)",
    "with_lifetime(60)",
    "with_lifetime(MAX)",
    "with_expiration(5)",
    "with_expiration(0)",
    "with_expiration(MAX)",
    "not_before(3)",
    "not_before(0)",
    "not_before(MAX)",
    "with_fact(k, 1)",
    "with_fact(k, struct)",
    "with_fact(j, nested)",
    "with_fact(u, unwritable)",
    "with_nonce()",
    "witnessed_by(0)",
    "witnessed_by(1, Sha2_256)",
    "delegating_from(0)",
    "delegating_from(2, Sha2_512)",
    "claiming_capability(c0)",
    "claiming_capability(c0 with a caveat)",
    "claiming_capability(view)",
    "claiming_capabilities(c0, c1, c0)",
    "claiming_capabilities()",
    "claim prf:0",
    "a clone is used",
    "a clone is built and signed",
    "claiming_capability(no object)",
];

fn cap(r: &str, a: &str, c: Value) -> (String, String, Value) {
    (r.to_string(), a.to_string(), c)
}

fn apply(op: usize, b: B, e: &mut Expected) -> R<B> {
    let claim = |e: &mut Expected, c: (String, String, Value)| e.caps.push(c);
    let cite = |e: &mut Expected, i: usize, h: Code| {
        e.proofs.push(cid_with(proofs()[i].1.as_bytes(), h).to_string());
        e.proofs.len() - 1
    };
    Ok(match op {
        0 | 1 => {
            e.issuer = Some(op);
            b.issued_by(&signers()[op])
        }
        2..=4 => {
            let a = ["did:key:zA", "did:web:b", ""][op - 2];
            e.audience = Some(a.into());
            b.for_audience(a)
        }
        5..=7 => {
            let l = [0, 60, u64::MAX][op - 5];
            e.lifetime = Some(l);
            b.with_lifetime(l)
        }
        8..=10 => {
            let x = [5, 0, u64::MAX][op - 8];
            e.expiration = Some(x);
            b.with_expiration(x)
        }
        11..=13 => {
            let n = [3, 0, u64::MAX][op - 11];
            e.not_before = Some(n);
            b.not_before(n)
        }
        14 => fact(b, e, "k", 1u8, json!(1)),
        15 => fact(
            b,
            e,
            "k",
            Fact {
                b: vec![Some(2)],
                a: "x".into(),
            },
            json!({"a": "x", "b": [2]}),
        ),
        16 => fact(
            b,
            e,
            "j",
            json!({"z": [true, {"y": "é"}], "": 0.5}),
            json!({"z": [true, {"y": "é"}], "": 0.5}),
        ),
        17 => b.with_fact("u", Unwritable),
        18 => {
            e.nonce = true;
            b.with_nonce()
        }
        19 => {
            cite(e, 0, Code::Blake3_256);
            b.witnessed_by(&proofs()[0].0, None)
        }
        20 => {
            cite(e, 1, Code::Sha2_256);
            b.witnessed_by(&proofs()[1].0, Some(Code::Sha2_256))
        }
        21 => {
            let i = cite(e, 0, Code::Blake3_256);
            claim(e, cap(&format!("prf:{i}"), "ucan/DELEGATE", json!({})));
            b.delegating_from(&proofs()[0].0, None)
        }
        22 => {
            let i = cite(e, 2, Code::Sha2_512);
            claim(e, cap(&format!("prf:{i}"), "ucan/DELEGATE", json!({})));
            b.delegating_from(&proofs()[2].0, Some(Code::Sha2_512))
        }
        23 | 24 => {
            let c = cap("app:/a", "app/read", [json!({}), json!({"n": 1})][op - 23].clone());
            claim(e, c.clone());
            b.claiming_capability(c)
        }
        25 => {
            let v: View = View::new(
                Resource::My {
                    kind: ResourceUri::Scoped(PathScope("/b".into())),
                },
                Act::Admin,
            );
            claim(e, cap("my:app:/b", "app/admin", json!({})));
            b.claiming_capability(&v)
        }
        26 => {
            let cs = [
                cap("app:/a", "app/read", json!({})),
                cap("", "", json!({"x": {"y": []}})),
                cap("app:/a", "app/read", json!({})),
            ];
            for c in &cs {
                claim(e, c.clone());
            }
            b.claiming_capabilities(&cs)
        }
        27 => {
            let none: [Capability; 0] = [];
            b.claiming_capabilities(&none)
        }
        28 => {
            claim(e, cap("prf:0", "ucan/DELEGATE", json!({})));
            b.claiming_capability(cap("prf:0", "ucan/DELEGATE", json!({})))
        }
        29 => {
            // what happens to a copy is of no consequence
            let c = b.clone();
            drop(
                c.for_audience("did:key:zC")
                    .with_fact("k", json!("c"))
                    .with_nonce()
                    .with_expiration(77)
                    .not_before(77)
                    .with_lifetime(77)
                    .witnessed_by(&proofs()[2].0, None)
                    .claiming_capability(cap("app:/c", "c", json!({}))),
            );
            b
        }
        30 => {
            let c = b.clone();
            check(c, e, 3000)?;
            b
        }
        _ => {
            claim(e, cap("app:/a", "app/read", json!([])));
            b.claiming_capability(cap("app:/a", "app/read", json!([])))
        }
    })
}

fn json_of(part: Option<&str>) -> R<Value> {
    let bytes = part.and_then(|p| B64.decode(p).ok());
    bytes
        .and_then(|b| serde_json::from_slice(&b).ok())
        .ok_or_else(|| Fail::Violation("what was signed is not base64url JSON".into()))
}

/// Build at `time`, sign twice later, compare with what was asked for
fn check(b: B, e: &Expected, time: u64) -> R {
    check_within(b, e, time, 0)
}

fn check_within(b: B, e: &Expected, time: u64, nanos: u32) -> R {
    clock::set_within(time, nanos);
    let built = b.build();
    clock::set(time + 500);
    let (issuer, audience) = match (e.issuer, &e.audience) {
        (Some(i), Some(a)) => (&signers()[i], a),
        _ => {
            ensure!(built.is_err(), "built without issuer or audience");
            return Ok(());
        }
    };
    let s = built.map_err(|e| Fail::Violation(format!("a complete builder is refused: {e:#}")))?;
    let mut nonces = vec![];
    for _ in 0..2 {
        let u = match run(s.sign())? {
            Ok(u) => u,
            Err(err) => {
                ensure!(
                    e.caps.iter().any(|c| !c.2.is_object()),
                    "not signed: {err:#}"
                );
                return Ok(());
            }
        };
        ensure!(
            e.caps.iter().all(|c| c.2.is_object()),
            "a capability whose caveat is not an object is signed"
        );
        let text = u
            .encode()
            .map_err(|e| Fail::Violation(format!("the token is not written: {e:#}")))?;
        let mut parts = text.split('.');
        let (header, payload) = (json_of(parts.next())?, json_of(parts.next())?);
        let mut t = Tok::new(issuer.id, 0);
        t.aud = audience.clone();
        t.nbf = e.not_before;
        t.exp = match (e.expiration, e.lifetime) {
            (Some(x), _) => Some(x),
            (None, Some(l)) => Some(time.saturating_add(l)),
            (None, None) => None,
        };
        if e.nonce {
            let n = payload["nnc"].as_str().map(String::from);
            ensure!(n.as_deref().is_some_and(|n| !n.is_empty()), "no nonce in {payload}");
            t.nnc = n.clone();
            nonces.push(n);
        }
        if !e.proofs.is_empty() {
            t.prf = Some(e.proofs.clone());
        }
        if !e.facts.is_empty() {
            t.fct = Some(e.facts.clone());
        }
        t.caps = e.caps.clone();
        ensure!(
            payload == t.payload(),
            "the token says {payload} instead of {}",
            t.payload()
        );
        ensure!(header == t.header(), "the header is {header}");
        shows(&u, &header, &payload)?;
    }
    ensure!(
        nonces.len() < 2 || nonces[0] != nonces[1],
        "two tokens have the nonce {:?}",
        nonces[0]
    );
    Ok(())
}

fn go(ctx: &mut Ctx, b: B, e: &mut Expected, steps: usize) -> R {
    let mut b = b;
    let mut done = vec![];
    for i in 0..steps {
        clock::set(1000 + i as u64);
        // stopping early is covered by calls that change nothing
        let op = ctx.choose(OPS.len());
        ctx.log(|| OPS[op].to_string());
        ctx.op();
        done.push(op);
        b = apply(op, b, e)?;
    }
    ctx.state(&done);
    check(b, e, 2000)?;
    ctx.outcome(match (e.issuer, &e.audience) {
        (Some(_), Some(_)) => "as told",
        _ => "refused as incomplete",
    });
    Ok(())
}

fn from_nothing(ctx: &mut Ctx) -> R {
    let steps = ctx.by_tier(4, 5);
    go(ctx, UcanBuilder::default(), &mut Expected::default(), steps)
}

fn from_complete(ctx: &mut Ctx) -> R {
    let steps = ctx.by_tier(4, 5);
    let mut e = Expected::default();
    let b = apply(0, UcanBuilder::default(), &mut e)?;
    let b = apply(2, b, &mut e)?;
    go(ctx, b, &mut e, steps)
}

/// Long histories of the calls that add something
fn additions(ctx: &mut Ctx) -> R {
    let n = ctx.by_tier(7, 9);
    let mut e = Expected::default();
    let mut b = apply(0, UcanBuilder::default(), &mut e)?;
    b = apply(2, b, &mut e)?;
    let kinds = [19, 21, 22, 24, 28];
    let mut done = vec![];
    for _ in 0..n {
        let op = *ctx.pick(&kinds);
        ctx.log(|| OPS[op].to_string());
        ctx.op();
        done.push(op);
        b = apply(op, b, &mut e)?;
    }
    ctx.state(&done);
    check(b, &e, 2000)?;
    ctx.outcome("as told");
    Ok(())
}

/// Many proofs: every mixture of cited and delegated ones
fn many(ctx: &mut Ctx) -> R {
    let n = ctx.by_tier(12, 15);
    let mut e = Expected::default();
    let mut b = apply(1, UcanBuilder::default(), &mut e)?;
    b = apply(3, b, &mut e)?;
    let mut done = vec![];
    for _ in 0..n {
        let op = *ctx.pick(&[19, 21]);
        done.push(op);
        ctx.op();
        b = apply(op, b, &mut e)?;
    }
    ctx.log(|| format!("proofs by {:?}", done.iter().map(|o| OPS[*o]).collect::<Vec<_>>()));
    ctx.state(&done);
    check(b, &e, 2000)?;
    ctx.outcome("as told");
    Ok(())
}

/// One call repeated
fn amounts(ctx: &mut Ctx) -> R {
    let what = ctx.choose(5);
    let mut amounts: Vec<usize> = (0..ctx.by_tier(130, 300)).collect();
    amounts.extend([254, 255, 256, 257, 258, 300, 511, 512, 513, 514, 1023, 1024, 1025, 1026]);
    let n = *ctx.pick(&amounts);
    let mut e = Expected::default();
    let mut b = apply(0, UcanBuilder::default(), &mut e)?;
    b = apply(2, b, &mut e)?;
    for i in 0..n {
        ctx.op();
        b = match what {
            0 => fact(b, &mut e, &format!("k{i}"), i, json!(i)),
            1 => {
                let c = cap("app:/a", "app/read", json!({"n": i}));
                e.caps.push(c.clone());
                b.claiming_capability(c)
            }
            2 => {
                let c = cap(&format!("app:/{i}"), &format!("a{i}"), json!({}));
                e.caps.push(c.clone());
                b.claiming_capability(c)
            }
            3 => apply(19, b, &mut e)?,
            _ => apply(21, b, &mut e)?,
        };
    }
    ctx.log(|| format!("{n} of kind {what}"));
    ctx.state(&(what, n));
    check(b, &e, 2000)?;
    ctx.outcome("as told");
    Ok(())
}

/// Long texts wherever a call takes one, next to one that differs little
fn texts(ctx: &mut Ctx) -> R {
    let mut sizes: Vec<usize> = (0..ctx.by_tier(140, 600)).collect();
    sizes.extend(crate::big::about(8, ctx.by_tier(17, 20)));
    let n = *ctx.pick(&sizes);
    let c = *ctx.pick(&["x", "é", "/", "\u{0}"]);
    let place = ctx.choose(7);
    let long = c.repeat(n);
    let like = [long.clone(), format!("{long}y"), format!("y{long}")];
    let mut e = Expected::default();
    let mut b = apply(0, UcanBuilder::default(), &mut e)?;
    b = apply(2, b, &mut e)?;
    if place == 0 {
        e.audience = Some(long.clone());
        b = b.for_audience(&long);
    }
    for t in &like {
        if t == "/" {
            // reserved by DAG-JSON
            return Err(Fail::Prune);
        }
        ctx.op();
        b = match place {
            0 => b,
            1 => fact(b, &mut e, t, 1, json!(1)),
            2 => fact(b, &mut e, "k", t.clone(), json!(t)),
            3 => fact(b, &mut e, t, json!({ t: [t] }), json!({ t: [t] })),
            _ => {
                let c = match place {
                    4 => cap(t, "app/read", json!({})),
                    5 => cap("app:/a", t, json!({})),
                    _ => cap("app:/a", "app/read", json!({ t: t })),
                };
                e.caps.push(c.clone());
                b.claiming_capability(c)
            }
        };
    }
    ctx.log(|| format!("texts of {n} times {c:?} in place {place}"));
    ctx.state(&(place, n, c));
    check(b, &e, 2000)?;
    ctx.outcome("as told");
    Ok(())
}

/// Proofs under every hash function
fn hashes(ctx: &mut Ctx) -> R {
    let mut e = Expected::default();
    let mut b = apply(0, UcanBuilder::default(), &mut e)?;
    b = apply(2, b, &mut e)?;
    let mut said = vec![];
    for i in 0..2 {
        let h = *ctx.pick(&CODES);
        let delegating = ctx.flag();
        said.push((format!("{h:?}"), delegating));
        ctx.op();
        let (proof, text) = &proofs()[i];
        let index = e.proofs.len();
        e.proofs.push(cid_with(text.as_bytes(), h).to_string());
        b = if delegating {
            e.caps.push(cap(&format!("prf:{index}"), "ucan/DELEGATE", json!({})));
            b.delegating_from(proof, Some(h))
        } else {
            b.witnessed_by(proof, Some(h))
        };
    }
    ctx.state(&said);
    ctx.log(|| format!("proofs under {said:?}"));
    check(b, &e, 2000)?;
    ctx.outcome("as told");
    Ok(())
}

/// Lifetimes and clocks around the limits
fn lifetimes(ctx: &mut Ctx) -> R {
    let max = u64::MAX;
    let l = *ctx.pick(&[0, 1, 60, 1 << 31, 1 << 32, 1 << 53, i64::MAX as u64, max - 2000, max - 1999, max - 1, max]);
    let now = *ctx.pick(&[1u64, 1000, 2000, 1_700_000_000, 1 << 31, 1 << 32, 1 << 34]);
    let nanos = *ctx.pick(&clock::WITHIN);
    let b: B = UcanBuilder::default();
    let mut e = Expected::default();
    let mut b = apply(0, b, &mut e)?;
    clock::set(5);
    if ctx.flag() {
        b = b.with_lifetime(7);
    }
    b = b.with_lifetime(l);
    e.lifetime = Some(l);
    b = apply(3, b, &mut e)?;
    match ctx.choose(3) {
        0 => {}
        1 => b = apply(8, b, &mut e)?,
        _ => b = apply(9, b, &mut e)?,
    }
    ctx.state(&(l, now, e.expiration));
    ctx.log(|| format!("lifetime {l} built at {now}.{nanos:09}, expiration {:?}", e.expiration));
    ctx.op();
    check_within(b, &e, now, nanos)?;
    ctx.outcome("as told");
    Ok(())
}

/// Puts one of all JSON values somewhere in a token
pub fn valued<'a, K: KeyMaterial>(
    ctx: &mut Ctx,
    b: UcanBuilder<'a, K>,
    t: &mut Tok,
) -> R<(UcanBuilder<'a, K>, Value)> {
    static V: OnceLock<Vec<Value>> = OnceLock::new();
    let deep = ctx.thorough();
    let v = ctx.pick(V.get_or_init(|| jsons::values(deep))).clone();
    let facts = |t: &mut Tok, k: &str, v: &Value| {
        t.fct.get_or_insert_with(Map::new).insert(k.into(), v.clone());
    };
    let place = ctx.choose(6);
    let b = match place {
        0 => {
            facts(t, "k", &v);
            b.with_fact("k", v.clone())
        }
        // after another one, and before another one
        1 => {
            facts(t, "", &v);
            facts(t, "z", &json!({}));
            b.with_fact("", String::from("first")).with_fact("", v.clone()).with_fact("z", json!({}))
        }
        2 => {
            let o = json!({"b": [v, 1], "a": v});
            facts(t, "k", &o);
            b.with_fact("k", o)
        }
        3 => {
            let c = json!({ "x": v });
            t.claim("app:/a", "app/read", c.clone());
            b.claiming_capability(cap("app:/a", "app/read", c))
        }
        4 => {
            // the same caveat twice, among others
            let c = json!({"x": [v], "": v});
            for c in [&c, &json!({}), &c, &json!({"y": 1})] {
                t.claim("app:/a", "app/read", c.clone());
            }
            b.claiming_capabilities(&[
                cap("app:/a", "app/read", c.clone()),
                cap("app:/a", "app/read", json!({})),
                cap("app:/a", "app/read", c),
                cap("app:/a", "app/read", json!({"y": 1})),
            ])
        }
        _ => {
            // the caveat itself
            if !v.is_object() {
                return Err(Fail::Prune);
            }
            t.claim("app:/a", "app/read", v.clone());
            b.claiming_capability(cap("app:/a", "app/read", v.clone()))
        }
    };
    ctx.log(|| format!("{} at {place}", v.to_string().chars().take(200).collect::<String>()));
    Ok((b, v))
}

/// What is signed, unless it cannot be
pub fn sign_valued<K: KeyMaterial>(b: UcanBuilder<K>, v: &Value) -> R<Option<Ucan>> {
    let s = b
        .build()
        .map_err(|e| Fail::Violation(format!("a complete builder is refused: {e:#}")))?;
    match run(s.sign())? {
        Ok(u) => Ok(Some(u)),
        Err(e) => {
            ensure!(!jsons::plain(v), "not signed: {e:#}");
            Ok(None)
        }
    }
}

/// JSON values in all places
fn values(ctx: &mut Ctx) -> R {
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    let b = UcanBuilder::default().issued_by(&signers()[0]).for_audience(&t.aud);
    let (b, v) = valued(ctx, b, &mut t)?;
    ctx.state(&t.payload().to_string());
    ctx.op();
    match sign_valued(b, &v)? {
        None => ctx.outcome("refused"),
        Some(u) => {
            same(&u, &t)?;
            ctx.outcome("as told");
        }
    }
    Ok(())
}

/// The token says what `t` says
fn same(u: &Ucan, t: &Tok) -> R {
    let text = u
        .encode()
        .map_err(|e| Fail::Violation(format!("the token is not written: {e:#}")))?;
    let mut parts = text.split('.');
    let (header, payload) = (json_of(parts.next())?, json_of(parts.next())?);
    ensure!(
        payload == t.payload(),
        "the token says {payload} instead of {}",
        t.payload()
    );
    ensure!(header == t.header(), "the header is {header}");
    shows(u, &header, &payload)
}

#[derive(Serialize, Deserialize)]
struct Unit;
#[derive(Serialize, Deserialize)]
struct Wrapped(u64);
#[derive(Serialize, Deserialize)]
struct Pair(i8, String);
#[derive(Serialize, Deserialize)]
enum Choice {
    Plain,
    One(u8),
    Two(u8, bool),
    Named { x: Option<f64> },
}
#[derive(Serialize, Deserialize)]
struct Partial {
    #[serde(skip_serializing_if = "Option::is_none")]
    gone: Option<u8>,
    #[serde(rename = "r\u{e9}named")]
    kept: (u8, [i16; 2]),
}

/// Facts of types that serialise in their own ways
fn typed(ctx: &mut Ctx) -> R {
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    let mut facts = Map::new();
    let mut b = UcanBuilder::default().issued_by(&signers()[0]).for_audience(&t.aud);
    let mut told = vec![];
    for i in 0..2 {
        // the second under the same or another key
        let key = if i == 1 && ctx.flag() { "k" } else { ["k", "l"][i] };
        let (next, shown): (_, Option<Value>) = match ctx.choose(26) {
            0 => (b.with_fact(key, ()), Some(json!(null))),
            1 => (b.with_fact(key, Option::<u8>::None), Some(json!(null))),
            2 => (b.with_fact(key, Some(3u8)), Some(json!(3))),
            3 => (b.with_fact(key, Some(Some(String::from("x")))).with_fact(key, Some(String::new())), Some(json!(""))),
            4 => (b.with_fact(key, Unit), Some(json!(null))),
            5 => (b.with_fact(key, Wrapped(u64::MAX)), Some(json!(u64::MAX))),
            6 => (b.with_fact(key, Pair(-1, "p".into())), Some(json!([-1, "p"]))),
            7 => (b.with_fact(key, Choice::Plain), Some(json!("Plain"))),
            8 => (b.with_fact(key, Choice::One(1)), Some(json!({"One": 1}))),
            9 => (b.with_fact(key, Choice::Two(0, false)), Some(json!({"Two": [0, false]}))),
            10 => (b.with_fact(key, Choice::Named { x: Some(0.5) }), Some(json!({"Named": {"x": 0.5}}))),
            11 => (b.with_fact(key, Choice::Named { x: None }), Some(json!({"Named": {"x": null}}))),
            12 => (b.with_fact(key, Partial { gone: None, kept: (1, [-2, 3]) }), Some(json!({"r\u{e9}named": [1, [-2, 3]]}))),
            13 => (b.with_fact(key, 'c'), Some(json!("c"))),
            14 => (b.with_fact(key, 0.5f32), Some(json!(0.5))),
            15 => (b.with_fact(key, f64::NAN), Some(json!(null))),
            16 => (b.with_fact(key, i128::from(i64::MIN)), Some(json!(i64::MIN))),
            // beyond what JSON numbers hold here: it cannot be written
            17 => (b.with_fact(key, u128::MAX), None),
            18 => (b.with_fact(key, vec![0u8, 255]), Some(json!([0, 255]))),
            19 => (b.with_fact(key, Vec::<bool>::new()), Some(json!([]))),
            20 => (b.with_fact(key, std::collections::BTreeMap::from([(2u8, "b"), (10, "a")]).into_iter().map(|(k, v)| (k, v.to_string())).collect::<std::collections::BTreeMap<u8, String>>()), Some(json!({"2": "b", "10": "a"}))),
            // keys of maps have to be text
            21 => (b.with_fact(key, std::collections::BTreeMap::from([((1u8, 2u8), 3u8)])), None),
            22 => (b.with_fact(key, false), Some(json!(false))),
            23 => (b.with_fact(key, Box::new(Wrapped(0))), Some(json!(0))),
            24 => (b.with_fact(key, Unwritable), None),
            _ => (b.with_fact(key, std::time::Duration::from_millis(1500)), Some(json!({"secs": 1, "nanos": 500000000}))),
        };
        b = next;
        told.push(shown.clone());
        if let Some(v) = shown {
            facts.insert(key.into(), v);
        }
    }
    ctx.log(|| format!("facts {told:?}"));
    if !facts.is_empty() {
        t.fct = Some(facts.clone());
    }
    ctx.state(&t.payload().to_string());
    ctx.op();
    match sign_valued(b, &Value::Object(facts))? {
        None => ctx.outcome("refused"),
        Some(u) => {
            same(&u, &t)?;
            ctx.outcome("as told");
        }
    }
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "values",
            bounds: "about 600 (thorough more) JSON values in 6 places: as a fact, after and before others, nested, in a caveat, repeated, as the caveat",
            devs: (0, 0),
            run: values,
        },
        Harness {
            name: "typed",
            bounds: "every two of 26 facts of Rust types that serialise in their own ways, under one key or two",
            devs: (0, 0),
            run: typed,
        },
        Harness {
            name: "from_nothing",
            bounds: "every sequence of 4 (thorough 5) of 32 builder calls, the clock advancing between calls, building and signing",
            devs: (0, 0),
            run: from_nothing,
        },
        Harness {
            name: "from_complete",
            bounds: "every sequence of 4 (thorough 5) of 32 builder calls after issuer and audience were given",
            devs: (0, 0),
            run: from_complete,
        },
        Harness {
            name: "additions",
            bounds: "every sequence of 7 (thorough 9) of 5 calls that add proofs, delegations and capabilities",
            devs: (0, 0),
            run: additions,
        },
        Harness {
            name: "many",
            bounds: "every mixture of 12 (thorough 15) cited and delegated proofs",
            devs: (0, 0),
            run: many,
        },
        Harness {
            name: "texts",
            bounds: "texts of 0 to 139 (thorough 599) and about 10 (13) powers of two of 4 characters as audience, names and values of facts, resources, abilities and caveats, and with one more at either end",
            devs: (0, 0),
            run: texts,
        },
        Harness {
            name: "amounts",
            bounds: "0 to 129 (thorough 299) and 14 numbers to 1026 of facts, caveats of one ability, capabilities, proofs or delegations",
            devs: (0, 0),
            run: amounts,
        },
        Harness {
            name: "hashes",
            bounds: "two proofs, each witnessed or delegated from under each of 15 hash functions",
            devs: (0, 0),
            run: hashes,
        },
        Harness {
            name: "lifetimes",
            bounds: "11 lifetimes x 7 clock values at 5 points within the second x set once or twice x 3 expirations",
            devs: (0, 0),
            run: lifetimes,
        },
    ]
}
