//! C12: conversion between JWT and IPLD form.
//! C20: IPLD principals, signatures and algorithm codes.
use super::{
    builder::{sign_valued, valued},
    encoding::signable,
};
use crate::{
    big::big,
    engine::{bad, Ctx, Fail, Harness, R},
    ensure, large,
    exec::run,
    keys::{keys, real_parser, Type},
    world::{cid_with, Tok, ToyKey, CODES},
};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::{multihash::Code, Cid};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::str::FromStr;
use ucan::{
    builder::{Signable, UcanBuilder},
    capability::Capability,
    crypto::{did::DidParser, JwtSignatureAlgorithm, KeyMaterial},
    ipld::{Principle, Signature, UcanIpld, VarsigPrefix},
    serde::DagJson,
    Ucan,
};

/// The algorithms with an IPLD form, and their codes (from the specification)
const ALGS: [(&str, u64); 5] = [
    ("EdDSA", 0xd0ed),
    ("ES256", 0xd01200),
    ("ES384", 0xd01201),
    ("ES512", 0xd01202),
    ("RS256", 0xd01205),
];
const OTHER_CODES: [u64; 5] = [0xd000, 0xd0e7, 0xd0ea, 0xd0eb, 0xd191];

fn alg(i: usize) -> JwtSignatureAlgorithm {
    match i {
        0 => JwtSignatureAlgorithm::EdDSA,
        1 => JwtSignatureAlgorithm::ES256,
        2 => JwtSignatureAlgorithm::ES384,
        3 => JwtSignatureAlgorithm::ES512,
        _ => JwtSignatureAlgorithm::RS256,
    }
}

fn leb128(mut n: u64) -> Vec<u8> {
    let mut out = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}

/// A key of any algorithm with signatures of any length
#[derive(Clone)]
struct AlgKey {
    alg: usize,
    len: usize,
}
const ALG_MAGIC: &[u8] = &[0xf7, 0x0a];
const STRANGE: [&str; 6] = ["none", "HS256", "", "eddsa", "EdDSA ", "ES256K"];

impl AlgKey {
    fn bytes(&self) -> Vec<u8> {
        vec![self.alg as u8, (self.len >> 8) as u8, self.len as u8]
    }
    fn did(&self) -> String {
        crate::keys::did_of(ALG_MAGIC, &self.bytes())
    }
    fn raw(&self, data: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        let mut i = 0;
        while out.len() < self.len {
            out.extend(ToyKey::new(i).raw_sign(data));
            i = i.wrapping_add(1);
        }
        out.truncate(self.len);
        out
    }
    fn name(&self) -> &'static str {
        match ALGS.get(self.alg) {
            Some(a) => a.0,
            None => STRANGE[self.alg - ALGS.len()],
        }
    }
}

#[async_trait]
impl KeyMaterial for AlgKey {
    fn get_jwt_algorithm_name(&self) -> String {
        self.name().into()
    }
    async fn get_did(&self) -> Result<String> {
        Ok(self.did())
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        Ok(self.raw(payload))
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        if self.raw(payload) == signature {
            Ok(())
        } else {
            Err(anyhow!("bad signature"))
        }
    }
}

fn alg_key(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    match bytes.as_slice() {
        [a, b, c] => Ok(Box::new(AlgKey {
            alg: *a as usize,
            len: (*b as usize) << 8 | *c as usize,
        })),
        _ => Err(anyhow!("malformed")),
    }
}

fn parser() -> DidParser {
    DidParser::new(&[(ALG_MAGIC, alg_key)])
}

fn violation<E: std::fmt::Display>(what: &str) -> impl FnOnce(E) -> Fail + '_ {
    move |e| Fail::Violation(format!("{what}: {e:#}"))
}

/// A token and all its IPLD forms
fn converts(ctx: &mut Ctx, u: &Ucan, alg: &str, p: &mut DidParser) -> R {
    let text = u.encode().map_err(violation("not written"))?;
    let ipld = UcanIpld::try_from(u).map_err(violation("no IPLD form"))?;
    ctx.op();
    ensure!(ipld.v == u.version(), "version {:?} in IPLD", ipld.v);
    ensure!(ipld.iss.to_string() == u.issuer(), "issuer {} in IPLD", ipld.iss);
    ensure!(ipld.aud.to_string() == u.audience(), "audience {} in IPLD", ipld.aud);
    ensure!(ipld.exp == *u.expires_at(), "expiration {:?} in IPLD", ipld.exp);
    ensure!(ipld.nbf == *u.not_before(), "not-before {:?} in IPLD", ipld.nbf);
    ensure!(ipld.nnc == *u.nonce(), "nonce {:?} in IPLD", ipld.nnc);
    ensure!(ipld.fct == *u.facts(), "facts {:?} in IPLD", ipld.fct);
    ensure!(ipld.cap == *u.capabilities(), "capabilities {:?} in IPLD", ipld.cap);
    let prf = ipld
        .prf
        .as_ref()
        .map(|p| p.iter().map(Cid::to_string).collect::<Vec<_>>());
    ensure!(prf == *u.proofs(), "proofs {prf:?} in IPLD");
    let (a, s) = ipld.s.decode().map_err(violation("the signature in IPLD"))?;
    ensure!(
        a.to_string() == alg && s == u.signature(),
        "signature by {a} in IPLD; the token has {alg}"
    );
    // the shape in which it is written
    let v = serde_json::to_value(&ipld).map_err(violation("IPLD form not serialised"))?;
    let keys: Vec<&str> = v
        .as_object()
        .map(|o| o.keys().map(|k| k.as_str()).collect())
        .unwrap_or_default();
    ensure!(
        ["v", "iss", "aud", "s", "cap"].iter().all(|k| keys.contains(k)),
        "the IPLD form has the fields {keys:?}"
    );
    let via = |bytes: Vec<u8>, how: &str, f: fn(&[u8]) -> Result<UcanIpld>| -> R<UcanIpld> {
        f(&bytes).map_err(|e| Fail::Violation(format!("{how} bytes are not read back: {e:#}")))
    };
    let cbor = serde_ipld_dagcbor::to_vec(&ipld).map_err(violation("not written as DAG-CBOR"))?;
    let dag_json = ipld.to_dag_json().map_err(violation("not written as DAG-JSON"))?;
    let forms = [
        ("DAG-CBOR", via(cbor, "DAG-CBOR", |b| Ok(serde_ipld_dagcbor::from_slice(b)?))?),
        ("DAG-JSON", via(dag_json, "DAG-JSON", |b| UcanIpld::from_dag_json(b))?),
        ("", ipld),
    ];
    for (how, form) in &forms {
        ctx.op();
        ensure!(*form == forms[2].1, "another IPLD form after {how}: {form:?}");
        let back = Ucan::try_from(form).map_err(violation("no JWT form"))?;
        let again = back.encode().map_err(violation("not written"))?;
        ensure!(again == text, "through {how} IPLD, {text} becomes {again}");
        ensure!(back == *u, "through {how} IPLD, {u:?} becomes {back:?}");
        let ok = run(back.check_signature(p))?;
        ensure!(ok.is_ok(), "through {how} IPLD, the signature becomes invalid: {ok:?}");
        for h in [Code::Blake3_256, Code::Sha2_256] {
            ensure!(
                back.to_cid(h).ok() == Some(cid_with(text.as_bytes(), h)),
                "through {how} IPLD, the token gets another identifier"
            );
        }
    }
    Ok(())
}

fn capability_lists() -> Vec<Vec<(&'static str, &'static str, Value)>> {
    vec![
        vec![],
        vec![("app:/a", "app/read", json!({}))],
        vec![
            ("z", "b", json!({"y": {"x": [1, "é", []], "w": -5}, "": true})),
            ("z", "b", json!({"l": {"bytes": "AAAA"}})),
            ("z", "a", json!({"k": u64::MAX, "i": i64::MIN})),
            ("aa", "", json!({})),
            ("b", "c", json!({"f": 1.5, "g": 1e300, "h": -0.5})),
        ],
        vec![
            ("prf:0", "ucan/DELEGATE", json!({})),
            ("bb", "x", json!({"cc": 1, "a": 2, "ab": 3, "b": 4})),
            ("a", "x", json!({})),
        ],
    ]
}

fn fact_sets() -> Vec<Value> {
    vec![
        json!({}),
        json!({"a": "x"}),
        json!({"bb": {"y": {}, "x": [true, [false]]}, "a": -1, "é\u{0}": "\u{1f600}", "": u64::MAX, "i": i64::MIN}),
        json!({"f": [1.5, -0.25, 1e300, 5e-324]}),
        json!({"w": [1.0, 100.0, -0.0, 1e15, 1e16, 1e21, 9007199254740993.0]}),
        json!({"n": null, "m": [null]}),
        json!({"l": "bafkr4ia", "o": {"bytes": "AA"}}),
    ]
}

const AUDS: [&str; 7] = [
    "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK",
    "did:web:example.com",
    "did:key:z11112",
    "did:key:zDnaerDaTF5BXEavCrfRZEk316dpbLsfPDZ3WJ5hRTPFU2169",
    "did:pkh:eip155:1:0xab",
    "did:web:é:\u{1f600}",
    "did:ion:a%20b#c?d=e",
];

fn products(ctx: &mut Ctx) -> R {
    let i = ctx.choose(5);
    // the first of each are those of the quick tier
    let first = |ctx: &mut Ctx, quick: usize, all: usize| ctx.choose(ctx.by_tier(quick, all));
    let len = [64, 0, 128, 1, 127, 256, 300][first(ctx, 3, 7)];
    let key = AlgKey { alg: i, len };
    let aud = AUDS[first(ctx, 4, 7)];
    let exp = [None, Some(u64::MAX), Some(0), Some(1_700_000_000)][first(ctx, 3, 4)];
    let nbf = [None, Some(u64::MAX), Some(0), Some(1 << 53)][first(ctx, 3, 4)];
    let caps = ctx.pick(&capability_lists()).clone();
    let facts = ctx.pick(&fact_sets()).clone();
    let proofs = [0, 4, 1, 2, 3][first(ctx, 3, 5)];
    let nonce = ctx.flag();
    ctx.state(&(i, len, aud, exp, nbf, format!("{caps:?}{facts}"), proofs, nonce));
    ctx.log(|| format!("{} with {len} bytes, aud {aud}, exp {exp:?}, nbf {nbf:?}, caps {caps:?}, facts {facts}, proofs {proofs}, nonce {nonce}", key.name()));
    let cids: Vec<String> = [
        (Code::Blake3_256, "a"),
        (Code::Sha2_256, "b"),
        (Code::Sha2_512, "c"),
        (Code::Blake3_256, "a"),
    ][..proofs.min(4)]
        .iter()
        .map(|(h, t)| cid_with(t.as_bytes(), *h).to_string())
        .collect();
    let s = Signable {
        issuer: &key,
        audience: aud.to_string(),
        capabilities: caps
            .iter()
            .map(|(r, a, c)| Capability::from((*r, *a, c)))
            .collect(),
        expiration: exp,
        not_before: nbf,
        facts: facts
            .as_object()
            .into_iter()
            .flatten()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect(),
        proofs: cids,
        add_nonce: nonce,
    };
    ctx.op();
    let u = match run(s.sign())? {
        Ok(u) => u,
        Err(_) => {
            // whether it is rightly not signed is judged by C10
            ctx.outcome("not signed");
            return Ok(());
        }
    };
    converts(ctx, &u, key.name(), &mut parser())?;
    // the same from the text
    let text = u.encode().map_err(violation("not written"))?;
    let v = Ucan::try_from(text.as_str()).map_err(violation("not read"))?;
    converts(ctx, &v, key.name(), &mut parser())?;
    ctx.outcome("converts");
    Ok(())
}

/// Proofs under every hash function, and with other codecs
fn proof_hashes(ctx: &mut Ctx) -> R {
    let key = AlgKey { alg: 0, len: 64 };
    let mut cids = vec![];
    for text in ["a", "b"] {
        let cid = cid_with(text.as_bytes(), *ctx.pick(&CODES));
        let codec = *ctx.pick(&[0x55, 0x71, 0x0129, 0, 0x70, 1 << 62]);
        cids.push(Cid::new_v1(codec, *cid.hash()).to_string());
    }
    if ctx.flag() {
        cids.reverse();
    }
    ctx.state(&cids);
    ctx.log(|| format!("proofs {cids:?}"));
    ctx.op();
    let s = Signable {
        issuer: &key,
        audience: AUDS[0].to_string(),
        capabilities: vec![],
        expiration: None,
        not_before: None,
        facts: Default::default(),
        proofs: cids,
        add_nonce: false,
    };
    let u = run(s.sign())?.map_err(violation("not signed"))?;
    converts(ctx, &u, key.name(), &mut parser())?;
    ctx.outcome("converts");
    Ok(())
}

/// With the keys of real types, and through the builder
fn real_keys(ctx: &mut Ctx) -> R {
    let key = ctx.pick(keys());
    let other = ctx.pick(keys());
    if key.ty == Type::Rsa && !ctx.thorough() && other.ty == Type::Rsa {
        return Err(Fail::Prune);
    }
    let proofs = ctx.choose(3);
    let exp = *ctx.pick(&[None, Some(u64::MAX)]);
    let mut b = UcanBuilder::default()
        .issued_by(&key.private)
        .for_audience(&other.did)
        .with_nonce()
        .with_fact("f", json!({"x": [1, {"y": "z"}]}))
        .claiming_capability(("app:/a".to_string(), "app/read".to_string(), json!({"n": 1})));
    if let Some(e) = exp {
        b = b.with_expiration(e).not_before(1);
    }
    let proof = Ucan::try_from(Tok::new(1, 2).text()).map_err(violation("not read"))?;
    for i in 0..proofs {
        b = if i == 0 {
            b.delegating_from(&proof, Some(Code::Sha2_256))
        } else {
            b.witnessed_by(&proof, None)
        };
    }
    ctx.log(|| format!("{} to {}", key.name, other.name));
    ctx.state(&(key.name, other.name, proofs, exp));
    ctx.op();
    let s = b.build().map_err(violation("not built"))?;
    let u = run(s.sign())?.map_err(violation("not signed"))?;
    converts(ctx, &u, key.ty.alg(), &mut real_parser())?;
    ctx.outcome("converts");
    Ok(())
}

fn base58(s: &str) -> Option<Vec<u8>> {
    let alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut n: Vec<u8> = vec![]; // big-endian
    for c in s.chars() {
        let mut carry = alphabet.find(c)?;
        for b in n.iter_mut().rev() {
            let v = *b as usize * 58 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
        while carry > 0 {
            n.insert(0, carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.chars().take_while(|c| *c == '1').count();
    Some([vec![0; zeros], n].concat())
}

/// The bytes of a DID's principal, None: it has none
fn principal(did: &str) -> Option<Vec<u8>> {
    if let Some(k) = did.strip_prefix("did:key:z") {
        base58(k).filter(|b| b.len() >= 2 && b[..2] != [0x9d, 0x1a])
    } else {
        let rest = did.strip_prefix("did:")?;
        Some([&[0x9d, 0x1a], rest.as_bytes()].concat())
    }
}

/// What has no IPLD form is refused
fn refusals(ctx: &mut Ctx) -> R {
    let dids = [
        AUDS[0], AUDS[1], "", "alice", "did", "key:z6Mk", "DID:web:x", " did:web:x", "did:key:z", "did:key:z1",
        "did:key:z0", "did:key:zI", "did:key:zé", "did:key:z6Mk 2", "did:key:z11", "did:key:zE7g", "did:key:zE7h", "did:", "did:key:f00",
        "did:key:Z11", "mailto:did:web:x",
    ];
    let what = ctx.choose(3);
    let mut key = AlgKey { alg: 0, len: 8 };
    let mut t = Tok::new(0, 0);
    t.aud = AUDS[1].into();
    t.issuer = Some(AUDS[0].into());
    let mut expected = true;
    match what {
        0 => {
            let i = ctx.choose(ALGS.len() + STRANGE.len());
            key.alg = i;
            t.alg = key.name().into();
            expected = i < ALGS.len();
        }
        1 => {
            let did = ctx.pick(&dids).to_string();
            expected = principal(&did).is_some();
            if ctx.flag() {
                t.aud = did;
            } else {
                t.issuer = Some(did);
            }
        }
        _ => {
            let good = cid_with(b"a", Code::Blake3_256).to_string();
            let cites = [
                good.clone(), "".into(), "x".into(), "bafkr4ia".into(), format!("{good}a"), good[..good.len() - 1].to_string(),
                good[1..].to_string(), format!("{good} "), "Qm".into(),
            ];
            let c = ctx.pick(&cites).clone();
            expected = c == good;
            t.prf = Some(vec![]);
            if ctx.flag() {
                t.cite(good);
            }
            t.cite(c);
        }
    }
    let text = t.text();
    ctx.state(&text);
    ctx.log(|| format!("{} . {}", t.header(), t.payload()));
    ctx.ops(2);
    let u = Ucan::try_from(text.as_str()).map_err(violation("not read"))?;
    match UcanIpld::try_from(&u) {
        Ok(i) => {
            ensure!(expected, "has no IPLD form, but becomes {i:?}");
            let back = Ucan::try_from(&i).map_err(violation("no JWT form"))?;
            ensure!(back.encode().ok() == Some(text), "becomes another token");
            ctx.outcome("converts");
        }
        Err(e) => {
            ensure!(!expected, "not converted: {e:#}");
            ctx.outcome("refused");
        }
    }
    Ok(())
}

/// JSON values in all places
fn values(ctx: &mut Ctx) -> R {
    let key = AlgKey { alg: ctx.choose(ctx.by_tier(1, 5)), len: 64 };
    let mut t = Tok::new(0, 0);
    t.aud = AUDS[0].into();
    let b = UcanBuilder::default().issued_by(&key).for_audience(&t.aud);
    let (b, v) = valued(ctx, b, &mut t)?;
    ctx.state(&(key.alg, t.payload().to_string()));
    ctx.op();
    match sign_valued(b, &v)? {
        None => ctx.outcome("not signed"),
        Some(u) => {
            converts(ctx, &u, key.name(), &mut parser())?;
            ctx.outcome("converts");
        }
    }
    Ok(())
}

/// Tokens that are large in one respect
fn all_large(ctx: &mut Ctx) -> R {
    let (t, _) = big(ctx, (18, 20));
    let key = AlgKey { alg: ctx.choose(2), len: 64 };
    ctx.op();
    let mut s = signable(&t, &key);
    s.add_nonce = ctx.flag();
    let u = run(s.sign())?.map_err(violation("not signed"))?;
    converts(ctx, &u, key.name(), &mut parser())?;
    ctx.outcome("converts");
    Ok(())
}

pub fn c12() -> Vec<Harness> {
    vec![
        Harness {
            name: "large",
            bounds: large!("of 2 algorithms, with and without nonce"),
            devs: (0, 0),
            run: all_large,
        },
        Harness {
            name: "values",
            bounds: "about 600 (thorough more) JSON values in 6 places: as a fact, after and before others, nested, in a caveat, repeated, as the caveat; thorough: under 5 algorithms",
            devs: (0, 0),
            run: values,
        },
        Harness {
            name: "products",
            bounds: "5 algorithms x 3 (thorough 7) signature lengths x 4 (7) audiences x 3 (4) expirations x 3 (4) not-before times x 4 capability lists x 7 fact sets x 3 (5) proof lists x nonce, directly, as DAG-CBOR and as DAG-JSON, before and after reading the text",
            devs: (0, 0),
            run: products,
        },
        Harness {
            name: "proof_hashes",
            bounds: "two proofs, each under one of 15 hash functions and 6 codecs, in either order",
            devs: (0, 0),
            run: proof_hashes,
        },
        Harness {
            name: "real_keys",
            bounds: "tokens from each of 10 keys of 5 types to each other (quick: not RSA to RSA), with and without bounds, with 0 to 2 proofs",
            devs: (0, 0),
            run: real_keys,
        },
        Harness {
            name: "refusals",
            bounds: "11 algorithm names, 21 issuers and audiences, 18 proof lists, with and without an IPLD form",
            devs: (0, 0),
            run: refusals,
        },
    ]
}

// ---------------------------------------------------------------------------
// C20

fn through<T: Serialize + DeserializeOwned + PartialEq>(x: &T) -> R {
    let cbor = serde_ipld_dagcbor::to_vec(x).map_err(violation("not written as DAG-CBOR"))?;
    let json = serde_json::to_vec(x).map_err(violation("not written as JSON"))?;
    let dag = x.to_dag_json().map_err(violation("not written as DAG-JSON"))?;
    let back = [
        serde_ipld_dagcbor::from_slice::<T>(&cbor).ok(),
        serde_json::from_slice::<T>(&json).ok(),
        T::from_dag_json(&dag).ok(),
    ];
    if back.iter().all(|b| b.as_ref() == Some(x)) {
        Ok(())
    } else {
        bad("lost when serialised")
    }
}

fn did_case(did: &str, serialise: bool) -> R<bool> {
    let expected = principal(did);
    match (Principle::from_str(did), &expected) {
        (Ok(p), Some(bytes)) => {
            let shown = p.to_string();
            ensure!(shown == did, "{did:?} is shown as {shown:?}");
            let same = Principle::try_from(bytes.clone());
            ensure!(
                matches!(&same, Ok(q) if *q == p),
                "{did:?} does not pack into {bytes:?}: {same:?}"
            );
            if serialise {
                through(&p)?;
            }
            Ok(true)
        }
        (Err(_), None) => Ok(false),
        (Ok(p), None) => bad(format!("{did:?} is not a DID, but becomes {p:?}")),
        (Err(e), Some(_)) => bad(format!("{did:?} is refused: {e:#}")),
    }
}

/// Every text over small alphabets
fn did_texts(ctx: &mut Ctx) -> R {
    let n = ctx.by_tier(4, 5);
    let (prefix, alphabet): (&str, Vec<char>) = match ctx.choose(8) {
        5 => ("did:web:", "aAzZ.:%0/#?\n\0é ".chars().collect()),
        6 => ("did:plc:x", "aAkKiIsSzZ0\u{212a}\u{17f}".chars().collect()),
        7 => ("did:example:", "abAB%2fF;=é\u{301}e".chars().collect()),
        0 => ("", "did:keyzDw é".chars().collect()),
        1 => ("did:", "kezyw:1".chars().collect()),
        2 => ("did:key:", "z1Zf2 ".chars().collect()),
        3 => ("did:key:z", "12zZaE7gh0Il".chars().collect()),
        _ => ("did:key:zE7", "12zZaE7ghij".chars().collect()),
    };
    // the last characters are enumerated within one execution
    let mut s = prefix.to_string();
    for _ in 0..n - 2 {
        let i = ctx.choose(alphabet.len() + 1);
        if i == alphabet.len() {
            break;
        }
        s.push(alphabet[i]);
    }
    ctx.log(|| format!("{s:?} continued in every way"));
    let mut all = vec![s.clone()];
    for a in &alphabet {
        all.push(format!("{s}{a}"));
        for b in &alphabet {
            all.push(format!("{s}{a}{b}"));
        }
    }
    let mut accepted = 0;
    for did in &all {
        ctx.op();
        ctx.state(did);
        accepted += did_case(did, true)? as usize;
    }
    ctx.outcome(if accepted == 0 { "all refused" } else { "shown as given" });
    Ok(())
}

/// DIDs put together from the pieces they have in practice
fn did_pieces(ctx: &mut Ctx) -> R {
    const PIECES: [&str; 44] = [
        "web:", "plc:", "ethr:", "pkh:eip155:1:", "ion:", "peer:", "key:", "dns:", "WEB:", "key:z", "key:Z", "jwk:", "3:",
        "example.com", "EXAMPLE.com", "localhost%3A8443", "localhost%3a8443", "localhost:8443", ":", "::", "/", "#key-1", "?v=1", "?", "#", "//",
        "0xAb5801a7D398351b8bE11C439e05C5B3259aeC9B", "0xab5801a7d398351b8be11c439e05c5b3259aec9b", "z6MkffDZCkCTWreg8868fG1FGFogcJj5X6PY93pPcWDn9bob",
        ".", "..", "www.", "xn--bcher-kva", "bücher", "BÜCHER", "user", "Alice", "alice", " ", "\t", "\u{feff}", "\u{0}", "%20", "did:",
    ];
    let n = ctx.by_tier(2, 3);
    let mut s = "did:".to_string();
    for _ in 0..n {
        let i = ctx.choose(PIECES.len() + 1);
        if i == PIECES.len() {
            break;
        }
        s.push_str(PIECES[i]);
    }
    ctx.log(|| format!("{s:?} and with one further piece"));
    let mut accepted = 0;
    for p in [""].into_iter().chain(PIECES) {
        let did = format!("{s}{p}");
        ctx.op();
        ctx.state(&did);
        accepted += did_case(&did, true)? as usize;
    }
    ctx.outcome(if accepted == 0 { "all refused" } else { "shown as given" });
    Ok(())
}

/// DIDs of any length
fn did_lengths(ctx: &mut Ctx) -> R {
    let mut sizes: Vec<usize> = (0..300).collect();
    for bits in [9, 10, 11, 12, 13, 14, 15, 16, 20] {
        let b = 1usize << bits;
        sizes.extend([b - 1, b, b + 1]);
    }
    let n = *ctx.pick(&sizes);
    for method in ["web:", "plc:x", "key:f00", "ethr:0x"] {
        for fill in ["a", "Z", "é", "%41"] {
            // the same but for the last character
            for end in ["", "b", "B", " "] {
                let did = format!("did:{method}{}{end}", fill.repeat(n));
                ctx.op();
                did_case(&did, n < 5000)?;
            }
        }
    }
    ctx.state(&n);
    ctx.log(|| format!("{n} characters"));
    ctx.outcome("shown as given");
    Ok(())
}

/// Every pair or triple of base58 characters, alone and behind keys
fn base58_texts(ctx: &mut Ctx) -> R {
    let alphabet: Vec<char> = "123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0"
        .chars()
        .collect();
    let long = &AUDS[0]["did:key:z".len()..];
    let stem = *ctx.pick(&["", "1", "E7", "111111", long, &long[..20]]);
    let a = *ctx.pick(&alphabet);
    ctx.log(|| format!("did:key:z{stem}{a} continued in every way"));
    for b in &alphabet {
        did_case(&format!("did:key:z{stem}{a}{b}"), false)?;
        for c in &alphabet {
            ctx.op();
            did_case(&format!("did:key:z{stem}{a}{b}{c}"), false)?;
        }
    }
    ctx.state(&(stem, a));
    ctx.outcome("shown as given");
    Ok(())
}

/// Every key length and first byte
fn key_lengths(ctx: &mut Ctx) -> R {
    let len = ctx.choose(ctx.by_tier(130, 300));
    let b = ctx.choose(256) as u8;
    let fill = *ctx.pick(&[0u8, 1, 0x80, 0xff]);
    let mut bytes = vec![fill; len];
    if len > 0 {
        bytes[0] = b;
    }
    let did = format!("did:key:z{}", bs58::encode(&bytes).into_string());
    ctx.state(&did);
    ctx.op();
    ctx.log(|| did.clone());
    // its own base58 is quadratic; bs58 is compared with it above
    let expected = len >= 2 && bytes[..2] != [0x9d, 0x1a];
    match Principle::from_str(&did) {
        Ok(p) => {
            ensure!(expected, "{did} is accepted");
            ensure!(p.to_string() == did, "{did} is shown as {p}");
            let v: R<Vec<u8>> = serde_json::to_value(&p)
                .and_then(serde_json::from_value)
                .map_err(violation("not serialised"));
            ensure!(v? == bytes, "{did} does not pack into its bytes");
            through(&p)?;
            ctx.outcome("shown as given");
        }
        Err(e) => {
            ensure!(!expected, "{did} is refused: {e:#}");
            ctx.outcome("refused");
        }
    }
    Ok(())
}

fn bytes_case(bytes: &[u8]) -> R<bool> {
    let text = bytes.strip_prefix(&[0x9d, 0x1a]).map(std::str::from_utf8);
    let expected = match text {
        _ if bytes.len() < 2 => None,
        None => Some(format!("did:key:z{}", bs58::encode(bytes).into_string())),
        // such a DID packs into something else
        Some(Ok(t)) if t.starts_with("key:z") => None,
        Some(Ok(t)) => Some(format!("did:{t}")),
        Some(Err(_)) => None,
    };
    match (Principle::try_from(bytes.to_vec()), expected) {
        (Ok(p), Some(did)) => {
            let shown = p.to_string();
            ensure!(shown == did, "{bytes:x?} is shown as {shown} instead of {did}");
            let q = Principle::from_str(&shown);
            ensure!(
                matches!(&q, Ok(q) if *q == p),
                "{bytes:x?} is shown as {shown}, which is {q:?}"
            );
            Ok(true)
        }
        (Err(_), None) => Ok(false),
        (Ok(p), None) => bad(format!("no DID packs into {bytes:x?}, but it becomes {p:?}")),
        (Err(e), Some(did)) => bad(format!("{bytes:x?} ({did}) is refused: {e:#}")),
    }
}

fn principal_bytes(ctx: &mut Ctx) -> R {
    match ctx.choose(3) {
        0 => {
            // all byte strings of up to three bytes
            let a = ctx.choose(256) as u8;
            ctx.log(|| format!("[{a:#x}] continued in every way"));
            bytes_case(&[])?;
            bytes_case(&[a])?;
            for b in 0..=255u8 {
                bytes_case(&[a, b])?;
                if b % if ctx.thorough() { 1 } else { 8 } == 0 || a == 0x9d {
                    for c in 0..=255u8 {
                        bytes_case(&[a, b, c])?;
                        ctx.op();
                    }
                }
            }
            ctx.state(&a);
        }
        1 => {
            // texts of DIDs, well-formed or not
            let a = ctx.choose(256) as u8;
            ctx.log(|| format!("[0x9d, 0x1a, {a:#x}] continued in every way"));
            for b in 0..=255u8 {
                for c in [0x00, 0x3a, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc0, 0xff] {
                    for d in [0x41, 0x80, 0xbf] {
                        bytes_case(&[0x9d, 0x1a, a, b, c, d])?;
                        ctx.op();
                    }
                }
            }
            ctx.state(&(1, a));
        }
        _ => {
            let text = *ctx.pick(&["key:z6Mk", "key:z", "key:", "key:f00", "web:a", "", "key:Z", "keyz", "key:z0", "Key:z1", " key:z6Mk"]);
            let bytes = [&[0x9d, 0x1a], text.as_bytes()].concat();
            for n in 0..=bytes.len() {
                let b = &bytes[..n];
                ctx.op();
                let ok = bytes_case(b)?;
                // and the ways to read it from serialised form
                let j = serde_json::from_value::<Principle>(json!(b)).is_ok();
                let c = serde_ipld_dagcbor::to_vec(&b.to_vec())
                    .ok()
                    .and_then(|c| serde_ipld_dagcbor::from_slice::<Principle>(&c).ok())
                    .is_some();
                ensure!(j == ok && c == ok, "{b:x?}: {ok}, read from JSON {j}, from CBOR {c}");
            }
            ctx.log(|| format!("{text:?} and its beginnings"));
            ctx.state(&text);
        }
    }
    ctx.outcome("as expected");
    Ok(())
}

fn pack(code: u64, body: &[u8]) -> Vec<u8> {
    [leb128(code), leb128(body.len() as u64), body.to_vec()].concat()
}

/// Minimal encodings only
fn read_leb(bytes: &[u8]) -> Option<(u64, &[u8])> {
    let mut n: u128 = 0;
    for (i, b) in bytes.iter().enumerate() {
        if i > 9 {
            return None;
        }
        n |= ((b & 0x7f) as u128) << (7 * i);
        if b & 0x80 == 0 {
            if *b == 0 && i > 0 {
                return None;
            }
            return u64::try_from(n).ok().map(|n| (n, &bytes[i + 1..]));
        }
    }
    None
}

fn unpack(bytes: &[u8]) -> Option<(usize, &[u8])> {
    let (code, rest) = read_leb(bytes)?;
    let i = ALGS.iter().position(|a| a.1 == code)?;
    let (len, rest) = read_leb(rest)?;
    (rest.len() as u64 == len).then_some((i, rest))
}

fn signature_case(bytes: &[u8]) -> R<bool> {
    let s = Signature(bytes.to_vec());
    match (s.decode(), unpack(bytes)) {
        (Ok((a, body)), Some((i, expected))) => {
            ensure!(
                a.to_string() == ALGS[i].0 && body == expected,
                "{bytes:x?} is read as {a} with {body:x?}"
            );
            Ok(true)
        }
        (Err(_), None) => Ok(false),
        (Ok(got), None) => bad(format!("{bytes:x?} is no signature, but read as {got:?}")),
        (Err(e), Some(_)) => bad(format!("{bytes:x?} is refused: {e:#}")),
    }
}

fn signatures(ctx: &mut Ctx) -> R {
    let i = ctx.choose(5);
    let max = ctx.by_tier(520, 2100);
    let mut lens: Vec<usize> = (0..max).collect();
    lens.extend([16383, 16384, 16385, 70000, 2097151, 2097152]);
    let len = *ctx.pick(&lens);
    let body: Vec<u8> = (0..len).map(|k| (k * 7 + i) as u8).collect();
    ctx.state(&(i, len));
    ctx.log(|| format!("{} with {len} bytes", ALGS[i].0));
    ctx.ops(2);
    let s = Signature::try_from((alg(i), &body)).map_err(violation("not packed"))?;
    ensure!(s.0 == pack(ALGS[i].1, &body), "packed as {:x?}...", &s.0[..s.0.len().min(8)]);
    let (a, got) = s.decode().map_err(violation("not unpacked"))?;
    ensure!(a == alg(i) && got == body, "unpacked as {a} with {} bytes", got.len());
    if len < 2000 {
        through(&s)?;
        // truncated and extended
        for n in 0..s.0.len() {
            signature_case(&s.0[..n])?;
        }
        for extra in [0u8, 1, 0x80, 0xff] {
            signature_case(&[s.0.clone(), vec![extra]].concat())?;
        }
    }
    ctx.outcome("packs and unpacks");
    Ok(())
}

/// Every byte of a packed signature's head replaced by every other, and every
/// way to write the numbers
fn signature_bytes(ctx: &mut Ctx) -> R {
    match ctx.choose(3) {
        0 => {
            let a = ctx.choose(256) as u8;
            ctx.log(|| format!("[{a:#x}] continued in every way"));
            signature_case(&[])?;
            signature_case(&[a])?;
            let step = if ctx.thorough() || [0xed, 0x80, 0x81, 0x82, 0x85].contains(&a) { 1 } else { 8 };
            for b in (0..=255u8).step_by(step) {
                signature_case(&[a, b])?;
                for c in 0..=255u8 {
                    ctx.op();
                    signature_case(&[a, b, c])?;
                    signature_case(&[a, b, c, 0])?;
                    signature_case(&[a, b, c, 1, 7])?;
                    signature_case(&[a, b, c, 0x80, 7])?;
                }
            }
            ctx.state(&a);
        }
        1 => {
            let i = ctx.choose(5);
            let len = *ctx.pick(&[0, 1, 2, 64, 127, 128, 129, 300]);
            let good = pack(ALGS[i].1, &vec![0x81; len]);
            ctx.log(|| format!("each byte of {} with {len} bytes replaced", ALGS[i].0));
            for at in 0..good.len().min(8) {
                for b in 0..=255u8 {
                    let mut m = good.clone();
                    m[at] = b;
                    ctx.op();
                    signature_case(&m)?;
                    m.insert(at, b);
                    signature_case(&m)?;
                    m.drain(at..at + 2);
                    signature_case(&m)?;
                }
            }
            ctx.state(&(i, len));
        }
        _ => {
            // numbers padded with zeros, or too large
            let codes: Vec<u64> = ALGS.iter().map(|a| a.1).chain(OTHER_CODES).chain([0, u64::MAX]).collect();
            let code = *ctx.pick(&codes);
            let len = *ctx.pick(&[0u64, 1, 127, 128, u32::MAX as u64, 1 << 63, u64::MAX]);
            let pad = |n: u64, zeros: usize| {
                let mut v = leb128(n);
                if zeros > 0 {
                    if let Some(l) = v.last_mut() {
                        *l |= 0x80;
                    }
                    v.extend(vec![0x80; zeros - 1]);
                    v.push(0);
                }
                v
            };
            let (x, y) = (ctx.choose(10), ctx.choose(10));
            ctx.log(|| format!("code {code:#x} padded by {x}, length {len} padded by {y}"));
            for body in [0usize, 1, 2, 127, 128, 129] {
                ctx.op();
                signature_case(&[pad(code, x), pad(len, y), vec![1; body]].concat())?;
            }
            for over in [vec![0xff; 10], vec![0xff; 11], [vec![0xff; 9], vec![2]].concat()] {
                signature_case(&[over.clone(), pad(len, y)].concat())?;
                signature_case(&[pad(code, x), over, vec![1; 3]].concat())?;
            }
            ctx.state(&(code, len, x, y));
        }
    }
    ctx.outcome("as expected");
    Ok(())
}

/// Numeric codes and names correspond one to one
fn codes(ctx: &mut Ctx) -> R {
    let chunk = ctx.choose(0x112) as u64;
    let range: Vec<u64> = match chunk {
        0..=0xff => (chunk * 0x10000..(chunk + 1) * 0x10000).collect(),
        0x100 => (0..64).flat_map(|i| [1u64 << i, (1 << i) - 1, (1 << i) + 1, u64::MAX - (1 << i)]).collect(),
        0x101 => ALGS.iter().map(|a| a.1).chain(OTHER_CODES).flat_map(|c| (0..64u32).flat_map(move |i| [c ^ (1 << i), c.rotate_left(i), c | u64::MAX << i, c.wrapping_add(1 << i), c.wrapping_sub(1 << i)])).collect(),
        n => {
            let names: Vec<&str> = ALGS.iter().map(|a| a.0).collect();
            let i = (n - 0x102) as usize;
            let more = ["none", "", "ES256K", "HS256", "EdDSA ", " EdDSA", "Ed25519", "RS512", "PS256", "ES512\0", "0xd0ed"];
            let s: String = match names.get(i) {
                Some(s) => s.to_string(),
                None => match more.get(i - names.len()) {
                    Some(s) => s.to_string(),
                    None => return Err(Fail::Prune),
                },
            };
            let mut all = vec![s.clone(), s.to_lowercase(), s.to_uppercase()];
            for (at, _) in s.char_indices() {
                for c in ('\u{20}'..'\u{7f}').chain(['é']) {
                    all.push(format!("{}{c}{}", &s[..at], s.get(at + 1..).unwrap_or("")));
                    all.push(format!("{}{c}{}", &s[..at], &s[at..]));
                }
                all.push(s[..at].to_string());
            }
            ctx.log(|| format!("names like {s:?}"));
            for name in &all {
                ctx.op();
                ctx.state(name);
                let known = ALGS.iter().position(|a| a.0 == name);
                let a = JwtSignatureAlgorithm::from_str(name);
                let v = VarsigPrefix::from_str(name);
                match known {
                    Some(i) => {
                        ensure!(a.as_ref().ok() == Some(&alg(i)), "{name:?} is read as {a:?}");
                        ensure!(alg(i).to_string() == *name, "{name:?} is shown as {}", alg(i));
                        let v = v.map_err(violation("no prefix"))?;
                        let code = u64::from(v);
                        ensure!(code == ALGS[i].1, "{name} has the code {code:#x}");
                        let v = VarsigPrefix::try_from(code).map_err(violation("no prefix"))?;
                        let back = JwtSignatureAlgorithm::try_from(v).map_err(violation("no algorithm"))?;
                        ensure!(back == alg(i), "{name} becomes {back}");
                        let v = VarsigPrefix::try_from(alg(i)).map_err(violation("no prefix"))?;
                        ensure!(u64::from(v) == code, "{name} has two prefixes");
                    }
                    None => ensure!(a.is_err() && v.is_err(), "{name:?} is an algorithm"),
                }
            }
            ctx.outcome("as expected");
            return Ok(());
        }
    };
    ctx.log(|| format!("codes from {:#x}", range[0]));
    ctx.state(&chunk);
    ctx.ops(range.len());
    for code in range {
        // at the head of a signature
        let head = [leb128(code), vec![2, 7, 9]].concat();
        ensure!(
            signature_case(&head)? == ALGS.iter().any(|a| a.1 == code),
            "a signature with the code {code:#x}"
        );
        let jwt = ALGS.iter().position(|a| a.1 == code);
        match VarsigPrefix::try_from(code) {
            Ok(p) => {
                ensure!(jwt.is_some() || OTHER_CODES.contains(&code), "{code:#x} is {p:?}");
                let (show, again) = (format!("{p:?}"), VarsigPrefix::try_from(code).ok());
                ensure!(again.as_ref() == Some(&p), "{code:#x} is {p:?} or {again:?}");
                let a = JwtSignatureAlgorithm::try_from(p).ok();
                ensure!(a == jwt.map(alg), "{show} ({code:#x}) is for {a:?}");
                ensure!(again.map(u64::from) == Some(code), "{code:#x} is not the code of {show}");
            }
            Err(_) => ensure!(
                jwt.is_none() && !OTHER_CODES.contains(&code),
                "{code:#x} is not known"
            ),
        }
    }
    ctx.outcome("as expected");
    Ok(())
}

pub fn c20() -> Vec<Harness> {
    vec![
        Harness {
            name: "did_pieces",
            bounds: "every sequence of up to 3 (thorough 4) of 44 pieces that DIDs of 13 methods have",
            devs: (0, 0),
            run: did_pieces,
        },
        Harness {
            name: "did_lengths",
            bounds: "DIDs of 0 to 299 and about 9 powers of two characters, 4 methods, 4 fillings, 4 ends",
            devs: (0, 0),
            run: did_lengths,
        },
        Harness {
            name: "did_texts",
            bounds: "every text of up to 4 (thorough 5) characters over 8 alphabets, behind 8 beginnings of DIDs; shown, packed and serialised in 3 formats",
            devs: (0, 0),
            run: did_texts,
        },
        Harness {
            name: "base58_texts",
            bounds: "every 2 or 3 of 62 characters behind 6 beginnings of a did:key",
            devs: (0, 0),
            run: base58_texts,
        },
        Harness {
            name: "key_lengths",
            bounds: "keys of 0 to 129 (thorough 299) bytes x every first byte x 4 fillings",
            devs: (0, 0),
            run: key_lengths,
        },
        Harness {
            name: "principal_bytes",
            bounds: "all byte strings of up to 2 and (quick: an eighth of) 3 bytes, and texts of DIDs in 1.7 million forms, as principals",
            devs: (0, 0),
            run: principal_bytes,
        },
        Harness {
            name: "signatures",
            bounds: "5 algorithms x every length up to 519 (thorough 2099) and some up to 2 MB, with all truncations and 4 extensions",
            devs: (0, 0),
            run: signatures,
        },
        Harness {
            name: "signature_bytes",
            bounds: "all byte strings of up to 2 and (quick: an eighth of) 3 bytes with 4 continuations; each of the first 8 bytes of 40 signatures replaced, repeated and dropped; numbers padded or too large",
            devs: (0, 0),
            run: signature_bytes,
        },
        Harness {
            name: "codes",
            bounds: "all codes below 2^24 and around each power of 2 and each known code, alone and at the head of a signature; all single-character edits of 16 algorithm names",
            devs: (0, 0),
            run: codes,
        },
    ]
}
