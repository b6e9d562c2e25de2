//! C13: no input makes the library panic, abort or hang.
//!
//! Panics are noticed by the engine, aborts and hangs by its supervisor; the
//! harnesses only have to offer every input to everything that takes one.
use crate::{
    clock,
    engine::{bad, no_panic, Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    keys::{did_of, keys, real_parser, Type, TYPES},
    sem::AppSemantics,
    world::{canon, cid_of, parser, sign_text, MapStore, Tok, ToyKey, B64, TOY_MAGIC},
};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use base64::Engine;
use cid::{multihash::Code, Cid};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    str::FromStr,
    sync::{
        atomic::{AtomicU64, Ordering},
        OnceLock,
    },
};
use ucan::{
    builder::{Signable, UcanBuilder},
    capability::{
        proof::{ProofAction, ProofDelegationSemantics, ProofSelection},
        Capabilities, Capability, CapabilitySemantics, Caveat, Scope,
    },
    chain::ProofChain,
    crypto::{did::DidParser, JwtSignatureAlgorithm, KeyMaterial},
    ipld::{Principle, Signature, UcanIpld, VarsigPrefix},
    serde::DagJson,
    store::{MemoryStore, UcanJwtStore},
    Ucan,
};
use url::Url;

thread_local! {
    static PARSER: RefCell<DidParser> = RefCell::new(real_parser());
}

/// Seconds of processor time that one input may take
const LIMIT_S: f64 = 30.0;

fn cpu_s() -> f64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

fn in_time<T>(what: &str, f: impl FnOnce() -> R<T>) -> R<T> {
    let t0 = cpu_s();
    let r = f()?;
    let t = cpu_s() - t0;
    ensure!(t < LIMIT_S, "{what} took {t:.0} s");
    Ok(r)
}

/// Everything that can be done with a token
fn exercise(u: &Ucan, store: &MapStore, now: Option<u64>) -> R {
    let _ = (
        u.algorithm().len(),
        u.issuer().len(),
        u.audience().len(),
        u.version().len(),
        u.proofs().is_some(),
        u.expires_at().is_some(),
        u.not_before().is_some(),
        u.nonce().is_some(),
        u.facts().is_some(),
        u.signed_data().len(),
        u.signature().len(),
        u.attenuation().len(),
    );
    let _ = (u.is_expired(None), u.is_expired(now), u.is_too_early());
    let _ = (
        u.lifetime_begins_before(u),
        u.lifetime_ends_after(u),
        u.lifetime_encompasses(u),
    );
    let _ = format!("{u:?}");
    for c in u.capabilities().iter() {
        let _ = format!("{c:?}");
        if let Some(v) = AppSemantics.parse_capability(&c) {
            let _ = (v.enables(&v), v.resource().to_string(), format!("{v:?}"));
            let _ = Capability::from(&v);
        }
        if let Some(v) = (ProofDelegationSemantics {}).parse_capability(&c) {
            let _ = (v.enables(&v), v.resource().to_string(), format!("{v:?}"));
        }
    }
    for code in [Code::Blake3_256, Code::Sha2_256, Code::Blake2s128] {
        let _ = u.to_cid(code);
    }
    if let Ok(text) = u.encode() {
        let _ = Ucan::from_str(&text);
    }
    let _ = serde_json::to_string(u).map(|s| serde_json::from_str::<Ucan>(&s).is_ok());
    let _ = serde_ipld_dagcbor::to_vec(u).map(|b| serde_ipld_dagcbor::from_slice::<Ucan>(&b).is_ok());
    if let Ok(i) = UcanIpld::try_from(u) {
        let _ = format!("{i:?}");
        let _ = serde_ipld_dagcbor::to_vec(&i);
        let _ = i.to_dag_json();
        let _ = Ucan::try_from(&i);
    }
    PARSER.with(|p| -> R {
        let mut p = p.borrow_mut();
        let _ = run(u.check_signature(&mut p))?;
        let _ = run(u.validate(now, &mut p))?;
        if let Ok(c) = run(ProofChain::from_ucan(u.clone(), now, &mut p, store))? {
            let _ = c.reduce_capabilities(&AppSemantics).len();
            let _ = c.reduce_capabilities(&ProofDelegationSemantics {}).len();
            let _ = format!("{c:?}");
        }
        Ok(())
    })?;
    let key = ToyKey::new(5);
    let b = UcanBuilder::default()
        .issued_by(&key)
        .for_audience(u.audience())
        .witnessed_by(u, None)
        .delegating_from(u, Some(Code::Sha2_256));
    let b = b.claiming_capabilities(&u.capabilities().iter().collect::<Vec<_>>());
    if let Ok(s) = b.build() {
        let _ = run(s.sign())?;
    }
    Ok(())
}

fn in_token(resource: &str, ability: &str, caveat: Value, prf: &str) -> String {
    let mut t = Tok::new(0, 1);
    t.claim(resource, ability, caveat);
    if !prf.is_empty() {
        t.cite(prf.into());
    }
    t.text()
}

/// A text, wherever a text can be given
fn offer(s: &str, deep: bool) -> R {
    let store = MapStore::default();
    if let Ok(u) = Ucan::try_from(s) {
        exercise(&u, &store, None)?;
    }
    let _ = Ucan::try_from(s.to_string()).is_ok();
    PARSER.with(|p| -> R {
        if let Ok(k) = p.borrow_mut().parse(s) {
            let _ = run(k.get_did())?;
            let _ = run(k.verify(s.as_bytes(), s.as_bytes()))?;
        }
        Ok(())
    })?;
    if let Ok(p) = Principle::from_str(s) {
        let _ = (p.to_string(), format!("{p:?}"));
    }
    let _ = JwtSignatureAlgorithm::from_str(s).map(|a| a.to_string());
    let _ = VarsigPrefix::from_str(s).map(u64::from);
    let _ = ProofSelection::try_from(s.to_string()).map(|p| p.contains(&ProofSelection::All));
    let _ = ProofAction::try_from(s.to_string()).map(|p| p.to_string());
    let none = json!({});
    for (r, a) in [(s, "app/read"), ("my:/a", s), (s, "ucan/DELEGATE"), (s, s)] {
        if let Some(v) = AppSemantics.parse(r, a, Some(&none)) {
            let _ = (v.enables(&v), v.resource().to_string(), format!("{v:?}"));
        }
        if let Some(v) = (ProofDelegationSemantics {}).parse(r, a, None) {
            let _ = (v.enables(&v), v.resource().to_string(), format!("{v:?}"));
        }
    }
    let _ = AppSemantics.extract_did(s);
    if let Ok(u) = Url::parse(s) {
        let _ = (AppSemantics.parse_scope(&u), AppSemantics.parse_resource(&u));
        let _ = (ProofDelegationSemantics {}).parse_resource(&u).is_some();
        let _ = ProofSelection::try_from(u).is_ok();
    }
    let _ = serde_json::from_str::<Capabilities>(s);
    let _ = serde_json::from_str::<Ucan>(s);
    let _ = serde_json::from_str::<UcanIpld>(s);
    let _ = serde_json::from_str::<Principle>(s);
    let _ = serde_json::from_str::<Signature>(s).map(|x| x.decode().is_ok());
    let _ = Capabilities::from_dag_json(s.as_bytes());
    let _ = UcanIpld::from_dag_json(s.as_bytes());
    let _ = Ucan::from_dag_json(s.as_bytes());
    if let Ok(cid) = Cid::try_from(s) {
        let store = MemoryStore::default();
        let _ = run(store.read_token(&cid))?;
        let _ = run(store.require_token(&cid))?;
    }
    if !deep {
        return Ok(());
    }
    // inside of a token that is signed and verified
    for t in [
        in_token(s, "app/read", json!({}), ""),
        in_token("app:/a", s, json!({}), ""),
        in_token(s, "ucan/DELEGATE", json!({ s: s }), ""),
        in_token("app:/a", "app/read", json!({}), s),
    ] {
        if let Ok(u) = Ucan::try_from(t.as_str()) {
            exercise(&u, &store, Some(clock::DEFAULT))?;
        }
    }
    // given to the builder
    let key = ToyKey::new(3);
    let b = UcanBuilder::default()
        .issued_by(&key)
        .for_audience(s)
        .with_fact(s, s.to_string())
        .with_lifetime(10)
        .claiming_capability(Capability::new(s.into(), s.into(), json!({ s: s })));
    if let Ok(b) = b.build() {
        if let Ok(u) = run(b.sign())? {
            exercise(&u, &store, None)?;
        }
    }
    Ok(())
}

fn short_texts(ctx: &mut Ctx) -> R {
    const ALPHABET: [&str; 26] = [
        ".", "a", "z", "1", "0", "9", "-", "+", "=", "_", "/", ":", "*", "%", "#", "?", "@", "{",
        "}", "[", "]", "\"", "\\", " ", "\0", "é",
    ];
    let n = ctx.by_tier(3, 4);
    let mut s = String::new();
    for _ in 0..n {
        let c = ctx.choose(ALPHABET.len() + 1);
        if c == 0 {
            break;
        }
        s.push_str(ALPHABET[c - 1]);
    }
    ctx.op();
    ctx.state(&s);
    ctx.log(|| format!("{s:?}"));
    // thorough: the last character only in front of the parsers
    let deep = s.chars().count() <= 3;
    in_time("a short text", || offer(&s, deep))?;
    ctx.outcome("survived");
    Ok(())
}

fn fragments(ctx: &mut Ctx) -> R {
    static F: OnceLock<Vec<String>> = OnceLock::new();
    let all = F.get_or_init(|| {
        let mut all: Vec<String> = [
            "did:", "key:", "did:key:", "did:key:z", "did:web:", "z6Mk", "my:", "as:", "prf:", "app:",
            "ucan:", "mailto:", "http://", "file:///", "data:,", ":", "*", "/", "//", "..", "?", "#",
            "%", "%zz", "%00", "%ff", "é", "\u{202e}", "\0", " ", "\n", "[", "]", "[::1]", "@", "a",
            "0", "1", "00", "+1", "-1", "18446744073709551615", "18446744073709551616",
            "99999999999999999999999999999999999999999", "١", ":99999", "xn--", "\u{ad}", "\u{feff}",
            "ucan/DELEGATE", "app/read",
        ]
        .map(String::from)
        .to_vec();
        for t in TYPES {
            // the bare multicodec, and with a little more
            all.push(did_of(t.magic(), &[]));
            all.push(bs58::encode(t.magic()).into_string());
            all.push(bs58::encode([t.magic(), &[0]].concat()).into_string());
        }
        all.push(bs58::encode([0x9d, 0x1a]).into_string());
        all.push(bs58::encode([0x9d, 0x1a, 0xff, 0xfe]).into_string());
        all.push(bs58::encode([0xed]).into_string());
        all.push(ToyKey::new(1).did());
        all
    });
    let n = ctx.by_tier(3, 4);
    let mut s = String::new();
    let mut count = 0;
    for _ in 0..n {
        let c = ctx.choose(all.len() + 1);
        if c == 0 {
            break;
        }
        s.push_str(&all[c - 1]);
        count += 1;
    }
    ctx.op();
    ctx.state(&s);
    ctx.log(|| format!("{s:?}"));
    in_time("a text", || offer(&s, count <= 2))?;
    ctx.outcome("survived");
    Ok(())
}

fn segments(ctx: &mut Ctx) -> R {
    let host = rich().text();
    let parts: Vec<&str> = host.split('.').collect();
    let all = [
        ".",
        parts[0],
        parts[1],
        parts[2],
        "",
        "e30",
        "bnVsbA",
        "W10",
        "eyI",
        "MQ",
        "IiI",
        "_w",
        "A",
        "AA",
        "=",
        "é",
        "\n",
        "eyJhbGciOiIiLCJ0eXAiOiIifQ",
    ];
    let n = ctx.by_tier(5, 6);
    let mut s = String::new();
    for _ in 0..n {
        let c = ctx.choose(all.len() + 1);
        if c == 0 {
            break;
        }
        s.push_str(all[c - 1]);
    }
    ctx.op();
    ctx.state(&s);
    ctx.log(|| format!("{s:?}"));
    in_time("a text", || match Ucan::try_from(s.as_str()) {
        Ok(u) => exercise(&u, &MapStore::default(), None),
        Err(_) => Ok(()),
    })?;
    ctx.outcome("survived");
    Ok(())
}

fn rich() -> Tok {
    let mut t = Tok::new(0, 1);
    t.exp = Some(clock::DEFAULT + 100);
    t.nbf = Some(clock::DEFAULT - 100);
    t.nnc = Some("n\u{e9}\"\\".into());
    t.claim("app:/a", "app/read", json!({"x": [1, {"y": null}]}));
    t.claim("as:did:key:zA:app:/b", "app/write", json!({}));
    t.claim("prf:0", "ucan/DELEGATE", json!({}));
    t.fct = json!({"f": {"g": [true, 1.5, "s"]}}).as_object().cloned();
    t.cite(proof().1);
    t
}

fn proof() -> (String, String) {
    let mut t = Tok::new(3, 0);
    t.claim("app:/a", "app/admin", json!({}));
    let text = t.text();
    let cid = cid_of(&text).to_string();
    (text, cid)
}

fn proof_store() -> MapStore {
    let mut store = MapStore::default();
    store.put(&proof().0);
    store
}

/// A token text in every role: verified, cited, stored
fn offer_token(text: &str, now: Option<u64>) -> R {
    let mut store = proof_store();
    if let Ok(u) = Ucan::try_from(text) {
        exercise(&u, &store, now)?;
    }
    let mut citing = Tok::new(1, 2);
    citing.claim("prf:0", "ucan/DELEGATE", json!({}));
    citing.cite(store.put(text));
    let u = Ucan::try_from(citing.text()).map_err(|e| Fail::Machine(format!("citing token: {e:#}")))?;
    let mut p = parser();
    if let Ok(c) = run(ProofChain::from_ucan(u, now, &mut p, &store))? {
        let _ = c.reduce_capabilities(&AppSemantics).len();
    }
    Ok(())
}

/// Every byte of the token's JSON and of its text replaced, removed, doubled
fn bytes_changed(ctx: &mut Ctx) -> R {
    let t = rich();
    let (h, p) = (canon(&t.header()).into_bytes(), canon(&t.payload()).into_bytes());
    let text = t.text().into_bytes();
    let key = ToyKey::new(0);
    let part = ctx.choose(3);
    let of = [&h, &p, &text][part];
    let at = ctx.choose(of.len() + 1);
    ctx.log(|| format!("byte {at} of part {part}"));
    let rebuild = |bytes: &[u8]| -> Option<String> {
        match part {
            0 => Some(sign_text(
                &format!("{}.{}", B64.encode(bytes), B64.encode(&p)),
                &key,
            )),
            1 => Some(sign_text(
                &format!("{}.{}", B64.encode(&h), B64.encode(bytes)),
                &key,
            )),
            _ => String::from_utf8(bytes.to_vec()).ok(),
        }
    };
    let mut cases: Vec<Vec<u8>> = vec![of[..at].to_vec(), of[at..].to_vec()];
    for b in 0..=255u8 {
        if at < of.len() {
            let mut x = of.clone();
            x[at] = b;
            cases.push(x);
        }
        if b % 16 == 2 || b"\"\\{}[],:.0\0 eE-".contains(&b) || b >= 0xf0 {
            let mut x = of.clone();
            x.insert(at, b);
            cases.push(x);
        }
    }
    if at < of.len() {
        let mut x = of.clone();
        x.remove(at);
        cases.push(x);
        if ctx.thorough() {
            for end in at + 1..=of.len() {
                let mut x = of.clone();
                x.drain(at..end);
                cases.push(x);
            }
        }
    }
    for c in cases {
        if let Some(text) = rebuild(&c) {
            ctx.op();
            ctx.state(&text);
            in_time("a changed token", || {
                offer_token(&text, Some(clock::DEFAULT))
                    .map_err(|e| explain(e, &text, &String::from_utf8_lossy(&c)))
            })?;
        }
    }
    ctx.outcome("survived");
    Ok(())
}

fn clip(s: &str) -> String {
    match s.char_indices().nth(1500) {
        Some((i, _)) => format!("{}...", &s[..i]),
        None => s.to_string(),
    }
}

fn explain(f: Fail, text: &str, of: &str) -> Fail {
    match f {
        Fail::Violation(m) => Fail::Violation(format!("{m} (token {} of {})", clip(text), clip(of))),
        f => f,
    }
}

/// Texts of JSON values that do not belong
fn odd(thorough: bool) -> &'static Vec<String> {
    static ODD: [OnceLock<Vec<String>>; 2] = [OnceLock::new(), OnceLock::new()];
    ODD[thorough as usize].get_or_init(|| {
        let mut v: Vec<String> = [
            "null", "true", "false", "0", "-1", "1.5", "-0", "-0.0", "18446744073709551615",
            "18446744073709551616", "9223372036854775807", "-9223372036854775808",
            "-9223372036854775809", "1e400", "1e-400", "1E5", "99999999999999999999999999999999999999",
            "\"\"", "\"a\"", "\"\\u0000\"", "\"\\ud800\"", "\"é\"", "\"*\"", "\"did:key:z\"",
            "\"did:key:\"", "\"did:key:z6Mk\"", "\"did:web:x\"", "\"prf:0\"",
            "\"prf:18446744073709551615\"", "\"prf:18446744073709551616\"", "\"0\"",
            "\"bafkr4if3mdqxmmu3lrmhb6zlidxvnfm5wzqmmzcxysdwjsbjezwqghhmvy\"", "\"b\"", "\"Qm\"",
            "\"EdDSA\"", "\"RS256\"", "\"none\"", "[]", "[null]", "[[]]", "[{}]", "[\"\"]", "[0]",
            "{}", "{\"\":null}", "{\"a\":null}", "{\"a\":{}}", "{\"a\":[]}", "{\"a\":{\"b\":[]}}",
            "{\"a\":{\"b\":[{}]}}", "{\"a\":{\"b\":[null]}}", "{\"a\":{\"b\":{}}}",
            "{\"a\":1,\"a\":2}", "{\"/\":\"\"}", "{\"/\":1}", "{\"/\":{}}", "{\"/\":{\"bytes\":\"\"}}",
            "{\"/\":{\"bytes\":1}}", "{\"/\":{\"bytes\":\"!\"}}", "{\"/\":{\"bytes\":\"AA\",\"x\":1}}",
            "{\"/\":\"bafkr4if3mdqxmmu3lrmhb6zlidxvnfm5wzqmmzcxysdwjsbjezwqghhmvy\"}",
            "{\"/\":\"bafkr4if3mdqxmmu3lrmhb6zlidxvnfm5wzqmmzcxysdwjsbjezwqghhmvy\",\"a\":1}",
            "{\"prf:0\":{\"ucan/DELEGATE\":[{}]}}", "{\"prf:9\":{\"ucan/DELEGATE\":[{}]}}",
            "{\"prf:18446744073709551615\":{\"ucan/DELEGATE\":[{}]}}",
            "{\"prf:*\":{\"ucan/DELEGATE\":[{},{}]}}", "{\"*\":{\"*\":[{}]}}", "", "nul", "\"", "}",
        ]
        .map(String::from)
        .to_vec();
        // nesting, and length
        for n in [100, 127, 128, 129, 200, 20_000] {
            v.push(format!("{}1{}", "[".repeat(n), "]".repeat(n)));
            v.push(format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)));
        }
        v.push("[".repeat(20_000));
        v.push(format!("\"{}\"", "a".repeat(20_000)));
        v.push(format!("\"did:key:z{}\"", "6".repeat(8000)));
        v.push(format!("\"did:key:z{}\"", "1".repeat(8000)));
        v.push(format!("\"as:{}\"", "did:key:".repeat(2000)));
        v.push("9".repeat(20_000));
        v.push(format!("1e{}", "9".repeat(100)));
        v.push(format!("[{}1]", "1,".repeat(5000)));
        if thorough {
            v.push(format!("\"{}\"", "\\u0000".repeat(50_000)));
            v.push(format!("[{}{{}}]", "{},".repeat(20_000)));
        }
        v
    })
}

/// The places of a token where a value stands, as paths in its JSON text
#[derive(Clone, Copy, PartialEq)]
enum Place {
    Header,
    Payload,
    Field(&'static str),
    NewField,
    HeaderField(&'static str),
    OfResource,
    OfAbility,
    ACaveat,
    InCaveat,
    InFact,
    AProof,
    ResourceName,
    AbilityName,
    FactName,
}

const PLACES: [Place; 22] = [
    Place::Header,
    Place::Payload,
    Place::HeaderField("alg"),
    Place::HeaderField("typ"),
    Place::HeaderField("crv"),
    Place::Field("ucv"),
    Place::Field("iss"),
    Place::Field("aud"),
    Place::Field("exp"),
    Place::Field("nbf"),
    Place::Field("nnc"),
    Place::Field("cap"),
    Place::Field("fct"),
    Place::Field("prf"),
    Place::NewField,
    Place::OfResource,
    Place::OfAbility,
    Place::ACaveat,
    Place::InCaveat,
    Place::InFact,
    Place::AProof,
    Place::ResourceName,
];

fn with_odd(places: &[(Place, &str)]) -> String {
    let get = |p: Place| places.iter().rev().find(|x| x.0 == p).map(|x| x.1);
    let or = |p: Place, d: String| get(p).map(String::from).unwrap_or(d);
    let t = rich();
    let header = or(Place::Header, {
        let mut f = vec![
            format!("\"alg\":{}", or(Place::HeaderField("alg"), "\"EdDSA\"".into())),
            format!("\"typ\":{}", or(Place::HeaderField("typ"), "\"JWT\"".into())),
        ];
        if let Some(v) = get(Place::HeaderField("crv")) {
            f.push(format!("\"crv\":{v}"));
        }
        format!("{{{}}}", f.join(","))
    });
    let name = |p: Place, d: &str| match get(p) {
        Some(v) if v.starts_with('"') && v.len() > 1 => v.to_string(),
        Some(v) => serde_json::to_string(v).unwrap(),
        None => format!("\"{d}\""),
    };
    let cap = or(
        Place::Field("cap"),
        format!(
            "{{{}:{},\"prf:0\":{{\"ucan/DELEGATE\":[{{}}]}}}}",
            name(Place::ResourceName, "app:/a"),
            or(
                Place::OfResource,
                format!(
                    "{{{}:{}}}",
                    name(Place::AbilityName, "app/read"),
                    or(
                        Place::OfAbility,
                        format!(
                            "[{},{{}}]",
                            or(
                                Place::ACaveat,
                                format!("{{\"x\":{}}}", or(Place::InCaveat, "1".into()))
                            )
                        )
                    )
                )
            )
        ),
    );
    let fct = or(
        Place::Field("fct"),
        format!(
            "{{{}:{}}}",
            name(Place::FactName, "f"),
            or(Place::InFact, "1".into())
        ),
    );
    let prf = or(
        Place::Field("prf"),
        match get(Place::AProof) {
            None => format!("[\"{}\"]", proof().1),
            Some(v) => format!("[\"{}\",{v}]", proof().1),
        },
    );
    let field = |k: &'static str, v: &Value| {
        format!("\"{k}\":{}", or(Place::Field(k), v.to_string()))
    };
    let payload = or(Place::Payload, {
        let mut f = vec![
            field("ucv", &json!(t.ucv)),
            field("iss", &json!(t.issuer_did())),
            field("aud", &json!(t.aud)),
            field("exp", &json!(t.exp)),
            field("nbf", &json!(t.nbf)),
            field("nnc", &json!(t.nnc)),
            format!("\"cap\":{cap}"),
            format!("\"fct\":{fct}"),
            format!("\"prf\":{prf}"),
        ];
        if let Some(v) = get(Place::NewField) {
            f.push(format!("\"new\":{v}"));
        }
        format!("{{{}}}", f.join(","))
    });
    sign_text(
        &format!("{}.{}", B64.encode(header), B64.encode(payload)),
        &ToyKey::new(0),
    )
}

fn confusion(ctx: &mut Ctx) -> R {
    let mut places = PLACES.to_vec();
    places.extend([Place::AbilityName, Place::FactName]);
    let values = odd(ctx.thorough());
    let i = ctx.choose(places.len());
    let v = ctx.pick(values);
    // a second place, thorough with every value, otherwise with a few
    let j = ctx.choose(places.len() - i);
    let few = [0, 3, 8, 11, 17, 19, 37, 43, 53, 62];
    let mut at = vec![(places[i], v.as_str())];
    if j > 0 {
        let w = if ctx.thorough() {
            // the long ones only alone
            let short = values.iter().filter(|v| v.len() < 100).count();
            ctx.choose(short)
        } else {
            *ctx.pick(&few)
        };
        at.push((places[i + j], values[w].as_str()));
        if v.len() >= 100 {
            return Err(Fail::Prune);
        }
    }
    let text = with_odd(&at);
    ctx.op();
    ctx.state(&text);
    ctx.log(|| {
        let shown: Vec<String> = at.iter().map(|a| clip(a.1)).collect();
        format!("values {shown:?} at places {i}, {}: {}", i + j, clip(&text))
    });
    let read = Ucan::try_from(text.as_str()).is_ok();
    in_time("a token", || offer_token(&text, Some(clock::DEFAULT)))?;
    ctx.outcome(if read { "survived, read" } else { "survived, refused" });
    Ok(())
}

/// Characters of several bytes at every offset, however long the text: cutting,
/// previewing or comparing by bytes anywhere falls inside of one
fn wide_characters(ctx: &mut Ctx) -> R {
    const BEFORE: [&str; 16] = [
        "", "did:key:z", "did:key:z6Mk", "did:web:", "did:", "app:/", "app:", "my:", "my:/", "as:", "as:did:key:z",
        "as:did:key:zA:app:/", "prf:", "*", "app/", "{\"",
    ];
    let mut places: Vec<Option<Place>> = vec![None];
    places.extend(PLACES.map(Some));
    places.extend([Some(Place::AbilityName), Some(Place::FactName)]);
    let place = *ctx.pick(&places);
    let before = *ctx.pick(&BEFORE);
    let wide = *ctx.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}"]);
    let pad = ctx.choose(wide.len());
    let few = [1usize, 2, 3, 5, 8, 11, 16, 22, 32, 43, 64, 86, 128, 200, 257, 400, 1100];
    let counts: Vec<usize> = match (place, ctx.thorough()) {
        (None, false) => (1..24).chain([32, 33, 43, 64, 65, 86, 128, 200, 257, 400, 1100]).collect(),
        (None, true) => (1..300).chain([400, 512, 1100, 2100, 4200]).collect(),
        (_, false) => few.to_vec(),
        _ => (1..66).chain(few).collect(),
    };
    let count = *ctx.pick(&counts);
    let s = format!("{before}{}{}", "a".repeat(pad), wide.repeat(count));
    ctx.op();
    ctx.state(&(place.map(|p| PLACES.iter().position(|q| *q == p)), before, wide, pad, count));
    ctx.log(|| format!("{before:?}, {pad} more bytes, {wide} {count} times"));
    match place {
        None => in_time("a text", || offer(&s, true))?,
        Some(p) => {
            let value = Value::String(s).to_string();
            for value in [value.clone(), format!("{{{value}:[{value}]}}")] {
                let text = with_odd(&[(p, value.as_str())]);
                in_time("a token", || offer_token(&text, Some(clock::DEFAULT)))?;
            }
        }
    }
    ctx.outcome("survived");
    Ok(())
}

/// Extreme times everywhere
fn extreme_times(ctx: &mut Ctx) -> R {
    const T: [u64; 8] = [
        0,
        1,
        i64::MAX as u64 - 1,
        i64::MAX as u64,
        i64::MAX as u64 + 1,
        u64::MAX - 1,
        u64::MAX,
        clock::DEFAULT,
    ];
    let opt = |ctx: &mut Ctx| match ctx.choose(T.len() + 1) {
        0 => None,
        n => Some(T[n - 1]),
    };
    let (nbf, exp, now) = (opt(ctx), opt(ctx), opt(ctx));
    let clock_at = *ctx.pick(&[clock::DEFAULT, 0, 1, i64::MAX as u64]);
    clock::set(clock_at);
    ctx.op();
    ctx.state(&(nbf, exp, now, clock_at));
    ctx.log(|| format!("not before {nbf:?}, expires {exp:?}, at {now:?} with the clock at {clock_at}"));
    let mut t = rich();
    t.nbf = nbf;
    t.exp = exp;
    in_time("a token", || offer_token(&t.text(), now))?;
    let key = ToyKey::new(0);
    for lifetime in T {
        let mut b = UcanBuilder::default()
            .issued_by(&key)
            .for_audience("did:key:zA")
            .with_lifetime(lifetime);
        if let Some(x) = exp {
            b = b.with_expiration(x);
        }
        if let Some(x) = nbf {
            b = b.not_before(x);
        }
        if let Ok(s) = b.build() {
            if let Ok(u) = run(s.sign())? {
                exercise(&u, &MapStore::default(), now)?;
            }
        }
    }
    ctx.outcome("survived");
    Ok(())
}

// ---------------------------------------------------------------------------
// Bytes

fn offer_bytes(b: &[u8]) -> R {
    if let Ok(p) = Principle::try_from(b.to_vec()) {
        let s = p.to_string();
        let _ = Principle::from_str(&s);
        let _ = serde_ipld_dagcbor::to_vec(&p);
    }
    let s = Signature(b.to_vec());
    if let Ok((a, bytes)) = s.decode() {
        let _ = Signature::try_from((a, bytes)).is_ok();
    }
    let _ = serde_ipld_dagcbor::from_slice::<Principle>(b).map(|p| p.to_string());
    let _ = serde_ipld_dagcbor::from_slice::<Signature>(b).map(|s| s.decode().is_ok());
    let _ = serde_ipld_dagcbor::from_slice::<Capabilities>(b).is_ok();
    let _ = serde_ipld_dagcbor::from_slice::<Ucan>(b).is_ok();
    if let Ok(i) = serde_ipld_dagcbor::from_slice::<UcanIpld>(b) {
        let _ = Ucan::try_from(&i).is_ok();
    }
    for k in keys() {
        let ctor = k.ty.constructor();
        if let Ok(k) = ctor(b.to_vec()) {
            let _ = run(k.get_did())?;
            let _ = run(k.verify(b"m", b))?;
        }
    }
    let mut store = MemoryStore::default();
    use libipld_core::raw::RawCodec;
    use ucan::store::UcanStore;
    let cid = run(UcanStore::<RawCodec>::write(&mut store, Box::<[u8]>::from(b)))?;
    if let Ok(cid) = cid {
        let _ = run(store.read_token(&cid))?;
        let _ = run(store.require_token(&cid))?;
        let _ = run(UcanStore::<RawCodec>::read::<Vec<u8>>(&store, &cid))?;
        let mut p = parser();
        let _ = run(ProofChain::from_cid(&cid, None, &mut p, &store))?;
    }
    Ok(())
}

fn short_bytes(ctx: &mut Ctx) -> R {
    let leb = |mut n: u64| {
        let mut out = vec![];
        loop {
            let b = (n & 0x7f) as u8;
            n >>= 7;
            if n == 0 {
                out.push(b);
                return out;
            }
            out.push(b | 0x80);
        }
    };
    let mut prefixes: Vec<Vec<u8>> = vec![vec![], vec![0x9d, 0x1a], vec![0x9d], vec![0x80; 9], vec![0xff; 9]];
    for t in TYPES {
        prefixes.push(t.magic().to_vec());
    }
    for code in [0xd0edu64, 0xd01200, 0xd01205, 0xd000, u64::MAX] {
        prefixes.push(leb(code));
        for n in [0u64, 1, 2, 1 << 31, 1 << 32, u64::MAX >> 1, u64::MAX] {
            prefixes.push([leb(code), leb(n)].concat());
        }
    }
    // the heads of CBOR items, of every length
    for major in 0..8u8 {
        for low in 24..=31u8 {
            prefixes.push(vec![major << 5 | low]);
            prefixes.push([vec![major << 5 | low], vec![0xff; 8]].concat());
        }
    }
    let p = ctx.pick(&prefixes).clone();
    let first = ctx.choose(257);
    ctx.log(|| format!("bytes that begin with {p:02x?} {first:#x}"));
    let mut cases = vec![];
    if first == 256 {
        cases.push(p.clone());
    } else {
        let mut b = p.clone();
        b.push(first as u8);
        cases.push(b.clone());
        for second in 0..=255u8 {
            if p.len() > 2 && !ctx.thorough() && ![0, 1, 2, 0x7f, 0x80, 0xff].contains(&second) {
                continue;
            }
            cases.push([&b[..], &[second]].concat());
        }
    }
    for c in cases {
        ctx.op();
        ctx.state(&c);
        in_time("some bytes", || offer_bytes(&c)).map_err(|e| explain(e, "", &format!("{c:02x?}")))?;
    }
    ctx.outcome("survived");
    Ok(())
}

/// A key of every IPLD algorithm, signing the rich token
fn ipld_hosts() -> &'static Vec<(Vec<u8>, Vec<u8>)> {
    static H: OnceLock<Vec<(Vec<u8>, Vec<u8>)>> = OnceLock::new();
    H.get_or_init(|| {
        let mut all = vec![];
        for alg in ["EdDSA", "ES256"] {
            let mut t = rich();
            t.alg = alg.into();
            // the null that rich tokens carry has no DAG-JSON form
            t.caps[0].2 = json!({"x": [1, {"y": 2}]});
            let u = Ucan::try_from(t.text()).expect("host token");
            let i = UcanIpld::try_from(&u).expect("IPLD form");
            all.push((
                serde_ipld_dagcbor::to_vec(&i).expect("CBOR"),
                i.to_dag_json().expect("DAG-JSON"),
            ));
        }
        all
    })
}

fn offer_ipld(i: &UcanIpld) -> R {
    let _ = format!("{i:?}");
    let _ = serde_ipld_dagcbor::to_vec(i);
    let _ = i.to_dag_json();
    if let Ok(u) = Ucan::try_from(i) {
        exercise(&u, &proof_store(), Some(clock::DEFAULT))?;
    }
    Ok(())
}

fn ipld_changed(ctx: &mut Ctx) -> R {
    let hosts = match no_panic("making the IPLD form of a token", ipld_hosts) {
        Ok(h) => h,
        Err(e) => return Err(e),
    };
    let (cbor, json) = &hosts[ctx.choose(ctx.by_tier(1, hosts.len()))];
    let text = ctx.flag();
    let of = if text { json } else { cbor };
    let at = ctx.choose(of.len() + 1);
    ctx.log(|| format!("byte {at} of the {}", if text { "DAG-JSON" } else { "DAG-CBOR" }));
    let mut cases: Vec<Vec<u8>> = vec![of[..at].to_vec(), of[at..].to_vec()];
    for b in 0..=255u8 {
        if at < of.len() {
            let mut x = of.clone();
            x[at] = b;
            cases.push(x);
        }
        if b >= 0xf0 || b % 8 == 0 || b & 0x1f >= 24 {
            let mut x = of.clone();
            x.insert(at, b);
            cases.push(x);
        }
    }
    if at < of.len() {
        let end = ctx.by_tier(at + 1, of.len());
        for end in at + 1..=end.max(at + 1) {
            let mut x = of.clone();
            x.drain(at..end);
            cases.push(x);
        }
        // an item that is longer than all there is
        for major in [0x40u8, 0x60, 0x80, 0xa0, 0xc0] {
            for n in [1u64 << 16, 1 << 32, u64::MAX >> 1, u64::MAX] {
                let mut x = of[..at].to_vec();
                x.push(major | 27);
                x.extend(n.to_be_bytes());
                x.extend(&of[at + 1..]);
                cases.push(x);
            }
            let mut x = of[..at].to_vec();
            x.push(major | 31);
            x.extend(&of[at + 1..]);
            x.push(0xff);
            cases.push(x);
        }
    }
    for c in cases {
        ctx.op();
        ctx.state(&c);
        in_time("an IPLD token", || {
            let read = if text {
                UcanIpld::from_dag_json(&c).ok()
            } else {
                serde_ipld_dagcbor::from_slice(&c).ok()
            };
            match read {
                Some(i) => offer_ipld(&i),
                None => Ok(()),
            }
        })
        .map_err(|e| {
            let shown = if text {
                String::from_utf8_lossy(&c).into_owned()
            } else {
                c.iter().map(|b| format!("{b:02x}")).collect()
            };
            explain(e, "", &shown)
        })?;
    }
    ctx.outcome("survived");
    Ok(())
}

/// Every field of the IPLD form with values that do not belong
fn ipld_confusion(ctx: &mut Ctx) -> R {
    let host: Value = {
        let u = Ucan::try_from(rich().text()).map_err(|e| Fail::Violation(format!("{e:#}")))?;
        let i = UcanIpld::try_from(&u).map_err(|e| Fail::Violation(format!("{e:#}")))?;
        serde_json::to_value(&i).map_err(|e| Fail::Machine(e.to_string()))?
    };
    let fields = ["v", "iss", "aud", "s", "cap", "prf", "exp", "fct", "nnc", "nbf", "new"];
    let lists: Vec<Value> = vec![
        json!([]),
        json!([0]),
        json!([0xed]),
        json!([0xed, 1]),
        json!([0xed, 1, 0]),
        json!([0x9d, 0x1a]),
        json!([0x9d, 0x1a, 0xff]),
        json!([0x9d, 0x1a, 0x6b, 0x65, 0x79, 0x3a, 0x7a]),
        json!([0xff, 0xff, 0xff]),
        json!([256]),
        json!([-1]),
        json!([0xed, 0xa1, 0x03, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]),
        json!([0xed, 0xa1, 0x03, 0x01]),
        json!([0xed, 0xa1, 0x03, 0x00]),
    ];
    let mut values = lists;
    for text in odd(false) {
        if let Ok(v) = serde_json::from_str::<Value>(text) {
            values.push(v);
        }
    }
    let f = ctx.choose(fields.len());
    let g = ctx.choose(fields.len() - f);
    let a = ctx.choose(values.len() + 1);
    let mut v = host.clone();
    let mut set = |field: &str, n: usize| {
        if n == values.len() {
            v.as_object_mut().expect("object").remove(field);
        } else {
            v[field] = values[n].clone();
        }
    };
    set(fields[f], a);
    if g > 0 {
        let few = [0, 6, 13, 14, 15, 17, 22, values.len()];
        let b = if ctx.thorough() {
            ctx.choose(values.len() + 1)
        } else {
            *ctx.pick(&few)
        };
        set(fields[f + g], b);
    }
    ctx.op();
    let text = v.to_string();
    ctx.state(&text);
    ctx.log(|| clip(&text));
    let mut read = false;
    in_time("an IPLD token", || {
        if let Ok(i) = serde_json::from_value::<UcanIpld>(v.clone()) {
            read = true;
            offer_ipld(&i)?;
        }
        if let Ok(i) = UcanIpld::from_dag_json(text.as_bytes()) {
            offer_ipld(&i)?;
        }
        if let Ok(b) = serde_ipld_dagcbor::to_vec(&v) {
            if let Ok(i) = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b) {
                offer_ipld(&i)?;
            }
        }
        Ok(())
    })?;
    ctx.outcome(if read { "survived, read" } else { "survived, refused" });
    Ok(())
}

// ---------------------------------------------------------------------------
// Keys

fn der_int(bytes: &[u8]) -> Vec<u8> {
    der(2, bytes)
}
fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    match content.len() {
        n @ 0..=127 => v.push(n as u8),
        n @ 128..=255 => v.extend([0x81, n as u8]),
        n => v.extend([0x82, (n >> 8) as u8, n as u8]),
    }
    v.extend(content);
    v
}

/// Whatever counts as a key must not fall over
fn use_key(ty: Type, bytes: &[u8]) -> R<bool> {
    let made = ty.constructor()(bytes.to_vec());
    let did = did_of(ty.magic(), bytes);
    let _ = Principle::from_str(&did).map(|p| p.to_string());
    let parsed = real_parser().parse(&did);
    let accepted = made.is_ok();
    if let Ok(k) = &made {
        let _ = run(k.get_did())?;
        let _ = k.get_jwt_algorithm_name();
        let _ = run(k.sign(b"m"))?;
        for len in [0usize, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 256, 512, 513] {
            for fill in [0u8, 1, 0x7f, 0xff] {
                let _ = run(k.verify(b"m", &vec![fill; len]))?;
            }
            let mut s = vec![0; len];
            if let Some(last) = s.last_mut() {
                *last = 1;
            }
            let _ = run(k.verify(b"m", &s))?;
        }
        // a signature as long as the key
        let n = bytes.len();
        for len in n.saturating_sub(12)..=n {
            let _ = run(k.verify(b"m", &vec![1; len]))?;
        }
    }
    if parsed.is_ok() {
        let mut t = Tok::new(0, 1);
        t.issuer = Some(did);
        t.alg = ty.alg().into();
        offer_token(&t.text(), None)?;
    }
    Ok(accepted)
}

fn rsa_keys(ctx: &mut Ctx) -> R {
    let mut moduli: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for n in [2usize, 3, 7, 8, 9, 61, 62, 63, 64, 128, 256, 257, 511, 512, 513, 514, 1025, 4096] {
        for (first, last) in [(0x7f, 0xff), (0x40, 0), (0x40, 1), (0x01, 1), (0x00, 1), (0xff, 0xff)] {
            let mut m = vec![first ^ (first >> 1); n];
            m[0] = first;
            m[n - 1] = last;
            moduli.push(m.clone());
            moduli.push([vec![0], m].concat());
        }
    }
    moduli.push(vec![]);
    moduli.push(vec![0; 256]);
    let exponents: [&[u8]; 18] = [
        &[],
        &[0],
        &[1],
        &[2],
        &[3],
        &[0x7f],
        &[0x80],
        &[0, 0x80],
        &[1, 0],
        &[1, 0, 1],
        &[1, 0, 0],
        &[0x7f, 0xff, 0xff, 0xff],
        &[0, 0xff, 0xff, 0xff, 0xff],
        &[1, 0xff, 0xff, 0xff, 0xff],
        &[2, 0, 0, 0, 1],
        &[0x7f; 8],
        &[0x7f; 9],
        &[0x7f; 257],
    ];
    let m = ctx.pick(&moduli).clone();
    let e = ctx.pick(&exponents).to_vec();
    let frame = ctx.choose(6);
    let body = [der_int(&m), der_int(&e)].concat();
    let bytes = match frame {
        0 => der(0x30, &body),
        1 => [der(0x30, &body), vec![0]].concat(),
        2 => der(0x31, &body),
        3 => der(0x30, &[body, der_int(&[1])].concat()),
        4 => der(0x30, &[der_int(&e), der_int(&m)].concat()),
        _ => body,
    };
    ctx.op();
    ctx.state(&bytes);
    ctx.log(|| format!("RSA key {bytes:02x?}"));
    let ok = in_time("a key", || use_key(Type::Rsa, &bytes))
        .map_err(|x| explain(x, "", &format!("RSA key {bytes:02x?}")))?;
    ctx.outcome(if ok { "survived, a key" } else { "survived, no key" });
    Ok(())
}

/// The key bytes of every real key, changed
fn key_bytes(ctx: &mut Ctx) -> R {
    let k = &keys()[ctx.choose(keys().len())];
    let of = &k.bytes;
    let at = ctx.choose(of.len() + 1);
    ctx.log(|| format!("{}, byte {at}", k.name));
    let mut cases = vec![of[..at].to_vec(), of[at..].to_vec(), vec![0; at], vec![0xff; at]];
    let step = if of.len() > 64 { ctx.by_tier(5, 1) } else { 1 };
    for b in (0..=255u8).step_by(step) {
        if at < of.len() {
            let mut x = of.clone();
            x[at] = b;
            cases.push(x);
        }
        if b % 32 == 1 {
            let mut x = of.clone();
            x.insert(at, b);
            cases.push(x);
        }
    }
    if at < of.len() {
        let mut x = of.clone();
        x.remove(at);
        cases.push(x);
    }
    for c in cases {
        ctx.op();
        ctx.state(&(k.name, &c));
        let sig = k.sign(b"m");
        in_time("a key", || {
            let did = did_of(k.ty.magic(), &c);
            if let Ok(key) = real_parser().parse(&did) {
                let _ = run(key.get_did())?;
                let _ = run(key.verify(b"m", &sig))?;
                let _ = run(key.verify(b"m", &[]))?;
                let _ = run(key.sign(b"m"))?;
            }
            // also as if of another type
            for t in TYPES {
                let _ = t.constructor()(c.clone()).is_ok();
            }
            Ok(())
        })
        .map_err(|x| explain(x, "", &format!("{} as {c:02x?}", k.name)))?;
    }
    ctx.outcome("survived");
    Ok(())
}

// ---------------------------------------------------------------------------
// The builder

/// A key that says whatever it likes
struct OddKey {
    did: String,
    alg: String,
    sig: Option<Vec<u8>>,
}
#[async_trait]
impl KeyMaterial for OddKey {
    fn get_jwt_algorithm_name(&self) -> String {
        self.alg.clone()
    }
    async fn get_did(&self) -> Result<String> {
        Ok(self.did.clone())
    }
    async fn sign(&self, _: &[u8]) -> Result<Vec<u8>> {
        self.sig.clone().ok_or_else(|| anyhow!("no"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> Result<()> {
        Ok(())
    }
}

#[derive(serde::Deserialize)]
struct OddFact(u8);
impl serde::Serialize for OddFact {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeMap};
        match self.0 {
            0 => Err(S::Error::custom("no")),
            1 => s.serialize_f64(f64::NAN),
            2 => s.serialize_f64(f64::INFINITY),
            3 => s.serialize_u128(u128::MAX),
            4 => s.serialize_i128(i128::MIN),
            5 => s.serialize_bytes(&[0xff, 0]),
            6 => s.serialize_char('\u{10ffff}'),
            7 => {
                // keys that are not text
                let mut m = s.serialize_map(Some(2))?;
                m.serialize_entry(&1u8, &1)?;
                m.serialize_entry(&[1u8], &2)?;
                m.end()
            }
            8 => {
                let mut m = s.serialize_map(Some(usize::MAX))?;
                m.serialize_entry("a", &1)?;
                m.serialize_entry("a", &2)?;
                m.end()
            }
            9 => s.serialize_unit(),
            10 => s.serialize_newtype_struct("$serde_json::private::Number", "x"),
            11 => s.serialize_newtype_struct("$__serde__private__CID", &[1u8, 2]),
            12 => s.serialize_f32(f32::MIN_POSITIVE),
            13 => s.serialize_i64(i64::MIN),
            14 => s.serialize_u64(u64::MAX),
            n => {
                // nested, n - 14 times sixty levels
                let mut v = json!(1);
                for i in 0..(n as usize - 14) * 60 {
                    v = if i % 2 == 0 { json!([v]) } else { json!({ "a": v }) };
                }
                v.serialize(s)
            }
        }
    }
}

fn builder(ctx: &mut Ctx) -> R {
    let long = "x".repeat(20_000);
    let texts: Vec<&str> = vec![
        "did:key:zA", "", "\0", "é\u{202e}", "\"\\", "did:key:z", "did:", "prf:18446744073709551616", "/", &long,
    ];
    let key = OddKey {
        did: texts[ctx.dev(texts.len())].into(),
        alg: {
            let algs = ["EdDSA", "", "none", "RS256", "\0é\"", &long];
            algs[ctx.dev(algs.len())].into()
        },
        sig: match ctx.dev(5) {
            0 => Some(vec![1; 64]),
            1 => Some(vec![]),
            2 => Some(vec![0xff; 1]),
            3 => Some(vec![0; 100_000]),
            _ => None,
        },
    };
    let aud = texts[ctx.dev(texts.len())];
    let times = [0, 1, i64::MAX as u64, u64::MAX];
    let mut b = UcanBuilder::default().issued_by(&key).for_audience(aud);
    let n = ctx.dev(5);
    if n > 0 {
        b = b.with_lifetime(times[n - 1]);
    }
    let n = ctx.dev(5);
    if n > 0 {
        b = b.with_expiration(times[n - 1]);
    }
    let n = ctx.dev(5);
    if n > 0 {
        b = b.not_before(times[n - 1]);
    }
    match ctx.dev(3) {
        0 => (),
        1 => clock::set(i64::MAX as u64),
        _ => clock::set(0),
    }
    let n = ctx.dev(22);
    if n > 0 {
        b = b.with_fact("f", OddFact(n as u8 - 1));
    }
    let n = ctx.dev(texts.len());
    if n > 0 {
        b = b.with_fact(texts[n], texts[n].to_string());
    }
    let n = ctx.dev(texts.len());
    if n > 0 {
        b = b.claiming_capability(Capability::new(texts[n].into(), texts[n].into(), json!({texts[n]: texts[n]})));
    }
    let n = ctx.dev(odd(false).len() + 1);
    if n > 0 {
        // an odd caveat, where it is JSON at all
        if let Ok(v) = serde_json::from_str::<Value>(&odd(false)[n - 1]) {
            b = b.claiming_capability(Capability::new("app:/a".into(), "app/read".into(), v.clone()));
            let _ = Caveat::try_from(&v).is_ok();
            b = b.claiming_capabilities(&[("app:/b".to_string(), "app/read".to_string(), v)]);
        }
    }
    match ctx.dev(4) {
        0 => (),
        n => {
            // proofs, also odd ones, hashed in odd ways
            let u = Ucan::try_from(proof().0).map_err(|e| Fail::Violation(format!("{e:#}")))?;
            let codes = [Code::Sha2_512, Code::Keccak224, Code::Blake2s128];
            for _ in 0..3 {
                b = b.witnessed_by(&u, Some(codes[n - 1]));
                b = b.delegating_from(&u, None);
            }
        }
    }
    if ctx.dev(2) == 1 {
        b = b.with_nonce();
    }
    ctx.op();
    ctx.state(&ctx.trace.clone());
    ctx.log(|| format!("audience {}, key {} {}", clip(aud), clip(&key.did), clip(&key.alg)));
    let outcome = in_time("building", || {
        let Ok(s) = b.build() else {
            return Ok("survived, not built");
        };
        let _ = s.ucan_header();
        let _ = run(s.ucan_payload())?;
        let Ok(u) = run(s.sign())? else {
            return Ok("survived, not signed");
        };
        exercise(&u, &proof_store(), None)?;
        if let Ok(text) = u.encode() {
            offer_token(&text, Some(u64::MAX))?;
        }
        Ok("survived, signed")
    })?;
    ctx.outcome(outcome);
    Ok(())
}

/// A token put together from parts that do not fit
fn assembled(ctx: &mut Ctx) -> R {
    // the header and payload are values of the library; get them by reading
    let key = ToyKey::new(0);
    let s: Signable<ToyKey> = UcanBuilder::default()
        .issued_by(&key)
        .for_audience("did:key:zA")
        .build()
        .map_err(|e| Fail::Violation(format!("not built: {e:#}")))?;
    let payload = match run(s.ucan_payload())? {
        Ok(p) => p,
        Err(e) => return bad(format!("no payload: {e:#}")),
    };
    let data: Vec<Vec<u8>> = vec![
        vec![],
        b".".to_vec(),
        b"a".to_vec(),
        b"..".to_vec(),
        b"a.b".to_vec(),
        b"a.b.c".to_vec(),
        vec![0xff, 0xfe],
        b"e30.e30".to_vec(),
        "é.é".as_bytes().to_vec(),
        vec![0; 10_000],
        rich().signed_data().into_bytes(),
    ];
    let sigs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 64], vec![1; 10_000]];
    let (d, g) = (ctx.pick(&data).clone(), ctx.pick(&sigs).clone());
    ctx.op();
    ctx.state(&(&d, &g));
    ctx.log(|| format!("signed data {:?}, signature of {} bytes", &d[..d.len().min(40)], g.len()));
    let u = Ucan::new(s.ucan_header(), payload, d, g);
    in_time("a token", || exercise(&u, &proof_store(), None))?;
    ctx.outcome("survived");
    Ok(())
}

// ---------------------------------------------------------------------------
// Chains

static CHECKS: AtomicU64 = AtomicU64::new(0);
const COUNTING_MAGIC: &[u8] = &[0xf9, 0x0a];

struct Counting;
#[async_trait]
impl KeyMaterial for Counting {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> Result<String> {
        Ok(did_of(COUNTING_MAGIC, &[0]))
    }
    async fn sign(&self, _: &[u8]) -> Result<Vec<u8>> {
        Err(anyhow!("no"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> Result<()> {
        if CHECKS.fetch_add(1, Ordering::Relaxed) > 100_000 {
            return Err(anyhow!("enough"));
        }
        Ok(())
    }
}
fn counting(_: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(Counting))
}

/// `levels` tokens above one another, each citing the one below `times` times
fn tower(levels: usize, times: usize, caps: usize, did: &str) -> (MapStore, String) {
    let mut store = MapStore::default();
    let mut text = String::new();
    let mut below: Option<String> = None;
    for level in 0..levels {
        let mut t = Tok::new(0, 0);
        t.issuer = Some(did.into());
        t.aud = did.into();
        t.nnc = Some(level.to_string());
        for c in 0..caps {
            t.claim(&format!("app:/{c}"), "app/read", json!({}));
        }
        if let Some(cid) = &below {
            for _ in 0..times {
                t.cite(cid.clone());
            }
            t.claim("prf:*", "ucan/DELEGATE", json!({}));
        }
        text = t.text();
        below = Some(store.put(&text));
    }
    (store, text)
}

fn verify_tower(store: &MapStore, text: &str) -> R<bool> {
    let mut p = DidParser::new(&[(TOY_MAGIC, crate::world::bytes_to_toy), (COUNTING_MAGIC, counting)]);
    let chain = run(ProofChain::try_from_token_string(text, None, &mut p, store))?;
    Ok(match chain {
        Ok(c) => {
            let _ = c.reduce_capabilities(&AppSemantics).len();
            let _ = format!("{c:?}").len();
            true
        }
        Err(_) => false,
    })
}

/// The stack of a thread, unless the program asks for another
const STACK: usize = 2 << 20;

fn chains(ctx: &mut Ctx) -> R {
    // levels, citations each, capabilities each
    let shapes: Vec<(usize, usize, usize)> = ctx.by_tier(
        vec![
            (1, 0, 0),
            (2, 1, 1),
            (2, 300, 1),
            (100, 1, 1),
            (150, 1, 3),
            (5, 4, 2),
            (8, 2, 2),
            (1, 0, 300),
            (2, 30, 30),
        ],
        vec![
            (1, 0, 0),
            (2, 1, 1),
            (2, 2000, 1),
            (100, 1, 1),
            (150, 1, 3),
            (6, 4, 2),
            (10, 2, 2),
            (1, 0, 2000),
            (2, 60, 40),
            (20, 1, 50),
        ],
    );
    let (levels, times, caps) = *ctx.pick(&shapes);
    ctx.state(&(levels, times, caps));
    ctx.op();
    ctx.log(|| format!("{levels} levels, each citing the one below {times} times and claiming {caps}"));
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            clock::set(clock::DEFAULT);
            in_time("a chain", || {
                let (store, text) = tower(levels, times, caps, &ToyKey::new(0).did());
                no_panic("a chain", || verify_tower(&store, &text))?
            })
        })
        .map_err(|e| Fail::Machine(e.to_string()))?
        .join()
        .unwrap_or_else(|_| bad("a chain: panic"))?;
    ensure!(r, "a chain of {levels} levels is refused");
    ctx.outcome("survived");
    Ok(())
}

/// In a process of its own: a chain of that many tokens, one above the other
pub fn long_chain(levels: usize) -> i32 {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            clock::set(clock::DEFAULT);
            let (store, text) = tower(levels, 1, 0, &ToyKey::new(0).did());
            verify_tower(&store, &text).is_ok()
        })
        .expect("spawn")
        .join()
        .map_or(3, |ok| if ok { 0 } else { 3 })
}

fn long_chains(ctx: &mut Ctx) -> R {
    let levels = *ctx.pick(&[200usize, 5000]);
    ctx.state(&levels);
    ctx.op();
    ctx.log(|| format!("a chain of {levels} tokens, on a stack of {STACK} bytes"));
    let end = std::process::Command::new(std::env::current_exe().map_err(|e| Fail::Machine(e.to_string()))?)
        .args(["long-chain", &levels.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| Fail::Machine(e.to_string()))?;
    if end.code() == Some(0) {
        ctx.outcome("survived");
        return Ok(());
    }
    let what = format!("verifying a chain of {levels} tokens on a stack of 2 MiB ends the process: {end}");
    if levels == 5000 && end.code().is_none() && ctx.known("C13", "chain-of-5000", &what) {
        ctx.outcome("known finding");
        return Ok(());
    }
    bad(what)
}

fn shared_proofs(ctx: &mut Ctx) -> R {
    let levels = *ctx.pick(&[10usize, 24]);
    ctx.state(&levels);
    ctx.op();
    ctx.log(|| format!("{levels} tokens, each citing the one below twice"));
    let (store, text) = tower(levels, 2, 0, &did_of(COUNTING_MAGIC, &[0]));
    CHECKS.store(0, Ordering::SeqCst);
    let _ = in_time("a chain", || verify_tower(&store, &text))?;
    let n = CHECKS.load(Ordering::SeqCst);
    if n <= 4096 {
        ctx.outcome("survived");
        return Ok(());
    }
    let what = format!("verifying {levels} tokens, each citing the one below twice, takes more than {} signature checks", n.min(100_000));
    if levels == 24 && ctx.known("C13", "24-levels-cited-twice", &what) {
        ctx.outcome("known finding");
        return Ok(());
    }
    bad(what)
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "wide_characters",
            bounds: "texts of 2, 3 and 4-byte characters at every offset behind 16 beginnings, in 34 (thorough 304) lengths to 1100 (4200) characters in every place that takes text, in 17 (82) lengths in 24 places of a token",
            devs: (0, 0),
            run: wide_characters,
        },
        Harness {
            name: "short_texts",
            bounds: "every text of up to 3 (thorough 4) of 26 characters, in every place that takes text",
            devs: (0, 0),
            run: short_texts,
        },
        Harness {
            name: "fragments",
            bounds: "every sequence of up to 3 (thorough 4) of 70 fragments of DIDs, resources, indices and URIs, in every place that takes text",
            devs: (0, 0),
            run: fragments,
        },
        Harness {
            name: "segments",
            bounds: "every sequence of up to 5 (thorough 6) of 18 fragments of token text",
            devs: (0, 0),
            run: segments,
        },
        Harness {
            name: "bytes_changed",
            bounds: "every byte of a token's header, payload and text replaced by every byte, removed, preceded by another, cut off (thorough: every substring removed); signed anew, verified and cited as a proof",
            devs: (0, 0),
            run: bytes_changed,
        },
        Harness {
            name: "confusion",
            bounds: "24 places of a token x 90 values of other types, extreme numbers, nesting to 20000 and lengths to 20000; pairs of places with 10 (thorough all) values in the second",
            devs: (0, 0),
            run: confusion,
        },
        Harness {
            name: "extreme_times",
            bounds: "9 not-before x 9 expirations x 9 instants x 4 clocks x 8 lifetimes",
            devs: (0, 0),
            run: extreme_times,
        },
        Harness {
            name: "short_bytes",
            bounds: "every sequence of up to 2 bytes, alone and after 180 prefixes (multicodecs, varints, signature heads, CBOR heads), as principal, signature, key, stored token and IPLD token",
            devs: (0, 0),
            run: short_bytes,
        },
        Harness {
            name: "ipld_changed",
            bounds: "every byte of the DAG-CBOR and DAG-JSON of an IPLD token replaced by every byte, removed, preceded, cut off, made the head of an overlong or indefinite item",
            devs: (0, 0),
            run: ipld_changed,
        },
        Harness {
            name: "ipld_confusion",
            bounds: "every pair of the 11 fields of an IPLD token x 100 values x 8 (thorough 100) values",
            devs: (0, 0),
            run: ipld_confusion,
        },
        Harness {
            name: "rsa_keys",
            bounds: "474 moduli (0 to 255, of up to 4096 bytes, even, negative, unnormalised) x 18 exponents x 6 framings; 80 signatures each",
            devs: (0, 0),
            run: rsa_keys,
        },
        Harness {
            name: "key_bytes",
            bounds: "every byte of 10 keys replaced by every byte (RSA: every fifth, thorough every), removed, preceded, cut off",
            devs: (0, 0),
            run: key_bytes,
        },
        Harness {
            name: "builder",
            bounds: "all combinations of up to 2 (thorough 3) odd values among 14 settings of key, builder and clock",
            devs: (2, 3),
            run: builder,
        },
        Harness {
            name: "assembled",
            bounds: "44 tokens assembled from parts that do not fit",
            devs: (0, 0),
            run: assembled,
        },
        Harness {
            name: "chains",
            bounds: "9 (thorough 10) shapes of chains: to 150 levels, 300 (2000) proofs, 300 (2000) capabilities, on a stack of 2 MiB",
            devs: (0, 0),
            run: chains,
        },
        Harness {
            name: "long_chains",
            bounds: "chains of 200 and 5000 tokens on a stack of 2 MiB, each in a process of its own",
            devs: (0, 0),
            run: long_chains,
        },
        Harness {
            name: "shared_proofs",
            bounds: "10 and 24 levels, each citing the one below twice; signature checks counted",
            devs: (0, 0),
            run: shared_proofs,
        },
    ]
}

