//! C09: token text round-trips, and content identifiers identify the text.
//! C11: the same content always has the same canonical encoding.
use super::{
    builder::{sign_valued, valued},
    tamper::respellings,
};
use crate::{
    big::big,
    clock,
    engine::{bad, Ctx, Fail, Harness, R},
    ensure, large,
    exec::run,
    jsons,
    keys::{keys, real_parser, Type},
    world::{canon, cid_with, parser, sign_text, Tok, ToyKey, B64, CODES},
};
use base64::Engine;
use cid::{multihash::Code, Cid};
use serde_json::{json, Map, Value};
use ucan::{
    builder::{Signable, UcanBuilder},
    capability::Capability,
    store::{MemoryStore, UcanJwtStore},
    Ucan,
};

fn read(text: &str) -> R<Ucan> {
    Ucan::try_from(text)
        .map_err(|e| Fail::Violation(format!("a well-formed token is not read: {e:#}: {text}")))
}

/// Every accessor against the JSON of header and payload
pub fn shows(u: &Ucan, header: &Value, payload: &Value) -> R {
    let text = |k: &str| payload.get(k).and_then(|v| v.as_str());
    let num = |k: &str| payload.get(k).and_then(|v| v.as_u64());
    ensure!(
        Some(u.algorithm()) == header["alg"].as_str(),
        "algorithm {:?}; the header is {header}",
        u.algorithm()
    );
    ensure!(Some(u.issuer()) == text("iss"), "issuer {:?} in {payload}", u.issuer());
    ensure!(Some(u.audience()) == text("aud"), "audience {:?} in {payload}", u.audience());
    ensure!(Some(u.version()) == text("ucv"), "version {:?} in {payload}", u.version());
    ensure!(u.nonce().as_deref() == text("nnc"), "nonce {:?} in {payload}", u.nonce());
    ensure!(*u.expires_at() == num("exp"), "expiration {:?} in {payload}", u.expires_at());
    ensure!(*u.not_before() == num("nbf"), "not-before {:?} in {payload}", u.not_before());
    let facts = u
        .facts()
        .as_ref()
        .map(|f| Value::Object(f.clone().into_iter().collect()));
    ensure!(
        facts.as_ref() == payload.get("fct").filter(|v| !v.is_null()),
        "facts {facts:?} in {payload}"
    );
    let proofs = u.proofs().as_ref().map(|p| json!(p));
    ensure!(
        proofs.as_ref() == payload.get("prf").filter(|v| !v.is_null()),
        "proofs {proofs:?} in {payload}"
    );
    let caps = serde_json::to_value(u.capabilities()).unwrap_or_default();
    ensure!(caps == payload["cap"], "capabilities {caps} in {payload}");
    Ok(())
}

/// Identifiers and storage of a token's text
fn identified(ctx: &mut Ctx, u: &Ucan, text: &str) -> R {
    // all of them where the text is short enough
    for h in &CODES[..if text.len() < 500 { CODES.len() } else { 4 }] {
        let h = *h;
        ctx.op();
        let c = u.to_cid(h);
        let expected = cid_with(text.as_bytes(), h);
        ensure!(
            matches!(&c, Ok(c) if *c == expected && c.to_string() == expected.to_string()),
            "the identifier under {h:?} is {c:?} instead of {expected}"
        );
    }
    let mut store = MemoryStore::default();
    let c = run(store.write_token(text))?;
    let own = u.to_cid(Code::Blake3_256).ok();
    ensure!(
        c.as_ref().ok() == own.as_ref(),
        "the store names the token {c:?}, the token itself {own:?}"
    );
    if let Some(c) = own {
        let via = Cid::try_from(c.to_string().as_str())
            .map_err(|e| Fail::Violation(format!("a cited identifier is not read: {e}")))?;
        let back = run(store.require_token(&via))?;
        ensure!(
            matches!(&back, Ok(t) if t == text),
            "the store gives {back:?} for the token's identifier"
        );
    }
    Ok(())
}

fn round_trip(ctx: &mut Ctx, text: &str) -> R<Ucan> {
    ctx.ops(3);
    let u = read(text)?;
    let again = u.encode();
    ensure!(
        matches!(&again, Ok(t) if t == text),
        "read and written again, {text} becomes {again:?}"
    );
    for other in [Ucan::try_from(text.to_string()), text.parse::<Ucan>()] {
        ensure!(
            matches!(&other, Ok(o) if *o == u),
            "the ways to read a token differ"
        );
    }
    ensure!(
        text.as_bytes().starts_with(u.signed_data())
            && text.as_bytes().get(u.signed_data().len()) == Some(&b'.'),
        "the signed data is not the beginning of the text"
    );
    ensure!(
        text.ends_with(&format!(".{}", B64.encode(u.signature()))),
        "the signature is not the end of the text"
    );
    Ok(u)
}

fn cap_values() -> Vec<Vec<(&'static str, &'static str, Value)>> {
    vec![
        vec![],
        vec![("app:/a", "app/read", json!({}))],
        vec![
            ("z", "b", json!({"y": {"x": [1, "é"]}, "": true})),
            ("z", "b", json!({})),
            ("z", "a", json!({"k": -1})),
            ("", "", json!({"k": u64::MAX})),
        ],
    ]
}

fn fields(ctx: &mut Ctx) -> R {
    let mut t = Tok::new(0, 1);
    t.ucv = ctx.pick(&["0.10.0-canary", "", "é\"\\\n"]).to_string();
    t.aud = match ctx.choose(3) {
        0 => ToyKey::new(1).did(),
        1 => String::new(),
        _ => "did:web:x\u{1f600}".into(),
    };
    t.exp = *ctx.pick(&[None, Some(0), Some(1_700_000_000), Some(i64::MAX as u64), Some(u64::MAX)]);
    t.nbf = *ctx.pick(&[None, Some(0), Some(u64::MAX)]);
    t.nnc = ctx
        .pick(&[None, Some(""), Some("\u{0}\u{1f}\u{7f}\u{2028} /\\\"é")])
        .map(String::from);
    for (r, a, c) in ctx.pick(&cap_values()).clone() {
        t.claim(r, a, c);
    }
    if ctx.flag() {
        t.empty = vec![("app:/e".into(), "app/none".into())];
    }
    t.fct = ctx
        .pick(&[
            Value::Null,
            json!({}),
            json!({"b": null, "a": [true, {"é": 1.5, "": -7}], "\u{1}": "/"}),
        ])
        .as_object()
        .cloned();
    t.prf = match ctx.choose(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec!["x".into()]),
        _ => Some(vec!["b".into(), "a".into(), "b".into()]),
    };
    let text = t.text();
    ctx.state(&text);
    ctx.log(|| format!("{}", t.payload()));
    let u = round_trip(ctx, &text)?;
    shows(&u, &t.header(), &t.payload())?;
    identified(ctx, &u, &text)?;
    ensure!(
        run(u.check_signature(&mut parser()))?.is_ok(),
        "its signature is no longer valid"
    );
    // its serialised form
    let v = serde_json::to_string(&u)
        .map_err(|e| Fail::Violation(format!("a token is not serialised: {e}")))?;
    let w: Result<Ucan, _> = serde_json::from_str(&v);
    ensure!(
        matches!(&w, Ok(w) if *w == u && w.encode().ok() == Some(text.clone())),
        "the serialised form gives another token: {w:?}"
    );
    ctx.outcome("round-trips");
    Ok(())
}

/// Tokens of other implementations: whatever is accepted comes out as it went in
fn spellings(ctx: &mut Ctx) -> R {
    let mut t = Tok::new(0, 1);
    t.exp = Some(1_700_000_001);
    t.nbf = Some(7);
    t.nnc = Some("n/é".into());
    t.claim("app:/a", "app/read", json!({"x": 1}));
    t.claim("app:/b", "app/write", json!({}));
    t.fct = json!({"f": [1, {"g": null}], "a": 1.5}).as_object().cloned();
    t.prf = Some(vec!["x".into(), "y".into()]);
    let (header, payload) = (canon(&t.header()), canon(&t.payload()));
    let on_header = ctx.flag();
    let src = if on_header { &header } else { &payload };
    let mut all = respellings(src)?;
    if ctx.thorough() {
        // two changes at once
        let first = ctx.pick(&all).clone();
        all = respellings(&first).unwrap_or_else(|_| vec![first]);
    }
    let chosen = ctx.pick(&all).clone();
    let data = if on_header {
        format!("{}.{}", B64.encode(&chosen), B64.encode(&payload))
    } else {
        format!("{}.{}", B64.encode(&header), B64.encode(&chosen))
    };
    let text = sign_text(&data, &ToyKey::new(0));
    ctx.state(&text);
    ctx.log(|| chosen.clone());
    let u = match Ucan::try_from(text.as_str()) {
        Ok(_) => round_trip(ctx, &text)?,
        Err(_) => {
            // whether other spellings are accepted is left open, except for
            // white space between the parts
            let value = |s: &str| serde_json::from_str::<Value>(s).ok();
            let plain = chosen.split_whitespace().collect::<String>() == *src
                && value(&chosen) == value(src);
            ensure!(!plain, "refused for its white space: {chosen}");
            ctx.outcome("refused");
            return Ok(());
        }
    };
    identified(ctx, &u, &text)?;
    if run(u.check_signature(&mut parser()))?.is_err() {
        // repeated fields might be read as another issuer
        ensure!(
            u.issuer() != ToyKey::new(0).did(),
            "its signature is no longer valid: {chosen}"
        );
    }
    // what it shows is what the JSON says, for JSON without repetitions
    if let (Ok(h), Ok(p)) = (
        serde_json::from_str::<Value>(if on_header { &chosen } else { &header }),
        serde_json::from_str::<Value>(if on_header { &payload } else { &chosen }),
    ) {
        let repeated = |s: &str| {
            ["\"alg\"", "\"typ\"", "\"nnc\"", "\"exp\"", "\"aud\"", "\"prf\"", "\"fct\"", "\"cap\""]
                .iter()
                .any(|k| s.matches(k).count() > 1)
        };
        if !repeated(&chosen) {
            shows(&u, &h, &p)?;
        }
    }
    ctx.outcome("round-trips");
    Ok(())
}

/// Any text that is put together like a token
fn any_text(ctx: &mut Ctx) -> R {
    let t = Tok::new(0, 1);
    let good: Vec<String> = t.text().split('.').map(String::from).collect();
    let wrap = |s: &str| B64.encode(s);
    let headers = [
        good[0].clone(),
        wrap("{\"alg\":\"\",\"typ\":\"\"}"),
        wrap("{\"typ\":\"JWT\",\"alg\":\"EdDSA\",\"x\":{\"/\":\"q\"}}"),
        format!("{}=", good[0]),
        format!("{} ", good[0]),
        wrap("{\"alg\":\"EdDSA\"}"),
        wrap("[\"EdDSA\",\"JWT\"]"),
        String::new(),
    ];
    let payload = canon(&t.payload());
    let payloads = [
        good[1].clone(),
        wrap(&payload.replace("\"exp\":null", "\"exp\":1.0")),
        wrap(&payload.replace("\"exp\":null", "\"exp\":\"1\"")),
        wrap(&payload.replace("\"exp\":null,", "")),
        wrap(&payload.replace("\"cap\":{}", "\"cap\":{\"r\":{\"a\":[{\"/\":\"x\"}]}}")),
        wrap(&payload.replace("\"cap\":{}", "\"cap\":{},\"fct\":{\"x\":{\"/\":{\"bytes\":\"AA\"}}}")),
        wrap(&payload.replace("\"cap\":{}", "\"cap\":{},\"fct\":null,\"prf\":null,\"nbf\":null,\"nnc\":null")),
        wrap(&payload.replace("\"cap\":{}", "\"cap\":{},\"fct\":{\"n\":18446744073709551616}")),
        wrap(&payload.replace("\"cap\":{}", "\"cap\":{},\"fct\":{\"n\":1e300,\"z\":-0.0,\"e\":1e2}")),
        format!("{}==", good[1]),
        format!("\n{}", good[1]),
    ];
    // the last character of an encoding may hold bits that stand for nothing
    let loose = |s: &str, bits: usize| {
        let alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
        let last = s.chars().last().and_then(|c| alphabet.find(c)).unwrap_or(0);
        format!("{}{}", &s[..s.len() - 1], &alphabet[last ^ bits..][..1])
    };
    let signatures = [
        good[2].clone(),
        String::new(),
        "AA".into(),
        "AB".into(),
        "AAA".into(),
        "AAB".into(),
        "A".into(),
        "AAAA".into(),
        "AAAAA".into(),
        loose(&good[2], 1),
        loose(&good[2], 2),
        loose(&good[2], 3),
        format!("{}=", good[2]),
        "+/+/".into(),
        "-_-_".into(),
        "é".into(),
        "AA==".into(),
        " ".into(),
    ];
    let mut text = format!(
        "{}.{}.{}",
        ctx.pick(&headers),
        ctx.pick(&payloads),
        ctx.pick(&signatures)
    );
    match ctx.choose(5) {
        0 => {}
        1 => text.push('.'),
        2 => text.insert(0, '.'),
        3 => text.push_str(".AA"),
        _ => text.push('\n'),
    }
    ctx.state(&text);
    ctx.log(|| text.clone());
    match Ucan::try_from(text.as_str()) {
        Ok(_) => {
            let u = round_trip(ctx, &text)?;
            identified(ctx, &u, &text)?;
            ctx.outcome("round-trips");
        }
        Err(_) => ctx.outcome("refused"),
    }
    Ok(())
}

/// Tokens signed by this library
fn signed(ctx: &mut Ctx) -> R {
    let key = ctx.pick(keys());
    let heavy = key.ty == Type::Rsa;
    let aud = *ctx.pick(&["did:key:zAud", "", "é\u{0}\"/"]);
    let exp = *ctx.pick(&[None, Some(0), Some(u64::MAX)]);
    let nbf = *ctx.pick(&[None, Some(0), Some(u64::MAX)]);
    let caps = ctx.pick(&cap_values()).clone();
    let facts: Vec<(&str, Value)> = ctx
        .pick(&[
            vec![],
            vec![("b", json!("x")), ("", json!({"é": [1, -1, u64::MAX, i64::MIN]}))],
            vec![("f", json!([1.5, -0.25, 1e300, 5e-324]))],
            vec![("o", json!({"/": "x"}))],
            vec![("/", json!("bafkr4ia"))],
            vec![("/", json!({"bytes": "AA"}))],
            vec![("n", json!(null))],
            vec![("w", json!([1.0, 100.0, -0.0, 1e15, 1e16]))],
        ])
        .clone();
    let proofs: Vec<String> = ctx
        .pick(&[vec![], vec!["x"], vec!["b", "a", "b"]])
        .iter()
        .map(|s| s.to_string())
        .collect();
    let nonce = !heavy && ctx.flag();
    if heavy && (nbf.is_some() || exp == Some(0)) {
        return Err(Fail::Prune);
    }
    let s = Signable {
        issuer: &key.private,
        audience: aud.to_string(),
        capabilities: caps
            .iter()
            .map(|(r, a, c)| Capability::from((*r, *a, c)))
            .collect(),
        expiration: exp,
        not_before: nbf,
        facts: facts.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
        proofs,
        add_nonce: nonce,
    };
    ctx.state(&(key.name, aud, exp, nbf, format!("{caps:?} {facts:?}"), &s.proofs, nonce));
    ctx.log(|| format!("{} signs: aud {aud:?} exp {exp:?} nbf {nbf:?} caps {caps:?} facts {facts:?} nonce {nonce}", key.name));
    ctx.op();
    let u = match run(s.sign())? {
        Ok(u) => u,
        Err(e) => {
            // null and what DAG-JSON reserves cannot be written
            let reserved = facts.iter().any(|(k, v)| {
                *k == "/" || v.is_null() || v.get("/").is_some() || *k == "w"
            });
            ensure!(reserved, "not signed: {e:#}");
            ctx.outcome("refused");
            return Ok(());
        }
    };
    let text = u
        .encode()
        .map_err(|e| Fail::Violation(format!("a signed token is not written: {e:#}")))?;
    let v = round_trip(ctx, &text)?;
    ensure!(v == u, "read back, the token {u:?} is {v:?}");
    identified(ctx, &v, &text)?;
    let t = json!({"alg": key.ty.alg(), "typ": "JWT"});
    let mut p = json!({"ucv": "0.10.0-canary", "iss": key.did, "aud": aud, "exp": exp});
    let mut tok = Tok::new(0, 0);
    for (r, a, c) in &caps {
        tok.claim(r, a, c.clone());
    }
    p["cap"] = tok.cap();
    if let Some(n) = nbf {
        p["nbf"] = json!(n);
    }
    if !facts.is_empty() {
        p["fct"] = Value::Object(facts.iter().map(|(k, v)| (k.to_string(), v.clone())).collect());
    }
    if !s.proofs.is_empty() {
        p["prf"] = json!(s.proofs);
    }
    if nonce {
        ensure!(v.nonce().is_some(), "no nonce");
        p["nnc"] = json!(v.nonce());
    }
    shows(&v, &t, &p)?;
    ensure!(
        run(v.check_signature(&mut real_parser()))?.is_ok(),
        "the signature is not valid"
    );
    ctx.outcome("round-trips");
    Ok(())
}

/// JSON values in all places
fn values(ctx: &mut Ctx) -> R {
    let key = ToyKey::new(0);
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    let b = UcanBuilder::default().issued_by(&key).for_audience(&t.aud);
    let (b, v) = valued(ctx, b, &mut t)?;
    ctx.state(&t.payload().to_string());
    ctx.op();
    // signed by this library
    if let Some(u) = sign_valued(b, &v)? {
        let text = u
            .encode()
            .map_err(|e| Fail::Violation(format!("a signed token is not written: {e:#}")))?;
        let w = round_trip(ctx, &text)?;
        ensure!(w == u, "read back, the token {u:?} is {w:?}");
        identified(ctx, &w, &text)?;
        ensure!(run(w.check_signature(&mut parser()))?.is_ok(), "no longer valid");
    }
    // and by another one
    let text = t.text();
    match Ucan::try_from(text.as_str()) {
        Err(e) => {
            ensure!(!jsons::plain(&v), "not read: {e:#}");
            ctx.outcome("refused");
        }
        Ok(_) => {
            let w = round_trip(ctx, &text)?;
            if jsons::plain(&v) {
                shows(&w, &t.header(), &t.payload())?;
            }
            identified(ctx, &w, &text)?;
            ensure!(run(w.check_signature(&mut parser()))?.is_ok(), "not valid");
            ctx.outcome("round-trips");
        }
    }
    Ok(())
}

/// A token for the library to sign
pub fn signable<'a, K>(t: &Tok, key: &'a K) -> Signable<'a, K>
where
    K: ucan::crypto::KeyMaterial,
{
    Signable {
        issuer: key,
        audience: t.aud.clone(),
        capabilities: t
            .caps
            .iter()
            .map(|(r, a, c)| Capability::from((r.as_str(), a.as_str(), c)))
            .collect(),
        expiration: t.exp,
        not_before: t.nbf,
        facts: t.fct.clone().unwrap_or_default().into_iter().collect(),
        proofs: t.prf.clone().unwrap_or_default(),
        add_nonce: false,
    }
}

/// Tokens that are large in one respect
fn large(ctx: &mut Ctx) -> R {
    let (mut t, _) = big(ctx, (18, 20));
    match ctx.choose(3) {
        0 => {
            let key = ToyKey::new(0);
            ctx.op();
            let u = run(signable(&t, &key).sign())?
                .map_err(|e| Fail::Violation(format!("not signed: {e:#}")))?;
            ensure!(
                u.encode().ok() == Some(t.text()),
                "signed, it is another token than expected"
            );
        }
        1 => {}
        _ => {
            // what the library does not choose itself
            let s = t.aud.clone();
            t.nnc = Some(s.clone());
            t.ucv = s;
        }
    }
    let text = t.text();
    let u = round_trip(ctx, &text)?;
    shows(&u, &t.header(), &t.payload())?;
    identified(ctx, &u, &text)?;
    ensure!(run(u.check_signature(&mut parser()))?.is_ok(), "not valid");
    let v = serde_json::to_string(&u)
        .map_err(|e| Fail::Violation(format!("a token is not serialised: {e}")))?;
    let w: Result<Ucan, _> = serde_json::from_str(&v);
    ensure!(
        matches!(&w, Ok(w) if *w == u && w.encode().ok() == Some(text)),
        "the serialised form gives another token"
    );
    ctx.outcome("round-trips");
    Ok(())
}

pub fn c09() -> Vec<Harness> {
    vec![
        Harness {
            name: "large",
            bounds: large!("signed by the library, by an independent encoder, and with a nonce and version as long as the audience"),
            devs: (0, 0),
            run: large,
        },
        Harness {
            name: "values",
            bounds: "about 600 (thorough more) JSON values in 6 places, signed by the library and by an independent encoder",
            devs: (0, 0),
            run: values,
        },
        Harness {
            name: "fields",
            bounds: "3 versions x 3 audiences x 5 expirations x 3 not-before times x 3 nonces x 6 capability sets x 3 fact sets x 4 proof lists, written by an independent encoder",
            devs: (0, 0),
            run: fields,
        },
        Harness {
            name: "spellings",
            bounds: "every other spelling (white space at every place, escapes, number formats, unknown, repeated, missing or reordered fields; thorough: two at once) of a token with all fields, signed as spelled",
            devs: (0, 0),
            run: spellings,
        },
        Harness {
            name: "any_text",
            bounds: "8 headers x 11 payloads x 18 signatures x 5 frames, well-formed or not",
            devs: (0, 0),
            run: any_text,
        },
        Harness {
            name: "signed",
            bounds: "10 keys x 3 audiences x 3 expirations x 3 not-before times x 3 capability lists x 8 fact sets x 3 proof lists x nonce, signed by the library",
            devs: (0, 0),
            run: signed,
        },
    ]
}

// ---------------------------------------------------------------------------
// C11

fn expected_data(alg: &str, payload: &Value) -> String {
    format!(
        "{}.{}",
        B64.encode(canon(&json!({"alg": alg, "typ": "JWT"}))),
        B64.encode(canon(payload))
    )
}

fn data_is(u: &Ucan, expected: &str) -> R {
    let got = String::from_utf8_lossy(u.signed_data()).to_string();
    if got != expected {
        let show = |s: &str| {
            s.split('.')
                .map(|p| {
                    B64.decode(p)
                        .map(|b| String::from_utf8_lossy(&b).to_string())
                        .unwrap_or_else(|_| p.to_string())
                })
                .collect::<Vec<_>>()
                .join(" . ")
        };
        return bad(format!(
            "signed is {} instead of {}",
            show(&got),
            show(expected)
        ));
    }
    Ok(())
}

fn sign_with(b: UcanBuilder<ToyKey>) -> R<Ucan> {
    let s = b
        .build()
        .map_err(|e| Fail::Violation(format!("a complete builder is refused: {e:#}")))?;
    run(s.sign())?.map_err(|e| Fail::Violation(format!("not signed: {e:#}")))
}

/// Supplied in every order
fn orders(ctx: &mut Ctx) -> R {
    let key = ToyKey::new(0);
    let facts = [
        ("b", json!({"y": 1, "x": {"d": [], "c": {}}})),
        ("a", json!([{"q": 1, "p": 2}])),
        ("aa", json!("s")),
        ("B", json!(true)),
        ("", json!(0)),
    ];
    let caps = [
        ("app:/b", "app/write", json!({})),
        ("app:/a", "app/write", json!({"n": 1, "m": 2})),
        ("app:/b", "app/read", json!({})),
        ("app:/a/b", "app/read", json!({"z": {"b": 1, "a": 2}})),
        ("app:/a", "app/read", json!({})),
    ];
    let n = ctx.by_tier(4, 5);
    let order = |ctx: &mut Ctx, n: usize| {
        let mut left: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !left.is_empty() {
            out.push(left.remove(ctx.choose(left.len())));
        }
        out
    };
    let fo = order(ctx, n);
    let co = order(ctx, n);
    // the single settings before, between or after
    let when = ctx.choose(3);
    ctx.state(&(&fo, &co, when));
    ctx.log(|| format!("facts in order {fo:?}, capabilities in order {co:?}, settings at {when}"));
    ctx.op();
    let mut b = UcanBuilder::default();
    if when == 0 {
        b = b.for_audience("did:key:zA").not_before(3).with_expiration(9);
    }
    b = b.issued_by(&key);
    for i in &fo {
        b = b.with_fact(facts[*i].0, facts[*i].1.clone());
    }
    if when == 1 {
        b = b.with_expiration(9).not_before(3).for_audience("did:key:zA");
    }
    for i in &co {
        let (r, a, c) = &caps[*i];
        b = b.claiming_capability((r.to_string(), a.to_string(), c.clone()));
    }
    if when == 2 {
        b = b.not_before(3).with_expiration(9).for_audience("did:key:zA");
    }
    let u = sign_with(b)?;
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    t.nbf = Some(3);
    t.exp = Some(9);
    for (r, a, c) in &caps[..n] {
        t.claim(r, a, c.clone());
    }
    t.fct = Some(facts[..n].iter().map(|(k, v)| (k.to_string(), v.clone())).collect());
    data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    ctx.outcome("canonical");
    Ok(())
}

/// Every combination of fields
fn combinations(ctx: &mut Ctx) -> R {
    let key = ToyKey::new(*ctx.pick(&[0, 200]));
    clock::set(1000);
    let mut t = Tok::new(key.id, 0);
    t.aud = ctx.pick(&["did:key:zA", "", "\u{e9}\u{0}"]).to_string();
    let mut b = UcanBuilder::default().issued_by(&key).for_audience(&t.aud);
    match ctx.choose(5) {
        0 => {}
        1 => {
            b = b.with_expiration(0);
            t.exp = Some(0);
        }
        2 => {
            b = b.with_expiration(u64::MAX);
            t.exp = Some(u64::MAX);
        }
        3 => {
            b = b.with_lifetime(60);
            t.exp = Some(1060);
        }
        _ => {
            b = b.with_lifetime(60).with_expiration(7);
            t.exp = Some(7);
        }
    }
    t.nbf = *ctx.pick(&[None, Some(0), Some(1 << 53), Some(u64::MAX)]);
    if let Some(n) = t.nbf {
        b = b.not_before(n);
    }
    for (r, a, c) in ctx.pick(&cap_values()).clone() {
        t.claim(r, a, c.clone());
        b = b.claiming_capability((r.to_string(), a.to_string(), c));
    }
    let facts = [
        ("k", json!({"b": [1, 2.5, -3], "a": {"": "x"}})),
        ("n", json!(-1)),
        ("e", json!({})),
    ];
    let mut map = Map::new();
    for (k, v) in facts {
        if ctx.flag() {
            map.insert(k.into(), v.clone());
            b = b.with_fact(k, v);
        }
    }
    if !map.is_empty() {
        t.fct = Some(map);
    }
    let proof = read(&Tok::new(9, 9).text())?;
    match ctx.choose(4) {
        0 => {}
        1 => {
            b = b.witnessed_by(&proof, None);
            t.cite(cid_with(Tok::new(9, 9).text().as_bytes(), Code::Blake3_256).to_string());
        }
        2 => {
            b = b.witnessed_by(&proof, Some(Code::Sha2_256));
            t.cite(cid_with(Tok::new(9, 9).text().as_bytes(), Code::Sha2_256).to_string());
        }
        _ => {
            b = b.delegating_from(&proof, None);
            t.cite(cid_with(Tok::new(9, 9).text().as_bytes(), Code::Blake3_256).to_string());
            t.claim("prf:0", "ucan/DELEGATE", json!({}));
        }
    }
    let nonce = ctx.flag();
    if nonce {
        b = b.with_nonce();
    }
    ctx.state(&(t.payload().to_string(), nonce));
    ctx.log(|| format!("{}", t.payload()));
    ctx.op();
    let u = sign_with(b)?;
    t.nnc = u.nonce().clone();
    ensure!(nonce == t.nnc.is_some(), "nonce {:?}; requested {nonce}", t.nnc);
    data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    ctx.outcome("canonical");
    Ok(())
}

/// Characters that encoders treat in their own ways, everywhere
fn characters(ctx: &mut Ctx) -> R {
    let mut chars: Vec<char> = (0..0x100u32).filter_map(char::from_u32).collect();
    chars.extend([
        '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{2028}', '\u{2029}',
        '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
    ]);
    let c = *ctx.pick(&chars);
    let s = match ctx.choose(3) {
        0 => c.to_string(),
        1 => format!("a{c}"),
        _ => format!("{c}{c}b"),
    };
    let key = ToyKey::new(0);
    let mut t = Tok::new(0, 0);
    t.aud = s.clone();
    t.claim(&s, &s, json!({&s: &s}));
    t.fct = json!({&s: {&s: [&s]}, "z": &s}).as_object().cloned();
    ctx.state(&s);
    ctx.log(|| format!("{s:?} in every place"));
    ctx.op();
    let mut b = UcanBuilder::default()
        .issued_by(&key)
        .for_audience(&s)
        .claiming_capability((s.clone(), s.clone(), json!({&s: &s})));
    for (k, v) in t.fct.clone().unwrap_or_default() {
        b = b.with_fact(&k, v);
    }
    if s == "/" {
        // reserved by DAG-JSON
        ctx.outcome("reserved");
        return Ok(());
    }
    let u = sign_with(b)?;
    data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    ctx.outcome("canonical");
    Ok(())
}

/// Keys whose order depends on how they are compared
fn key_order(ctx: &mut Ctx) -> R {
    let tricky = [
        "", "a", "b", "aa", "B", "_", "A", "Z", "z", "10", "2", "-", "~", " ", "\u{7f}", "é", "e\u{301}",
        "\u{ffff}", "\u{10000}", "\u{0}", "a\u{0}", "a/", "\"", "\\",
    ];
    let n = ctx.by_tier(3, 4);
    let mut chosen: Vec<&str> = vec![];
    let mut at = 0;
    for i in 0..n {
        let room = tricky.len() - at - (n - 1 - i);
        let k = at + ctx.choose(room);
        chosen.push(tricky[k]);
        at = k + 1;
    }
    if ctx.flag() {
        chosen.reverse();
    }
    ctx.state(&chosen);
    ctx.log(|| format!("keys {chosen:?}"));
    ctx.op();
    let key = ToyKey::new(0);
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    let mut b = UcanBuilder::default().issued_by(&key).for_audience("did:key:zA");
    let object: Map<String, Value> = chosen.iter().map(|k| (k.to_string(), json!(1))).collect();
    for k in &chosen {
        t.claim(k, k, Value::Object(object.clone()));
        b = b.claiming_capability((k.to_string(), k.to_string(), Value::Object(object.clone())));
        b = b.with_fact(k, Value::Object(object.clone()));
    }
    t.fct = Some(
        chosen
            .iter()
            .map(|k| (k.to_string(), Value::Object(object.clone())))
            .collect(),
    );
    let u = sign_with(b)?;
    data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    ctx.outcome("canonical");
    Ok(())
}

/// JSON values in all places
fn all_values(ctx: &mut Ctx) -> R {
    let key = ToyKey::new(0);
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    let b = UcanBuilder::default().issued_by(&key).for_audience(&t.aud);
    let (b, v) = valued(ctx, b, &mut t)?;
    ctx.state(&t.payload().to_string());
    ctx.op();
    let u = match sign_valued(b, &v)? {
        None => {
            ctx.outcome("refused");
            return Ok(());
        }
        Some(u) => u,
    };
    if jsons::floats(&v) {
        // how a float is written is left open, not what it is
        let text = String::from_utf8_lossy(u.signed_data()).to_string();
        let part = text.split('.').nth(1).and_then(|p| B64.decode(p).ok());
        let part = part.and_then(|p| String::from_utf8(p).ok()).unwrap_or_default();
        let said: Value = serde_json::from_str(&part)
            .map_err(|e| Fail::Violation(format!("what was signed is not JSON: {e}")))?;
        ensure!(said == t.payload(), "signed is {part} instead of {}", t.payload());
    } else {
        data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    }
    ctx.outcome("canonical");
    Ok(())
}

/// The order of the caveats of one ability is content; that of the rest is not
fn lists(ctx: &mut Ctx) -> R {
    let caps = [
        ("app:/a", "app/read", json!({})),
        ("app:/a", "app/read", json!({"b": 1})),
        ("app:/a", "app/read", json!({"a": 2})),
        ("app:/a", "app/read", json!({"a": 1, "b": {"d": 1, "c": 2}})),
        ("app:/a", "app/write", json!({"b": 1})),
        ("app:/b", "app/read", json!({"a": 1})),
        ("app:/b", "app/read", json!({})),
    ];
    let proofs = ["b", "a", "c"];
    let key = ToyKey::new(0);
    let mut t = Tok::new(0, 0);
    t.aud = "did:key:zA".into();
    let n = ctx.by_tier(4, 5);
    let mut list = vec![];
    for _ in 0..n {
        let (r, a, c) = ctx.pick(&caps).clone();
        t.claim(r, a, c.clone());
        list.push(Capability::from((r, a, &c)));
    }
    let mut prf = vec![];
    for _ in 0..ctx.choose(3) {
        prf.push(ctx.pick(&proofs).to_string());
    }
    if !prf.is_empty() {
        t.prf = Some(prf.clone());
    }
    ctx.state(&t.payload().to_string());
    ctx.log(|| format!("{list:?}, proofs {prf:?}"));
    ctx.op();
    let s = Signable {
        issuer: &key,
        audience: t.aud.clone(),
        capabilities: list,
        expiration: None,
        not_before: None,
        facts: Default::default(),
        proofs: prf,
        add_nonce: false,
    };
    let u = run(s.sign())?.map_err(|e| Fail::Violation(format!("not signed: {e:#}")))?;
    data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    ctx.outcome("canonical");
    Ok(())
}

/// Tokens that are large in one respect
fn all_large(ctx: &mut Ctx) -> R {
    let (t, _) = big(ctx, (18, 20));
    let key = ToyKey::new(0);
    ctx.op();
    let u = if ctx.flag() {
        run(signable(&t, &key).sign())?.map_err(|e| Fail::Violation(format!("not signed: {e:#}")))?
    } else {
        // through the builder, backwards
        let mut b = UcanBuilder::default()
            .issued_by(&key)
            .for_audience(&t.aud)
            .with_expiration(t.exp.unwrap_or_default());
        for (k, v) in t.fct.iter().flatten().rev() {
            b = b.with_fact(k, v.clone());
        }
        for (r, a, c) in &t.caps {
            b = b.claiming_capability((r.clone(), a.clone(), c.clone()));
        }
        if t.prf.is_some() {
            return Err(Fail::Prune);
        }
        sign_with(b)?
    };
    data_is(&u, &expected_data("EdDSA", &t.payload()))?;
    ctx.outcome("canonical");
    Ok(())
}

pub fn c11() -> Vec<Harness> {
    vec![
        Harness {
            name: "large",
            bounds: large!("signed directly and through the builder with the facts backwards"),
            devs: (0, 0),
            run: all_large,
        },
        Harness {
            name: "values",
            bounds: "about 600 (thorough more) JSON values in 6 places: as a fact, after and before others, nested, in a caveat, repeated, as the caveat",
            devs: (0, 0),
            run: all_values,
        },
        Harness {
            name: "lists",
            bounds: "every sequence of 4 (thorough 5) of 7 capabilities on 3 resources and abilities, with every sequence of up to 2 of 3 proofs",
            devs: (0, 0),
            run: lists,
        },
        Harness {
            name: "orders",
            bounds: "every order of 4 (thorough 5) facts and of 4 (thorough 5) capabilities, settings at 3 places",
            devs: (0, 0),
            run: orders,
        },
        Harness {
            name: "combinations",
            bounds: "2 issuers x 3 audiences x 5 expirations x 4 not-before times x 3 capability lists x 8 fact sets x 4 proofs x nonce",
            devs: (0, 0),
            run: combinations,
        },
        Harness {
            name: "characters",
            bounds: "all 256 Latin-1 characters and 13 others in every place that holds text, in 3 positions",
            devs: (0, 0),
            run: characters,
        },
        Harness {
            name: "key_order",
            bounds: "every set of 3 (thorough 4) of 24 keys whose order depends on the comparison, for facts, resources, abilities and caveats",
            devs: (0, 0),
            run: key_order,
        },
    ]
}
