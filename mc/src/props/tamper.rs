//! C05: only what the issuer signed is accepted as the issuer's token.
use crate::{
    big::about,
    engine::{bad, Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    keys::{keys, real_parser, Key, Type},
    world::{canon, cid_of, parser, MapStore, Tok, ToyKey, B64},
};
use base64::Engine;
use serde_json::{json, Value};
use std::sync::OnceLock;
use ucan::{
    chain::ProofChain,
    crypto::JwtSignatureAlgorithm,
    ipld::{Principle, Signature, UcanIpld},
    ucan::{UcanHeader, UcanPayload},
    Ucan,
};

struct Sample {
    what: &'static str,
    key: &'static Key,
    text: String,
}

fn tok_for(key: &Key, salt: &str) -> Tok {
    let mut t = Tok::new(0, 1);
    t.alg = key.ty.alg().into();
    t.issuer = Some(key.did.clone());
    t.aud = "did:key:zAud".into();
    t.nnc = Some(salt.into());
    t
}

fn full(mut t: Tok) -> Tok {
    t.exp = Some(crate::clock::DEFAULT + 100);
    t.nbf = Some(7);
    t.claim("app:/a", "app/read", json!({"x": 1}));
    t.claim("app:/a", "app/read", json!({}));
    t.claim("app:/b", "app/write", json!({}));
    t.fct = json!({"f": [1, {"g": null}]}).as_object().cloned();
    t.prf = Some(vec!["bafkr4ia".into(), "b".into()]);
    t
}

fn signed(key: &Key, header: &str, payload: &str) -> String {
    let data = format!("{}.{}", B64.encode(header), B64.encode(payload));
    let sig = key.sign(data.as_bytes());
    format!("{data}.{}", B64.encode(sig))
}

fn of_type(ty: Type) -> &'static Key {
    keys().iter().find(|k| k.ty == ty).expect("key")
}

fn samples() -> &'static [Sample] {
    static S: OnceLock<Vec<Sample>> = OnceLock::new();
    S.get_or_init(|| {
        let mut out = vec![];
        for ty in [Type::Toy, Type::Ed25519, Type::P256, Type::Rsa] {
            let key = of_type(ty);
            let t = tok_for(key, "n");
            out.push(Sample {
                what: "minimal",
                key,
                text: signed(key, &canon(&t.header()), &canon(&t.payload())),
            });
            let t = full(t);
            out.push(Sample {
                what: "all fields",
                key,
                text: signed(key, &canon(&t.header()), &canon(&t.payload())),
            });
        }
        // Signed by another implementation: spaces, another order, and fields
        // that this one does not know
        for ty in [Type::Toy, Type::Ed25519] {
            let key = of_type(ty);
            let header = format!("{{ \"typ\":  \"JWT\",\n\t\"kid\": \"q\", \"alg\": \"{}\" }}", key.ty.alg());
            let payload = format!(
                "{{ \"x\":  \"y\", \"zz\": [ 1,  2 ],\n \"ucv\": \"0.10.0-canary\", \"iss\": \"{}\",  \"aud\": \"did:key:zAud\",\t\"exp\":  null, \"cap\": {{ }} }}  ",
                key.did
            );
            out.push(Sample {
                what: "spelled in another way",
                key,
                text: signed(key, &header, &payload),
            });
        }
        out
    })
}

/// How the library judges a token's text
fn verifies(text: &str, chain_too: bool) -> R<bool> {
    let ucan = match Ucan::try_from(text) {
        Ok(u) => u,
        Err(_) => return Ok(false),
    };
    let ok = run(ucan.check_signature(&mut real_parser()))?.is_ok();
    if chain_too {
        agree(&ucan, ok, &mut real_parser)?;
    }
    Ok(ok)
}

/// The other ways to verify come to the same verdict (for tokens without proofs
/// and within their period)
fn agree(ucan: &Ucan, ok: bool, parser: &mut dyn FnMut() -> ucan::crypto::did::DidParser) -> R {
    let v = run(ucan.validate(Some(crate::clock::DEFAULT), &mut parser()))?.is_ok();
    ensure!(v == ok, "validate: {v}, but check_signature: {ok}");
    if ucan.proofs().is_none() {
        let store = MapStore::default();
        let c = run(ProofChain::from_ucan(
            ucan.clone(),
            Some(crate::clock::DEFAULT),
            &mut parser(),
            &store,
        ))?
        .is_ok();
        ensure!(c == ok, "chain: {c}, but check_signature: {ok}");
    }
    Ok(())
}

const B64_CHARS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const ODD: [&str; 9] = [".", "=", " ", "\n", "+", "/", "\0", "é", ".."];

/// Every change of one character of a signed token
fn edits(ctx: &mut Ctx) -> R {
    let s = ctx.pick(samples());
    let fast = matches!(s.key.ty, Type::Toy | Type::Ed25519) || ctx.thorough();
    let n = s.text.len();
    let at = ctx.choose(n + 1);
    ctx.log(|| format!("a token of {} ({}), changed at {at} of {n}", s.key.name, s.what));
    if at == n {
        // nothing changed
        ctx.op();
        ensure!(
            verifies(&s.text, s.what != "all fields")?,
            "a genuine token of {} ({}) is refused",
            s.key.name,
            s.what
        );
        ctx.outcome("accepted");
    }
    let mut variants: Vec<String> = vec![];
    let (l, r) = s.text.split_at(at);
    let mut chars: Vec<String> = ODD.iter().map(|c| c.to_string()).collect();
    let old = r.chars().next();
    match old.and_then(|c| B64_CHARS.find(c)) {
        Some(i) if !fast => {
            for bit in 0..6 {
                chars.push(B64_CHARS[i ^ (1 << bit)..][..1].to_string());
            }
        }
        _ => chars.extend(B64_CHARS.chars().map(|c| c.to_string())),
    }
    for c in &chars {
        variants.push(format!("{l}{c}{r}"));
        if at < n {
            variants.push(format!("{l}{c}{}", &r[1..]));
        }
    }
    if at < n {
        variants.push(format!("{l}{}", &r[1..]));
        variants.push(l.to_string());
        variants.push(r.to_string());
        if at > 0 {
            // neighbours exchanged
            let (a, b) = (&l[at - 1..], &r[..1]);
            variants.push(format!("{}{b}{a}{}", &l[..at - 1], &r[1..]));
        }
        if let Some(c) = old {
            let flipped = if c.is_ascii_lowercase() {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            };
            variants.push(format!("{l}{flipped}{}", &r[1..]));
        }
    }
    for v in variants {
        if v == s.text {
            continue;
        }
        ctx.op();
        ctx.state(&v);
        if verifies(&v, s.key.ty == Type::Toy)? {
            return bad(format!(
                "a token of {} ({}) is still accepted when changed at {at}: {v:?} instead of {:?}",
                s.key.name, s.what, s.text
            ));
        }
    }
    ctx.outcome("refused");
    Ok(())
}

/// Two changes at once: one character removed here, and one added there
fn moves(ctx: &mut Ctx) -> R {
    let all = samples();
    let s = if ctx.flag() { &all[0] } else { &all[8] };
    let n = s.text.len();
    let from = ctx.choose(n);
    ctx.log(|| format!("{}: the character at {from} removed, another added", s.what));
    let mut cut = s.text.clone();
    let c = cut.remove(from);
    let step = 1;
    for to in (from % step..n).step_by(step) {
        let mut added = vec![c, '.', 'A'];
        if ctx.thorough() {
            added.extend(['g', 'I', 'Q', '_', 'w']);
        }
        for c in added {
            let mut v = cut.clone();
            v.insert(to, c);
            if v == s.text {
                continue;
            }
            ctx.op();
            ctx.state(&v);
            ensure!(
                !verifies(&v, false)?,
                "still accepted with {c:?} moved from {from} to {to}: {v:?} instead of {:?}",
                s.text
            );
        }
    }
    ctx.outcome("refused");
    Ok(())
}

/// Changes far into a large token
fn large(ctx: &mut Ctx) -> R {
    let key = *ctx.pick(&[of_type(Type::Toy), of_type(Type::Ed25519)]);
    let in_fact = ctx.flag();
    let n = [700usize, 9_000, 70_000, 1_100_000][ctx.choose(ctx.by_tier(3, 4))];
    // letters that differ, so that parts are not alike
    let mut seed = 7u32;
    let s: String = (0..n)
        .map(|_| {
            seed = seed.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            B64_CHARS.as_bytes()[(seed >> 26) as usize] as char
        })
        .collect();
    let mut t = tok_for(key, "n");
    if in_fact {
        t.fct = json!({ "f": s }).as_object().cloned();
    } else {
        t.claim(&format!("app:/{s}"), "app/read", json!({}));
    }
    let text = signed(key, &canon(&t.header()), &canon(&t.payload()));
    let len = text.len();
    let mut places = vec![];
    for p in about(0, 21) {
        places.push(p);
        places.push(len.wrapping_sub(p));
    }
    let dot = text.rfind('.').unwrap_or_default();
    places.extend([dot - 2, dot - 1, dot, dot + 1]);
    places.extend((1..16).map(|i| len / 16 * i));
    places.retain(|p| *p < len);
    places.sort_unstable();
    places.dedup();
    let how = ctx.choose(7);
    ctx.log(|| format!("a token of {len} bytes by {}, changed in the way {how} at {} places", key.name, places.len()));
    if how == 0 {
        ctx.op();
        ensure!(verifies(&text, true)?, "a genuine token of {len} bytes is refused");
    }
    for at in places {
        let (l, r) = text.split_at(at);
        let c = if r.starts_with('B') { 'C' } else { 'B' };
        let v = match how {
            0 => format!("{l}{c}{}", &r[1..]),
            1 => format!("{l}{}", &r[1..]),
            2 => format!("{l}{c}{r}"),
            // four characters are three bytes
            3 if r.len() > 4 => format!("{l}{}", &r[4..]),
            4 => format!("{l}QUJD{r}"),
            5 if r.len() > 8 => format!("{l}{}{}{}", &r[4..8], &r[..4], &r[8..]),
            // exchanged with what is as far from the end
            6 => {
                let mut b = text.clone().into_bytes();
                b.swap(at, len - 1 - at);
                String::from_utf8_lossy(&b).to_string()
            }
            _ => continue,
        };
        if v == text {
            continue;
        }
        ctx.op();
        ctx.state(&(len, in_fact, how, at));
        ensure!(
            !verifies(&v, false)?,
            "a token of {len} bytes by {} is still accepted when changed in the way {how} at {at}",
            key.name
        );
    }
    ctx.outcome("refused");
    Ok(())
}

/// Segments of several tokens, put together
fn segments(ctx: &mut Ctx) -> R {
    let ks = keys();
    let (a, b): (&Key, &Key) = *ctx.pick(&[
        (&ks[7], &ks[7]),
        (&ks[7], &ks[9]),
        (&ks[7], &ks[8]),
        (&ks[0], &ks[0]),
        (&ks[0], &ks[1]),
        (&ks[2], &ks[2]),
        (&ks[2], &ks[3]),
        (&ks[0], &ks[2]),
        (&ks[4], &ks[4]),
        (&ks[4], &ks[5]),
    ]);
    let genuine: Vec<String> = [(a, "1"), (b, "2")]
        .iter()
        .map(|(k, salt)| {
            let t = tok_for(k, salt);
            signed(k, &canon(&t.header()), &canon(&t.payload()))
        })
        .collect();
    let mut parts: Vec<String> = genuine
        .iter()
        .flat_map(|t| t.split('.').map(String::from))
        .collect();
    parts.push(String::new());
    let len = 1 + ctx.choose(4);
    let mut chosen = vec![];
    for _ in 0..len {
        chosen.push(ctx.choose(parts.len()));
    }
    let text = chosen
        .iter()
        .map(|i| parts[*i].as_str())
        .collect::<Vec<_>>()
        .join(".");
    ctx.state(&text);
    ctx.log(|| format!("tokens of {} and {}: segments {chosen:?} of 0..2, 3..5, empty", a.name, b.name));
    ctx.op();
    let expected = genuine.contains(&text);
    let got = verifies(&text, true)?;
    ensure!(
        got == expected,
        "segments {chosen:?} of two tokens: accepted {got}: {text:?}"
    );
    ctx.outcome(if got { "accepted" } else { "refused" });
    Ok(())
}

/// Other spellings of a JSON object, some of which have the same meaning
pub fn respellings(src: &str) -> R<Vec<String>> {
    let mut all: Vec<String> = vec![];
    // white space anywhere between tokens of JSON
    for (i, c) in src.char_indices() {
        if "{}[]:,".contains(c) {
            for w in [" ", "\n", "\t", "\r\n"] {
                let (l, r) = src.split_at(i);
                all.push(format!("{l}{w}{r}"));
                all.push(format!("{l}{}{w}{}", &r[..1], &r[1..]));
            }
        }
        // escapes of a character
        if c.is_ascii_alphanumeric() {
            let (l, r) = src.split_at(i);
            all.push(format!("{l}\\u{:04x}{}", c as u32, &r[1..]));
        }
        if c == '/' {
            let (l, r) = src.split_at(i);
            all.push(format!("{l}\\{r}"));
        }
        // numbers written in another way
        if c.is_ascii_digit() {
            let (l, r) = src.split_at(i + 1);
            all.push(format!("{l}.0{r}"));
            all.push(format!("{l}e0{r}"));
            all.push(format!("{}0{c}{r}", &l[..i]));
        }
    }
    // unknown fields and repetitions
    if src.starts_with('{') && src.ends_with('}') {
        for extra in ["\"q\":1", "\"alg\":\"EdDSA\"", "\"typ\":\"JWT\"", "\"nnc\":\"m\"", "\"exp\":null", "\"aud\":\"did:key:zOther\"", "\"prf\":[]", "\"fct\":{}", "\"cap\":{}"] {
        all.push(format!("{{{extra},{}", &src[1..]));
        all.push(format!("{},{extra}}}", &src[..src.len() - 1]));
    }
    }
    // fields in another order or left out
    let v: Value = match serde_json::from_str(src) {
        Ok(v) => v,
        Err(e) => return Err(Fail::Machine(e.to_string())),
    };
    if let Some(o) = v.as_object() {
        let keys: Vec<&String> = o.keys().collect();
        for k in &keys {
            let rest: Vec<&&String> = keys.iter().filter(|x| x != &k).collect();
            let show = |k: &str| format!("{}:{}", json!(k), canon(&o[k]));
            let others: Vec<String> = rest.iter().map(|x| show(x)).collect();
            all.push(format!("{{{}}}", others.join(",")));
            all.push(format!("{{{},{}}}", show(k), others.join(",")));
            all.push(format!("{{{},{}}}", others.join(","), show(k)));
            let nulled: Vec<String> = others
                .iter()
                .cloned()
                .chain([format!("{}:null", json!(k))])
                .collect();
            all.push(format!("{{{}}}", nulled.join(",")));
        }
    }
    all.push(format!("{src} "));
    all.push(format!("{src}\n"));
    all.push(format!(" {src}"));
    all.push(format!("\u{feff}{src}"));
    all.push(format!("{src}{src}"));
    all.retain(|x| x != src);
    Ok(all)
}

/// The same JSON, spelled otherwise, under the original signature; and content
/// changed while the rest stays
fn respelled(ctx: &mut Ctx) -> R {
    let key = *ctx.pick(&[of_type(Type::Toy), of_type(Type::Ed25519)]);
    let mut t = full(tok_for(key, "n/é\u{7f}"));
    t.prf = None;
    let header = canon(&t.header());
    let payload = canon(&t.payload());
    let genuine = signed(key, &header, &payload);
    let sig = genuine.rsplit('.').next().unwrap_or_default().to_string();
    let on_header = ctx.flag();
    let src = if on_header { &header } else { &payload };
    let all = respellings(src)?;
    let chosen = ctx.pick(&all).clone();
    ctx.log(|| format!("{} spelled {chosen}", if on_header { "header" } else { "payload" }));
    let text = if on_header {
        format!("{}.{}.{sig}", B64.encode(&chosen), B64.encode(&payload))
    } else {
        format!("{}.{}.{sig}", B64.encode(&header), B64.encode(&chosen))
    };
    ctx.state(&text);
    ctx.op();
    ensure!(
        !verifies(&text, true)?,
        "accepted under the signature of something else: {chosen}"
    );
    ensure!(verifies(&genuine, true)?, "a genuine token is refused");
    ctx.outcome("refused");
    Ok(())
}

/// Signed by one key, in the name of another
fn impostors(ctx: &mut Ctx) -> R {
    let ks = keys();
    let signer = ctx.pick(ks);
    let issuer = ctx.pick(ks);
    let alg = *ctx.pick(&["EdDSA", "ES256", "RS256", "none", "HS256", ""]);
    let shape = ctx.choose(8);
    let mut t = tok_for(issuer, "n");
    t.alg = alg.into();
    if alg == issuer.ty.alg() && ctx.flag() {
        t = full(t);
        t.prf = None;
    }
    let data = t.signed_data();
    let good = signer.sign(data.as_bytes());
    let sig = match shape {
        0 => good.clone(),
        1 => vec![],
        2 => vec![0; good.len()],
        3 => vec![0xff; good.len()],
        4 => [good.clone(), vec![0]].concat(),
        5 => [vec![0], good.clone()].concat(),
        6 => data.as_bytes()[..good.len().min(data.len())].to_vec(),
        _ => good.iter().rev().copied().collect(),
    };
    let text = format!("{data}.{}", B64.encode(&sig));
    ctx.state(&text);
    ctx.log(|| {
        format!(
            "signed by {}, in the name of {}, alg {alg:?}, signature of shape {shape}",
            signer.name, issuer.name
        )
    });
    let genuine = std::ptr::eq(signer, issuer) && shape == 0;
    if genuine && alg != issuer.ty.alg() {
        // whether another algorithm may be stated is left open
        return Err(Fail::Prune);
    }
    ctx.op();
    let got = verifies(&text, true)?;
    ensure!(
        got == genuine,
        "signed by {} in the name of {} (alg {alg:?}, shape {shape}): accepted {got}",
        signer.name,
        issuer.name
    );
    ctx.outcome(if got { "accepted" } else { "refused" });
    Ok(())
}

fn field_variants() -> Vec<(&'static str, Value)> {
    // (field, its new value; null removes it)
    vec![
        ("ucv", json!("0.10.0")),
        ("ucv", json!("")),
        ("iss", json!(ToyKey::new(1).did())),
        ("iss", json!(ToyKey::new(2).did())),
        ("aud", json!(ToyKey::new(3).did())),
        ("aud", json!("")),
        ("exp", Value::Null),
        ("exp", json!(crate::clock::DEFAULT + 101)),
        ("exp", json!(u64::MAX)),
        ("nbf", Value::Null),
        ("nbf", json!(6)),
        ("nbf", json!(0)),
        ("nnc", Value::Null),
        ("nnc", json!("")),
        ("nnc", json!("m")),
        ("cap", json!({})),
        ("cap", json!({"app:/a": {"app/read": [{}]}})),
        ("cap", json!({"app:/a": {"app/read": [{}, {"x": 1}]}, "app:/b": {"app/write": [{}]}})),
        ("cap", json!({"app:/a": {"app/read": [{"x": 1}, {}], "app/admin": [{}]}, "app:/b": {"app/write": [{}]}})),
        ("cap", json!({"app:/a": {"app/read": [{"x": 1}, {}]}, "app:/b": {"app/write": [{}]}, "app:/c": {"app/write": [{}]}})),
        ("cap", json!({"app:/a": {"app/read": [{"x": 1}, {}]}, "app:/b": {"app/admin": [{}]}})),
        ("cap", json!({"app:/a": {"app/read": [{"x": 1}, {}]}, "app:/b": {"app/write": []}})),
        ("cap", json!({"app:/a": {"app/read": [{"x": 2}, {}]}, "app:/b": {"app/write": [{}]}})),
        ("fct", Value::Null),
        ("fct", json!({})),
        ("fct", json!({"f": [1, {"g": false}]})),
        ("fct", json!({"f": [1, {"g": null}], "h": 1})),
    ]
}

/// A token value put together from parts, or read from its serialised form
fn assembled(ctx: &mut Ctx) -> R {
    let tok_of = |salt: &str| {
        let mut t = full(Tok::new(0, 9));
        t.prf = None;
        t.nnc = Some(salt.into());
        t
    };
    let mut a = tok_of("a");
    if ctx.flag() {
        a = Tok::new(0, 9);
    }
    let mut b = tok_of("b");
    b.aud = ToyKey::new(8).did();
    b.claim("app:/c", "app/admin", json!({}));
    let (da, db) = (a.signed_data(), b.signed_data());
    let key = ToyKey::new(0);
    let (sa, sb) = (key.raw_sign(da.as_bytes()), key.raw_sign(db.as_bytes()));
    let mut header = a.header();
    match ctx.dev(5) {
        0 => {}
        1 => header["alg"] = json!("RS256"),
        2 => header["alg"] = json!("eddsa"),
        3 => header["typ"] = json!("jwt"),
        _ => header["typ"] = json!(""),
    }
    let mut payload = a.payload();
    let fields = field_variants();
    let f = ctx.dev(fields.len() + 2);
    if f == fields.len() + 1 {
        payload = b.payload();
    } else if f > 0 {
        let (k, v) = &fields[f - 1];
        let o = payload.as_object_mut().expect("object");
        if v.is_null() {
            o.remove(*k);
        } else {
            o.insert(k.to_string(), v.clone());
        }
    }
    let data: Vec<u8> = match ctx.dev(6) {
        0 => da.clone().into_bytes(),
        1 => db.clone().into_bytes(),
        2 => da.as_bytes()[..da.len() - 1].to_vec(),
        3 => format!("{da}.").into_bytes(),
        4 => vec![],
        _ => vec![0xff, 0xfe],
    };
    let sig = match ctx.dev(4) {
        0 => sa.clone(),
        1 => sb.clone(),
        2 => vec![],
        _ => sa[1..].to_vec(),
    };
    if payload.get("exp").is_none() {
        payload["exp"] = Value::Null;
    }
    let genuine = [(&a, &da, &sa), (&b, &db, &sb)].iter().any(|(t, d, s)| {
        header == t.header() && payload == t.payload() && &data == d.as_bytes() && &&sig == s
    });
    let route = ctx.choose(2);
    ctx.state(&(header.to_string(), payload.to_string(), &data, &sig, route));
    ctx.log(|| format!("header {header}, payload {payload}, route {route}, genuine {genuine}"));
    let ucan = if route == 0 {
        let h: UcanHeader = match serde_json::from_value(header) {
            Ok(h) => h,
            Err(e) => return bad(format!("a header value is refused: {e}")),
        };
        let p: UcanPayload = match serde_json::from_value(payload) {
            Ok(p) => p,
            Err(e) => return bad(format!("a payload value is refused: {e}")),
        };
        Ucan::new(h, p, data, sig)
    } else {
        let v = json!({"header": header, "payload": payload, "signed_data": data, "signature": sig});
        match serde_json::from_value::<Ucan>(v) {
            Ok(u) => u,
            Err(_) if !genuine => {
                ctx.outcome("not read");
                return Ok(());
            }
            Err(e) => return bad(format!("a serialised token is refused: {e}")),
        }
    };
    ctx.op();
    let got = run(ucan.check_signature(&mut parser()))?.is_ok();
    ensure!(got == genuine, "check_signature accepts {got}; genuine: {genuine}");
    let v = run(ucan.validate(Some(crate::clock::DEFAULT), &mut parser()))?.is_ok();
    ensure!(!v || genuine, "validate accepts what was not signed");
    let c = run(ProofChain::from_ucan(
        ucan,
        Some(crate::clock::DEFAULT),
        &mut parser(),
        &MapStore::default(),
    ))?;
    ensure!(c.is_ok() == genuine, "a chain of it is accepted: {}", c.is_ok());
    ctx.outcome(if got { "accepted" } else { "refused" });
    Ok(())
}

/// The IPLD form of a signed token, with a field changed
fn altered_ipld(ctx: &mut Ctx) -> R {
    let with_optional = ctx.flag();
    let t = if with_optional {
        let mut t = full(Tok::new(0, 9));
        t.prf = Some(vec![cid_of("x").to_string(), cid_of("y").to_string()]);
        // null has no way into the library's encoder
        t.fct = json!({"f": [1, {"g": true}]}).as_object().cloned();
        t
    } else {
        Tok::new(0, 9)
    };
    let ucan = match Ucan::try_from(t.text()) {
        Ok(u) => u,
        Err(e) => return bad(format!("a genuine token is not read: {e:#}")),
    };
    let mut i = match UcanIpld::try_from(&ucan) {
        Ok(i) => i,
        Err(e) => return bad(format!("a genuine token has no IPLD form: {e:#}")),
    };
    let sig = ucan.signature().to_vec();
    let pack = |alg, s: Vec<u8>| match Signature::try_from((alg, s)) {
        Ok(s) => Ok(s),
        Err(e) => bad(format!("a signature does not pack: {e:#}")),
    };
    let principal = |did: &str| match did.parse::<Principle>() {
        Ok(p) => Ok(p),
        Err(e) => bad(format!("a DID is no principal: {e:#}")),
    };
    let caps = |v: Value| match ucan::capability::Capabilities::try_from(&v) {
        Ok(c) => Ok(c),
        Err(e) => bad(format!("capabilities refused: {e:#}")),
    };
    let mut what = vec![];
    for field in 0..10 {
        let alt = ctx.dev(4);
        if alt == 0 {
            continue;
        }
        what.push((field, alt));
        match (field, alt) {
            (0, 1) => i.v = "0.9.0".into(),
            (0, 2) => i.v = String::new(),
            (1, 1) => i.iss = principal(&ToyKey::new(5).did())?,
            (1, 2) => i.iss = principal("did:web:example.com")?,
            (2, 1) => i.aud = principal(&ToyKey::new(5).did())?,
            (2, 2) => i.aud = principal("did:web:example.com")?,
            (3, 1) => i.s = pack(JwtSignatureAlgorithm::ES256, sig.clone())?,
            (3, 2) => i.s = pack(JwtSignatureAlgorithm::EdDSA, sig[1..].to_vec())?,
            (3, 3) => {
                let mut s = sig.clone();
                s[0] ^= 1;
                i.s = pack(JwtSignatureAlgorithm::EdDSA, s)?
            }
            (4, 1) => i.cap = caps(json!({"app:/a": {"app/admin": [{}]}}))?,
            (4, 2) => i.cap = caps(json!({"app:/a": {"app/read": [{}, {"x": 1}]}, "app:/b": {"app/write": [{}]}}))?,
            (5, 1) => i.prf = Some(vec![cid_of("z")]),
            (5, 2) => i.prf = Some(vec![cid_of("y"), cid_of("x")]),
            (6, 1) => i.exp = Some(u64::MAX),
            (6, 2) => i.exp = Some(crate::clock::DEFAULT + 99),
            (7, 1) => i.fct = json!({"f": 2}).as_object().map(|o| o.clone().into_iter().collect()),
            (7, 2) => i.fct = Some(Default::default()),
            (8, 1) => i.nnc = Some("o".into()),
            (8, 2) => i.nnc = Some(String::new()),
            (9, 1) => i.nbf = Some(0),
            (9, 2) => i.nbf = Some(8),
            _ => return Err(Fail::Prune),
        }
    }
    ctx.state(&(format!("{what:?}"), with_optional));
    ctx.log(|| format!("optional fields: {with_optional}; changed {what:?}"));
    ctx.op();
    let got = match Ucan::try_from(&i) {
        Ok(u) => run(u.check_signature(&mut parser()))?.is_ok(),
        Err(_) => false,
    };
    ensure!(
        got == what.is_empty(),
        "an IPLD token with changes {what:?} is accepted: {got}"
    );
    ctx.outcome(if got { "accepted" } else { "refused" });
    Ok(())
}

/// A changed proof in the store makes the chain invalid
fn proof_edits(ctx: &mut Ctx) -> R {
    let mut leaf = Tok::new(0, 1);
    leaf.claim("app:/a", "app/read", json!({}));
    let leaf = leaf.text();
    let mut mid = Tok::new(1, 2);
    mid.cite(cid_of(&leaf).to_string());
    mid.claim("app:/a", "app/read", json!({}));
    let mid = mid.text();
    let mut top = Tok::new(2, 3);
    top.cite(cid_of(&mid).to_string());
    let top = top.text();
    let deep = ctx.flag();
    let victim = if deep { &leaf } else { &mid };
    let at = ctx.choose(victim.len());
    let c = *ctx.pick(&["", ".", "A", "g", "_", "=", "\u{e9}", "0"]);
    let insert = ctx.flag();
    let changed = format!(
        "{}{c}{}",
        &victim[..at],
        &victim[if insert { at } else { at + 1 }..]
    );
    let same = &changed == victim;
    let mut store = MapStore::default();
    store.put(&leaf);
    store.put(&mid);
    store
        .map
        .insert(cid_of(victim).to_bytes(), changed.clone().into_bytes());
    ctx.state(&(deep, &changed));
    ctx.log(|| format!("the proof at depth {} changed to {changed:?}", 1 + deep as u8));
    ctx.op();
    let got = run(ProofChain::try_from_token_string(
        &top,
        None,
        &mut parser(),
        &store,
    ))?
    .is_ok();
    ensure!(
        got == same,
        "a chain with a changed proof is accepted: {got} (changed at {at} to {c:?})"
    );
    ctx.outcome(if got { "accepted" } else { "refused" });
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "edits",
            bounds: "10 signed tokens (toy, Ed25519, P-256 and RSA keys; minimal, with all fields, spelled by another implementation): every substitution and insertion of a character (the whole base64 alphabet and 9 others; for P-256 and RSA in the quick tier every bit of the base64 symbol and 9 others), every deletion, prefix, suffix, exchange of neighbours and case change",
            devs: (0, 0),
            run: edits,
        },
        Harness {
            name: "large",
            bounds: "tokens with a fact or a resource of 700, 9000, 70000 (thorough 1100000) letters, by toy and Ed25519 keys, changed in 7 ways (substituted, removed, added, by one and by four, exchanged) about every power of two from either end, about the signature, and at every sixteenth",
            devs: (0, 0),
            run: large,
        },
        Harness {
            name: "moves",
            bounds: "two toy-signed tokens, one character removed at every position and one of 3 (thorough 8) added at every position",
            devs: (0, 0),
            run: moves,
        },
        Harness {
            name: "segments",
            bounds: "every sequence of 1..4 segments out of those of two tokens and the empty one, for 10 pairs of issuers",
            devs: (0, 0),
            run: segments,
        },
        Harness {
            name: "respelled",
            bounds: "header or payload with white space at any place, escapes, other number formats, unknown, repeated, missing or reordered fields, under the original signature",
            devs: (0, 0),
            run: respelled,
        },
        Harness {
            name: "impostors",
            bounds: "10 signing keys x 10 stated issuers x 6 stated algorithms x 8 shapes of signature",
            devs: (0, 0),
            run: impostors,
        },
        Harness {
            name: "assembled",
            bounds: "token values from parts or from serialised form with <=2 (thorough 3) of header, payload field (27 changes), signed data and signature exchanged",
            devs: (2, 3),
            run: assembled,
        },
        Harness {
            name: "altered_ipld",
            bounds: "IPLD forms of two tokens with <=2 (thorough 4) fields changed",
            devs: (2, 4),
            run: altered_ipld,
        },
        Harness {
            name: "proof_edits",
            bounds: "a chain of three, one character of a proof at depth 1 or 2 changed, removed or added (8 characters, every position)",
            devs: (0, 0),
            run: proof_edits,
        },
    ]
}
