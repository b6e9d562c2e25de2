//! C19: every supported key type signs, names and verifies consistently.
use crate::{
    engine::{bad, Ctx, Harness, R},
    ensure,
    exec::run,
    keys::{did_of, fresh, keys, parser_for, population, real_parser, Key, Type, TYPES},
};
use base64::Engine;
use std::sync::Arc;
use ucan::{builder::UcanBuilder, crypto::KeyMaterial, Ucan};

fn messages(ctx: &Ctx) -> Vec<Vec<u8>> {
    let mut m: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0, 0],
        vec![0xff],
        b"a".to_vec(),
        b"b".to_vec(),
        b"ab".to_vec(),
        b"a.b".to_vec(),
        "é".as_bytes().to_vec(),
        (0..=255).collect(),
    ];
    for n in ctx.by_tier(
        vec![31, 32, 63, 64, 65, 1000],
        vec![31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 1000, 70_000],
    ) {
        m.push((0..n).map(|i| (i % 251) as u8).collect());
    }
    m
}

fn real(k: &Key) -> bool {
    !matches!(k.ty, Type::Toy | Type::Toy2)
}

/// Names, algorithms and signatures of every key over every message
fn consistent(ctx: &mut Ctx) -> R {
    let k = ctx.pick(keys());
    if !real(k) {
        return Err(crate::engine::Fail::Prune);
    }
    let ms = messages(ctx);
    let m = ctx.pick(&ms);
    ctx.state(&(k.name, m));
    ctx.log(|| format!("{} signs {} bytes {:?}", k.name, m.len(), &m[..m.len().min(8)]));
    ctx.ops(8);
    for (what, key) in [("with", &k.private), ("without", &k.public)] {
        let did = run(key.get_did())?;
        ensure!(
            matches!(&did, Ok(d) if d == &k.did),
            "{} {what} its private part names itself {did:?} instead of {}",
            k.name,
            k.did
        );
        ensure!(
            key.get_jwt_algorithm_name() == k.ty.alg(),
            "{} states the algorithm {} instead of {}",
            k.name,
            key.get_jwt_algorithm_name(),
            k.ty.alg()
        );
    }
    let sig = match run(k.private.sign(m))? {
        Ok(s) => s,
        Err(e) => return bad(format!("{} does not sign: {e:#}", k.name)),
    };
    let mut p = real_parser();
    let resolved = match p.parse(&k.did) {
        Ok(r) => r,
        Err(e) => return bad(format!("the DID of {} is not resolved: {e:#}", k.name)),
    };
    let did = run(resolved.get_did())?;
    ensure!(
        matches!(&did, Ok(d) if d == &k.did),
        "the DID of {} resolves to the key of {did:?}",
        k.name
    );
    ensure!(
        resolved.get_jwt_algorithm_name() == k.ty.alg(),
        "the key resolved for {} states another algorithm",
        k.name
    );
    let verifiers: [(&str, &dyn KeyMaterial); 3] = [
        ("key", k.private.as_ref()),
        ("public key", k.public.as_ref()),
        ("resolved key", resolved.as_ref().as_ref()),
    ];
    for (what, v) in verifiers {
        let r = run(v.verify(m, &sig))?;
        ensure!(
            r.is_ok(),
            "the {what} of {} refuses its own signature: {r:?}",
            k.name
        );
    }
    for (what, v) in &verifiers[1..] {
        let s = run(v.sign(m))?;
        ensure!(s.is_err(), "the {what} of {} signs without a private part", k.name);
    }
    // no other message, no other key
    for o in &ms {
        if o != m {
            ctx.op();
            ensure!(
                run(k.public.verify(o, &sig))?.is_err(),
                "{} accepts a signature of {m:?} for {o:?}",
                k.name
            );
        }
    }
    for o in keys() {
        if !std::ptr::eq(o, k) {
            ctx.op();
            ensure!(
                run(o.public.verify(m, &sig))?.is_err(),
                "{} accepts a signature of {}",
                o.name,
                k.name
            );
        }
    }
    ctx.outcome("consistent");
    Ok(())
}

/// Many keys, of many sizes
fn many_keys(ctx: &mut Ctx) -> R {
    let all = population();
    let at = ctx.choose(all.len());
    let k = &all[at];
    let next = &all[(at + 1) % all.len()];
    ctx.state(&at);
    ctx.log(|| format!("{} ({})", k.name, k.did));
    let mut p = real_parser();
    let resolved = match p.parse(&k.did) {
        Ok(r) => r,
        Err(e) => return bad(format!("the DID of {} is not resolved: {e:#}", k.name)),
    };
    for (what, v) in [
        ("", k.private.as_ref()),
        (" without private part", k.public.as_ref()),
        (" as resolved", resolved.as_ref().as_ref()),
    ] {
        let did = run(v.get_did())?;
        ensure!(matches!(&did, Ok(d) if d == &k.did), "{}{what} names itself {did:?}", k.did);
        ensure!(
            v.get_jwt_algorithm_name() == k.ty.alg(),
            "{}{what} states the algorithm {}",
            k.did,
            v.get_jwt_algorithm_name()
        );
        let private = what.is_empty();
        for m in [&b""[..], b"a", b"\0", &[0xff; 100]] {
            ctx.op();
            let made = run(v.sign(m))?;
            ensure!(made.is_ok() == private, "{}{what} signs: {made:?}", k.did);
            let sig = k.sign(m);
            ensure!(made.map_or(true, |s| s == sig), "{} signs in two ways", k.did);
            ensure!(run(v.verify(m, &sig))?.is_ok(), "{}{what} refuses its own signature", k.did);
            for other in [[m, &[0][..]].concat(), [&[0][..], m].concat(), [m, &b"a"[..]].concat(), [m, m].concat()] {
                if other != m {
                    ensure!(
                        run(v.verify(&other, &sig))?.is_err(),
                        "{}{what} accepts {other:?} for {m:?}",
                        k.did
                    );
                }
            }
            for i in [0, 1, sig.len() / 2, sig.len() - 1] {
                let mut x = sig.clone();
                x[i] ^= 1;
                ensure!(run(v.verify(m, &x))?.is_err(), "{}{what} accepts a changed signature", k.did);
            }
            for x in [[&sig[..], &[0]].concat(), [&[0], &sig[..]].concat(), sig[1..].to_vec(), sig[..sig.len() - 1].to_vec(), vec![]] {
                ensure!(run(v.verify(m, &x))?.is_err(), "{}{what} accepts a signature of {} bytes", k.did, x.len());
            }
            ensure!(
                run(next.public.verify(m, &sig))?.is_err(),
                "{} accepts a signature of {}",
                next.did,
                k.did
            );
        }
    }
    // and a token
    let b = UcanBuilder::default().issued_by(&k.private).for_audience(&next.did).build();
    let u = match b.map(|b| run(b.sign())) {
        Ok(u) => u?,
        Err(e) => Err(e),
    };
    match u {
        Ok(u) => {
            ensure!(u.issuer() == k.did && u.algorithm() == k.ty.alg(), "issues a token as {}", u.issuer());
            let text = u.encode().unwrap_or_default();
            let back = Ucan::try_from(text.as_str());
            ensure!(matches!(&back, Ok(b) if *b == u), "the token of {} is read as {back:?}", k.did);
            let r = run(u.check_signature(&mut p))?;
            ensure!(r.is_ok(), "the token of {} is refused: {r:?}", k.did);
        }
        Err(e) => return bad(format!("{} issues no token: {e:#}", k.did)),
    }
    ctx.outcome(k.ty.alg());
    Ok(())
}

/// The same bytes in other forms in use for signatures
fn encodings(b: &[u8]) -> Vec<Vec<u8>> {
    use base64::engine::general_purpose as g;
    let hex = |up| -> String {
        b.iter()
            .map(|x| if up { format!("{x:02X}") } else { format!("{x:02x}") })
            .collect()
    };
    let tlv = |tag: u8, content: &[u8]| -> Vec<u8> {
        let mut v = vec![tag];
        match content.len() {
            n @ 0..=127 => v.push(n as u8),
            n @ 128..=255 => v.extend([0x81, n as u8]),
            n => v.extend([0x82, (n >> 8) as u8, n as u8]),
        }
        v.extend(content);
        v
    };
    // minimal, and always with a zero byte in front
    let int = |x: &[u8], zero: bool| -> Vec<u8> {
        let mut x: Vec<u8> = x.iter().copied().skip_while(|b| *b == 0).collect();
        if zero || x.first().map_or(true, |b| *b >= 0x80) {
            x.insert(0, 0);
        }
        tlv(2, &x)
    };
    let (r, s) = b.split_at(b.len() / 2);
    let rev = |x: &[u8]| -> Vec<u8> { x.iter().rev().copied().collect() };
    let der = tlv(0x30, &[int(r, false), int(s, false)].concat());
    let mut all = vec![
        tlv(0x30, &[int(r, true), int(s, true)].concat()),
        tlv(0x30, &[int(s, false), int(r, false)].concat()),
        tlv(0x30, &[tlv(2, r), tlv(2, s)].concat()),
        tlv(0x30, &int(b, false)),
        tlv(4, b),
        tlv(4, &der),
        tlv(3, &[&[0], b].concat()),
        tlv(3, &[&[0][..], &der].concat()),
        [&der[..], &[0]].concat(),
        der,
        int(b, false),
        rev(b),
        [rev(r), rev(s)].concat(),
        [s, r].concat(),
        hex(false).into_bytes(),
        hex(true).into_bytes(),
        format!("0x{}", hex(false)).into_bytes(),
        g::STANDARD.encode(b).into_bytes(),
        g::STANDARD_NO_PAD.encode(b).into_bytes(),
        g::URL_SAFE.encode(b).into_bytes(),
        g::URL_SAFE_NO_PAD.encode(b).into_bytes(),
        bs58::encode(b).into_string().into_bytes(),
        format!("z{}", bs58::encode(b).into_string()).into_bytes(),
        format!("u{}", g::URL_SAFE_NO_PAD.encode(b)).into_bytes(),
        format!("\"{}\"", g::URL_SAFE_NO_PAD.encode(b)).into_bytes(),
        [b, b"\n"].concat(),
        // the multiformats signature header, and plain length prefixes
        [&[0xd0, 0xed, 0x03][..], &[b.len() as u8], b].concat(),
        [&[0xd0, 0xe4, 0x01][..], b].concat(),
        [&[0xed, 0x01][..], b].concat(),
        [&[b.len() as u8][..], b].concat(),
        [&(b.len() as u32).to_be_bytes()[..], b].concat(),
        [&(b.len() as u32).to_le_bytes()[..], b].concat(),
        // without leading or trailing zeros
        b.iter().copied().skip_while(|b| *b == 0).collect(),
        rev(&rev(b).into_iter().skip_while(|b| *b == 0).collect::<Vec<_>>()),
    ];
    // recoverable forms of ECDSA signatures, and prehash markers
    for v in [0u8, 1, 2, 3, 27, 28, 31, 32] {
        all.push([&[v][..], b].concat());
        all.push([b, &[v]].concat());
    }
    // negated second half
    if b.len() == 64 {
        all.push([r, &s.iter().map(|x| !x).collect::<Vec<_>>()].concat());
        all.push([&r.iter().map(|x| !x).collect::<Vec<_>>()[..], s].concat());
    }
    all
}

/// The order of the P-256 group, big endian
const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6,
    0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];

/// Degenerate signatures are accepted for nothing
fn degenerate(ctx: &mut Ctx) -> R {
    let reals: Vec<&Key> = keys().iter().filter(|k| real(k)).collect();
    let k = *ctx.pick(&reals);
    let half = match k.ty {
        Type::Rsa => k.sign(b"x").len() / 2,
        _ => 32,
    };
    let number = |last: u8, end: bool| {
        let mut v = vec![0; half];
        v[if end { half - 1 } else { 0 }] = last;
        v
    };
    let mut parts = vec![
        number(0, true),
        number(1, true),
        number(1, false),
        number(2, true),
        number(0x80, false),
        vec![0xff; half],
    ];
    match k.ty {
        Type::P256 => {
            parts.push(N.to_vec());
            for d in [1u8, 0xff] {
                let mut n = N.to_vec();
                n[31] = n[31].wrapping_add(d);
                parts.push(n);
            }
            parts.push(k.bytes[1..].to_vec());
        }
        Type::Ed25519 => {
            parts.push(L.to_vec());
            parts.push(k.bytes.clone());
            // encodings of the points of small order, also non-canonical ones
            let p = |lo: u8, hi: u8| {
                let mut v = vec![0xff; 32];
                v[0] = lo;
                v[31] = hi;
                v
            };
            for v in [
                p(0xec, 0x7f),
                p(0xed, 0x7f),
                p(0xee, 0x7f),
                p(0xec, 0xff),
                p(0xed, 0xff),
                p(0xee, 0xff),
            ] {
                parts.push(v);
            }
        }
        _ => {
            let modulus = &k.bytes[k.bytes.len() - 5 - 2 * half..k.bytes.len() - 5];
            parts.push(modulus[..half].to_vec());
            parts.push(modulus[half..].to_vec());
        }
    }
    let (a, b) = (ctx.pick(&parts).clone(), ctx.pick(&parts).clone());
    let sig = [a, b].concat();
    let m = ctx.pick(&[&b""[..], b"a", b"header.payload"]).to_vec();
    ctx.state(&(k.name, &sig, &m));
    ctx.log(|| format!("{} {:?} {}", k.name, m, bs58::encode(&sig).into_string()));
    ctx.op();
    ensure!(
        run(k.public.verify(&m, &sig))?.is_err(),
        "{} accepts the signature {} for {m:?}",
        k.name,
        bs58::encode(&sig).into_string()
    );
    ctx.outcome("refused");
    Ok(())
}

/// Signatures that OpenSSL made with the same keys, and what independent
/// code for the stated algorithm says of the library's signatures
fn vectors(ctx: &mut Ctx) -> R {
    let unhex = |s: &str| -> Vec<u8> {
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
            .collect()
    };
    let all: Vec<Vec<&str>> = include_str!("../../fixtures/openssl.tsv")
        .lines()
        .map(|l| l.split('\t').collect())
        .collect();
    let v = ctx.pick(&all);
    let k = keys().iter().find(|k| k.name == v[0]).expect("key");
    let (m, theirs) = (unhex(v[1]), unhex(v[2]));
    ctx.state(&(k.name, &m));
    ctx.log(|| format!("{} over {m:?}, as by OpenSSL", k.name));
    ctx.ops(3);
    let r = run(k.public.verify(&m, &theirs))?;
    ensure!(
        r.is_ok(),
        "{} refuses an {} signature made by OpenSSL: {r:?}",
        k.name,
        k.ty.alg()
    );
    for (n, w) in all.iter().enumerate() {
        if w[0] != v[0] || w[1] != v[1] {
            ctx.op();
            ensure!(
                run(k.public.verify(&m, &unhex(w[2])))?.is_err(),
                "{} accepts a signature by {} of another message or key (line {n})",
                k.name,
                w[0]
            );
        }
    }
    let ours = match run(k.private.sign(&m))? {
        Ok(s) => s,
        Err(e) => return bad(format!("{} does not sign: {e:#}", k.name)),
    };
    let good = match k.ty {
        Type::P256 => {
            use p256::ecdsa::{signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
            use sha2::Digest;
            let key = VerifyingKey::from_sec1_bytes(&k.bytes).expect("key");
            let hash = sha2::Sha256::digest(&m);
            ours.len() == 64
                && Signature::from_slice(&ours)
                    .is_ok_and(|s| key.verify_prehash(&hash, &s).is_ok())
        }
        _ => ours == theirs,
    };
    ensure!(
        good,
        "{} makes a signature that is not {}: {}",
        k.name,
        k.ty.alg(),
        bs58::encode(&ours).into_string()
    );
    ctx.outcome("as OpenSSL");
    Ok(())
}

/// The order of the Ed25519 group, little endian
const L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];

/// Every change of one bit or of the length
fn changed(ctx: &mut Ctx) -> R {
    let reals: Vec<&Key> = keys().iter().filter(|k| real(k)).collect();
    let k = *ctx.pick(&reals);
    let m = b"header.payload, and a little more of it".to_vec();
    let sig = k.sign(&m);
    let what = ctx.choose(5);
    let mut cases: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    match what {
        0 => {
            let byte = ctx.choose(sig.len().max(1));
            for bit in 0..8 {
                let mut s = sig.clone();
                s[byte] ^= 1 << bit;
                cases.push((m.clone(), s));
            }
            let mut s = sig.clone();
            s.remove(byte);
            cases.push((m.clone(), s));
            cases.push((m.clone(), sig[..byte].to_vec()));
            cases.push((m.clone(), sig[byte + 1..].to_vec()));
            for b in [0, 1, 0x80, 0xff] {
                let mut s = sig.clone();
                s.insert(byte, b);
                cases.push((m.clone(), s));
            }
        }
        1 => {
            let byte = ctx.choose(m.len());
            for bit in 0..8 {
                let mut x = m.clone();
                x[byte] ^= 1 << bit;
                cases.push((x, sig.clone()));
            }
            let mut x = m.clone();
            x.remove(byte);
            cases.push((x, sig.clone()));
            cases.push((m[..byte].to_vec(), sig.clone()));
            let mut x = m.clone();
            x.insert(byte, 0);
            cases.push((x, sig.clone()));
        }
        2 => {
            for tail in [&[0u8][..], &[0xff], &[0; 32], &sig] {
                cases.push((m.clone(), [&sig, tail].concat()));
                cases.push((m.clone(), [tail, &sig].concat()));
                cases.push(([&m, tail].concat(), sig.clone()));
                cases.push(([tail, &m].concat(), sig.clone()));
            }
            cases.push((m.clone(), vec![]));
            cases.push((m.clone(), vec![0; sig.len()]));
            cases.push((m.clone(), vec![0xff; sig.len()]));
            cases.push((m.clone(), sig.iter().rev().copied().collect()));
            let h = sig.len() / 2;
            cases.push((m.clone(), [&sig[h..], &sig[..h]].concat()));
            cases.push((vec![], sig.clone()));
        }
        3 => {
            for s in encodings(&sig) {
                cases.push((m.clone(), s));
            }
            for x in encodings(&m) {
                cases.push((x, sig.clone()));
            }
        }
        _ => {
            if k.ty != Type::Ed25519 || sig.len() != 64 {
                return Err(crate::engine::Fail::Prune);
            }
            // the same scalar, unreduced
            let mut s = sig.clone();
            let mut carry = 0u16;
            for i in 0..32 {
                let x = s[32 + i] as u16 + L[i] as u16 + carry;
                s[32 + i] = x as u8;
                carry = x >> 8;
            }
            cases.push((m.clone(), s));
        }
    }
    ctx.log(|| format!("{}: {} changes of kind {what}", k.name, cases.len()));
    for (x, s) in cases {
        if x == m && s == sig {
            continue;
        }
        ctx.op();
        ctx.state(&(k.name, &x, &s));
        ensure!(
            run(k.public.verify(&x, &s))?.is_err(),
            "{} accepts a changed message or signature: {} / {}",
            k.name,
            bs58::encode(&x).into_string(),
            bs58::encode(&s).into_string()
        );
    }
    ctx.outcome("refused");
    Ok(())
}

/// DIDs near those of real keys
fn dids(ctx: &mut Ctx) -> R {
    let k = ctx.pick(keys());
    let n = k.bytes.len();
    let magic = k.ty.magic();
    let raw = [magic, &k.bytes].concat();
    let enc = bs58::encode(&raw).into_string();
    let mut bad_dids: Vec<String> = vec![
        String::new(),
        "did:".into(),
        "did:key".into(),
        "did:key:".into(),
        "did:key:z".into(),
        format!("did:key:{enc}"),
        format!("did:key:Z{enc}"),
        format!("did:key:u{enc}"),
        format!("did:key:m{enc}"),
        format!("did:web:z{enc}"),
        format!("did:Key:z{enc}"),
        format!("DID:key:z{enc}"),
        format!("did::key:z{enc}"),
        format!(" did:key:z{enc}"),
        format!("did:key:z{enc} "),
        format!("did:key:z {enc}"),
        format!("did:key:z{enc}\n"),
        format!("did:key:z{enc}#{enc}"),
        format!("did:key:z{enc}?x"),
        format!("did:key:z{enc}/"),
        format!("did:key:zz{enc}0"),
        format!("did:key:z{enc}0"),
        format!("did:key:z{enc}O"),
        format!("did:key:z{enc}I"),
        format!("did:key:z{enc}l"),
        format!("did:key:z{enc}é"),
        format!("z{enc}"),
        enc.clone(),
        // zero bytes in front
        format!("did:key:z1{enc}"),
        format!("did:key:z11{enc}"),
    ];
    // other multicodecs, and none
    for m in [
        &[0xea, 0x01][..],
        &[0xeb, 0x01],
        &[0xe7, 0x01],
        &[0xec, 0x01],
        &[0x12, 0x00],
        &[0x00, 0x00],
        &[0xff, 0xff],
        &[0x01, 0xed],
        &[0xed],
        &[0xed, 0x81, 0x00],
        &[0x81, 0x24],
        &[0x82, 0x24],
        &[0x86, 0x24],
        &[],
    ] {
        bad_dids.push(did_of(m, &k.bytes));
    }
    for t in TYPES {
        let toys = |t| matches!(t, Type::Toy | Type::Toy2);
        if t != k.ty && !(toys(t) && toys(k.ty)) {
            bad_dids.push(did_of(t.magic(), &k.bytes));
        }
    }
    // malformed key bytes
    for len in 0..n {
        bad_dids.push(did_of(magic, &k.bytes[..len]));
        bad_dids.push(did_of(magic, &k.bytes[len + 1..]));
    }
    for tail in [&[0u8][..], &[1], &[0xff], &k.bytes] {
        bad_dids.push(did_of(magic, &[&k.bytes, tail].concat()));
        bad_dids.push(did_of(magic, &[tail, &k.bytes].concat()));
    }
    if k.ty == Type::P256 {
        for first in 0..=255u8 {
            if first != 2 && first != 3 && first != 5 {
                let mut b = k.bytes.clone();
                b[0] = first;
                bad_dids.push(did_of(magic, &b));
            }
        }
        // no such point: the coordinate exceeds the field
        bad_dids.push(did_of(magic, &[&[2][..], &[0xff; 32]].concat()));
        bad_dids.push(did_of(magic, &[&[4][..], &[0; 64]].concat()));
        // the point at infinity
        bad_dids.push(did_of(magic, &[0]));
    }
    for i in 0..raw.len() {
        if i >= 2 {
            // text cut short or with a character lost
            bad_dids.push(format!("did:key:z{}", &enc[..i]));
        }
    }
    let i = ctx.choose(bad_dids.len() + 1);
    let mut p = real_parser();
    ctx.op();
    if i == bad_dids.len() {
        ctx.state(&k.did);
        let r = p.parse(&k.did).map(|_| ());
        ensure!(r.is_ok(), "the DID of {} is refused: {r:?}", k.name);
        ctx.outcome("resolved");
        return Ok(());
    }
    let did = &bad_dids[i];
    if did == &k.did {
        return Ok(());
    }
    ctx.state(did);
    ctx.log(|| format!("resolve {did:?}, near that of {}", k.name));
    if let Ok(key) = p.parse(did) {
        let again = run(key.get_did())?;
        return bad(format!(
            "{did:?} (near that of {}) resolves to the key {again:?}",
            k.name
        ));
    }
    ctx.outcome("refused");
    Ok(())
}

/// Changed key bytes never denote the original key
fn other_keys(ctx: &mut Ctx) -> R {
    let reals: Vec<&Key> = keys().iter().filter(|k| real(k)).collect();
    let k = *ctx.pick(&reals);
    let byte = ctx.choose(k.bytes.len());
    let m = b"message".to_vec();
    let sig = k.sign(&m);
    ctx.log(|| format!("{}: byte {byte} of the key changed", k.name));
    for bit in 0..8 {
        let mut b = k.bytes.clone();
        b[byte] ^= 1 << bit;
        let did = did_of(k.ty.magic(), &b);
        ctx.state(&did);
        ctx.op();
        if let Ok(key) = real_parser().parse(&did) {
            // P-256 also has forms whose first byte is not 2 or 3
            let compact = k.ty == Type::P256 && byte == 0;
            if !compact {
                let again = run(key.get_did())?;
                ensure!(
                    matches!(&again, Ok(d) if d == &did),
                    "{did} resolves to the key of {again:?}"
                );
                ensure!(
                    run(key.verify(&m, &sig))?.is_err(),
                    "another key ({did}) accepts the signature of {}",
                    k.name
                );
            }
            ctx.outcome("another key");
        } else {
            ctx.outcome("no key");
        }
    }
    Ok(())
}

/// A parser knows the key types it was given, and no others
fn configured(ctx: &mut Ctx) -> R {
    let mut types: Vec<Type> = vec![];
    for t in TYPES {
        if ctx.flag() {
            types.push(t);
        }
    }
    if ctx.flag() {
        types.reverse();
    }
    let k = ctx.pick(keys());
    ctx.state(&(&types, k.name));
    ctx.log(|| format!("a parser for {types:?} resolves {}", k.name));
    // the prefixes offered to applications are those of the multicodec table
    use ucan::crypto::did;
    for (name, prefix, code) in [
        ("Ed25519", did::ED25519_MAGIC_BYTES, 0xed_u64),
        ("RSA", did::RSA_MAGIC_BYTES, 0x1205),
        ("BLS12-381 G1", did::BLS12381G1_MAGIC_BYTES, 0xea),
        ("BLS12-381 G2", did::BLS12381G2_MAGIC_BYTES, 0xeb),
        ("P-256", did::P256_MAGIC_BYTES, 0x1200),
        ("secp256k1", did::SECP256K1_MAGIC_BYTES, 0xe7),
    ] {
        let varint = [code as u8 | 0x80, (code >> 7) as u8];
        ensure!(prefix == varint, "the prefix for {name} keys is {prefix:x?} instead of {varint:x?}");
    }
    ctx.op();
    let r = parser_for(&types).parse(&k.did);
    let expected = types.contains(&k.ty);
    ensure!(
        r.is_ok() == expected,
        "a parser for {types:?} resolves a key of type {:?}: {}",
        k.ty,
        r.is_ok()
    );
    if let Ok(key) = r {
        let did = run(key.get_did())?;
        ensure!(
            matches!(&did, Ok(d) if d == &k.did),
            "the DID of {} resolves to the key of {did:?}",
            k.name
        );
    }
    ctx.outcome(if expected { "resolved" } else { "refused" });
    Ok(())
}

/// Signatures that happen to have an odd byte in an odd place
fn corners(ctx: &mut Ctx) -> R {
    let reals: Vec<&Key> = keys().iter().filter(|k| real(k)).collect();
    let k = *ctx.pick(&reals);
    let byte = *ctx.pick(&[0u8, 0x30, 0x80, 0xff, b'.', b'=', b'"']);
    let n = k.sign(b"").len();
    let at = *ctx.pick(&[0, n / 2 - 1, n / 2, n - 1]);
    let Some((m, sig)) = (0..5000u32)
        .map(|i| format!("{i}").into_bytes())
        .map(|m| {
            let s = k.sign(&m);
            (m, s)
        })
        .find(|(_, s)| s[at] == byte)
    else {
        // the topmost bits of some signatures are never set
        ctx.outcome("no such signature");
        return Ok(());
    };
    ctx.state(&(k.name, &sig));
    ctx.log(|| format!("{}: a signature with {byte:#x} at {at}, of {m:?}", k.name));
    ctx.op();
    let r = run(k.public.verify(&m, &sig))?;
    ensure!(r.is_ok(), "{} refuses its own signature: {r:?}", k.name);
    let mut cases = encodings(&sig);
    for i in [at, n / 2, 0, n - 1] {
        let mut s = sig.clone();
        s.remove(i);
        cases.push(s);
        for b in [0, byte] {
            let mut s = sig.clone();
            s.insert(i, b);
            cases.push(s.clone());
            s[i + 1] = b ^ 1;
            cases.push(s.clone());
            s.insert(i, b);
            cases.push(s);
        }
        for bit in 0..8 {
            let mut s = sig.clone();
            s[i] ^= 1 << bit;
            cases.push(s);
        }
    }
    let strip = |s: &[u8]| s.iter().copied().skip_while(|b| *b == byte).collect::<Vec<_>>();
    cases.push(strip(&sig));
    cases.push([strip(&sig[..n / 2]), strip(&sig[n / 2..])].concat());
    let mut s = sig.clone();
    while s.last() == Some(&byte) {
        s.pop();
    }
    cases.push(s);
    for s in cases {
        if s == sig {
            continue;
        }
        ctx.op();
        ensure!(
            run(k.public.verify(&m, &s))?.is_err(),
            "{} accepts a changed signature, {:02x?} instead of {:02x?}",
            k.name,
            s,
            sig
        );
    }
    ctx.outcome("refused");
    Ok(())
}

/// A key behind a reference count or a box is that key
fn wrapped(ctx: &mut Ctx) -> R {
    let i = ctx.choose(keys().len());
    let k = &keys()[i];
    let private = ctx.flag();
    let how = ctx.choose(5);
    let ms = messages(ctx);
    let m = ctx.pick(&ms);
    ctx.state(&(k.name, private, how, m));
    ctx.log(|| format!("{} (private: {private}), wrapped in the way {how}, and {} bytes", k.name, m.len()));
    let own = fresh().swap_remove(i);
    let own = if private { own.private } else { own.public };
    let w: Box<dyn KeyMaterial> = match how {
        0 => Box::new(Arc::new(own)),
        1 => Box::new(own),
        2 => Box::new(Arc::new(Arc::new(own))),
        3 => Box::new(Box::new(Arc::new(own)) as Box<dyn KeyMaterial>),
        _ => Box::new(Arc::new(Box::new(own) as Box<dyn KeyMaterial>)),
    };
    ctx.ops(6);
    ensure!(
        w.get_jwt_algorithm_name() == k.ty.alg(),
        "states the algorithm {} instead of {}",
        w.get_jwt_algorithm_name(),
        k.ty.alg()
    );
    let did = run(w.get_did())?;
    ensure!(matches!(&did, Ok(d) if d == &k.did), "names itself {did:?}");
    let sig = k.sign(m);
    match run(w.sign(m))? {
        Ok(s) => ensure!(private && s == sig, "signs, in another way or without a private part"),
        Err(e) => ensure!(!private, "does not sign: {e:#}"),
    }
    let r = run(w.verify(m, &sig))?;
    ensure!(r.is_ok(), "refuses its own signature: {r:?}");
    let mut x = sig.clone();
    x[sig.len() / 2] ^= 4;
    ensure!(run(w.verify(m, &x))?.is_err(), "accepts a changed signature");
    ensure!(run(w.verify(&[m, &[1u8][..]].concat(), &sig))?.is_err(), "accepts another message");
    ensure!(run(w.verify(m, &[]))?.is_err(), "accepts an empty signature");
    for o in keys() {
        if !std::ptr::eq(o, k) {
            ctx.op();
            ensure!(run(w.verify(m, &o.sign(m)))?.is_err(), "accepts a signature of {}", o.name);
        }
    }
    // and issues tokens
    let b = UcanBuilder::default()
        .issued_by(&w)
        .for_audience("did:key:zA")
        .with_fact("m", m.clone());
    let s = match b.build() {
        Ok(s) => s,
        Err(e) => return bad(format!("not built: {e:#}")),
    };
    match run(s.sign())? {
        Ok(u) => {
            ensure!(private && u.issuer() == k.did, "issued by {}", u.issuer());
            let text = u.encode().unwrap_or_default();
            let ok = match Ucan::try_from(text) {
                Ok(v) => v == u && run(v.check_signature(&mut real_parser()))?.is_ok(),
                Err(_) => false,
            };
            ensure!(ok, "the token it issued is not valid");
            ctx.outcome("signs");
        }
        Err(e) => {
            ensure!(!private, "no token is issued: {e:#}");
            ctx.outcome("refuses to sign");
        }
    }
    Ok(())
}

/// Long messages, changed anywhere about powers of two
fn long(ctx: &mut Ctx) -> R {
    let reals: Vec<&Key> = keys().iter().filter(|k| real(k)).collect();
    let k = *ctx.pick(&reals);
    let top = ctx.by_tier(20, 24);
    let bits = 6 + ctx.choose(top - 5);
    let n = ((1usize << bits) + ctx.choose(3)) - 1;
    let m: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let sig = k.sign(&m);
    ctx.state(&(k.name, n));
    ctx.log(|| format!("{} signs {n} bytes", k.name));
    ctx.op();
    let r = run(k.public.verify(&m, &sig))?;
    ensure!(r.is_ok(), "{} refuses its own signature of {n} bytes: {r:?}", k.name);
    let mut places = vec![0, n - 1, n - 2, n / 2];
    for b in 4..=bits {
        let b = 1usize << b;
        places.extend([b - 1, b, b + 1, n.saturating_sub(b)]);
    }
    places.retain(|p| *p < n);
    places.sort();
    places.dedup();
    let mut x = m.clone();
    for p in places {
        ctx.ops(2);
        x[p] ^= 1;
        let r = run(k.public.verify(&x, &sig))?;
        x[p] ^= 1;
        ensure!(
            r.is_err(),
            "{} accepts a message of {n} bytes with another one at {p}",
            k.name
        );
        let r = run(k.public.verify(&m[..p], &sig))?;
        ensure!(
            r.is_err(),
            "{} accepts the first {p} of {n} bytes",
            k.name
        );
        let r = run(k.public.verify(&m[n - p..], &sig))?;
        ensure!(
            r.is_err(),
            "{} accepts the last {p} of {n} bytes",
            k.name
        );
    }
    for tail in [&[0u8][..], &[0; 64], &m[..1]] {
        ctx.op();
        let r = run(k.public.verify(&[&m, tail].concat(), &sig))?;
        ensure!(r.is_err(), "{} accepts {} bytes after the {n} signed", k.name, tail.len());
    }
    ctx.outcome("refused");
    Ok(())
}

/// What stands for a message elsewhere: its digests, and forms of them
fn stand_ins(m: &[u8]) -> Vec<(String, Vec<u8>)> {
    use cid::multihash::{Code, MultihashDigest};
    use sha2::Digest;
    let mut all = vec![];
    let mut digests: Vec<(String, Vec<u8>)> = vec![
        ("SHA-224".into(), sha2::Sha224::digest(m).to_vec()),
        ("SHA-384".into(), sha2::Sha384::digest(m).to_vec()),
        ("SHA-512/256".into(), sha2::Sha512_256::digest(m).to_vec()),
        ("SHA-256 twice".into(), sha2::Sha256::digest(sha2::Sha256::digest(m)).to_vec()),
    ];
    for code in [
        Code::Sha2_256,
        Code::Sha2_512,
        Code::Sha3_224,
        Code::Sha3_256,
        Code::Sha3_384,
        Code::Sha3_512,
        Code::Keccak256,
        Code::Keccak512,
        Code::Blake2b256,
        Code::Blake2b512,
        Code::Blake2s256,
        Code::Blake3_256,
    ] {
        let d = code.digest(m);
        all.push((format!("the {code:?} multihash"), d.to_bytes()));
        let cid = cid::Cid::new_v1(0x55, d);
        all.push((format!("the {code:?} identifier"), cid.to_bytes()));
        all.push((format!("the {code:?} identifier, as text"), cid.to_string().into_bytes()));
        digests.push((format!("{code:?}"), d.digest().to_vec()));
    }
    // as PKCS#1 v1.5 has it
    let info = [&[0x30, 0x31, 0x30, 0x0d, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1, 5, 0, 4, 32][..], &sha2::Sha256::digest(m)[..]].concat();
    all.push(("the DigestInfo".into(), info));
    for (name, d) in digests {
        for form in encodings(&d) {
            all.push((format!("a form of the {name} digest"), form));
        }
        all.push((format!("the {name} digest"), d));
    }
    all.retain(|(_, x)| x != m);
    all
}

/// A digest is not the message, nor the message its digest
fn digests(ctx: &mut Ctx) -> R {
    let reals: Vec<&Key> = keys().iter().filter(|k| real(k)).collect();
    let k = *ctx.pick(&reals);
    let m = ctx
        .pick(&[&b""[..], b"a", b"eyJhbGciOiJFUzI1NiJ9.e30", &[0; 32], &[7; 64], &[b'.'; 300]])
        .to_vec();
    let back = ctx.flag();
    ctx.state(&(k.name, &m, back));
    ctx.log(|| format!("{}: {} bytes and what stands for them, back: {back}", k.name, m.len()));
    let sig = k.sign(&m);
    for (what, other) in stand_ins(&m) {
        // an RSA signature costs more than a check of one
        if back && k.ty == Type::Rsa && what.starts_with("a form") {
            continue;
        }
        ctx.op();
        let accepted = match back {
            false => run(k.public.verify(&other, &sig))?,
            true => run(k.public.verify(&m, &k.sign(&other)))?,
        };
        ensure!(
            accepted.is_err(),
            "{}: a signature of {} holds for {}",
            k.name,
            if back { &what } else { "a message" },
            if back { "a message" } else { &what },
        );
    }
    ctx.outcome("refused");
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "digests",
            bounds: "7 keys x 6 messages: 16 digests in some 50 forms each, multihashes and identifiers, in place of the signed message and the other way round",
            devs: (0, 0),
            run: digests,
        },
        Harness {
            name: "many_keys",
            bounds: "256 Ed25519, 254 P-256 and 9 RSA keys (1536 to 4096 bits, exponents 3 to 2^33-1): DID, algorithm, 4 messages, changed messages and signatures, a neighbouring key, an issued token",
            devs: (0, 0),
            run: many_keys,
        },
        Harness {
            name: "corners",
            bounds: "7 keys x signatures with each of 7 bytes (zero, DER tag, ...) at 4 places: every re-encoding, removal, insertion and bit flip there",
            devs: (0, 0),
            run: corners,
        },
        Harness {
            name: "wrapped",
            bounds: "10 keys, with and without private part, in 5 nestings of Box and Arc, x 16 (thorough 23) messages: name, algorithm, signature, verdicts and issued tokens are those of the key itself",
            devs: (0, 0),
            run: wrapped,
        },
        Harness {
            name: "long",
            bounds: "7 keys x messages about every power of two from 64 to 1 M (thorough 16 M) bytes, changed or cut about every power of two from either end",
            devs: (0, 0),
            run: long,
        },
        Harness {
            name: "consistent",
            bounds: "7 keys (Ed25519, P-256, RSA of 2048 and 1024 bits) x 16 (thorough 23) messages of up to 1000 (thorough 70000) bytes, each signature against every other message and every other key",
            devs: (0, 0),
            run: consistent,
        },
        Harness {
            name: "changed",
            bounds: "every bit of a signature and of a message flipped, every byte removed, every prefix and suffix, bytes added at every place; 50 re-encodings (DER, hex, base64, prefixed, recoverable, reversed) of signature and message; unreduced Ed25519 scalars",
            devs: (0, 0),
            run: changed,
        },
        Harness {
            name: "degenerate",
            bounds: "7 keys x all pairs of up to 14 extreme halves (0, 1, the group order and around it, points of small order, halves of the modulus) x 3 messages",
            devs: (0, 0),
            run: degenerate,
        },
        Harness {
            name: "vectors",
            bounds: "42 signatures by OpenSSL: 7 keys x 6 messages",
            devs: (0, 0),
            run: vectors,
        },
        Harness {
            name: "dids",
            bounds: "30 malformed spellings, 14 other multicodecs, every truncation and extension of the key bytes, wrong point formats",
            devs: (0, 0),
            run: dids,
        },
        Harness {
            name: "other_keys",
            bounds: "every bit of every key's bytes flipped",
            devs: (0, 0),
            run: other_keys,
        },
        Harness {
            name: "configured",
            bounds: "all 32 sets of key types in two orders x 10 keys; the prefixes offered for 6 key types",
            devs: (0, 0),
            run: configured,
        },
    ]
}
