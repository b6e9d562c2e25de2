//! C07: verdicts do not depend on what was verified before.
use crate::{
    clock,
    engine::{bad, Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    keys::{did_of, keys, real_parser, Key, Type},
    sem::{of_view, AppSemantics},
    world::{canon, cid_of, near, Tok, ToyKey, B64, TOY2_MAGIC, TOY_MAGIC},
};
use base64::Engine;
use serde_json::json;
use std::sync::OnceLock;
use ucan::{
    chain::ProofChain,
    crypto::did::DidParser,
    store::{MemoryStore, UcanJwtStore},
    Ucan,
};

const T: u64 = 1_000_000;

enum Op {
    /// Resolve a DID; the key it denotes, if any
    Did(String, Option<&'static Key>),
    /// Resolve texts that look much like a DID, none of which denotes a key
    Near(Vec<String>),
    /// Resolve very many DIDs of which each denotes a key
    Many,
    /// Verify a token at a time. Verdict without and with the late proof
    Chain(String, Option<u64>, bool, bool),
    /// Only check a signature
    Signature(String, bool),
    /// Write the late proof to the store
    Write,
    /// The clock moves on
    Tick,
}

struct Fixture {
    ops: Vec<(&'static str, Op)>,
    early: Vec<String>,
    late: String,
}

fn by_name(name: &str) -> &'static Key {
    keys().iter().find(|k| k.name == name).expect("key")
}

fn sign(t: &Tok, k: &Key) -> String {
    let data = format!(
        "{}.{}",
        B64.encode(canon(&t.header())),
        B64.encode(canon(&t.payload()))
    );
    let sig = k.sign(data.as_bytes());
    format!("{data}.{}", B64.encode(sig))
}

fn fixture() -> &'static Fixture {
    static F: OnceLock<Fixture> = OnceLock::new();
    F.get_or_init(|| {
        let one = by_name("toy one");
        let two = by_name("toy two");
        let twin = by_name("toy of the second family, same bytes");
        let ed = by_name("ed25519 one");
        let mut ops: Vec<(&'static str, Op)> = vec![];
        let enc = one.did.strip_prefix("did:key:z").expect("did").to_string();
        for (n, d, k) in [
            ("resolve one", one.did.clone(), Some(one)),
            ("resolve its twin of another type", twin.did.clone(), Some(twin)),
            ("resolve two", two.did.clone(), Some(two)),
            ("resolve an Ed25519 key", ed.did.clone(), Some(ed)),
            ("resolve an unsupported type, same bytes", did_of(&[0xe7, 0x01], &one.bytes), None),
            ("resolve malformed key bytes", did_of(TOY_MAGIC, &[7, 7, 7, 8]), None),
            ("resolve a DID cut short", one.did[..one.did.len() - 1].to_string(), None),
            ("resolve a DID with a character more", format!("{}1", one.did), None),
            ("resolve a DID in lower case", format!("did:key:z{}", enc.to_lowercase()), None),
            ("resolve a DID without z", format!("did:key:{enc}"), None),
            ("resolve a DID of another method", format!("did:web:z{enc}"), None),
        ] {
            ops.push((n, Op::Did(d, k)));
        }
        ops.push(("resolve 512 DIDs", Op::Many));
        for (n, k) in [("resolve what looks like one", one), ("resolve what looks like the Ed25519 key", ed)] {
            ops.push((n, Op::Near(near(&k.did))));
        }
        let of = |k: &Key, salt: &str| {
            let mut t = Tok::new(0, 3);
            t.issuer = Some(k.did.clone());
            t.alg = k.ty.alg().into();
            t.nnc = Some(salt.into());
            t.claim("app:/a", "app/read", json!({}));
            t
        };
        let mut chain = |n, text, at, without, with| ops.push((n, Op::Chain(text, at, without, with)));
        let valid = of(one, "v");
        chain("verify a token of one", sign(&valid, one), Some(T), true, true);
        chain("verify it signed by two", sign(&valid, two), Some(T), false, false);
        chain("verify it signed by the twin", sign(&valid, twin), Some(T), false, false);
        chain("verify a token of the twin", sign(&of(twin, "v"), twin), Some(T), true, true);
        chain("verify it signed by one", sign(&of(twin, "v"), one), Some(T), false, false);
        chain("verify a token of the Ed25519 key", sign(&of(ed, "v"), ed), Some(T), true, true);
        let mut limited = of(one, "limited");
        limited.exp = Some(T);
        limited.nbf = Some(T);
        let limited = sign(&limited, one);
        chain("verify a token at its only second", limited.clone(), Some(T), true, true);
        chain("verify it a second later", limited.clone(), Some(T + 1), false, false);
        chain("verify it a second earlier", limited, Some(T - 1), false, false);
        // chains
        let mut leaf = of(one, "leaf");
        leaf.aud = two.did.clone();
        leaf.claim("app:/b", "app/write", json!({}));
        let leaf = sign(&leaf, one);
        let mut late = of(one, "late");
        late.aud = two.did.clone();
        let late = sign(&late, one);
        let mut forged = of(one, "forged");
        forged.aud = two.did.clone();
        let forged = sign(&forged, two);
        let citing = |p: &[&String], salt: &str| {
            let mut t = of(two, salt);
            for x in p {
                t.cite(cid_of(x).to_string());
            }
            t.claim("prf:0", "ucan/DELEGATE", json!({}));
            sign(&t, two)
        };
        chain("verify a chain", citing(&[&leaf], "a"), Some(T), true, true);
        chain("verify a chain with the late proof", citing(&[&leaf, &late], "b"), Some(T), false, true);
        chain("verify a chain with a forged proof", citing(&[&forged], "c"), Some(T), false, false);
        chain("verify the late proof itself", late.clone(), None, true, true);
        chain("verify nonsense", "a.b.c".into(), Some(T), false, false);
        let mut unsupported = of(one, "u");
        unsupported.issuer = Some(did_of(&[0xe7, 0x01], &one.bytes));
        chain("verify a token of an unsupported key", sign(&unsupported, one), Some(T), false, false);
        ops.push(("check the signature of one", Op::Signature(sign(&of(one, "s"), one), true)));
        ops.push(("check a wrong signature of one", Op::Signature(sign(&of(one, "s"), two), false)));
        ops.push(("write the late proof", Op::Write));
        ops.push(("the clock moves on", Op::Tick));
        Fixture {
            ops,
            early: vec![leaf, forged],
            late,
        }
    })
}

/// What a verification shows
fn report(
    text: &str,
    at: Option<u64>,
    parser: &mut DidParser,
    store: &MemoryStore,
) -> R<Option<String>> {
    Ok(
        run(ProofChain::try_from_token_string(text, at, parser, store))?
            .ok()
            .map(|c| {
                let mut caps: Vec<String> = c
                    .reduce_capabilities(&AppSemantics)
                    .iter()
                    .map(|i| {
                        format!(
                            "{} {:?} {:?} {:?}",
                            of_view(&i.capability).show(),
                            i.originators,
                            i.not_before,
                            i.expires_at
                        )
                    })
                    .collect();
                caps.sort();
                format!("{} proofs, {caps:?}", c.proofs().len())
            }),
    )
}

fn denotes(parser: &mut DidParser, did: &str, key: Option<&Key>) -> R {
    let r = parser.parse(did);
    match (r, key) {
        (Err(_), None) => Ok(()),
        (Err(e), Some(k)) => bad(format!("the DID of {} is refused: {e:#}", k.name)),
        (Ok(_), None) => bad(format!("{did} resolves, but denotes no key")),
        (Ok(r), Some(k)) => {
            let d = run(r.get_did())?;
            ensure!(
                matches!(&d, Ok(d) if d == did),
                "{did} resolves to the key of {d:?}"
            );
            ensure!(
                r.get_jwt_algorithm_name() == k.ty.alg(),
                "{did} resolves to a key of another algorithm"
            );
            if k.ty != Type::Rsa {
                let sig = k.sign(b"m");
                ensure!(
                    run(r.verify(b"m", &sig))?.is_ok() && run(r.verify(b"n", &sig))?.is_err(),
                    "{did} resolves to a key that judges signatures differently"
                );
            }
            Ok(())
        }
    }
}

fn sequences(ctx: &mut Ctx) -> R {
    let n = ctx.by_tier(3, 4);
    play(ctx, n, None)
}

/// Longer, over fewer operations
fn long(ctx: &mut Ctx) -> R {
    let some = [0, 1, 4, 5, 12, 14, 15, 18, 20, 21, 24, 25, 31];
    let n = ctx.by_tier(5, 6);
    play(ctx, n, Some(&some))
}

fn play(ctx: &mut Ctx, n: usize, some: Option<&[usize]>) -> R {
    let f = fixture();
    clock::set(T);
    let mut now = T;
    let mut store = MemoryStore::default();
    for t in &f.early {
        if let Err(e) = run(store.write_token(t))? {
            return bad(format!("a write is refused: {e:#}"));
        }
    }
    let mut parser = real_parser();
    let mut written = false;
    let mut path = vec![];
    let len = 1 + ctx.choose(n);
    for step in 0..len {
        let i = match some {
            Some(s) => s[ctx.choose(s.len())],
            None => ctx.choose(f.ops.len()),
        };
        path.push(i);
        let (name, op) = &f.ops[i];
        ctx.log(|| name.to_string());
        // the effects of earlier operations were judged in shorter histories
        let last = step + 1 == len;
        ctx.op();
        match op {
            Op::Did(did, key) => {
                if last {
                    denotes(&mut parser, did, *key)?;
                } else {
                    let _ = parser.parse(did);
                }
            }
            Op::Near(dids) => {
                for did in dids {
                    if last {
                        denotes(&mut parser, did, None)?;
                    } else {
                        let _ = parser.parse(did);
                    }
                }
            }
            Op::Many => {
                for family in [TOY_MAGIC, TOY2_MAGIC] {
                    for id in 0..=255u8 {
                        let did = did_of(family, &[id; 4]);
                        let r = parser.parse(&did);
                        if last {
                            match r {
                                Ok(k) => {
                                    let d = run(k.get_did())?;
                                    ensure!(
                                        matches!(&d, Ok(d) if d == &did),
                                        "{did} resolves to the key of {d:?}"
                                    );
                                }
                                Err(e) => return bad(format!("{did} is refused: {e:#}")),
                            }
                        }
                    }
                }
            }
            Op::Chain(text, at, without, with) => {
                let got = report(text, *at, &mut parser, &store)?;
                if last {
                    let expected = if written { *with } else { *without };
                    ensure!(
                        got.is_some() == expected,
                        "after this history: {got:?}; expected a verdict of {expected}"
                    );
                    let fresh = report(text, *at, &mut real_parser(), &store)?;
                    ensure!(
                        got == fresh,
                        "after this history: {got:?}; with a fresh parser: {fresh:?}"
                    );
                }
            }
            Op::Signature(text, expected) => {
                let ucan = match Ucan::try_from(text.as_str()) {
                    Ok(u) => u,
                    Err(e) => return bad(format!("a token is not read: {e:#}")),
                };
                let got = run(ucan.check_signature(&mut parser))?.is_ok();
                ensure!(
                    got == *expected,
                    "after this history the signature is valid: {got}"
                );
            }
            Op::Write => {
                written = true;
                if let Err(e) = run(store.write_token(&f.late))? {
                    return bad(format!("a write is refused: {e:#}"));
                }
            }
            Op::Tick => {
                now += 1;
                clock::set(now);
            }
        }
    }
    ctx.state(&path);
    // the last operation is judged above; afterwards, everything still
    // resolves to what it denotes
    if some.is_none() {
        for (_, op) in &f.ops {
            if let Op::Did(did, key) = op {
                ctx.op();
                denotes(&mut parser, did, *key)?;
            }
        }
    }
    ctx.outcome(if written { "proof written" } else { "no write" });
    Ok(())
}

/// Chains of tokens by keys of two types
fn mixed() -> &'static [(String, Vec<Type>, bool)] {
    static M: OnceLock<Vec<(String, Vec<Type>, bool)>> = OnceLock::new();
    M.get_or_init(|| {
        let one = by_name("toy one");
        let twin = by_name("toy of the second family, same bytes");
        let make = |by: &Key, to: &str, proof: Option<&String>, salt: &str| {
            let mut t = Tok::new(0, 3);
            t.issuer = Some(by.did.clone());
            t.aud = to.into();
            t.alg = by.ty.alg().into();
            t.nnc = Some(salt.into());
            t.claim("app:/a", "app/read", json!({}));
            if let Some(p) = proof {
                t.cite(cid_of(p).to_string());
            }
            sign(&t, by)
        };
        let mut out = vec![];
        for (by, to) in [(one, twin), (twin, one), (one, one)] {
            let leaf = make(by, &to.did, None, "leaf");
            let chain = make(to, &one.did, Some(&leaf), "chain");
            out.push((leaf, vec![by.ty], false));
            out.push((chain, vec![by.ty, to.ty], true));
        }
        out
    })
}

/// Several parsers and stores over the same keys and tokens do not share anything
fn separate(ctx: &mut Ctx) -> R {
    use crate::keys::parser_for;
    let kinds = [
        vec![Type::Toy],
        vec![Type::Toy2],
        vec![Type::Toy, Type::Toy2],
        vec![],
    ];
    let dids = [
        (ToyKey::new(7).did(), Some(Type::Toy)),
        (did_of(TOY2_MAGIC, &[7; 4]), Some(Type::Toy2)),
        (did_of(TOY_MAGIC, &[1, 2, 3, 4]), None),
    ];
    let tokens = mixed();
    // verifications of chains, too, with stores that hold the proofs or not
    let chains = ctx.flag();
    let mut sites: Vec<(usize, DidParser, bool, MemoryStore)> = vec![];
    for _ in 0..2 {
        let k = ctx.choose(kinds.len());
        let full = chains && ctx.flag();
        let mut store = MemoryStore::default();
        if full {
            for (text, ..) in tokens {
                run(store.write_token(text))?.map_err(|e| Fail::Violation(format!("a write fails: {e:#}")))?;
            }
        }
        sites.push((k, parser_for(&kinds[k]), full, store));
    }
    let len = if chains { ctx.by_tier(3, 4) } else { ctx.by_tier(4, 6) };
    let mut path = vec![];
    for _ in 0..len {
        let p = ctx.choose(2);
        let d = ctx.choose(dids.len() + if chains { tokens.len() } else { 0 });
        path.push((p, d));
        let (k, parser, full, store) = &mut sites[p];
        ctx.op();
        if let Some((text, types, cites)) = d.checked_sub(dids.len()).map(|i| &tokens[i]) {
            let i = d - dids.len();
            ctx.log(|| format!("parser {p} for {:?} verifies token {i}, which needs {types:?}, proofs in the store: {full}", kinds[*k]));
            let got = run(ProofChain::try_from_token_string(text, Some(T), parser, store))?;
            let expected = types.iter().all(|t| kinds[*k].contains(t)) && (*full || !cites);
            ensure!(
                got.is_ok() == expected,
                "token {i}, which needs {types:?} and proofs: {cites}, is accepted with keys of {:?} and proofs stored: {full}: {}",
                kinds[*k],
                got.is_ok()
            );
            continue;
        }
        let (did, ty) = &dids[d];
        ctx.log(|| format!("parser {p} for {:?} resolves {did}", kinds[*k]));
        let got = parser.parse(did);
        let expected = ty.is_some_and(|t| kinds[*k].contains(&t));
        ensure!(
            got.is_ok() == expected,
            "a parser for {:?} resolves {did}: {}",
            kinds[*k],
            got.is_ok()
        );
        if let Ok(key) = got {
            let d = run(key.get_did())?;
            ensure!(matches!(&d, Ok(d) if d == did), "{did} resolves to the key of {d:?}");
        }
    }
    ctx.state(&(path, sites[0].0, sites[0].2, sites[1].0, sites[1].2));
    ctx.outcome("separate");
    Ok(())
}

/// A key of any bytes, which are its signature of everything
struct Wide(Vec<u8>);

#[async_trait::async_trait]
impl ucan::crypto::KeyMaterial for Wide {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Ok(did_of(WIDE_MAGIC, &self.0))
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(self.0.clone())
    }
    async fn verify(&self, _: &[u8], signature: &[u8]) -> anyhow::Result<()> {
        match self.0 == signature {
            true => Ok(()),
            false => Err(anyhow::anyhow!("bad signature")),
        }
    }
}

const WIDE_MAGIC: &[u8] = &[0xf7, 0x0b];

fn bytes_to_wide(bytes: Vec<u8>) -> anyhow::Result<Box<dyn ucan::crypto::KeyMaterial>> {
    match bytes.first() {
        Some(0xee) => Err(anyhow::anyhow!("not a key")),
        _ => Ok(Box::new(Wide(bytes))),
    }
}

/// Very many keys, similar in various ways, resolved again and again
fn crowds(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(if ctx.thorough() {
        &[2usize, 16, 100, 257, 1000, 1025, 4097, 10_001, 70_000, 300_000][..]
    } else {
        &[2usize, 16, 100, 257, 1025, 4097, 10_001, 70_000][..]
    });
    let alike = ctx.choose(9);
    let order = ctx.choose(3);
    let failing = ctx.flag();
    let held = ctx.flag();
    let key = |i: usize| -> Vec<u8> {
        let num = (i as u32).to_be_bytes();
        match alike {
            0 => num.to_vec(),
            1 => [&num[..], &[7; 60]].concat(),
            2 => [&[7; 60], &num[..]].concat(),
            3 => [&[7; 30], &num[..], &[7; 30]].concat(),
            // of different lengths, all zero or not
            4 => vec![0; i % 400],
            5 => vec![9; i % 400],
            // of which the texts have the same head and the same tail
            _ => {
                let at = [8, 40, 70][alike - 6];
                let mut text = bs58::encode([WIDE_MAGIC, &[7; 62]].concat()).into_vec();
                let mut rest = i;
                for c in &mut text[at..at + 4] {
                    *c = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[rest % 58];
                    rest /= 58;
                }
                bs58::decode(text).into_vec().expect("base58")[2..].to_vec()
            }
        }
    };
    if ((4..6).contains(&alike) && n > 400) || (n > 10_001 && !(1..3).contains(&alike) && !ctx.thorough()) {
        return Err(crate::engine::Fail::Prune);
    }
    ctx.state(&(n, alike, order, failing, held));
    ctx.log(|| format!("{n} keys, alike in way {alike}, resolved twice in order {order}, failures between: {failing}, kept: {held}"));
    let mut parser = DidParser::new(&[(WIDE_MAGIC, bytes_to_wide)]);
    let mut kept = vec![];
    for round in 0..2 {
        for i in 0..n {
            let i = match (order, round) {
                (1, 1) => n - 1 - i,
                (2, _) => (i * 7919) % n,
                _ => i,
            };
            let bytes = key(i);
            let did = did_of(WIDE_MAGIC, &bytes);
            ctx.op();
            let k = match parser.parse(&did) {
                Ok(k) => k,
                Err(e) => return bad(format!("key {i} of {n} is refused: {e:#}")),
            };
            let d = run(k.get_did())?;
            ensure!(
                matches!(&d, Ok(d) if *d == did),
                "{did} resolves to the key of {d:?}"
            );
            ensure!(
                run(k.verify(b"m", &bytes))?.is_ok() && run(k.verify(b"m", &key(i + 1)))?.is_err(),
                "{did} resolves to a key that judges signatures differently"
            );
            if held {
                kept.push(k);
            }
            if failing && i % 3 == 0 {
                for other in [
                    did_of(WIDE_MAGIC, &[&[0xee], &bytes[..]].concat()),
                    did_of(TOY_MAGIC, &bytes),
                    did.replace("did:key:z", "did:key:Z"),
                ] {
                    ensure!(
                        parser.parse(&other).is_err(),
                        "{other} resolves, but denotes no key"
                    );
                }
            }
        }
    }
    ctx.outcome("as they denote");
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "crowds",
            bounds: "2..70000 (thorough 300000) keys that differ in their first, middle or last bytes, in a few characters of their DID only or in length, each resolved twice in 3 orders, with or without failures in between, kept or dropped",
            devs: (0, 0),
            run: crowds,
        },
        Harness {
            name: "sequences",
            bounds: "every sequence of 1..3 (thorough 1..4) of 33 operations (11 DIDs, 512 DIDs at once, some 70 texts that look much like one of two DIDs, 15 verifications, 2 signature checks, a write, a tick) on one parser and one store",
            devs: (0, 0),
            run: sequences,
        },
        Harness {
            name: "long",
            bounds: "every sequence of 1..5 (thorough 1..6) of 13 of these operations",
            devs: (0, 0),
            run: long,
        },
        Harness {
            name: "separate",
            bounds: "every sequence of 4 (thorough 6) resolutions of 3 DIDs by two parsers, each of 4 configurations; every sequence of 3 (thorough 4) of these and of verifications of 6 tokens and chains by keys of two types, each parser with a store that holds the proofs or is empty",
            devs: (0, 0),
            run: separate,
        },
    ]
}
