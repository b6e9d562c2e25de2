//! C03: a chain is accepted exactly if every link in it is legitimate.
use crate::{
    engine::{Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    keys::{keys, real_parser, Key},
    world::{cid_of, cid_with, name_of, near, parser, sign_text, MapStore, Tok, ToyKey, B64, CODES},
};
use base64::Engine;
use cid::{multihash::Code, Cid};
use serde_json::json;
use ucan::{chain::ProofChain, Ucan};

pub const T: u64 = 1_000_000;

#[derive(Clone, PartialEq, Debug)]
enum Stored {
    Yes,
    Missing,
    Garbage,
    NotText,
    /// Only under an identifier with another hash than the cited one
    OtherHash,
    Empty,
}

#[derive(Clone, PartialEq, Debug)]
enum Cited {
    Plain,
    /// The same identifier in another base
    Base58,
    /// An identifier with another codec, under which the token is stored
    OtherCodec,
    Malformed,
    EmptyText,
    /// With a trailing blank
    Blank,
}

/// A token and how it is cited by those above it
struct Node {
    tok: Tok,
    proofs: Vec<usize>,
    forged: u8,
    stored: Stored,
    cited: Cited,
    text: String,
}

struct World {
    now: Option<u64>,
    nodes: Vec<Node>,
    store: MapStore,
}

impl World {
    fn new() -> Self {
        World {
            now: Some(T),
            nodes: vec![],
            store: MapStore::default(),
        }
    }

    fn add(&mut self, tok: Tok, proofs: Vec<usize>, forged: u8, stored: Stored, cited: Cited) -> usize {
        let mut tok = tok;
        // No two tokens have the same text: what is stored, forged or missing
        // is a matter of the text
        match tok.nnc {
            None => tok.nnc = Some(format!("n{}", self.nodes.len())),
            Some(_) => tok.fct = json!({"number": self.nodes.len()}).as_object().cloned(),
        }
        for p in &proofs {
            let n = &self.nodes[*p];
            let cid = cid_of(&n.text);
            tok.cite(match n.cited {
                Cited::Plain => cid.to_string(),
                Cited::Base58 => format!("z{}", bs58::encode(cid.to_bytes()).into_string()),
                Cited::OtherCodec => Cid::new_v1(0x71, *cid.hash()).to_string(),
                Cited::Malformed => cid.to_string()[..20].to_string(),
                Cited::EmptyText => String::new(),
                Cited::Blank => format!("{cid} "),
            });
        }
        let data = tok.signed_data();
        let text = match forged {
            0 => tok.text(),
            1 => sign_text(&data, &ToyKey::new(tok.iss + 20)),
            2 => {
                let sig = ToyKey::new(tok.iss).raw_sign(data.as_bytes());
                format!("{data}.{}", B64.encode(&sig[..sig.len() - 1]))
            }
            3 => format!("{data}."),
            _ => {
                // the issuer's signature of something else
                let mut other = tok.clone();
                other.nnc = Some("other".into());
                let sig = ToyKey::new(tok.iss).raw_sign(other.signed_data().as_bytes());
                format!("{data}.{}", B64.encode(sig))
            }
        };
        let cid = cid_of(&text);
        let bytes = match stored {
            Stored::Garbage => b"not a token".to_vec(),
            Stored::NotText => vec![0xff, 0xfe, 0x00],
            Stored::Empty => vec![],
            _ => text.as_bytes().to_vec(),
        };
        match stored {
            Stored::Missing => {}
            Stored::OtherHash => {
                let other = cid_with(text.as_bytes(), Code::Sha2_256);
                self.store.map.insert(other.to_bytes(), bytes);
            }
            _ => {
                self.store.map.insert(cid.to_bytes(), bytes.clone());
                if cited == Cited::OtherCodec {
                    let other = Cid::new_v1(0x71, *cid.hash());
                    self.store.map.insert(other.to_bytes(), bytes);
                }
            }
        }
        self.nodes.push(Node {
            tok,
            proofs,
            forged,
            stored,
            cited,
            text,
        });
        self.nodes.len() - 1
    }

    fn valid_alone(&self, n: &Node) -> bool {
        let t = self.now.unwrap_or(T);
        n.forged == 0
            && n.tok.nbf.is_none_or(|b| b <= t)
            && n.tok.exp.is_none_or(|e| t <= e)
    }

    /// The reference verdict
    fn legitimate(&self, i: usize) -> bool {
        let n = &self.nodes[i];
        let me = ToyKey::new(n.tok.iss).did();
        self.valid_alone(n)
            && n.proofs.iter().all(|p| {
                let q = &self.nodes[*p];
                q.stored == Stored::Yes
                    && matches!(q.cited, Cited::Plain | Cited::Base58)
                    && q.tok.aud == me
                    && starts_no_later(q.tok.nbf, n.tok.nbf)
                    && ends_no_earlier(q.tok.exp, n.tok.exp)
                    && self.legitimate(*p)
            })
            && n.tok.caps.iter().all(|(r, a, _)| {
                match r.strip_prefix("prf:").map(|x| x.parse::<usize>()) {
                    Some(Ok(k)) if a == "ucan/DELEGATE" => k < n.proofs.len(),
                    _ => true,
                }
            })
    }

    fn show(&self, i: usize) -> String {
        let n = &self.nodes[i];
        format!(
            "token {i}: {} -> {} valid {:?}..{:?} proofs {:?} forged={} stored={:?} cited={:?} claims={:?}",
            name_of(&ToyKey::new(n.tok.iss).did()),
            name_of(&n.tok.aud),
            n.tok.nbf,
            n.tok.exp,
            n.proofs,
            n.forged,
            n.stored,
            n.cited,
            n.tok.caps.iter().map(|c| &c.0).collect::<Vec<_>>()
        )
    }

    fn same_shape(&self, i: usize, chain: &ProofChain) -> R {
        let n = &self.nodes[i];
        let text = chain.ucan().encode().unwrap_or_default();
        ensure!(
            text == n.text,
            "the accepted chain holds {text} where token {i} was cited"
        );
        ensure!(
            chain.proofs().len() == n.proofs.len(),
            "the accepted chain holds {} proofs of token {i}, which cites {}",
            chain.proofs().len(),
            n.proofs.len()
        );
        for (p, c) in n.proofs.iter().zip(chain.proofs()) {
            self.same_shape(*p, c)?;
        }
        Ok(())
    }

    fn judge(&self, ctx: &mut Ctx) -> R {
        let top = self.nodes.len() - 1;
        for i in 0..=top {
            ctx.log(|| self.show(i));
            ctx.state(&(
                &self.nodes[i].text,
                format!("{:?}", self.nodes[i].stored),
                self.now,
            ));
        }
        let expected = self.legitimate(top);
        ctx.log(|| format!("verified at {:?}; legitimate: {expected}", self.now));
        let text = &self.nodes[top].text;
        let mut store = self.store.clone();
        store.put(text);
        let cid = cid_of(text);
        for entry in ["text", "cid", "parsed"] {
            ctx.op();
            let mut did_parser = parser();
            let r = match entry {
                "text" => run(ProofChain::try_from_token_string(
                    text,
                    self.now,
                    &mut did_parser,
                    &store,
                ))?,
                "cid" => run(ProofChain::from_cid(
                    &cid,
                    self.now,
                    &mut did_parser,
                    &store,
                ))?,
                _ => match Ucan::try_from(text.as_str()) {
                    Ok(ucan) => run(ProofChain::from_ucan(
                        ucan,
                        self.now,
                        &mut did_parser,
                        &store,
                    ))?,
                    Err(e) => Err(e),
                },
            };
            match r {
                Ok(chain) => {
                    ensure!(
                        expected,
                        "a chain with an illegitimate link is accepted (from {entry})"
                    );
                    self.same_shape(top, &chain)?;
                }
                Err(e) => {
                    ensure!(
                        !expected,
                        "a chain of legitimate links is refused (from {entry}): {e:#}"
                    );
                }
            }
        }
        ctx.outcome(if expected { "accepted" } else { "refused" });
        Ok(())
    }
}

pub fn starts_no_later(outer: Option<u64>, inner: Option<u64>) -> bool {
    match (outer, inner) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(o), Some(i)) => o <= i,
    }
}
pub fn ends_no_earlier(outer: Option<u64>, inner: Option<u64>) -> bool {
    match (outer, inner) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(o), Some(i)) => o >= i,
    }
}

const EXP: u64 = T + 1000;
const NBF: u64 = T - 500;

/// A token with at most as many departures from a legitimate one as the budget
/// allows
fn node(ctx: &mut Ctx, w: &mut World, iss: u8, aud: u8, proofs: Vec<usize>) -> usize {
    let mut tok = Tok::new(iss, aud);
    tok.exp = Some(EXP);
    tok.nbf = Some(NBF);
    tok.claim("app:/a", "app/read", json!({}));
    let forged = ctx.dev(5) as u8;
    let right = ToyKey::new(aud).did();
    tok.aud = match ctx.dev(8) {
        0 => right,
        1 => ToyKey::new(iss).did(),
        2 => ToyKey::new(aud + 30).did(),
        3 => format!("{right}1"),
        4 => right[..right.len() - 1].to_string(),
        5 => right.to_uppercase(),
        6 => String::new(),
        _ => format!(" {right}"),
    };
    match ctx.dev(10) {
        0 => {}
        1 => tok.exp = None,
        2 => tok.exp = Some(EXP - 1),
        3 => tok.exp = Some(EXP + 1),
        4 => tok.exp = Some(T - 1),
        5 => tok.nbf = None,
        6 => tok.nbf = Some(NBF - 1),
        7 => tok.nbf = Some(NBF + 1),
        8 => tok.nbf = Some(T + 1),
        _ => {
            tok.nbf = None;
            tok.exp = None;
        }
    }
    let stored = match ctx.dev(6) {
        0 => Stored::Yes,
        1 => Stored::Missing,
        2 => Stored::Garbage,
        3 => Stored::NotText,
        4 => Stored::OtherHash,
        _ => Stored::Empty,
    };
    let cited = match ctx.dev(6) {
        0 => Cited::Plain,
        1 => Cited::Base58,
        2 => Cited::OtherCodec,
        3 => Cited::Malformed,
        4 => Cited::EmptyText,
        _ => Cited::Blank,
    };
    // what has no part in whether a link is legitimate
    match ctx.dev(9) {
        0 => {}
        1 => tok.nnc = Some("same".into()),
        2 => tok.nnc = Some(String::new()),
        3 => tok.ucv = "0.9.1".into(),
        4 => tok.ucv = "1.0.0".into(),
        5 => tok.fct = json!({"a": 1, "exp": 5, "prf": ["x"]}).as_object().cloned(),
        6 => tok.caps.clear(),
        7 => tok.caps[0].2 = json!({"exp": 5, "aud": "x"}),
        _ => tok.claim("other:thing", "other/do", json!({})),
    }
    let n = proofs.len();
    match ctx.dev(8) {
        0 => {}
        1 => tok.claim("prf:0", "ucan/DELEGATE", json!({})),
        2 => tok.claim(&format!("prf:{n}"), "ucan/DELEGATE", json!({})),
        3 => tok.claim(&format!("prf:{}", n + 1), "ucan/DELEGATE", json!({})),
        4 => tok.claim("prf:*", "ucan/DELEGATE", json!({})),
        5 => tok.claim(&format!("prf:{n}"), "app/read", json!({})),
        6 => {
            tok.claim("prf:0", "ucan/DELEGATE", json!({}));
            tok.claim(&format!("prf:{n}"), "ucan/DELEGATE", json!({}));
        }
        _ => tok.claim(
            "prf:99999999999999999999999999",
            "ucan/DELEGATE",
            json!({}),
        ),
    }
    w.add(tok, proofs, forged, stored, cited)
}

fn chains(ctx: &mut Ctx) -> R {
    let n = 1 + ctx.choose(ctx.by_tier(5, 6));
    let mut w = World::new();
    for level in 0..n {
        let proofs = if level == 0 { vec![] } else { vec![level - 1] };
        node(ctx, &mut w, level as u8, level as u8 + 1, proofs);
    }
    w.judge(ctx)
}

fn trees(ctx: &mut Ctx) -> R {
    // two or three proofs, of which each cites 0..2 further ones
    let mut w = World::new();
    let width = 2 + ctx.choose(2);
    let mut mids = vec![];
    for m in 0..width {
        let leaves = ctx.choose(3);
        let mut cites = vec![];
        for l in 0..leaves {
            cites.push(node(ctx, &mut w, 10 + (m * 3 + l) as u8, 1, vec![]));
        }
        mids.push(node(ctx, &mut w, 1, 2, cites));
    }
    node(ctx, &mut w, 2, 3, mids);
    w.judge(ctx)
}

/// Every validity period on each of three levels
fn windows(ctx: &mut Ctx) -> R {
    let mut w = World::new();
    w.now = *ctx.pick(&[Some(T), None]);
    crate::clock::set(T);
    for level in 0..3usize {
        let mut tok = Tok::new(level as u8, level as u8 + 1);
        tok.nbf = *ctx.pick(&[None, Some(NBF), Some(NBF - 1), Some(NBF + 1)]);
        tok.exp = *ctx.pick(&[None, Some(EXP), Some(EXP - 1), Some(EXP + 1)]);
        let proofs = if level == 0 { vec![] } else { vec![level - 1] };
        w.add(tok, proofs, 0, Stored::Yes, Cited::Plain);
    }
    w.judge(ctx)
}

/// A proof that is legitimate for one citation and not for another
fn shared(ctx: &mut Ctx) -> R {
    let mut w = World::new();
    let mut leaf = Tok::new(0, 1);
    leaf.exp = *ctx.pick(&[None, Some(EXP)]);
    leaf.nbf = *ctx.pick(&[None, Some(NBF)]);
    w.add(leaf, vec![], 0, Stored::Yes, Cited::Plain);
    let mut second = Tok::new(5, 1);
    second.exp = Some(EXP);
    let forged = ctx.choose(2) as u8;
    w.add(second, vec![], forged, Stored::Yes, Cited::Plain);
    let mut mids = vec![];
    for _ in 0..2 {
        let mut mid = Tok::new(*ctx.pick(&[1, 6]), 2);
        mid.exp = *ctx.pick(&[Some(EXP), Some(EXP + 1), None]);
        mid.nbf = *ctx.pick(&[Some(NBF), Some(NBF - 1), None]);
        let cites = match ctx.choose(4) {
            0 => vec![0],
            1 => vec![1],
            2 => vec![0, 1],
            _ => vec![],
        };
        mids.push(w.add(mid, cites, 0, Stored::Yes, Cited::Plain));
    }
    let mut top = Tok::new(2, 3);
    top.exp = Some(EXP);
    top.nbf = Some(NBF);
    let cites = match ctx.choose(5) {
        0 => vec![mids[0], mids[1]],
        1 => vec![mids[1], mids[0]],
        2 => vec![mids[0], mids[0]],
        3 => vec![mids[0], mids[1], mids[0]],
        _ => vec![mids[0], 0],
    };
    w.add(top, cites, 0, Stored::Yes, Cited::Plain);
    w.judge(ctx)
}

/// Anyone may issue tokens to anyone, himself too
fn people(ctx: &mut Ctx) -> R {
    let mut w = World::new();
    let anyone = |ctx: &mut Ctx| {
        let mut t = Tok::new(ctx.choose(3) as u8, ctx.choose(3) as u8);
        t.claim("app:/a", "app/read", json!({}));
        t
    };
    let side_by_side = ctx.flag();
    let n = ctx.by_tier(3, 4);
    let n = 1 + ctx.choose(n);
    let mut last: Vec<usize> = vec![];
    for level in 0..n {
        let tok = anyone(ctx);
        let forged = level + 1 == n && ctx.flag();
        let top = level + 1 == n;
        if side_by_side && !top {
            last.push(w.add(tok, vec![], 0, Stored::Yes, Cited::Plain));
        } else {
            last = vec![w.add(tok, last, u8::from(forged), Stored::Yes, Cited::Plain)];
        }
    }
    w.judge(ctx)
}

/// Keys of all supported types in one chain
fn key_types(ctx: &mut Ctx) -> R {
    let all = keys();
    let some: Vec<&Key> = ["ed25519 one", "p256 two", "rsa of 1024 bits", "toy one", "toy of the second family, same bytes"]
        .iter()
        .filter_map(|n| all.iter().find(|k| k.name == *n))
        .collect();
    let n = 1 + ctx.choose(ctx.by_tier(3, 4));
    let side_by_side = n > 2 && ctx.flag();
    // one of them signed by another key, or for another audience
    let fault = ctx.choose(3);
    let at = if fault == 0 { 0 } else { ctx.choose(n) };
    let who: Vec<usize> = (0..n).map(|_| ctx.choose(some.len())).collect();
    let mut texts: Vec<String> = vec![];
    let mut store = MapStore::default();
    for level in 0..n {
        let me = some[who[level]];
        let other = some[(who[level] + 1) % some.len()];
        let mut t = Tok::new(0, 1);
        t.issuer = Some(me.did.clone());
        t.alg = me.ty.alg().into();
        let to = if level + 1 == n {
            0
        } else if side_by_side {
            who[n - 1]
        } else {
            who[level + 1]
        };
        t.aud = some[to].did.clone();
        if fault == 2 && at == level {
            t.aud = some[(to + 1) % some.len()].did.clone();
        }
        t.nnc = Some(format!("{level}"));
        t.claim("app:/a", "app/read", json!({}));
        let below = if side_by_side && level + 1 < n {
            vec![]
        } else if side_by_side {
            texts.clone()
        } else {
            texts.last().cloned().into_iter().collect()
        };
        for b in &below {
            t.cite(store.put(b));
        }
        let data = t.signed_data();
        let signer = if fault == 1 && at == level { other } else { me };
        texts.push(format!("{data}.{}", B64.encode(signer.sign(data.as_bytes()))));
    }
    let expected = match fault {
        0 => true,
        1 => false,
        // nobody else must be the audience of the last token
        _ => at + 1 == n,
    };
    let Some(top) = texts.last() else {
        return Err(Fail::Prune);
    };
    ctx.state(&texts);
    ctx.log(|| {
        let names: Vec<&str> = who.iter().map(|i| some[*i].name).collect();
        format!("{names:?}, side by side: {side_by_side}, fault {fault} in {at}; legitimate: {expected}")
    });
    ctx.ops(n);
    let got = run(ProofChain::try_from_token_string(top, Some(T), &mut real_parser(), &store))?;
    ensure!(
        got.is_ok() == expected,
        "accepted: {}; expected {expected}: {:?}",
        got.is_ok(),
        got.err().map(|e| format!("{e:#}"))
    );
    ctx.outcome(if expected { "accepted" } else { "refused" });
    Ok(())
}

/// An audience that looks much like the issuer of the next token
fn almost(ctx: &mut Ctx) -> R {
    let n = 2 + ctx.choose(ctx.by_tier(2, 4));
    let at = ctx.choose(n - 1);
    let issuer = ToyKey::new(at as u8 + 1).did();
    let others = near(&issuer);
    let k = ctx.choose(others.len() + 1);
    // beside a proof for the very issuer, before or after it
    let beside = ctx.choose(3);
    let mut w = World::new();
    let mut last: Vec<usize> = vec![];
    for level in 0..n {
        let mut tok = Tok::new(level as u8, level as u8 + 1);
        tok.claim("app:/a", "app/read", json!({}));
        if level == at && k > 0 {
            tok.aud = others[k - 1].clone();
        }
        let i = w.add(tok, last, 0, Stored::Yes, Cited::Plain);
        last = vec![i];
        if level == at && beside > 0 {
            let tok = Tok::new(level as u8, level as u8 + 1);
            let j = w.add(tok, vec![], 0, Stored::Yes, Cited::Plain);
            last = if beside == 1 { vec![i, j] } else { vec![j, i] };
        }
    }
    w.judge(ctx)
}

/// How one link can be at fault (0: not at all)
const FAULTS: usize = 13;

/// A token of which one thing is wrong. `proofs` are all legitimate links to it.
fn flawed(w: &mut World, fault: usize, iss: u8, aud: u8, proofs: Vec<usize>) -> usize {
    let mut tok = Tok::new(iss, aud);
    tok.exp = Some(EXP);
    tok.nbf = Some(NBF);
    tok.claim("app:/a", "app/read", json!({}));
    let (mut forged, mut stored, mut cited) = (0, Stored::Yes, Cited::Plain);
    match fault {
        0 => {}
        1 => tok.aud = ToyKey::new(aud + 1).did(),
        2 => tok.exp = Some(EXP - 1),
        3 => tok.nbf = Some(NBF + 1),
        4 => tok.exp = None,
        5 => tok.nbf = None,
        6 => forged = 1,
        7 => forged = 4,
        8 => stored = Stored::Missing,
        9 => stored = Stored::Garbage,
        10 => cited = Cited::Malformed,
        11 => tok.claim(&format!("prf:{}", proofs.len()), "ucan/DELEGATE", json!({})),
        12 => tok.nbf = Some(T + 1),
        _ => unreachable!(),
    }
    w.add(tok, proofs, forged, stored, cited)
}

/// Long chains with one fault, anywhere
fn depth(ctx: &mut Ctx) -> R {
    let lengths: Vec<usize> = if ctx.thorough() {
        (1..=40).chain([63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 180]).collect()
    } else {
        (1..=12).chain([16, 17, 18, 31, 32, 33, 34, 50, 64, 65, 66, 100]).collect()
    };
    let n = *ctx.pick(&lengths);
    let fault = ctx.choose(FAULTS);
    let at = match (fault, ctx.thorough()) {
        (0, _) => 0,
        (_, true) => ctx.choose(n),
        _ => {
            let mut places: Vec<usize> = (0..n).filter(|i| *i < 3 || n - *i < 4 || i % 8 == 0).collect();
            places.dedup();
            *ctx.pick(&places)
        }
    };
    let mut w = World::new();
    for level in 0..n {
        let proofs = if level == 0 { vec![] } else { vec![level - 1] };
        let f = if level == at { fault } else { 0 };
        flawed(&mut w, f, level as u8, level as u8 + 1, proofs);
    }
    w.judge(ctx)
}

/// Many proofs of one token, of which one is at fault
fn width(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(if ctx.thorough() {
        &[3, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300][..]
    } else {
        &[3, 8, 9, 16, 17, 33, 65, 129, 257][..]
    });
    let fault = ctx.choose(FAULTS);
    let at = match (fault, ctx.thorough() && n <= 129) {
        (0, _) => 0,
        (_, true) => ctx.choose(n),
        _ => {
            let mut places: Vec<usize> = [0, 1, n / 2, n - 2, n - 1, 8, 16, 32, 64, 128, 255, 256]
                .into_iter()
                .filter(|i| *i < n)
                .collect();
            places.sort();
            places.dedup();
            *ctx.pick(&places)
        }
    };
    // the same proof twice, with everything in between
    let again = ctx.choose(2) == 1;
    // the faulty proof itself, or the one proof of it
    let below = ctx.choose(2) == 1;
    let mut w = World::new();
    let mut cites = vec![];
    for k in 0..n {
        let iss = 1 + (k % 100) as u8;
        let f = if k == at { fault } else { 0 };
        let i = if below && k == at {
            let leaf = flawed(&mut w, f, iss + 100, iss, vec![]);
            flawed(&mut w, 0, iss, 240, vec![leaf])
        } else {
            flawed(&mut w, f, iss, 240, vec![])
        };
        cites.push(i);
    }
    if again {
        cites.push(cites[at]);
        cites.insert(0, cites[n - 1]);
    }
    flawed(&mut w, 0, 240, 241, cites);
    w.judge(ctx)
}

/// Indices about the limits of the integer types, with few and with many proofs
fn limits(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(&[0usize, 1, 2, 3, 255, 256, 257, 300]);
    let mut around: Vec<u128> = vec![];
    for bits in [7, 8, 15, 16, 31, 32, 63, 64, 65, 127] {
        let b = 1u128 << bits;
        around.extend([b - 1, b, b + 1, b + 2]);
    }
    around.extend([n as u128, n as u128 + 1]);
    around.extend((n as u128).checked_sub(1));
    let k = *ctx.pick(&around);
    let mut w = World::new();
    for p in 0..n {
        w.add(Tok::new((p % 100) as u8, 120), vec![], 0, Stored::Yes, Cited::Plain);
    }
    let mut top = Tok::new(120, 121);
    if ctx.choose(2) == 1 {
        top.claim("prf:0", "ucan/DELEGATE", json!({}));
    }
    if ctx.choose(2) == 1 {
        top.claim("prf:*", "ucan/DELEGATE", json!({}));
    }
    top.claim(&format!("prf:{k}"), "ucan/DELEGATE", json!({}));
    w.add(top, (0..n).collect(), 0, Stored::Yes, Cited::Plain);
    w.judge(ctx)
}

/// Redelegated indices against the number of proofs
fn indices(ctx: &mut Ctx) -> R {
    let mut w = World::new();
    let n = ctx.choose(ctx.by_tier(8, 13));
    for k in 0..n {
        let tok = Tok::new(10 + k as u8, 1);
        w.add(tok, vec![], 0, Stored::Yes, Cited::Plain);
    }
    let mut top = Tok::new(1, 2);
    for _ in 0..2 {
        let i = ctx.choose(ctx.by_tier(10, 15) + 4);
        let r = match i {
            0 => continue,
            1 => "prf:*".to_string(),
            2 => "prf:18446744073709551615".to_string(),
            3 => "prf:-1".to_string(),
            k => format!("prf:{}", k - 4),
        };
        top.claim(&r, "ucan/DELEGATE", json!({}));
    }
    w.add(top, (0..n).collect(), 0, Stored::Yes, Cited::Plain);
    w.judge(ctx)
}

/// Proofs cited, and stored, under every hash function
fn hashes(ctx: &mut Ctx) -> R {
    let mut store = MapStore::default();
    let mut below: Option<String> = None;
    let mut expected = true;
    let mut said = vec![];
    for level in 0..3u8 {
        let mut t = Tok::new(level, level + 1);
        t.claim("app:/a", "app/read", json!({}));
        if let Some(text) = &below {
            let h = *ctx.pick(&CODES);
            let cid = cid_with(text.as_bytes(), h);
            let form = ctx.choose(4);
            t.cite(match form {
                0 => cid.to_string(),
                1 => format!("z{}", bs58::encode(cid.to_bytes()).into_string()),
                2 => format!("u{}", B64.encode(cid.to_bytes())),
                _ => cid.to_bytes().iter().fold("f".to_string(), |s, b| format!("{s}{b:02x}")),
            });
            // there, or only under another hash, or under another codec
            let there = if level == 1 { 0 } else { ctx.choose(3) };
            let at = match there {
                0 => cid,
                1 => cid_with(text.as_bytes(), if h == CODES[0] { CODES[1] } else { CODES[0] }),
                _ => Cid::new_v1(0x71, *cid.hash()),
            };
            expected &= there == 0;
            store.map.insert(at.to_bytes(), text.as_bytes().to_vec());
            said.push(format!("{h:?} in form {form}, stored {there}"));
        }
        below = Some(t.text());
    }
    let Some(top) = below else {
        return Err(Fail::Prune);
    };
    ctx.state(&(&top, &store.map));
    ctx.log(|| format!("{said:?}; legitimate: {expected}"));
    ctx.op();
    let got = run(ProofChain::try_from_token_string(&top, Some(T), &mut parser(), &store))?;
    ensure!(
        got.is_ok() == expected,
        "accepted: {}; expected {expected}: {:?}",
        got.is_ok(),
        got.err().map(|e| format!("{e:#}"))
    );
    ctx.outcome(if expected { "accepted" } else { "refused" });
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "hashes",
            bounds: "three levels; either proof cited under each of 15 hash functions in 4 text forms; the second also stored only under another hash or codec",
            devs: (0, 0),
            run: hashes,
        },
        Harness {
            name: "chains",
            bounds: "chains of 1..5 (thorough 1..6) tokens with every set of <=2 (thorough 3) of 45 defects or variations per token (signature, audience, bounds, storage, citation, redelegation, and what has no part in it)",
            devs: (2, 3),
            run: chains,
        },
        Harness {
            name: "trees",
            bounds: "a token with 2..3 proofs of which each has 0..2 proofs, with every set of <=2 defects or variations",
            devs: (1, 2),
            run: trees,
        },
        Harness {
            name: "windows",
            bounds: "three levels, each with 4 not-before times x 4 expirations, verified at a chosen time or at the clock's",
            devs: (0, 0),
            run: windows,
        },
        Harness {
            name: "shared",
            bounds: "two proofs shared by two citing tokens with 2 issuers and 9 periods each, in 5 citation patterns",
            devs: (0, 0),
            run: shared,
        },
        Harness {
            name: "depth",
            bounds: "chains of every length 1..12 and 12 lengths to 100 (thorough 1..40 and 12 lengths to 180), sound or with one of 12 faults at every position (quick: the ends and every eighth)",
            devs: (0, 0),
            run: depth,
        },
        Harness {
            name: "width",
            bounds: "3..257 (thorough 3..300) proofs of one token, sound or with one of 12 faults in one of them or below one of them (thorough: each one up to 129 proofs, else the first, last, and those about powers of two), each proof once or two of them twice",
            devs: (0, 0),
            run: width,
        },
        Harness {
            name: "limits",
            bounds: "0..300 proofs with a redelegated index about the number of proofs and about 10 powers of two (7..127 bits), alone or beside index 0 and *",
            devs: (0, 0),
            run: limits,
        },
        Harness {
            name: "people",
            bounds: "1..3 (thorough 1..4) tokens, in a chain or all but the last side by side, each from any of 3 people to any of them, the last one forged or not",
            devs: (0, 0),
            run: people,
        },
        Harness {
            name: "key_types",
            bounds: "1..3 (thorough 1..4) tokens, in a chain or side by side, of any keys of 5 types, sound or with one of 2 faults in any of them",
            devs: (0, 0),
            run: key_types,
        },
        Harness {
            name: "almost",
            bounds: "chains of 2..3 (thorough 2..5) tokens, any one proof for one of 70 audiences that look much like the issuer of the next (fragments, queries, paths, blanks, case, other methods, ...) or for that issuer, alone or beside a proof for that issuer",
            devs: (0, 0),
            run: almost,
        },
        Harness {
            name: "indices",
            bounds: "0..7 (thorough 12) proofs with every pair of redelegations of an index 0..9 (thorough 14), *, the largest or a malformed index",
            devs: (0, 0),
            run: indices,
        },
    ]
}
