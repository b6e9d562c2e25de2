//! C17: the in-memory store against a map of maps.
use crate::{
    engine::{Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    world::{cid_with, Tok, CODES},
};
use cid::{
    multihash::{Code, Multihash, MultihashDigest},
    Cid,
};
use libipld_core::ipld::Ipld;
use std::{collections::BTreeMap, sync::OnceLock};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};

fn all_contents() -> &'static Vec<Vec<u8>> {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        vec![
            b"a".to_vec(),
            vec![],
            Tok::new(0, 1).text().into_bytes(),
            vec![0xff, 0x00, 0xfe],
            "é\u{1f600}\n\u{0}".as_bytes().to_vec(),
            b"a\xc3".to_vec(),
            vec![b'x'; 100_000],
        ]
    })
}

/// The identifier under which each content is stored, and similar ones
fn identifiers() -> &'static Vec<(Cid, Vec<Cid>)> {
    static C: OnceLock<Vec<(Cid, Vec<Cid>)>> = OnceLock::new();
    C.get_or_init(|| {
        all_contents()
            .iter()
            .map(|c| {
                let own = cid_with(c, Code::Blake3_256);
                let digest = own.hash().digest().to_vec();
                let mut other: Vec<Cid> = CODES[1..].iter().map(|h| cid_with(c, *h)).collect();
                other.extend([
                    Cid::new_v1(0x71, Code::Blake3_256.digest(c)),
                    Cid::new_v1(0x70, Code::Blake3_256.digest(c)),
                    Cid::new_v1(0x0129, Code::Blake3_256.digest(c)),
                    Cid::new_v1(0x00, Code::Blake3_256.digest(c)),
                ]);
                if let Ok(c) = Cid::new_v0(Code::Sha2_256.digest(c)) {
                    other.push(c);
                }
                // the digest cut short, under other hashes, and the content itself
                for (code, d) in [
                    (0x1e, &digest[..20]),
                    (0x12, &digest[..]),
                    (0x00, &digest[..]),
                    (0x00, &c[..c.len().min(60)]),
                ] {
                    if let Ok(h) = Multihash::wrap(code, d) {
                        other.push(Cid::new_v1(0x55, h));
                    }
                }
                let mut flipped = digest.clone();
                flipped[31] ^= 1;
                if let Ok(h) = Multihash::wrap(0x1e, &flipped) {
                    other.push(Cid::new_v1(0x55, h));
                }
                (own, other)
            })
            .collect()
    })
}

type Model = BTreeMap<usize, ()>;

/// Everything that can be read from a handle
fn observe(s: &MemoryStore, m: &Model) -> R {
    for (i, content) in all_contents().iter().enumerate() {
        let (own, others) = &identifiers()[i];
        let there = m.contains_key(&i);
        let raw = run(s.read::<Ipld>(own))?;
        let text = run(s.read_token(own))?;
        let required = run(s.require_token(own))?;
        if there {
            ensure!(
                matches!(&raw, Ok(Some(Ipld::Bytes(b))) if b == content),
                "content {i} is read as {raw:?}"
            );
            let bytes = run(s.read::<Box<[u8]>>(own))?;
            ensure!(
                matches!(&bytes, Ok(Some(b)) if **b == content[..]),
                "content {i} is read as the bytes {bytes:?}"
            );
            match std::str::from_utf8(content) {
                Ok(t) => {
                    ensure!(
                        matches!(&text, Ok(Some(got)) if got == t),
                        "content {i} is read as the token {text:?}"
                    );
                    ensure!(
                        matches!(&required, Ok(got) if got == t),
                        "content {i} is read as the required token {required:?}"
                    );
                }
                Err(_) => ensure!(
                    text.is_err() && required.is_err(),
                    "content that is not text is read as the token {text:?}, {required:?}"
                ),
            }
            // the identifier read from its text or bytes
            for c in [
                Cid::try_from(own.to_string()).ok(),
                Cid::try_from(own.to_bytes()).ok(),
            ] {
                let c = c.ok_or_else(|| Fail::Machine("an identifier is not read".into()))?;
                let again = run(s.read::<Ipld>(&c))?;
                ensure!(
                    matches!(&again, Ok(Some(Ipld::Bytes(b))) if b == content),
                    "content {i} is read as {again:?}"
                );
            }
        } else {
            ensure!(
                matches!(&raw, Ok(None)),
                "content {i}, which was not written, is read as {raw:?}"
            );
            ensure!(
                !matches!(&text, Ok(Some(_))) && required.is_err(),
                "content {i}, which was not written, is read as {text:?}, {required:?}"
            );
        }
        for c in others {
            let raw = run(s.read::<Ipld>(c))?;
            let text = run(s.read_token(c))?;
            let required = run(s.require_token(c))?;
            ensure!(
                !matches!(&raw, Ok(Some(_))) && !matches!(&text, Ok(Some(_))) && required.is_err(),
                "{c} is not the identifier of anything written, but read as {raw:?}"
            );
            ensure!(
                c.codec() == 0x55 || text.is_err(),
                "an identifier of codec {:#x} is accepted for a token",
                c.codec()
            );
        }
    }
    Ok(())
}

fn write(s: &mut MemoryStore, how: usize, i: usize) -> R<bool> {
    let content = all_contents()[i].clone();
    let own = identifiers()[i].0;
    let r = match how {
        0 => match std::str::from_utf8(&content) {
            Ok(t) => run(s.write_token(t))?,
            Err(_) => return Ok(false),
        },
        1 => run(s.write(Ipld::Bytes(content)))?,
        2 => run(s.write(content.into_boxed_slice()))?,
        _ => run(s.write(content))?,
    };
    ensure!(
        matches!(&r, Ok(c) if *c == own && c.to_bytes() == own.to_bytes()),
        "writing content {i} gives {r:?} instead of {own}"
    );
    Ok(true)
}

fn histories(ctx: &mut Ctx, few: bool) -> R {
    let n = if few { ctx.by_tier(4, 5) } else { ctx.by_tier(2, 3) };
    let contents: usize = if few { 3 } else { all_contents().len() };
    let ways = if few { 2 } else { 4 };
    let mut models: Vec<Model> = vec![Model::new()];
    let mut handles: Vec<Option<(MemoryStore, usize)>> = vec![Some((MemoryStore::default(), 0))];
    let mut seen = vec![];
    for _ in 0..n {
        let alive: Vec<usize> = (0..handles.len()).filter(|h| handles[*h].is_some()).collect();
        let per = contents * ways + 3;
        let k = ctx.choose(1 + alive.len() * per);
        seen.push(k);
        if k == 0 {
            ctx.log(|| "a new store".into());
            models.push(Model::new());
            handles.push(Some((MemoryStore::default(), models.len() - 1)));
        } else {
            let h = alive[(k - 1) / per];
            let op = (k - 1) % per;
            ctx.op();
            if op < contents * ways {
                let (i, how) = (op / ways, op % ways);
                ctx.log(|| format!("write content {i} by handle {h}, in way {how}"));
                if let Some((s, m)) = &mut handles[h] {
                    if !write(s, how, i)? {
                        return Err(Fail::Prune);
                    }
                    models[*m].insert(i, ());
                }
            } else if op == contents * ways {
                ctx.log(|| format!("clone handle {h}"));
                let c = handles[h].clone();
                handles.push(c);
            } else if op == contents * ways + 1 {
                ctx.log(|| format!("drop handle {h}"));
                handles[h] = None;
                if handles.iter().all(|h| h.is_none()) {
                    return Err(Fail::Prune);
                }
            } else {
                ctx.log(|| format!("write what is not bytes by handle {h}"));
                if let Some((s, _)) = &mut handles[h] {
                    for v in [
                        Ipld::String("a".into()),
                        Ipld::Null,
                        Ipld::Integer(1),
                        Ipld::List(vec![Ipld::Bytes(b"a".to_vec())]),
                    ] {
                        let r = run(s.write(v.clone()))?;
                        ensure!(r.is_err(), "{v:?} is written under {r:?}");
                    }
                }
            }
        }
        for h in handles.iter().flatten() {
            ctx.op();
            observe(&h.0, &models[h.1])?;
        }
    }
    ctx.state(&seen);
    ctx.outcome("as the model");
    Ok(())
}

fn small(ctx: &mut Ctx) -> R {
    histories(ctx, true)
}
fn wide(ctx: &mut Ctx) -> R {
    histories(ctx, false)
}

/// Many contents at once
fn many(ctx: &mut Ctx) -> R {
    let n = [0usize, 1, 2, 3, 7, 8, 14, 15, 28, 29, 56, 57, 112, 113, 1000, 5000][ctx.choose(ctx.by_tier(15, 16))];
    let two = ctx.flag();
    let again = ctx.flag();
    ctx.state(&(n, two, again));
    ctx.log(|| format!("{n} tokens, by two handles: {two}, written again: {again}"));
    let mut a = MemoryStore::default();
    let mut b = if two { a.clone() } else { MemoryStore::default() };
    let text = |i: usize| format!("token {i}");
    for _ in 0..1 + again as usize {
        for i in 0..n {
            ctx.op();
            let t = text(i);
            let s = if i % 2 == 0 { &mut a } else { &mut b };
            let c = run(s.write_token(&t))?;
            ensure!(
                c.as_ref().ok() == Some(&cid_with(t.as_bytes(), Code::Blake3_256)),
                "token {i} is written under {c:?}"
            );
        }
    }
    for i in 0..n + 1 {
        ctx.op();
        let t = text(i);
        let c = cid_with(t.as_bytes(), Code::Blake3_256);
        for (s, own) in [(&a, i % 2 == 0), (&b, i % 2 == 1)] {
            let got = run(s.read_token(&c))?;
            if i < n && (two || own) {
                ensure!(
                    matches!(&got, Ok(Some(g)) if *g == t),
                    "token {i} of {n} is read as {got:?}"
                );
            } else {
                ensure!(
                    !matches!(&got, Ok(Some(_))),
                    "token {i} of {n}, not written to this store, is read as {got:?}"
                );
            }
        }
    }
    ctx.outcome("as the model");
    Ok(())
}

/// Contents of every size among many small ones, written first, last or in
/// the middle, and read back by every handle
fn sizes(ctx: &mut Ctx) -> R {
    let mut all: Vec<usize> = vec![0, 1, 31, 32, 33, 63, 64, 65];
    for bits in [8, 10, 12, 14, 15, 16, 17, 18, 20, 21] {
        let b = 1usize << bits;
        all.extend([b - 1, b, b + 1]);
    }
    all.extend([100_000, 1_000_000, 4_000_000]);
    if ctx.thorough() {
        all.extend([10_000_000, (1 << 24) + 1, (1 << 26) + 1]);
    }
    let size = *ctx.pick(&all);
    // how many of that size, and how many small ones about them
    let big = [1usize, 2, 40][ctx.choose(3)];
    let small = [0usize, 1, 100, 1100, 5000, 20_000, 70_000, 300_000][ctx.choose(ctx.by_tier(7, 8))];
    if size * big > ctx.by_tier(20_000_000, 200_000_000) || (size > 2_000_000 && small > 5000) {
        return Err(Fail::Prune);
    }
    // the largest numbers about few sizes
    if small > 20_000 && (size > 0 || big > 1) && (small > 70_000 || !ctx.thorough()) {
        return Err(Fail::Prune);
    }
    let when = ctx.choose(3);
    ctx.log(|| format!("{big} of {size} bytes among {small} small ones, at {when}"));
    ctx.state(&(size, big, small, when));
    let mut s = MemoryStore::default();
    let other = s.clone();
    let of = |i: usize| {
        // starts with its number, unless there is no room
        let mut t = format!("{i:08} ").repeat(1 + size / 9);
        t.truncate(size);
        t
    };
    let mut kept: Vec<(Cid, String)> = vec![];
    let mut put = |s: &mut MemoryStore, t: String| -> R {
        let c = run(s.write_token(&t))?;
        let own = cid_with(t.as_bytes(), Code::Blake3_256);
        ensure!(
            matches!(&c, Ok(c) if *c == own),
            "a token of {} bytes is written under {c:?}",
            t.len()
        );
        kept.push((own, t));
        Ok(())
    };
    let at = [0, small / 2, small][when];
    for i in 0..small + 1 {
        if i == at {
            for b in 0..big {
                put(&mut s, of(b))?;
            }
        }
        if i < small {
            put(&mut s, format!("small {i}"))?;
        }
    }
    ctx.ops(kept.len());
    for (c, t) in &kept {
        for h in [&s, &other] {
            let got = run(h.require_token(c))?;
            ensure!(
                matches!(&got, Ok(g) if g == t),
                "a token of {} bytes, written with {} others, is read as {:?}",
                t.len(),
                kept.len() - 1,
                got.map(|g| g.len())
            );
        }
    }
    ctx.outcome("as the model");
    Ok(())
}

pub fn harnesses() -> Vec<Harness> {
    vec![
        Harness {
            name: "sizes",
            bounds: "1, 2 or 40 tokens of each of 41 (thorough 44) sizes from 0 to 4 MB (thorough 64 MB), before, among or after 0..20000 small ones (70000 and, thorough, 300000 about empty ones), all read back by two handles",
            devs: (0, 0),
            run: sizes,
        },
        Harness {
            name: "small",
            bounds: "every sequence of 4 (thorough 5) operations: writes of 3 contents in 2 ways by any handle, refused writes, clones, drops, new stores; after each, everything is read by every handle under every identifier and 14 similar ones",
            devs: (0, 0),
            run: small,
        },
        Harness {
            name: "wide",
            bounds: "the same with 2 (thorough 3) operations on 7 contents in 4 ways",
            devs: (0, 0),
            run: wide,
        },
        Harness {
            name: "many",
            bounds: "up to 1000 (thorough 5000) tokens, by one or two handles, once or twice",
            devs: (0, 0),
            run: many,
        },
    ]
}
