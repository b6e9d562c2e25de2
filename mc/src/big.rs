//! Tokens that are large in one respect.
use crate::{
    engine::Ctx,
    world::{cid_of, Tok},
};
use serde_json::{json, Map, Value};

/// Lengths about powers of two, from 2^from to 2^to
pub fn about(from: u32, to: u32) -> Vec<usize> {
    let mut out = vec![];
    for k in from..=to {
        for n in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
            out.push(n);
        }
    }
    out
}

/// Counts at which encodings change their form, and others
pub fn counts(thorough: bool) -> Vec<usize> {
    let mut out = vec![9, 10, 11, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300];
    if thorough {
        out.extend([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097]);
    }
    out
}

/// The bounds of `big`, for descriptions
#[macro_export]
macro_rules! large {
    ($how:literal) => {
        concat!(
            "tokens large in one respect (9 texts with lengths about every power of two from 2^5 to 2^18 (thorough 2^20) in 4 scripts, 7 lists of 25 (thorough 37) lengths up to 300 (4097), 2 places nested up to 100 deep in lists or maps), ",
            $how
        )
    };
}

const LONG: [&str; 9] = [
    "audience", "text of a fact", "name in a fact", "name of a fact", "resource", "ability", "text in a caveat",
    "name in a caveat", "several texts",
];
const MANY: [&str; 7] = [
    "facts", "items in a fact", "names in a fact", "resources", "abilities", "caveats", "proofs",
];

/// A token that is large in one respect; the rest of it holds a little of everything
pub fn big(ctx: &mut Ctx, top: (u32, u32)) -> (Tok, String) {
    let mut t = Tok::new(0, 0);
    t.aud = "did:web:example.com".into();
    t.exp = Some(1_700_000_001);
    let mut facts = Map::new();
    facts.insert("m".into(), json!({"x": [1, "é"]}));
    let what;
    match ctx.choose(3) {
        0 => {
            let kind = ctx.choose(LONG.len());
            let fill = *ctx.pick(&["x", "é", "\"", "\u{1f600}"]);
            let sizes = about(5, ctx.by_tier(top.0, top.1));
            // as many bytes as that, or as many after which it is one byte long
            let n = *ctx.pick(&sizes);
            let s = fill.repeat(n / fill.len()) + &"y".repeat(n % fill.len());
            what = format!("{} of {n} bytes ({fill:?})", LONG[kind]);
            let mut caveat = json!({});
            let (mut r, mut a) = ("app:/a".to_string(), "app/read".to_string());
            match kind {
                0 => t.aud = format!("did:web:{s}"),
                1 => {
                    facts.insert("l".into(), json!(s));
                }
                2 => {
                    facts.insert("l".into(), json!({ s: 1 }));
                }
                3 => {
                    facts.insert(s, json!(1));
                }
                4 => r = format!("app:/{s}"),
                5 => a = format!("app/{s}"),
                6 => caveat = json!({ "n": s }),
                7 => caveat = json!({ s: 1 }),
                _ => {
                    facts.insert("l".into(), json!([s, s]));
                    r = format!("app:/{s}");
                    caveat = json!({ "n": s });
                }
            }
            t.claim("app:/0", "app/read", json!({}));
            t.claim(&r, &a, caveat);
        }
        1 => {
            let kind = ctx.choose(MANY.len());
            let n = *ctx.pick(&counts(ctx.thorough()));
            what = format!("{n} {}", MANY[kind]);
            match kind {
                0 => facts.extend((0..n).map(|i| (format!("k{i}"), json!(i)))),
                1 => {
                    facts.insert("l".into(), (0..n).map(|i| json!(i)).collect());
                }
                2 => {
                    let o: Map<String, Value> = (0..n).map(|i| (format!("{i}"), json!(i))).collect();
                    facts.insert("l".into(), Value::Object(o));
                }
                3 => (0..n).for_each(|i| t.claim(&format!("app:/{i}"), "app/read", json!({}))),
                4 => (0..n).for_each(|i| t.claim("app:/a", &format!("app/{i}"), json!({}))),
                5 => (0..n).for_each(|i| t.claim("app:/a", "app/read", json!({ "n": i }))),
                _ => (0..n).for_each(|i| t.cite(cid_of(&i.to_string()).to_string())),
            }
        }
        _ => {
            let n = *ctx.pick(&[8, 16, 31, 32, 33, 63, 64, 65, 80, 100]);
            let arrays = ctx.flag();
            let kind = ctx.choose(2);
            what = format!("{n} levels of {} in a {}", if arrays { "lists" } else { "maps" }, ["fact", "caveat"][kind]);
            let mut v = json!("x");
            for _ in 0..n {
                v = if arrays { json!([v]) } else { json!({ "k": v }) };
            }
            if kind == 0 {
                facts.insert("l".into(), v);
            } else {
                t.claim("app:/a", "app/read", json!({ "n": v }));
            }
        }
    }
    t.fct = Some(facts);
    ctx.state(&what);
    ctx.log(|| what.clone());
    (t, what)
}
