//! C14: when one capability enables another.
//! C15: collections of capabilities.
//! C16: how resources and abilities are read and rendered.
use crate::{
    engine::{bad, Ctx, Fail, Harness, R},
    ensure,
    exec::run,
    jsons,
    sem::{caveat_allows, of_view, Act, AppSemantics, Kind, PathScope, RCap, View, ABILITIES},
    world::{canon, near, sign_text, Tok, ToyKey, B64},
};
use base64::Engine;
use serde_json::{json, Map, Value};
use std::{cell::RefCell, collections::BTreeMap, sync::OnceLock};
use ucan::{
    builder::Signable,
    capability::{
        proof::{ProofAction, ProofDelegationSemantics, ProofSelection},
        Ability, Capabilities, Capability, CapabilitySemantics, CapabilityView, Caveat, Resource,
        ResourceUri, Scope,
    },
    ipld::UcanIpld,
    serde::DagJson,
    Ucan,
};
use url::Url;

// ---------------------------------------------------------------------------
// C14

const DIDS: [&str; 3] = ["did:key:zA", "did:key:zAB", "did:key:za"];
const PATHS: [&str; 6] = ["/", "/a", "/a/b", "/ab", "/b", "/A"];

fn caveats() -> Vec<Value> {
    vec![
        json!({}),
        json!({"x": 1}),
        json!({"x": 2}),
        json!({"y": 1}),
        json!({"x": 1, "y": 1}),
        json!({"x": null}),
        json!({"x": {}}),
        json!({"x": {"a": 1}}),
        json!({"x": {"a": 1, "b": 2}}),
        json!({"x": "1"}),
        json!({"x": [1]}),
        json!({"x": 1.0}),
        json!({"X": 1}),
        json!({"": 1}),
        json!([]),
        json!([{}]),
        json!(null),
        json!(""),
        json!(0),
        json!(false),
    ]
}

fn resource(kind: &Kind, path: Option<&str>) -> Resource<PathScope> {
    let uri = match path {
        None => ResourceUri::Unscoped,
        Some(p) => ResourceUri::Scoped(PathScope(p.into())),
    };
    match kind {
        Kind::Plain => Resource::Resource { kind: uri },
        Kind::My => Resource::My { kind: uri },
        Kind::As(did) => Resource::As {
            did: did.clone(),
            kind: uri,
        },
    }
}

fn views() -> &'static Vec<(View, RCap)> {
    static V: OnceLock<Vec<(View, RCap)>> = OnceLock::new();
    V.get_or_init(|| {
        let mut all = vec![];
        let mut kinds = vec![Kind::Plain, Kind::My];
        kinds.extend(DIDS.map(|d| Kind::As(d.into())));
        for kind in &kinds {
            for path in std::iter::once(None).chain(PATHS.iter().map(|p| Some(*p))) {
                for (ability, act) in [Act::Read, Act::Write, Act::Admin].into_iter().enumerate() {
                    for caveat in caveats() {
                        let r = RCap {
                            kind: kind.clone(),
                            path: path.map(String::from),
                            ability,
                            caveat: caveat.clone(),
                        };
                        all.push((View::new_with_caveat(resource(kind, path), act, caveat), r));
                    }
                }
            }
        }
        all
    })
}

fn pairs(ctx: &mut Ctx) -> R {
    let i = ctx.choose(views().len());
    let (v, r) = &views()[i];
    ctx.state(&i);
    ctx.log(|| format!("{} against every other", r.show()));
    for (j, (w, s)) in views().iter().enumerate() {
        ctx.op();
        let got = v.enables(w);
        ensure!(
            got == r.enables(s),
            "{} {} {}",
            r.show(),
            if got { "enables" } else { "does not enable" },
            s.show()
        );
        ensure!(
            i != j || got == r.caveat.is_object(),
            "{} does not enable itself",
            r.show()
        );
        ensure!(
            (v == w) == (r == s),
            "{} and {}: equality is wrong",
            r.show(),
            s.show()
        );
    }
    ctx.outcome("as the reference");
    Ok(())
}

fn rows() -> &'static Vec<Vec<u64>> {
    static M: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
    M.get_or_init(|| {
        views()
            .iter()
            .map(|(v, _)| {
                let mut row = vec![0u64; views().len().div_ceil(64)];
                for (j, (w, _)) in views().iter().enumerate() {
                    if v.enables(w) {
                        row[j / 64] |= 1 << (j % 64);
                    }
                }
                row
            })
            .collect()
    })
}

fn triples(ctx: &mut Ctx) -> R {
    let i = ctx.choose(views().len());
    ctx.state(&i);
    ctx.log(|| format!("{} and what it enables", views()[i].1.show()));
    let m = rows();
    for j in 0..views().len() {
        if m[i][j / 64] >> (j % 64) & 1 == 0 {
            continue;
        }
        ctx.op();
        for (x, y) in m[j].iter().zip(&m[i]) {
            ensure!(
                x & !y == 0,
                "{} enables {}, but not all that it enables",
                views()[i].1.show(),
                views()[j].1.show()
            );
        }
    }
    ctx.outcome("transitive");
    Ok(())
}

/// All caveats over a few keys and values
fn all_caveats(ctx: &mut Ctx) -> R {
    let values = [
        None,
        Some(json!(1)),
        Some(json!(2)),
        Some(json!(null)),
        Some(json!({})),
        Some(json!([])),
        Some(json!("1")),
        Some(json!({"x": 1})),
    ];
    let keys = ["x", "y", "xy"];
    let n = ctx.by_tier(6, 8);
    let mut all: Vec<Map<String, Value>> = vec![];
    for a in 0..n * n * n {
        let mut m = Map::new();
        for (k, i) in keys.iter().zip([a % n, a / n % n, a / n / n]) {
            if let Some(v) = &values[i] {
                m.insert(k.to_string(), v.clone());
            }
        }
        all.push(m);
    }
    let a = Value::Object(all[ctx.choose(all.len())].clone());
    ctx.state(&a.to_string());
    ctx.log(|| format!("{a} against every other"));
    let ca = Caveat::try_from(&a).map_err(|e| Fail::Violation(format!("not a caveat: {e}")))?;
    let v = View::new_with_caveat(resource(&Kind::My, None), Act::Write, a.clone());
    for b in all {
        ctx.op();
        let b = Value::Object(b);
        let cb = Caveat::try_from(b.clone())
            .map_err(|e| Fail::Violation(format!("not a caveat: {e}")))?;
        let w = View::new_with_caveat(resource(&Kind::My, None), Act::Write, b.clone());
        let expected = caveat_allows(&a, &b);
        let got = (ca.enables(&cb), v.enables(&w));
        ensure!(got == (expected, expected), "caveats {a} and {b}: {got:?}");
        ensure!((ca == cb) == (a == b), "caveats {a} and {b}: equality is wrong");
    }
    for c in caveats() {
        ensure!(
            Caveat::try_from(&c).is_ok() == c.is_object(),
            "{c} as a caveat"
        );
    }
    ctx.outcome("as the reference");
    Ok(())
}

/// Under one key, only an equal value is allowed
fn values(ctx: &mut Ctx) -> R {
    static V: OnceLock<Vec<Value>> = OnceLock::new();
    let deep = ctx.thorough();
    let all = V.get_or_init(|| jsons::resembling(deep));
    let a = &all[ctx.choose(all.len())];
    let shape = ctx.choose(3);
    let wrap = |v: &Value| match shape {
        0 => json!({ "x": v }),
        1 => json!({"x": v, "y": 1}),
        _ => json!({"w": {"x": v}, "x": v}),
    };
    let x = wrap(a);
    ctx.state(&x.to_string());
    ctx.log(|| format!("{x} against every other"));
    let cx = Caveat::try_from(&x).map_err(|e| Fail::Violation(format!("not a caveat: {e}")))?;
    let v = View::new_with_caveat(resource(&Kind::My, None), Act::Write, x.clone());
    for b in all {
        // what is allowed may also say more
        for more in [false, true] {
            let mut y = wrap(b);
            if more {
                y["z"] = a.clone();
            }
            ctx.op();
            let cy = Caveat::try_from(&y)
                .map_err(|e| Fail::Violation(format!("not a caveat: {e}")))?;
            let w = View::new_with_caveat(resource(&Kind::My, None), Act::Write, y.clone());
            let expected = caveat_allows(&x, &y);
            let got = (cx.enables(&cy), v.enables(&w));
            ensure!(got == (expected, expected), "caveats {x} and {y}: {got:?}");
        }
    }
    ctx.outcome("as the reference");
    Ok(())
}

thread_local! {
    static TABLE: RefCell<u32> = const { RefCell::new(0) };
}

/// A scope whose containment is any relation at all
#[derive(Clone, PartialEq, Eq, Debug)]
struct AnyScope(usize);
impl Scope for AnyScope {
    fn contains(&self, other: &Self) -> bool {
        TABLE.with(|t| *t.borrow() >> (self.0 * 3 + other.0) & 1 == 1)
    }
}
impl ToString for AnyScope {
    fn to_string(&self) -> String {
        format!("any:{}", self.0)
    }
}
impl TryFrom<Url> for AnyScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        Ok(AnyScope(u.path().parse()?))
    }
}

fn relations(ctx: &mut Ctx) -> R {
    let table = ctx.choose(512) as u32;
    TABLE.with(|t| *t.borrow_mut() = table);
    ctx.state(&table);
    ctx.log(|| format!("containment {table:#b}"));
    let mut all: Vec<(u8, Option<usize>, Resource<AnyScope>)> = vec![];
    for kind in 0..4u8 {
        for scope in [None, Some(0), Some(1), Some(2)] {
            let uri = match scope {
                None => ResourceUri::Unscoped,
                Some(i) => ResourceUri::Scoped(AnyScope(i)),
            };
            all.push((
                kind,
                scope,
                match kind {
                    0 => Resource::Resource { kind: uri },
                    1 => Resource::My { kind: uri },
                    n => Resource::As {
                        did: DIDS[n as usize - 2].into(),
                        kind: uri,
                    },
                },
            ));
        }
    }
    for (k, s, r) in &all {
        for (l, t, o) in &all {
            let inner = match (s, t) {
                (None, _) => true,
                (Some(_), None) => false,
                (Some(a), Some(b)) => table >> (a * 3 + b) & 1 == 1,
            };
            for (a, b) in [(Act::Read, Act::Read), (Act::Admin, Act::Write), (Act::Read, Act::Write)] {
                ctx.op();
                let v = CapabilityView::new(r.clone(), a);
                let w = CapabilityView::new(o.clone(), b);
                ensure!(
                    v.enables(&w) == (k == l && inner && a >= b),
                    "{v:?} against {w:?}"
                );
            }
            ensure!(
                r.contains(o) == (k == l && inner),
                "{} against {}",
                r.to_string(),
                o.to_string()
            );
        }
    }
    ctx.outcome("as the application says");
    Ok(())
}

fn selections(ctx: &mut Ctx) -> R {
    let all: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2), Some(10), Some(usize::MAX)];
    let show = |i: &Option<usize>| match i {
        None => ProofSelection::All,
        Some(n) => ProofSelection::Index(*n),
    };
    let (a, b) = (*ctx.pick(&all), *ctx.pick(&all));
    ctx.state(&(a, b));
    ctx.log(|| format!("proofs {a:?} and {b:?}"));
    ctx.op();
    let (x, y) = (show(&a), show(&b));
    ensure!(
        x.contains(&y) == (a.is_none() || a == b),
        "proofs {a:?} against {b:?}"
    );
    let v = CapabilityView::new(
        Resource::Resource {
            kind: ResourceUri::Scoped(x),
        },
        ProofAction::Delegate,
    );
    let w = CapabilityView::new(
        Resource::Resource {
            kind: ResourceUri::Scoped(y),
        },
        ProofAction::Delegate,
    );
    ensure!(
        v.enables(&w) == (a.is_none() || a == b),
        "proofs {a:?} against {b:?}"
    );
    ctx.outcome("as the reference");
    Ok(())
}

/// A resource that is someone's contains only resources of exactly that DID
fn dids(ctx: &mut Ctx) -> R {
    static ALL: OnceLock<Vec<String>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let key = "did:key:z6MkhaXgBZDvotDkL5257faiztiGiC2QtKLGpbnnEGta2doK";
        let mut v: Vec<String> = vec![key.into(), "did:key:z".into(), "did:key".into(), "did:".into()];
        v.extend(DIDS.map(String::from));
        v.extend(near(key));
        v.extend(near("did:key:zA"));
        for id in ["a", "*", "_", "-", "me", "my", "as", "any", "anyone", "prf", "%2a", "\0"] {
            v.extend(["", "did:", "did:key:", "did:key:z"].map(|p| format!("{p}{id}")));
        }
        v.extend(["*", "null", "self"].map(String::from));
        v.sort();
        v.dedup();
        v
    });
    let did = &all[ctx.choose(all.len())];
    ctx.state(did);
    ctx.log(|| format!("resources of {did:?} against those of every other"));
    let wanted = |d: &str, path: Option<&str>| resource(&Kind::As(d.into()), path);
    for other in all {
        for path in [None, Some("/"), Some("/a"), Some("")] {
            for inner in [None, Some("/"), Some("/a"), Some("/a/b"), Some("")] {
                for (act, need) in [(Act::Admin, Act::Read), (Act::Read, Act::Admin), (Act::Write, Act::Write)] {
                    ctx.op();
                    let v = View::new(wanted(did, path), act);
                    let w = View::new(wanted(other, inner), need);
                    let covers = match (path, inner) {
                        (None, _) => true,
                        (Some(_), None) => false,
                        (Some(a), Some(b)) => PathScope(a.into()).contains(&PathScope(b.into())),
                    };
                    let expected = did == other && covers && act >= need;
                    ensure!(
                        v.enables(&w) == expected,
                        "{act:?} of {} of {did:?} {} {need:?} of {} of {other:?}",
                        path.unwrap_or("*"),
                        if expected { "does not enable" } else { "enables" },
                        inner.unwrap_or("*")
                    );
                    // and of nobody's, or the issuer's own
                    for kind in [Kind::My, Kind::Plain] {
                        let o = View::new(resource(&kind, inner), need);
                        ensure!(!v.enables(&o), "{did:?}'s resource contains {kind:?}");
                        ensure!(
                            !View::new(resource(&kind, path), act).enables(&w),
                            "{kind:?} contains {other:?}'s resource"
                        );
                    }
                }
            }
        }
        // as read from text, where it is one (C16 reads every text)
        if [did, other].iter().any(|d| !d.chars().all(|c| c.is_ascii_graphic()) || d.matches(':').count() != 2) {
            continue;
        }
        let text = |d: &str| AppSemantics.parse(&format!("as:{d}:*"), ABILITIES[2], None);
        if let (Some(v), Some(w)) = (text(did), text(other)) {
            ensure!(
                v.enables(&w) == (did == other),
                "as:{did}:* and as:{other}:*: {}",
                v.enables(&w)
            );
        }
    }
    ctx.outcome("only one's own");
    Ok(())
}

/// Caveats with many entries and large values
fn large_caveats(ctx: &mut Ctx) -> R {
    let sizes = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025];
    let n = *ctx.pick(&sizes);
    let form = ctx.choose(6);
    // of many parts, the ones near each end and each power of two differ
    let differing: Vec<usize> = (0..n)
        .filter(|i| n < 40 || *i < 3 || n - i < 4 || [*i, i + 1, i - 1].iter().any(|i| i.is_power_of_two()))
        .collect();
    let many = || -> Map<String, Value> { (0..n).map(|i| (format!("k{i:04}"), json!(i))).collect() };
    // a value of `n` parts, of which one can differ
    let big = |at: Option<usize>, with: &Value| -> Value {
        match form {
            1 => Value::String((0..n).map(|i| if Some(i) == at { 'b' } else { 'a' }).collect()),
            2 => (0..n).map(|i| if Some(i) == at { with.clone() } else { json!(7) }).collect(),
            3 => Value::Object(
                (0..n)
                    .map(|i| (format!("k{i:04}"), if Some(i) == at { with.clone() } else { json!(7) }))
                    .collect(),
            ),
            4 => (0..n).fold(json!(0), |v, i| {
                if Some(i) == at { json!({"a": v, "b": with}) } else { json!({ "a": v }) }
            }),
            _ => (0..n).fold(json!(0), |v, i| if Some(i) == at { json!([with, v]) } else { json!([v]) }),
        }
    };
    let mut list: Vec<(Value, String)> = vec![];
    let a = if form == 0 {
        let all = many();
        for i in differing {
            let k = format!("k{i:04}");
            let mut m = all.clone();
            m.insert(k.clone(), json!(i + 1));
            list.push((Value::Object(m.clone()), format!("{k} differs")));
            m.remove(&k);
            list.push((Value::Object(m.clone()), format!("without {k}")));
            m.insert(format!("{k}x"), json!(i));
            list.push((Value::Object(m.clone()), format!("{k} renamed")));
            let mut m = all.clone();
            m.insert(format!("{k}x"), json!(0));
            list.push((Value::Object(m.clone()), format!("more beside {k}")));
            m.insert(k.clone(), json!(null));
            list.push((Value::Object(m), format!("more, and no {k}")));
            list.push((json!({ k.clone(): i }), format!("only {k}")));
        }
        let mut m = all.clone();
        m.extend((0..n).map(|i| (format!("z{i}"), json!(i))));
        list.push((Value::Object(m), "twice as many".into()));
        list.push((Value::Object(all.clone()), "the same".into()));
        Value::Object(all)
    } else {
        for i in differing {
            for (j, with) in [json!(null), json!(8), json!({}), json!("7")].iter().enumerate() {
                if j == 0 || n < 100 {
                    list.push((json!({"x": big(Some(i), with)}), format!("part {i} is {with}")));
                }
            }
        }
        list.push((json!({"x": big(None, &json!(0)), "y": 1}), "one more".into()));
        list.push((json!({"x": big(None, &json!(0))}), "the same".into()));
        json!({"x": big(None, &json!(0))})
    };
    ctx.state(&(n, form));
    ctx.log(|| format!("caveat of {n} parts (form {form})"));
    let ca = Caveat::try_from(&a).map_err(|e| Fail::Violation(format!("not a caveat: {e}")))?;
    let v = View::new_with_caveat(resource(&Kind::My, None), Act::Write, a.clone());
    for (b, what) in list {
        ctx.op();
        let cb = Caveat::try_from(&b).map_err(|e| Fail::Violation(format!("not a caveat: {e}")))?;
        let w = View::new_with_caveat(resource(&Kind::My, None), Act::Write, b.clone());
        for (x, y, p, q, s, t) in [(&ca, &cb, &v, &w, &a, &b), (&cb, &ca, &w, &v, &b, &a)] {
            let expected = caveat_allows(s, t);
            let got = (x.enables(y), p.enables(q));
            ensure!(got == (expected, expected), "{n} parts (form {form}), {what}: {got:?}");
        }
        ensure!((ca == cb) == (a == b), "{n} parts (form {form}), {what}: equality");
    }
    ctx.outcome("as the reference");
    Ok(())
}

pub fn c14() -> Vec<Harness> {
    vec![
        Harness {
            name: "dids",
            bounds: "every pair of about 200 DIDs and texts that look like one, with 4 and 5 scopes, 3 pairs of abilities",
            devs: (0, 0),
            run: dids,
        },
        Harness {
            name: "large_caveats",
            bounds: "caveats of up to 1025 entries, and of values of up to 1025 parts in 5 forms, against those that differ in one part (any of 40, of more the ones near each end and power of two)",
            devs: (0, 0),
            run: large_caveats,
        },
        Harness {
            name: "pairs",
            bounds: "every pair of 2100 capabilities: 5 kinds x 7 paths x 3 abilities x 20 caveats (6 of them not objects)",
            devs: (0, 0),
            run: pairs,
        },
        Harness {
            name: "triples",
            bounds: "every triple of the 2100 capabilities",
            devs: (0, 0),
            run: triples,
        },
        Harness {
            name: "all_caveats",
            bounds: "every pair of caveats over 3 keys and 6 (thorough 8) values each",
            devs: (0, 0),
            run: all_caveats,
        },
        Harness {
            name: "values",
            bounds: "every pair of about 540 (thorough more) caveat values: leaves of every type, lists of up to 3 and objects of up to 2 entries, nested; 3 shapes of the caveat, with and without a further entry",
            devs: (0, 0),
            run: values,
        },
        Harness {
            name: "relations",
            bounds: "every containment relation on 3 scopes, every pair of resources over them",
            devs: (0, 0),
            run: relations,
        },
        Harness {
            name: "selections",
            bounds: "every pair of 6 proof selections",
            devs: (0, 0),
            run: selections,
        },
    ]
}

// ---------------------------------------------------------------------------
// C15

type Nested = BTreeMap<String, BTreeMap<String, Vec<Value>>>;

fn contents(c: &Capabilities) -> Nested {
    (**c).clone()
}

fn violation<E: std::fmt::Display>(what: &str) -> impl FnOnce(E) -> Fail + '_ {
    move |e| Fail::Violation(format!("{what}: {e:#}"))
}

/// Every way in which a collection is read from JSON, with what comes out
fn routes(v: &Value) -> R<Vec<(&'static str, Option<Nested>, Option<Nested>)>> {
    let c = |r: Option<Capabilities>| r.map(|c| contents(&c));
    let text = v.to_string();
    let cbor = serde_ipld_dagcbor::to_vec(v).map_err(|e| Fail::Machine(e.to_string()))?;
    let t = Tok::new(0, 1);
    let mut p = t.payload();
    p["cap"] = v.clone();
    let token = sign_text(
        &format!("{}.{}", B64.encode(canon(&t.header())), B64.encode(canon(&p))),
        &ToyKey::new(0),
    );
    let host = Ucan::try_from(t.text()).map_err(violation("not read"))?;
    let mut ipld = serde_json::to_value(UcanIpld::try_from(&host).map_err(violation("no IPLD form"))?)
        .map_err(violation("not serialised"))?;
    ipld["cap"] = v.clone();
    let ipld_cbor = serde_ipld_dagcbor::to_vec(&ipld).map_err(|e| Fail::Machine(e.to_string()))?;
    let mut value = serde_json::to_value(&host).map_err(violation("not serialised"))?;
    value["payload"]["cap"] = v.clone();
    let read = meaning(v);
    // the CBOR codec itself takes the number 0 for an empty map
    let loose = serde_ipld_dagcbor::from_slice::<Nested>(&cbor)
        .ok()
        .filter(|n| n.values().all(|a| !a.is_empty() && a.values().flatten().all(|c| c.is_object())));
    let all = vec![
        ("&Value", c(Capabilities::try_from(v).ok()), false),
        ("serde Value", c(serde_json::from_value(v.clone()).ok()), false),
        ("JSON text", c(serde_json::from_str(&text).ok()), false),
        ("DAG-CBOR", c(serde_ipld_dagcbor::from_slice(&cbor).ok()), true),
        ("DAG-JSON", c(Capabilities::from_dag_json(canon(v).as_bytes()).ok()), false),
        (
            "token text",
            Ucan::try_from(token.as_str())
                .ok()
                .map(|u| contents(u.capabilities())),
            false,
        ),
        (
            "IPLD token",
            serde_ipld_dagcbor::from_slice::<UcanIpld>(&ipld_cbor)
                .ok()
                .map(|u| contents(&u.cap)),
            true,
        ),
        (
            "serialised token",
            serde_json::from_value::<Ucan>(value)
                .ok()
                .map(|u| contents(u.capabilities())),
            false,
        ),
    ];
    Ok(all
        .into_iter()
        .map(|(how, got, cbor)| (how, got, if cbor { loose.clone() } else { read.clone() }))
        .collect())
}

/// What a JSON value holds as a collection, None: it is malformed
fn meaning(v: &Value) -> Option<Nested> {
    let mut out = Nested::new();
    for (r, abilities) in v.as_object()? {
        let abilities = abilities.as_object().filter(|a| !a.is_empty())?;
        let mut inner = BTreeMap::new();
        for (a, list) in abilities {
            let list = list.as_array()?;
            if !list.iter().all(|c| c.is_object()) {
                return None;
            }
            inner.insert(a.clone(), list.clone());
        }
        out.insert(r.clone(), inner);
    }
    Some(out)
}

fn enumerated(n: &Nested) -> Vec<Capability> {
    let mut out = vec![];
    for (r, abilities) in n {
        for (a, caveats) in abilities {
            for c in caveats {
                out.push(Capability::new(r.clone(), a.clone(), c.clone()));
            }
        }
    }
    out
}

/// A collection against what it should hold
fn holds(c: &Capabilities, expected: &Nested) -> R {
    ensure!(
        contents(c) == *expected,
        "holds {:?} instead of {expected:?}",
        contents(c)
    );
    let list: Vec<Capability> = c.iter().collect();
    ensure!(
        list == enumerated(expected),
        "enumerated as {list:?} instead of {expected:?}"
    );
    let again = Capabilities::try_from(list.clone())
        .map_err(violation("the enumerated entries are refused"))?;
    ensure!(
        again.iter().collect::<Vec<_>>() == list,
        "built again, {c:?} becomes {again:?}"
    );
    let complete = expected.values().all(|a| a.values().all(|l| !l.is_empty()));
    ensure!(
        !complete || again == *c,
        "built again, {c:?} becomes {again:?}"
    );
    let written = serde_json::to_value(c).map_err(violation("not written"))?;
    ensure!(
        written == serde_json::to_value(expected).unwrap_or_default(),
        "written as {written} instead of {expected:?}"
    );
    for (how, got, _) in routes(&written)? {
        ensure!(
            got.as_ref() == Some(expected),
            "written and read by way of {how}, {expected:?} becomes {got:?}"
        );
    }
    let cbor = serde_ipld_dagcbor::to_vec(c).map_err(violation("not written"))?;
    let mut back = vec![serde_ipld_dagcbor::from_slice::<Capabilities>(&cbor).ok()];
    match c.to_dag_json() {
        Ok(dag) => back.push(Capabilities::from_dag_json(&dag).ok()),
        // the encoder has no null
        Err(e) => ensure!(written.to_string().contains("null"), "not written: {e:#}"),
    }
    ensure!(
        back.iter().all(|b| b.as_ref() == Some(c)),
        "written and read again, {c:?} becomes {back:?}"
    );
    Ok(())
}

fn lists(ctx: &mut Ctx) -> R {
    let n = ctx.by_tier(4, 5);
    let good = [
        ("r", "a", json!({})),
        ("r", "a", json!({"n": 1})),
        ("r", "b", json!({})),
        ("r", "b", json!({"n": {"m": []}})),
        ("q", "a", json!({"n": 1})),
        ("q", "", json!({})),
        ("", "a", json!({"": ""})),
        ("r ", "A", json!({})),
    ];
    let poor = [json!([]), json!(null), json!(""), json!(1), json!([{}]), json!(true)];
    let mut list = vec![];
    let mut expected = Nested::new();
    let mut refused = false;
    for _ in 0..n {
        let i = ctx.choose(good.len() + if refused { 1 } else { poor.len() + 1 });
        if i == 0 {
            break;
        }
        let (r, a, c) = match good.get(i - 1) {
            Some(g) => g.clone(),
            None => {
                refused = true;
                ("r", "a", poor[i - 1 - good.len()].clone())
            }
        };
        expected
            .entry(r.into())
            .or_default()
            .entry(a.into())
            .or_default()
            .push(c.clone());
        list.push(Capability::from((r, a, &c)));
    }
    ctx.state(&format!("{list:?}"));
    ctx.log(|| format!("{list:?}"));
    ctx.ops(list.len() + 1);
    match Capabilities::try_from(list.clone()) {
        Ok(c) => {
            ensure!(!refused, "accepted: {list:?}");
            holds(&c, &expected)?;
            // and by way of the builder's signed token
            let key = ToyKey::new(0);
            let s = Signable {
                issuer: &key,
                audience: "did:key:zA".into(),
                capabilities: list,
                expiration: None,
                not_before: None,
                facts: BTreeMap::new(),
                proofs: vec![],
                add_nonce: false,
            };
            let u = run(s.sign())?.map_err(violation("not signed"))?;
            let text = u.encode().map_err(violation("not written"))?;
            let v = Ucan::try_from(text).map_err(violation("not read"))?;
            ensure!(*u.capabilities() == c && *v.capabilities() == c, "signed as {:?}", v.capabilities());
            ctx.outcome("held");
        }
        Err(e) => {
            ensure!(refused, "refused ({e:#}): {list:?}");
            ctx.outcome("refused");
        }
    }
    Ok(())
}

/// All shapes of JSON down to the caveats
fn shapes(ctx: &mut Ctx) -> R {
    let scalars = [json!(null), json!(true), json!(0), json!(""), json!("{}"), json!(1.5)];
    let caveat = |ctx: &mut Ctx| {
        let all = [
            json!({}),
            json!({"n": {"m": [null]}}),
            json!({"n": 2}),
            json!(null),
            json!([]),
            json!([{}]),
            json!(""),
            json!(0),
            json!(false),
        ];
        ctx.pick(&all).clone()
    };
    let caveats = |ctx: &mut Ctx, most: usize| {
        let n = ctx.choose(scalars.len() + 2 + most + 1);
        match scalars.get(n) {
            Some(s) => s.clone(),
            None => match n - scalars.len() {
                0 => json!({}),
                1 => json!({"0": {}}),
                k => Value::Array((0..k - 2).map(|_| caveat(ctx)).collect()),
            },
        }
    };
    let abilities = |ctx: &mut Ctx, most: usize| {
        let n = ctx.choose(scalars.len() + 2 + most + 1);
        match scalars.get(n) {
            Some(s) => s.clone(),
            None => match n - scalars.len() {
                0 => json!([]),
                1 => json!([["a", [{}]]]),
                2 => json!({}),
                3 => json!({"a": caveats(ctx, 2)}),
                _ => {
                    let deep = ctx.by_tier(1, 2);
                    json!({"b": caveats(ctx, deep), "": caveats(ctx, deep)})
                }
            },
        }
    };
    let n = ctx.choose(scalars.len() + 5);
    let v = match scalars.get(n) {
        Some(s) => s.clone(),
        None => match n - scalars.len() {
            0 => json!([]),
            1 => json!([["r", {"a": [{}]}]]),
            2 => json!({}),
            3 => json!({"r": abilities(ctx, 2)}),
            _ => json!({"s": abilities(ctx, 1), "r": abilities(ctx, 1)}),
        },
    };
    let text = v.to_string();
    ctx.state(&text);
    ctx.log(|| text.clone());
    let expected = meaning(&v);
    for (how, got, want) in routes(&v)? {
        ctx.op();
        ensure!(
            got == want,
            "read by way of {how}, {v} is {got:?} instead of {want:?}"
        );
    }
    match &expected {
        Some(e) => {
            let c = Capabilities::try_from(&v).map_err(violation("refused"))?;
            holds(&c, e)?;
            ctx.outcome("held");
        }
        None => ctx.outcome("refused"),
    }
    Ok(())
}

fn built(list: &[(String, String, Value)]) -> (Vec<Capability>, Nested) {
    let mut expected = Nested::new();
    let mut out = vec![];
    for (r, a, c) in list {
        expected
            .entry(r.clone())
            .or_default()
            .entry(a.clone())
            .or_default()
            .push(c.clone());
        out.push(Capability::new(r.clone(), a.clone(), c.clone()));
    }
    (out, expected)
}

/// Names that an implementation might take for one another
fn names(ctx: &mut Ctx) -> R {
    let mut chars: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
    chars.extend([
        '\u{300}', '\u{301}', '\u{3a3}', '\u{3c3}', '\u{3c2}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{202e}', '\u{212a}', '\u{2028}', '\u{3000}',
        '\u{e000}', '\u{feff}', '\u{fb01}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
    ]);
    let c = *ctx.pick(&chars);
    let shape = ctx.choose(4);
    let s = match shape {
        0 => c.to_string(),
        1 => format!("a{c}"),
        2 => format!("{c}a"),
        _ => format!("app:/{c}/b"),
    };
    if s == "/" {
        // reserved by DAG-JSON as the key of an object
        return Err(Fail::Prune);
    }
    ctx.state(&s);
    ctx.log(|| format!("{s:?} and names that resemble it"));
    let mut like = vec![
        s.clone(),
        s.to_lowercase(),
        s.to_uppercase(),
        s.trim().to_string(),
        format!("{s}{s}"),
        format!("{s} "),
        s.replace(c, ""),
        format!("%{:02X}", c as u32),
        s.escape_default().to_string(),
    ];
    let mut seen = std::collections::BTreeSet::new();
    like.retain(|l| l != "/" && seen.insert(l.clone()));
    for place in 0..4 {
        let list: Vec<_> = like
            .iter()
            .map(|l| match place {
                0 => (l.clone(), "a".to_string(), json!({})),
                1 => ("r".to_string(), l.clone(), json!({})),
                2 => ("r".to_string(), "a".to_string(), json!({ l: 1 })),
                _ => ("r".to_string(), "a".to_string(), json!({ "k": l })),
            })
            .collect();
        ctx.op();
        let (list, expected) = built(&list);
        let c = Capabilities::try_from(list).map_err(violation("refused"))?;
        holds(&c, &expected)?;
    }
    ctx.outcome("held");
    Ok(())
}

/// Long names and values, alike but for one character
fn lengths(ctx: &mut Ctx) -> R {
    let sizes: Vec<usize> = (0..=(if ctx.thorough() { 600 } else { 140 }))
        .chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537])
        .collect();
    let n = *ctx.pick(&sizes);
    let c = *ctx.pick(&['x', '\u{20ac}']);
    let place = ctx.choose(6);
    ctx.state(&(n, c, place));
    ctx.log(|| format!("names of {n} times {c:?}, and of one less, and with another character at either end or in the middle, in place {place}"));
    let base: Vec<char> = vec![c; n];
    let mut like = vec![base.iter().collect::<String>(), base.iter().skip(1).collect()];
    for at in [0, n / 2, n.saturating_sub(1)] {
        let mut other = base.clone();
        if let Some(o) = other.get_mut(at) {
            *o = 'y';
        }
        like.push(other.iter().collect());
    }
    let mut seen = std::collections::BTreeSet::new();
    like.retain(|l| seen.insert(l.clone()));
    let list: Vec<_> = like
        .iter()
        .map(|l| match place {
            0 => (l.clone(), "a".to_string(), json!({})),
            1 => ("r".to_string(), l.clone(), json!({})),
            2 => ("r".to_string(), "a".to_string(), json!({ l: 1 })),
            3 => ("r".to_string(), "a".to_string(), json!({ "k": l })),
            4 => ("r".to_string(), "a".to_string(), json!({ "k": [{ l: [l] }] })),
            _ => (format!("app:{l}"), format!("app/{l}"), json!({ "k": l })),
        })
        .collect();
    ctx.ops(list.len());
    let (list, expected) = built(&list);
    let v = serde_json::to_value(&expected).unwrap_or_default();
    let c = Capabilities::try_from(list).map_err(violation("refused"))?;
    holds(&c, &expected)?;
    let c = Capabilities::try_from(&v).map_err(violation("refused"))?;
    holds(&c, &expected)?;
    ctx.outcome("held");
    Ok(())
}

/// Many resources, abilities and caveats, in every order of loops
fn sizes(ctx: &mut Ctx) -> R {
    let counts = ctx.by_tier(&[1usize, 2, 17, 66, 260][..], &[1, 2, 3, 9, 17, 33, 66, 129, 260, 1030][..]);
    let (nr, na, nc) = (*ctx.pick(counts), *ctx.pick(counts), *ctx.pick(counts));
    if nr * na * nc > ctx.by_tier(2000, 5000) {
        return Err(Fail::Prune);
    }
    let order = ctx.choose(4);
    let same = ctx.flag();
    let mut list = vec![];
    let mut put = |r: usize, a: usize, c: usize| {
        let c = if same { json!({}) } else { json!({ "n": c }) };
        list.push((format!("app:/{r}"), format!("app/{a}"), c));
    };
    match order {
        0 => (0..nr).for_each(|r| (0..na).for_each(|a| (0..nc).for_each(|c| put(r, a, c)))),
        1 => (0..nc).for_each(|c| (0..na).for_each(|a| (0..nr).for_each(|r| put(r, a, c)))),
        2 => (0..na).for_each(|a| (0..nr).for_each(|r| (0..nc).for_each(|c| put(r, a, c)))),
        _ => (0..nr).rev().for_each(|r| (0..nc).rev().for_each(|c| (0..na).rev().for_each(|a| put(r, a, c)))),
    }
    let n = list.len();
    ctx.state(&(nr, na, nc, order, same));
    ctx.log(|| format!("{nr} resources x {na} abilities x {nc} caveats (the same: {same}), in order {order}"));
    // one entry that is not valid
    let at = [None, Some(0), Some(n / 2), Some(n - 1)][ctx.choose(4)];
    if let Some(at) = at {
        list[at].2 = json!([]);
    }
    ctx.ops(n);
    let (list, expected) = built(&list);
    match (Capabilities::try_from(list), at) {
        (Ok(c), None) => {
            holds(&c, &expected)?;
            let v = Capabilities::try_from(&serde_json::to_value(&expected).unwrap_or_default())
                .map_err(violation("refused"))?;
            holds(&v, &expected)?;
            ctx.outcome("held");
        }
        (Err(_), Some(_)) => {
            let v = serde_json::to_value(&expected).unwrap_or_default();
            for (how, got, want) in routes(&v)? {
                ensure!(got == want, "entry {at:?} of {n} is not valid, but read by way of {how}");
            }
            ctx.outcome("refused");
        }
        (Err(e), None) => return bad(format!("{n} valid entries are refused: {e:#}")),
        (Ok(_), Some(at)) => return bad(format!("entry {at} of {n} is not valid, but accepted")),
    }
    Ok(())
}

/// Any JSON value within a caveat, among the caveats or as the caveats
fn caveat_values(ctx: &mut Ctx) -> R {
    static V: OnceLock<Vec<Value>> = OnceLock::new();
    let deep = ctx.thorough();
    let v = ctx.pick(V.get_or_init(|| crate::jsons::values(deep))).clone();
    if crate::jsons::floats(&v) || v.to_string().contains("\"/\":") {
        return Err(Fail::Prune);
    }
    ctx.state(&v.to_string());
    let place = ctx.choose(6);
    ctx.log(|| format!("{v} in place {place}"));
    let whole = match place {
        0 => json!({"r": {"a": [{"k": v}]}}),
        1 => json!({"r": {"a": [{}, {"k": [v], "l": 1}, {}]}}),
        2 => json!({"r": {"a": [v]}}),
        3 => json!({"r": {"a": [{}, v, {}]}}),
        4 => json!({"r": {"a": v, "b": [{}]}}),
        _ => json!({"q": {"b": [{}]}, "r": v}),
    };
    let expected = meaning(&whole);
    for (how, got, want) in routes(&whole)? {
        ctx.op();
        ensure!(
            got == want,
            "read by way of {how}, {whole} is {got:?} instead of {want:?}"
        );
    }
    match &expected {
        Some(e) => {
            let c = Capabilities::try_from(&whole).map_err(violation("refused"))?;
            holds(&c, e)?;
            ctx.outcome("held");
        }
        None => ctx.outcome("refused"),
    }
    Ok(())
}

pub fn c15() -> Vec<Harness> {
    vec![
        Harness {
            name: "names",
            bounds: "404 characters in 4 shapes of name, with 8 names that resemble it, as resources, abilities, caveat keys and values, by 8 routes",
            devs: (0, 0),
            run: names,
        },
        Harness {
            name: "lengths",
            bounds: "up to 5 names of each length from 0 to 140 (thorough 600) and 16 lengths to 65537, of two characters, that differ in one character at either end or in the middle or in length, in each of 6 places (resource, ability, key of a caveat, its value, nested, all)",
            devs: (0, 0),
            run: lengths,
        },
        Harness {
            name: "sizes",
            bounds: "1 to 260 (thorough 1030) resources x abilities x caveats, up to 2000 (5000) in all, in 4 orders, the caveats alike or not, with one invalid entry at 3 places or none",
            devs: (0, 0),
            run: sizes,
        },
        Harness {
            name: "caveat_values",
            bounds: "about 600 (thorough more) JSON values without floats in 6 places, by 8 routes",
            devs: (0, 0),
            run: caveat_values,
        },
        Harness {
            name: "lists",
            bounds: "every list of up to 4 (thorough 5) of 8 valid entries with at most one of 6 that are not",
            devs: (0, 0),
            run: lists,
        },
        Harness {
            name: "shapes",
            bounds: "every JSON value of the grammar (scalars or containers at each level, up to 2 resources, 2 abilities, 2 caveats), read by 8 routes",
            devs: (0, 0),
            run: shapes,
        },
    ]
}

// ---------------------------------------------------------------------------
// C16

/// A scope that is exactly the URL it was read from
#[derive(Clone, PartialEq, Eq, Debug)]
struct UrlScope(String);
impl Scope for UrlScope {
    fn contains(&self, other: &Self) -> bool {
        self == other
    }
}
impl ToString for UrlScope {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}
impl TryFrom<Url> for UrlScope {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        if u.path().contains("refuse") {
            anyhow::bail!("refused")
        }
        Ok(UrlScope(u.to_string()))
    }
}
/// An ability that is exactly the text it was read from
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct TextAbility(String);
impl Ability for TextAbility {}
impl ToString for TextAbility {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}
impl TryFrom<String> for TextAbility {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        if s.contains('!') {
            anyhow::bail!("refused")
        }
        Ok(TextAbility(s))
    }
}
struct Verbatim;
impl CapabilitySemantics<UrlScope, TextAbility> for Verbatim {}

/// Semantics that replace each part of the reading
struct Own;
impl CapabilitySemantics<UrlScope, TextAbility> for Own {
    fn parse_scope(&self, scope: &Url) -> Option<UrlScope> {
        (scope.scheme() != "other").then(|| UrlScope(format!("own {scope}")))
    }
    fn parse_action(&self, ability: &str) -> Option<TextAbility> {
        (ability != "x").then(|| TextAbility(format!("own {ability}")))
    }
    fn parse_caveat(&self, caveat: Option<&Value>) -> Value {
        json!({"own": caveat})
    }
}

/// How the resource is to be read: kind and, unless it is a bare wildcard, the
/// URL that denotes the scope
fn target(text: &str) -> Option<(Kind, Option<Url>)> {
    if text == "*" {
        return Some((Kind::Plain, None));
    }
    let url = Url::parse(text).ok()?;
    match url.scheme() {
        "my" => Some((Kind::My, Some(url))),
        "as" => {
            let rest = url.as_str().strip_prefix("as:")?.to_string();
            let rest = rest.strip_prefix("did:key:")?;
            let (key, resource) = rest.split_once(':')?;
            let kind = Kind::As(format!("did:key:{key}"));
            if resource == "*" {
                return Some((kind, None));
            }
            Some((kind, Some(Url::parse(resource).ok()?)))
        }
        _ => Some((Kind::Plain, Some(url))),
    }
}

/// The same, with every wildcard as such
fn reading(text: &str) -> Option<(Kind, Option<Url>)> {
    let (kind, url) = target(text)?;
    Some((kind, url.filter(|u| u.path() != "*")))
}

fn parts<S: Scope, A: Ability>(v: &CapabilityView<S, A>) -> (Kind, Option<S>) {
    let (kind, uri) = match v.resource() {
        Resource::Resource { kind } => (Kind::Plain, kind),
        Resource::My { kind } => (Kind::My, kind),
        Resource::As { did, kind } => (Kind::As(did.clone()), kind),
    };
    let s = match uri {
        ResourceUri::Unscoped => None,
        ResourceUri::Scoped(s) => Some(s.clone()),
    };
    (kind, s)
}

fn rendered<S, A, M>(m: &M, v: &CapabilityView<S, A>) -> R
where
    S: Scope,
    A: Ability,
    M: CapabilitySemantics<S, A>,
{
    let c = Capability::from(v);
    let again = m.parse_capability(&c);
    ensure!(
        again.as_ref() == Some(v),
        "{v:?} is rendered as {c:?}, which is read as {again:?}"
    );
    let by_value = Capability::from(v.clone());
    ensure!(by_value == c, "rendered as {c:?} and as {by_value:?}");
    ensure!(c.caveat == *v.caveat(), "rendered with the caveat {}", c.caveat);
    Ok(())
}

fn read_all(text: &str) -> R<&'static str> {
    let expected = reading(text);
    // as an ability, and in a caveat
    let said = json!({ text: [text] });
    let v = Verbatim.parse("app:/a", text, Some(&said));
    ensure!(
        v.as_ref().map(|v| (v.ability().0.as_str(), v.caveat())) == (!text.contains('!')).then_some((text, &said)),
        "the ability {text:?} is read as {v:?}"
    );
    ensure!(
        AppSemantics.parse("app:/a", text, None).is_some() == ABILITIES.contains(&text),
        "the ability {text:?} is recognised or not"
    );
    let mut outcome = "not recognised";
    // as the application's own text
    let got = Verbatim.parse(text, "x", None);
    let want = expected.as_ref().and_then(|(k, u)| match u {
        None => Some((k.clone(), None)),
        Some(u) => Some((k.clone(), Some(UrlScope::try_from(u.clone()).ok()?))),
    });
    ensure!(
        got.as_ref().map(parts) == want,
        "{text:?} is read as {got:?} instead of {want:?}"
    );
    if let Some(v) = &got {
        outcome = "recognised";
        ensure!(*v.caveat() == json!({}), "without a caveat, {v:?}");
        // for 'my:', such a scope is not rendered as what it was read from
        if !matches!(want, Some((Kind::My, Some(_)))) {
            rendered(&Verbatim, v)?;
        }
    }
    let got = Own.parse(text, "y", None);
    let want = expected.as_ref().and_then(|(k, u)| match u {
        None => Some((k.clone(), None)),
        Some(u) if u.scheme() == "other" => None,
        Some(u) => Some((k.clone(), Some(UrlScope(format!("own {u}"))))),
    });
    ensure!(
        got.as_ref().map(parts) == want,
        "with its own reading, {text:?} is read as {got:?} instead of {want:?}"
    );
    ensure!(
        got.as_ref().map_or(true, |v| v.ability().0 == "own y" && *v.caveat() == json!({"own": null})),
        "with its own reading, {got:?}"
    );
    // by the test application, which can be compared with a reading of its own
    for (i, a) in ABILITIES.iter().enumerate() {
        let got = AppSemantics.parse(text, a, Some(&json!({"n": 1})));
        let want = expected.as_ref().and_then(|(k, u)| {
            Some(RCap {
                kind: k.clone(),
                path: match u {
                    None => None,
                    Some(u) => Some(PathScope::try_from(u.clone()).ok()?.0),
                },
                ability: i,
                caveat: json!({"n": 1}),
            })
        });
        ensure!(
            got.as_ref().map(of_view) == want,
            "{text:?} is read as {got:?} instead of {want:?}"
        );
        if let Some(v) = &got {
            rendered(&AppSemantics, v)?;
        }
    }
    // as a redelegation
    let got = ProofDelegationSemantics {}.parse(text, "ucan/DELEGATE", None);
    match &got {
        Some(v) => {
            let fits = match (parts(v), target(text)) {
                ((k, None), Some((l, None))) => k == l,
                ((k, Some(s)), Some((l, Some(u)))) => {
                    let p = u.path();
                    k == l
                        && u.scheme() == "prf"
                        && match &s {
                            ProofSelection::All => p == "*",
                            // leading zeros or a plus sign do not change the number
                            ProofSelection::Index(i) => {
                                p.trim_start_matches('+').trim_start_matches('0')
                                    == i.to_string().trim_start_matches('0')
                            }
                        }
                }
                _ => false,
            };
            ensure!(fits, "{text:?} is read as the redelegation {v:?}");
            rendered(&ProofDelegationSemantics {}, v)?;
            outcome = "recognised as redelegation";
        }
        None => {
            let plain = text
                .strip_prefix("prf:")
                .filter(|n| *n == "*" || n.parse::<usize>().is_ok_and(|i| i.to_string() == *n));
            ensure!(plain.is_none(), "{text:?} is not read as a redelegation");
        }
    }
    Ok(outcome)
}

fn texts(ctx: &mut Ctx) -> R {
    let pieces = [
        "my:", "as:", "did:key:zA:", "did:key:zB", "did:web:b:", "did:", "key:", ":", "*", "app:", "other:", "/a", "/b/c", "prf:", "0", "12", "x",
        "MY:", "As:", "APP:", "PRF:", " ", "?q=:*", "#f", "//h", "%2A", "é", "refuse", "-1", "+1", "18446744073709551615", "18446744073709551616",
        "07", ".", "\\", "\t",
    ];
    let n = ctx.by_tier(4, 5);
    let mut text = String::new();
    // the last pieces are enumerated within one execution
    for _ in 0..n - 2 {
        let i = ctx.choose(pieces.len() + 1);
        if i == pieces.len() {
            break;
        }
        text.push_str(pieces[i]);
    }
    ctx.log(|| format!("{text:?} continued in every way"));
    let mut outcome = "not recognised";
    for a in std::iter::once(&"").chain(&pieces) {
        for b in std::iter::once(&"").chain(&pieces) {
            let t = format!("{text}{a}{b}");
            ctx.op();
            if n == 4 {
                ctx.state(&t);
            }
            let o = read_all(&t)?;
            if o != "not recognised" {
                outcome = o;
            }
        }
    }
    if n > 4 {
        ctx.state(&text);
    }
    ctx.outcome(outcome);
    Ok(())
}

/// Long texts of every kind
fn long_texts(ctx: &mut Ctx) -> R {
    let mut sizes: Vec<usize> = (0..ctx.by_tier(140, 600)).collect();
    sizes.extend(crate::big::about(8, ctx.by_tier(14, 16)));
    let n = *ctx.pick(&sizes);
    let fill = *ctx.pick(&["a", "1", "0", "é", ":", "/", "%2A", "a:", "*", "A"]);
    let (start, end) = *ctx.pick(&[
        ("app:", ""),
        ("app:/", "/b"),
        ("", ":x"),
        ("my:", ""),
        ("my:/", "*"),
        ("as:did:key:z", ":app:/a"),
        ("as:did:key:z", ":*"),
        ("as:did:key:z", ""),
        ("as:did:key:zA:", ""),
        ("as:did:key:zA:app:", ""),
        ("as:did:key:zA:", ":x"),
        ("as:did:", ":z:app:/a"),
        ("prf:", ""),
        ("prf:1", ""),
        ("app:?", "#"),
        ("app:#", ""),
    ]);
    let text = format!("{start}{}{end}", fill.repeat(n));
    ctx.log(|| format!("{start:?}, {n} times {fill:?}, {end:?}"));
    ctx.op();
    ctx.state(&(start, end, n, fill));
    let o = read_all(&text)?;
    ctx.outcome(o);
    Ok(())
}

/// Every text of a few characters
fn characters(ctx: &mut Ctx) -> R {
    let prefix = *ctx.pick(&["", "my:", "as:did:key:z", "as:did:key:zA:", "as:did:", "app:", "prf:", "as:did:key:zA:prf:", "as:did:key:zA:app:"]);
    let alphabet: Vec<char> = ":*/a1 ?#%Ap+-é\n".chars().collect();
    let n = ctx.by_tier(3, 4);
    let mut text = prefix.to_string();
    for _ in 0..n - 1 {
        let i = ctx.choose(alphabet.len() + 1);
        if i == alphabet.len() {
            break;
        }
        text.push(alphabet[i]);
    }
    ctx.log(|| format!("{text:?} continued in every way"));
    let mut outcome = read_all(&text)?;
    for c in &alphabet {
        let t = format!("{text}{c}");
        ctx.op();
        ctx.state(&t);
        let o = read_all(&t)?;
        if o != "not recognised" {
            outcome = o;
        }
    }
    ctx.outcome(outcome);
    Ok(())
}

/// Abilities and caveats
fn abilities(ctx: &mut Ctx) -> R {
    let resources = ["*", "app:/a", "my:*", "my:app:/a", "as:did:key:zA:*", "as:did:key:zA:app:/b", "prf:0", "prf:*", "nothing", ""];
    let texts = [
        "", "*", "app/read", "app/write", "app/admin", "APP/READ", "app/read ", "app/rea", "app/read/x", "ucan/DELEGATE", "ucan/delegate", "ucan/*", "x", "x!", "é",
        "ucan/DELEGATE ",
    ];
    let r = *ctx.pick(&resources);
    let a = *ctx.pick(&texts);
    let mut all: Vec<Option<Value>> = caveats().into_iter().map(Some).collect();
    all.push(None);
    let c = ctx.pick(&all).clone();
    ctx.state(&(r, a, c.as_ref().map(|c| c.to_string())));
    ctx.log(|| format!("{r:?} {a:?} {c:?}"));
    ctx.ops(4);
    let shown = c.clone().unwrap_or(json!({}));
    let known = reading(r);
    let v = Verbatim.parse(r, a, c.as_ref());
    ensure!(
        v.is_some() == (known.is_some() && !a.contains('!')),
        "{r:?} {a:?} {c:?} is read as {v:?}"
    );
    if let Some(v) = v {
        ensure!(v.ability().0 == a && *v.caveat() == shown, "{r:?} {a:?} {c:?} is read as {v:?}");
    }
    let v = Own.parse(r, a, c.as_ref());
    ensure!(v.is_some() == (known.is_some() && a != "x"), "{r:?} {a:?} {c:?} is read as {v:?}");
    if let Some(v) = v {
        ensure!(
            v.ability().0 == format!("own {a}") && *v.caveat() == json!({"own": c}),
            "{r:?} {a:?} {c:?} is read as {v:?}"
        );
    }
    let v = AppSemantics.parse(r, a, c.as_ref());
    // the wildcard of any scheme is one
    let plain = if r == "prf:*" { "*" } else { r };
    let want = crate::sem::ref_parse(plain, a, &shown);
    ensure!(v.as_ref().map(of_view) == want, "{r:?} {a:?} {c:?} is read as {v:?}");
    if let Some(v) = v {
        rendered(&AppSemantics, &v)?;
    }
    let v = ProofDelegationSemantics {}.parse(r, a, c.as_ref());
    let want = a == "ucan/DELEGATE" && r.starts_with("prf:");
    if r != "*" && !r.ends_with(":*") {
        ensure!(v.is_some() == want, "{r:?} {a:?} {c:?} is read as {v:?}");
    }
    if let Some(v) = v {
        ensure!(a == "ucan/DELEGATE", "{r:?} {a:?} {c:?} is read as {v:?}");
        ensure!(*v.caveat() == shown, "{r:?} {a:?} {c:?} is read as {v:?}");
        rendered(&ProofDelegationSemantics {}, &v)?;
    }
    if let Some(c) = &c {
        let cap = Capability::new(r.into(), a.into(), c.clone());
        let (x, y) = (AppSemantics.parse_capability(&cap), AppSemantics.parse(r, a, Some(c)));
        ensure!(x == y, "{cap:?} is read as {x:?} and as {y:?}");
    }
    ctx.outcome("as expected");
    Ok(())
}

/// Every capability of the enabling alphabet, rendered and read
fn render(ctx: &mut Ctx) -> R {
    let (v, r) = ctx.pick(views());
    ctx.state(&r.show());
    ctx.log(|| r.show());
    ctx.ops(2);
    rendered(&AppSemantics, v)?;
    let c = Capability::from(v);
    let want = crate::sem::ref_parse(&c.resource, &c.ability, &c.caveat);
    ensure!(want.as_ref() == Some(r), "{} is rendered as {c:?}", r.show());
    ctx.outcome("rendered");
    Ok(())
}

pub fn c16() -> Vec<Harness> {
    vec![
        Harness {
            name: "texts",
            bounds: "every concatenation of up to 4 (thorough 5) of 36 pieces of resources, read by 4 semantics and compared with an independent reading; all that is recognised is rendered and read again",
            devs: (0, 0),
            run: texts,
        },
        Harness {
            name: "long_texts",
            bounds: "texts of 16 kinds with 0 to 139 (thorough 599) and about 7 (9) powers of two repetitions of 10 fillings",
            devs: (0, 0),
            run: long_texts,
        },
        Harness {
            name: "characters",
            bounds: "every text of up to 3 (thorough 4) of 15 characters behind 9 beginnings",
            devs: (0, 0),
            run: characters,
        },
        Harness {
            name: "abilities",
            bounds: "10 resources x 16 abilities x 21 caveats, by 4 semantics",
            devs: (0, 0),
            run: abilities,
        },
        Harness {
            name: "render",
            bounds: "2100 capabilities rendered and read",
            devs: (0, 0),
            run: render,
        },
    ]
}
