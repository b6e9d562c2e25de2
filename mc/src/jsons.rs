//! JSON values in breadth: what facts and caveats may hold.
use serde_json::{json, Value};

/// Values of a caveat that resemble each other: leaves, and all lists and
/// objects over them, nested once more for the smaller ones
pub fn resembling(deep: bool) -> Vec<Value> {
    let leaves = vec![
        json!(null),
        json!(true),
        json!(false),
        json!(0),
        json!(1),
        json!(2),
        json!(-1),
        json!(1.0),
        json!(1.5),
        json!(u64::MAX),
        json!(u64::MAX as f64),
        json!(i64::MIN),
        json!(""),
        json!("a"),
        json!("A"),
        json!("ab"),
        json!("*"),
        json!("a "),
        json!("1"),
        json!("true"),
        json!("e\u{301}"),
        json!("\u{e9}"),
    ];
    let few = [json!(1), json!(2), json!("a"), json!("ab"), json!("*")];
    let lists = |of: &[Value]| -> Vec<Value> {
        let mut all = vec![json!([])];
        for a in of {
            all.push(json!([a]));
            for b in of {
                all.push(json!([a, b]));
                for c in of {
                    all.push(json!([a, b, c]));
                }
            }
        }
        all
    };
    let objects = |of: &[Value]| -> Vec<Value> {
        let mut all = vec![json!({})];
        for a in of {
            all.push(json!({ "a": a }));
            all.push(json!({ "b": a }));
            all.push(json!({ "*": a }));
            for b in of {
                all.push(json!({ "a": a, "b": b }));
            }
        }
        all
    };
    let mut all = leaves;
    all.extend(lists(&few));
    all.extend(objects(&few));
    let inner = [
        json!([]),
        json!([1]),
        json!([1, 2]),
        json!([2, 1]),
        json!({}),
        json!({"a": 1}),
        json!({"a": 1, "b": 2}),
        json!({"a": [1, 2]}),
        json!(1),
        json!(null),
    ];
    if deep {
        all.extend(lists(&inner));
    }
    all.extend(objects(&inner));
    for v in &inner {
        for w in &inner {
            all.push(json!([v, w]));
            all.push(json!({ "a": { "a": v, "b": w } }));
        }
    }
    let mut seen = std::collections::HashSet::new();
    all.retain(|v| seen.insert(v.to_string()));
    all
}

/// The same, and values that encoders treat in their own ways
pub fn values(deep: bool) -> Vec<Value> {
    let mut nested = json!(1);
    for i in 0..20 {
        nested = if i % 2 == 0 { json!([nested]) } else { json!({ "k": nested }) };
    }
    let odd = vec![
        json!(0.0),
        json!(-0.0),
        json!(2.0),
        json!(-1.0),
        json!(100.0),
        json!(0.1),
        json!(-0.25),
        json!(1e15),
        json!(1e16),
        json!(1e21),
        json!(1e300),
        json!(1.5e300),
        json!(5e-324),
        json!(9007199254740993u64),
        json!(9007199254740992u64),
        json!(u64::MAX - 1),
        json!(i64::MAX),
        json!(i64::MIN + 1),
        json!(i64::MAX as u64 + 1),
        json!("\u{0}\u{1f}\u{7f}\u{2028}\u{10ffff}"),
        json!("/"),
        json!("did:key:z6Mk"),
        json!("bafkr4ia"),
        json!(" a"),
        json!("null"),
        json!("x".repeat(300)),
        json!("\u{e9}".repeat(70_000)),
        json!({"/": "x"}),
        json!({"/": {"bytes": "AA"}}),
        json!({"/": 1, "a": 2}),
        json!({"//": "x"}),
        json!({"bytes": "AA"}),
        json!({"": 1}),
        json!({"": {}}),
        json!({"a/b": {"c d": [{}, [], [[]], [{}]]}}),
        json!({"exp": 1, "nbf": 2, "prf": [], "cap": {}, "fct": {}}),
        json!((0..200).collect::<Vec<_>>()),
        json!((0..200).map(|i| (format!("k{i}"), json!(i))).collect::<serde_json::Map<_, _>>()),
        nested,
    ];
    let mut all = odd.clone();
    all.extend(odd.iter().map(|v| json!([v, {"a": v}])));
    all.extend(resembling(deep));
    let mut seen = std::collections::HashSet::new();
    all.retain(|v| seen.insert(v.to_string()));
    all
}

/// Certainly something that a token can carry: neither null nor an object that
/// DAG-JSON reserves nor a float that might be written as an integer
pub fn plain(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Number(n) => !n.is_f64() || n.as_f64().is_some_and(|f| f.fract() != 0.0),
        Value::Array(a) => a.iter().all(plain),
        Value::Object(o) => !o.contains_key("/") && o.values().all(plain),
        _ => true,
    }
}

/// Whether the text of a float in it is a matter of taste
pub fn floats(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.is_f64(),
        Value::Array(a) => a.iter().any(floats),
        Value::Object(o) => o.values().any(floats),
        _ => false,
    }
}
