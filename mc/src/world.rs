//! The environment of the library: keys, tokens written by an independent
//! issuer, and a store owned by the harness.
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use base64::Engine;
use cid::{
    multihash::{Code, MultihashDigest},
    Cid,
};
use libipld_core::{
    codec::{Codec, Decode, Encode},
    raw::RawCodec,
};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use std::{collections::BTreeMap, io::Cursor};
use ucan::{
    crypto::{
        did::{DidParser, KeyConstructorSlice},
        KeyMaterial,
    },
    store::{UcanStore, UcanStoreConditionalSend},
};

pub const B64: base64::engine::GeneralPurpose = base64::engine::general_purpose::URL_SAFE_NO_PAD;

// ---------------------------------------------------------------------------
// Keys

pub const TOY_MAGIC: &[u8] = &[0xf5, 0x0a];
/// A second key type, whose keys have the same bytes
pub const TOY2_MAGIC: &[u8] = &[0xf6, 0x0a];

/// A fast deterministic stand-in for a signature scheme
#[derive(Clone)]
pub struct ToyKey {
    pub family: u8,
    pub id: u8,
    pub private: bool,
}

impl ToyKey {
    pub fn new(id: u8) -> Self {
        ToyKey {
            family: 1,
            id,
            private: true,
        }
    }
    pub fn did(&self) -> String {
        let magic = if self.family == 1 {
            TOY_MAGIC
        } else {
            TOY2_MAGIC
        };
        let bytes = [magic, &[self.id; 4]].concat();
        format!("did:key:z{}", bs58::encode(bytes).into_string())
    }
    pub fn raw_sign(&self, data: &[u8]) -> Vec<u8> {
        let mut h = Sha256::new();
        h.update([b't', self.family, self.id]);
        h.update(data);
        h.finalize().to_vec()
    }
}

#[async_trait]
impl KeyMaterial for ToyKey {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> Result<String> {
        Ok(self.did())
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        if self.private {
            Ok(self.raw_sign(payload))
        } else {
            Err(anyhow!("no private key"))
        }
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        if self.raw_sign(payload) == signature {
            Ok(())
        } else {
            Err(anyhow!("bad signature"))
        }
    }
}

fn toy(family: u8, bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    match bytes.as_slice() {
        [a, b, c, d] if a == b && b == c && c == d => Ok(Box::new(ToyKey {
            family,
            id: *a,
            private: false,
        })),
        _ => Err(anyhow!("malformed toy key")),
    }
}
pub fn bytes_to_toy(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    toy(1, bytes)
}
pub fn bytes_to_toy2(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    toy(2, bytes)
}

pub const TOY_KEYS: &KeyConstructorSlice =
    &[(TOY_MAGIC, bytes_to_toy), (TOY2_MAGIC, bytes_to_toy2)];

pub fn parser() -> DidParser {
    DidParser::new(TOY_KEYS)
}

pub const NAMES: [&str; 10] = [
    "alice", "bob", "carol", "dave", "erin", "frank", "grace", "heidi", "ivan", "judy",
];

pub fn name_of(did: &str) -> String {
    for id in 0..64u8 {
        if ToyKey::new(id).did() == did {
            return match NAMES.get(id as usize) {
                Some(n) => n.to_string(),
                None => format!("p{id}"),
            };
        }
    }
    did.to_string()
}

/// Texts that look much like a DID, and are none or another one
pub fn near(did: &str) -> Vec<String> {
    let id = did.strip_prefix("did:key:").unwrap_or(did);
    let (mut upper, mut flip) = (did.to_string(), did.to_string());
    if let Some(i) = did.rfind(|c: char| c.is_ascii_lowercase()) {
        upper.replace_range(i..=i, &did[i..=i].to_uppercase());
    }
    if let Some(i) = did[8..].find(|c: char| c.is_ascii_alphabetic() && c != 'z') {
        let i = i + 8;
        let c = &did[i..=i];
        let other = if c == c.to_lowercase() { c.to_uppercase() } else { c.to_lowercase() };
        flip.replace_range(i..=i, &other);
    }
    let mut out = vec![upper, flip];
    for end in [
        "#", "#k", "?", "?a=b", "/", "/p", ";", ";a", "=", "==", "%20", "%", ":", ".", ",", "\0", " ", "\n", "\t",
        "\r\n", "\u{a0}", "\u{200b}", "\u{feff}", "z", "1", "11111111",
    ] {
        out.push(format!("{did}{end}"));
    }
    out.push(format!("{did}#{id}"));
    out.push(format!("{did}#{did}"));
    out.push(format!("{did}{did}"));
    out.push(format!("{did} {did}"));
    for start in [" ", "\n", "\0", "\u{feff}", "#", "/", "mailto:", "did:", "did:key:", "<", "\""] {
        out.push(format!("{start}{did}"));
    }
    for prefix in [
        "", "key:", ":key:", "did:", "did:key", "did::", "did:keys:", "did:web:", "did:pkh:", "DID:key:", "did:KEY:",
        "Did:Key:", "did:key::", "did:key: ", "did:key:z", "did:key:1:", "did:key:1.1:", "did://key/", "did.key.",
        "did%3Akey%3A", "did/key/",
    ] {
        out.push(format!("{prefix}{id}"));
    }
    out.push(did.replacen(":z", ":Z", 1));
    out.push(did.replacen(":z", ":", 1));
    out.push(did.replacen(":z", ":z1", 1));
    out.push(did[..did.len() - 1].to_string());
    out.push(did[1..].to_string());
    out.push(did.to_uppercase());
    out.push(did.to_lowercase());
    out.push("did:key:".into());
    out.push(String::new());
    out.retain(|d| d != did);
    out
}

// ---------------------------------------------------------------------------
// An encoder of canonical DAG-JSON that shares nothing with the library's

fn canon_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"),
            '\u{c}' => out.push_str("\\f"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn canon_to(v: &Value, out: &mut String) {
    match v {
        Value::Null => out.push_str("null"),
        Value::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Value::Number(n) => out.push_str(&n.to_string()),
        Value::String(s) => canon_str(s, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                canon_to(x, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            keys.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
            out.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                canon_str(k, out);
                out.push(':');
                canon_to(&o[k.as_str()], out);
            }
            out.push('}');
        }
    }
}

pub fn canon(v: &Value) -> String {
    let mut s = String::new();
    canon_to(v, &mut s);
    s
}

// ---------------------------------------------------------------------------
// Tokens

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub alg: String,
    pub ucv: String,
    pub iss: u8,
    /// An issuer that is not a toy key
    pub issuer: Option<String>,
    pub aud: String,
    pub exp: Option<u64>,
    pub nbf: Option<u64>,
    pub nnc: Option<String>,
    pub caps: Vec<(String, String, Value)>,
    /// Abilities with an empty list of caveats
    pub empty: Vec<(String, String)>,
    pub fct: Option<Map<String, Value>>,
    pub prf: Option<Vec<String>>,
}

impl Tok {
    pub fn new(iss: u8, aud: u8) -> Self {
        Tok {
            alg: "EdDSA".into(),
            ucv: "0.10.0-canary".into(),
            iss,
            issuer: None,
            aud: ToyKey::new(aud).did(),
            exp: None,
            nbf: None,
            nnc: None,
            caps: vec![],
            empty: vec![],
            fct: None,
            prf: None,
        }
    }
    pub fn claim(&mut self, resource: &str, ability: &str, caveat: Value) {
        self.caps.push((resource.into(), ability.into(), caveat));
    }
    pub fn cite(&mut self, cid: String) {
        self.prf.get_or_insert_with(Vec::new).push(cid);
    }
    /// The capabilities as a map of maps
    pub fn cap(&self) -> Value {
        let mut cap = Map::new();
        for (r, a, c) in &self.caps {
            cap.entry(r.clone())
                .or_insert_with(|| json!({}))
                .as_object_mut()
                .expect("object")
                .entry(a.clone())
                .or_insert_with(|| json!([]))
                .as_array_mut()
                .expect("array")
                .push(c.clone());
        }
        for (r, a) in &self.empty {
            cap.entry(r.clone())
                .or_insert_with(|| json!({}))
                .as_object_mut()
                .expect("object")
                .entry(a.clone())
                .or_insert_with(|| json!([]));
        }
        Value::Object(cap)
    }
    pub fn issuer_did(&self) -> String {
        match &self.issuer {
            Some(did) => did.clone(),
            None => ToyKey::new(self.iss).did(),
        }
    }
    pub fn header(&self) -> Value {
        json!({"alg": self.alg, "typ": "JWT"})
    }
    pub fn payload(&self) -> Value {
        let mut p = json!({
            "ucv": self.ucv,
            "iss": self.issuer_did(),
            "aud": self.aud,
            "exp": self.exp,
            "cap": self.cap(),
        });
        let o = p.as_object_mut().expect("object");
        if let Some(nbf) = self.nbf {
            o.insert("nbf".into(), json!(nbf));
        }
        if let Some(nnc) = &self.nnc {
            o.insert("nnc".into(), json!(nnc));
        }
        if let Some(fct) = &self.fct {
            o.insert("fct".into(), json!(fct));
        }
        if let Some(prf) = &self.prf {
            o.insert("prf".into(), json!(prf));
        }
        p
    }
    pub fn signed_data(&self) -> String {
        format!(
            "{}.{}",
            B64.encode(canon(&self.header())),
            B64.encode(canon(&self.payload()))
        )
    }
    pub fn text(&self) -> String {
        sign_text(&self.signed_data(), &ToyKey::new(self.iss))
    }
}

pub fn sign_text(signed_data: &str, key: &ToyKey) -> String {
    format!(
        "{signed_data}.{}",
        B64.encode(key.raw_sign(signed_data.as_bytes()))
    )
}

pub fn cid_with(text: &[u8], code: Code) -> Cid {
    Cid::new_v1(0x55, code.digest(text))
}

/// The hash functions that identifiers can be made with
pub const CODES: [Code; 15] = [
    Code::Blake3_256,
    Code::Sha2_256,
    Code::Sha2_512,
    Code::Blake2b256,
    Code::Blake2b512,
    Code::Blake2s128,
    Code::Blake2s256,
    Code::Sha3_224,
    Code::Sha3_256,
    Code::Sha3_384,
    Code::Sha3_512,
    Code::Keccak224,
    Code::Keccak256,
    Code::Keccak384,
    Code::Keccak512,
];

/// The identifier of a token's text under the default hash
pub fn cid_of(text: &str) -> Cid {
    cid_with(text.as_bytes(), Code::Blake3_256)
}

// ---------------------------------------------------------------------------
// A store the harness fills

#[derive(Clone, Default)]
pub struct MapStore {
    pub map: BTreeMap<Vec<u8>, Vec<u8>>,
}

impl MapStore {
    pub fn put(&mut self, text: &str) -> String {
        let cid = cid_of(text);
        self.map.insert(cid.to_bytes(), text.as_bytes().to_vec());
        cid.to_string()
    }
}

#[async_trait]
impl UcanStore<RawCodec> for MapStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        Ok(match self.map.get(&cid.to_bytes()) {
            Some(bytes) => Some(T::decode(RawCodec, &mut Cursor::new(bytes))?),
            None => None,
        })
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(
        &mut self,
        token: T,
    ) -> Result<Cid> {
        let block = RawCodec.encode(&token)?;
        let cid = cid_with(&block, Code::Blake3_256);
        self.map.insert(cid.to_bytes(), block);
        Ok(cid)
    }
}
