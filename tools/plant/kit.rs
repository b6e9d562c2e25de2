//! Helpers shared by the demonstrations
#![allow(dead_code)]
pub use anyhow::{anyhow, Result};
pub use async_trait::async_trait;
pub use cid::{multihash::Code, Cid};
use ed25519_zebra::{SigningKey, VerificationKey};
pub use futures::executor::block_on;
pub use serde_json::{json, Value};
pub use std::{collections::BTreeSet, str::FromStr};
pub use ucan::{
    builder::UcanBuilder,
    capability::{
        Ability, Capabilities, Capability, CapabilitySemantics, CapabilityView, Caveat, Resource, ResourceUri, Scope,
    },
    chain::{CapabilityInfo, ProofChain},
    crypto::{
        did::{DidParser, ED25519_MAGIC_BYTES, P256_MAGIC_BYTES, RSA_MAGIC_BYTES},
        KeyMaterial,
    },
    store::{MemoryStore, UcanJwtStore, UcanStore},
    Ucan,
};
pub use ucan_key_support::{
    ed25519::{bytes_to_ed25519_key, Ed25519KeyMaterial},
    p256::{bytes_to_p256_key, P256KeyMaterial},
    rsa::{bytes_to_rsa_key, RsaKeyMaterial},
};
use url::Url;

pub type Key = Ed25519KeyMaterial;
pub type B<'a> = UcanBuilder<'a, Key>;

pub fn key(seed: u8) -> Key {
    let private = SigningKey::from([seed; 32]);
    Ed25519KeyMaterial(VerificationKey::from(&private), Some(private))
}
pub fn did(k: &Key) -> String {
    block_on(k.get_did()).unwrap()
}
pub fn parser() -> DidParser {
    DidParser::new(&[
        (ED25519_MAGIC_BYTES, bytes_to_ed25519_key),
        (P256_MAGIC_BYTES, bytes_to_p256_key),
        (RSA_MAGIC_BYTES, bytes_to_rsa_key),
    ])
}
/// A builder for a token from one key to another
pub fn token<'a>(from: &'a Key, to: &Key) -> B<'a> {
    UcanBuilder::default().issued_by(from).for_audience(&did(to))
}
pub fn signed(b: B) -> Ucan {
    block_on(b.build().unwrap().sign()).unwrap()
}
pub fn cap(resource: &str, ability: &str, caveat: Value) -> Capability {
    Capability::new(resource.into(), ability.into(), caveat)
}
pub fn store(tokens: &[&Ucan]) -> MemoryStore {
    let mut s = MemoryStore::default();
    for t in tokens {
        block_on(s.write_token(&t.encode().unwrap())).unwrap();
    }
    s
}
pub fn chain_at(u: &Ucan, at: Option<u64>, s: &MemoryStore) -> Result<ProofChain> {
    block_on(ProofChain::from_ucan(u.clone(), at, &mut parser(), s))
}
pub fn chain(u: &Ucan, s: &MemoryStore) -> Result<ProofChain> {
    chain_at(u, None, s)
}

/// doc:/a/b contains doc:/a/b/c; view < edit < own
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Doc(pub String);
impl Scope for Doc {
    fn contains(&self, other: &Self) -> bool {
        other.0 == self.0 || other.0.starts_with(&format!("{}/", self.0))
    }
}
impl ToString for Doc {
    fn to_string(&self) -> String {
        format!("doc:{}", self.0)
    }
}
impl TryFrom<Url> for Doc {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self> {
        match u.scheme() {
            "doc" | "my" => Ok(Doc(u.path().to_string())),
            _ => Err(anyhow!("not a document")),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Act {
    View,
    Edit,
    Own,
}
impl Ability for Act {}
impl ToString for Act {
    fn to_string(&self) -> String {
        match self {
            Act::View => "doc/view",
            Act::Edit => "doc/edit",
            Act::Own => "doc/own",
        }
        .into()
    }
}
impl TryFrom<String> for Act {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self> {
        Ok(match s.as_str() {
            "doc/view" => Act::View,
            "doc/edit" => Act::Edit,
            "doc/own" => Act::Own,
            _ => return Err(anyhow!("unknown ability")),
        })
    }
}
pub struct Docs;
impl CapabilitySemantics<Doc, Act> for Docs {}

/// What a chain reports: (resource, ability, caveat, originators), sorted
pub fn reported(c: &ProofChain) -> Vec<(String, String, String, Vec<String>)> {
    let mut v: Vec<_> = c
        .reduce_capabilities(&Docs)
        .into_iter()
        .map(|i: CapabilityInfo<Doc, Act>| {
            (
                i.capability.resource().to_string(),
                i.capability.ability().to_string(),
                i.capability.caveat().to_string(),
                i.originators.into_iter().collect::<Vec<_>>(),
            )
        })
        .collect();
    v.sort();
    v
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { eprintln!("FAILED: {}", format!($($a)*)); std::process::exit(1) } };
}
