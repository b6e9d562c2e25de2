//! Keys of all supported types (and the toy ones), and how their DIDs come
//! about according to the did:key specification.
use crate::{
    exec::run,
    world::{bytes_to_toy, bytes_to_toy2, ToyKey, TOY2_MAGIC, TOY_MAGIC},
};
use p256::ecdsa::{SigningKey as P256Private, VerifyingKey as P256Public};
use rsa::{pkcs1::EncodeRsaPublicKey, pkcs8::DecodePrivateKey, RsaPrivateKey, RsaPublicKey};
use std::sync::OnceLock;
use ucan::crypto::{
    did::{BytesToKey, DidParser, DidPrefix},
    KeyMaterial,
};
use ucan_key_support::{
    ed25519::{bytes_to_ed25519_key, Ed25519KeyMaterial},
    p256::{bytes_to_p256_key, P256KeyMaterial},
    rsa::{bytes_to_rsa_key, RsaKeyMaterial},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Type {
    Ed25519,
    P256,
    Rsa,
    Toy,
    Toy2,
}
pub const TYPES: [Type; 5] = [Type::Ed25519, Type::P256, Type::Rsa, Type::Toy, Type::Toy2];

impl Type {
    /// The multicodec of the key type, from the multicodec table
    pub fn magic(self) -> &'static [u8] {
        match self {
            Type::Ed25519 => &[0xed, 0x01],
            Type::P256 => &[0x80, 0x24],
            Type::Rsa => &[0x85, 0x24],
            Type::Toy => TOY_MAGIC,
            Type::Toy2 => TOY2_MAGIC,
        }
    }
    pub fn constructor(self) -> BytesToKey {
        match self {
            Type::Ed25519 => bytes_to_ed25519_key,
            Type::P256 => bytes_to_p256_key,
            Type::Rsa => bytes_to_rsa_key,
            Type::Toy => bytes_to_toy,
            Type::Toy2 => bytes_to_toy2,
        }
    }
    pub fn alg(self) -> &'static str {
        match self {
            Type::Ed25519 => "EdDSA",
            Type::P256 => "ES256",
            Type::Rsa => "RS256",
            _ => "EdDSA",
        }
    }
}

pub struct Key {
    pub name: &'static str,
    pub ty: Type,
    pub private: Box<dyn KeyMaterial>,
    /// The same key without its private part
    pub public: Box<dyn KeyMaterial>,
    /// What the DID encodes after the multicodec
    pub bytes: Vec<u8>,
    pub did: String,
}

pub fn did_of(magic: &[u8], bytes: &[u8]) -> String {
    let b = [magic, bytes].concat();
    format!("did:key:z{}", bs58::encode(b).into_string())
}

fn ed(name: &'static str, seed: u8) -> Key {
    let private = ed25519_zebra::SigningKey::from([seed; 32]);
    let public = ed25519_zebra::VerificationKey::from(&private);
    let bytes = <[u8; 32]>::from(public).to_vec();
    Key {
        name,
        ty: Type::Ed25519,
        did: did_of(&[0xed, 0x01], &bytes),
        bytes,
        private: Box::new(Ed25519KeyMaterial(public, Some(private))),
        public: Box::new(Ed25519KeyMaterial(public, None)),
    }
}

fn p256(name: &'static str, seed: u8) -> Key {
    let private = P256Private::from_slice(&[seed; 32]).expect("scalar");
    let public = P256Public::from(&private);
    let point = public.to_encoded_point(false);
    let x = point.x().expect("x").to_vec();
    let odd = point.y().expect("y")[31] & 1;
    let bytes = [vec![2 + odd], x].concat();
    Key {
        name,
        ty: Type::P256,
        did: did_of(&[0x80, 0x24], &bytes),
        bytes,
        private: Box::new(P256KeyMaterial(public, Some(private))),
        public: Box::new(P256KeyMaterial(public, None)),
    }
}

fn rsa(name: &'static str, der: &[u8]) -> Key {
    let private = RsaPrivateKey::from_pkcs8_der(der).expect("fixture");
    let public = RsaPublicKey::from(&private);
    let bytes = public.to_pkcs1_der().expect("der").as_bytes().to_vec();
    Key {
        name,
        ty: Type::Rsa,
        did: did_of(&[0x85, 0x24], &bytes),
        bytes,
        private: Box::new(RsaKeyMaterial(public.clone(), Some(private))),
        public: Box::new(RsaKeyMaterial(public, None)),
    }
}

fn toy(name: &'static str, family: u8, id: u8) -> Key {
    let key = |private| ToyKey {
        family,
        id,
        private,
    };
    Key {
        name,
        ty: if family == 1 { Type::Toy } else { Type::Toy2 },
        did: key(true).did(),
        bytes: vec![id; 4],
        private: Box::new(key(true)),
        public: Box::new(key(false)),
    }
}

pub fn keys() -> &'static [Key] {
    static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
    KEYS.get_or_init(fresh)
}

/// The same keys once more
pub fn fresh() -> Vec<Key> {
    {
        vec![
            ed("ed25519 one", 1),
            ed("ed25519 two", 2),
            p256("p256 one", 1),
            p256("p256 two", 7),
            rsa("rsa one", include_bytes!("../fixtures/rsa_one.pk8")),
            rsa("rsa two", include_bytes!("../fixtures/rsa_two.pk8")),
            rsa("rsa of 1024 bits", include_bytes!("../fixtures/rsa_small.pk8")),
            toy("toy one", 1, 7),
            toy("toy of the second family, same bytes", 2, 7),
            toy("toy two", 1, 8),
        ]
    }
}

/// Keys of the supported types in great number, some of them odd
pub fn population() -> &'static [Key] {
    static KEYS: OnceLock<Vec<Key>> = OnceLock::new();
    KEYS.get_or_init(|| {
        let mut all: Vec<Key> = vec![];
        for seed in 0..=255 {
            all.push(ed("of all Ed25519 keys", seed));
        }
        for seed in 1..=254 {
            all.push(p256("of all P-256 keys", seed));
        }
        macro_rules! fixtures {
            ($($name:literal),*) => {
                $(all.push(rsa(concat!("RSA key ", $name), include_bytes!(concat!("../fixtures/rsa_", $name, ".pk8"))));)*
            };
        }
        // bits of the modulus and exponent
        fixtures!(
            "1536_65537", "2040_257", "2048_17", "2048_3", "2056_65537", "3072_3", "3072_65537", "4096_65537",
            "4096_8589934591"
        );
        all
    })
}

impl Key {
    /// Sign; the keys are deterministic
    pub fn sign(&self, data: &[u8]) -> Vec<u8> {
        match run(self.private.sign(data)) {
            Ok(Ok(s)) => s,
            // judged by C19; elsewhere nothing can be said
            _ => vec![],
        }
    }
}

pub fn parser_for(types: &[Type]) -> DidParser {
    let ctors: Vec<(DidPrefix, BytesToKey)> = types
        .iter()
        .map(|t| (t.magic(), t.constructor()))
        .collect();
    DidParser::new(&ctors)
}
pub fn real_parser() -> DidParser {
    parser_for(&TYPES)
}
