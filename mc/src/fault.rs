//! An environment in which every store read, key construction, signature check
//! and signing step asks the explorer how it goes.
use crate::{
    engine::{Ctx, Tier},
    exec::Suspend,
    world::{cid_with, MapStore, ToyKey, TOY_MAGIC},
};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::{multihash::Code, Cid};
use libipld_core::{
    codec::{Codec, Decode, Encode},
    raw::RawCodec,
};
use std::{
    cell::RefCell,
    io::Cursor,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::Mutex,
};
use ucan::{
    crypto::{did::DidParser, KeyMaterial},
    store::{UcanStore, UcanStoreConditionalSend},
};

struct Env {
    ctx: Ctx,
    /// Every operation is suspended this many times in any case
    always: usize,
    faults: Vec<String>,
    calls: usize,
    enabled: bool,
}

thread_local! {
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}

pub struct Seen {
    pub faults: Vec<String>,
    pub calls: usize,
}

/// Run with the explorer deciding about each operation of the environment
pub fn under<T>(ctx: &mut Ctx, enabled: bool, always: usize, f: impl FnOnce() -> T) -> (T, Seen) {
    let own = std::mem::replace(ctx, Ctx::new(Tier::Quick));
    ENV.with(|e| {
        *e.borrow_mut() = Some(Env {
            ctx: own,
            always,
            faults: vec![],
            calls: 0,
            enabled,
        })
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let env = ENV
        .with(|e| e.borrow_mut().take())
        .expect("the environment is still there");
    *ctx = env.ctx;
    match r {
        Ok(r) => (
            r,
            Seen {
                faults: env.faults,
                calls: env.calls,
            },
        ),
        Err(p) => resume_unwind(p),
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Answer {
    Normal,
    Fail(usize),
}

/// How many times an operation is suspended, and how it ends. `n`: number of
/// ways in which it can fail
fn ask(what: &str, n: usize, can_suspend: bool) -> (usize, Answer) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let Some(env) = e.as_mut() else {
            return (0, Answer::Normal);
        };
        env.calls += 1;
        env.ctx.op();
        if !env.enabled {
            return (env.always, Answer::Normal);
        }
        let suspensions = if can_suspend { 2 } else { 0 };
        let r = match env.ctx.dev(1 + n + suspensions) {
            0 => (env.always, Answer::Normal),
            k if k <= n => {
                env.faults.push(format!("{what} ({k})"));
                (env.always, Answer::Fail(k))
            }
            k => (env.always + if k == n + 1 { 1 } else { 3 }, Answer::Normal),
        };
        if r != (0, Answer::Normal) {
            let (s, a) = &r;
            let how = match a {
                Answer::Normal => "succeeds".to_string(),
                Answer::Fail(k) => format!("fails in way {k}"),
            };
            let (s, what) = (*s, what.to_string());
            env.ctx
                .log(|| format!("  {what}: suspended {s} times, {how}"));
        }
        r
    })
}

async fn suspend(n: usize) {
    for _ in 0..n {
        Suspend(false).await;
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct FaultKey(pub ToyKey);

#[async_trait]
impl KeyMaterial for FaultKey {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> Result<String> {
        let (s, a) = ask("get_did", 1, true);
        suspend(s).await;
        match a {
            Answer::Normal => Ok(self.0.did()),
            _ => Err(anyhow!("injected: no DID")),
        }
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        let (s, a) = ask("sign", 1, true);
        suspend(s).await;
        match a {
            Answer::Normal => Ok(self.0.raw_sign(payload)),
            _ => Err(anyhow!("injected: not signed")),
        }
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        let (s, a) = ask("verify", 1, true);
        suspend(s).await;
        match a {
            Answer::Normal => {
                if self.0.raw_sign(payload) == signature {
                    Ok(())
                } else {
                    Err(anyhow!("bad signature"))
                }
            }
            _ => Err(anyhow!("injected: not verified")),
        }
    }
}

fn construct(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    let (_, a) = ask("key construction", 1, false);
    if a != Answer::Normal {
        return Err(anyhow!("injected: no key"));
    }
    match bytes.as_slice() {
        [a, b, c, d] if a == b && b == c && c == d => Ok(Box::new(FaultKey(ToyKey::new(*a)))),
        _ => Err(anyhow!("malformed toy key")),
    }
}

pub fn fault_parser() -> DidParser {
    DidParser::new(&[(TOY_MAGIC, construct)])
}

// ---------------------------------------------------------------------------

#[derive(Default)]
pub struct FaultStore {
    pub inner: Mutex<MapStore>,
}

impl FaultStore {
    pub fn put(&self, text: &str) -> String {
        self.inner.lock().expect("lock").put(text)
    }
    fn get(&self, cid: &Cid) -> Option<Vec<u8>> {
        self.inner
            .lock()
            .expect("lock")
            .map
            .get(&cid.to_bytes())
            .cloned()
    }
}

#[async_trait]
impl UcanStore<RawCodec> for FaultStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        let (s, a) = ask("read", 6, true);
        suspend(s).await;
        let bytes = match a {
            Answer::Normal => self.get(cid),
            Answer::Fail(1) => return Err(anyhow!("injected: read failed")),
            Answer::Fail(2) => None,
            Answer::Fail(3) => Some(b"garbage".to_vec()),
            Answer::Fail(4) => Some(vec![0xff, 0xfe]),
            Answer::Fail(5) => Some(vec![]),
            // cut short
            _ => self.get(cid).map(|mut b| {
                b.truncate(b.len() / 2);
                b
            }),
        };
        Ok(match bytes {
            Some(b) => Some(T::decode(RawCodec, &mut Cursor::new(b))?),
            None => None,
        })
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(
        &mut self,
        token: T,
    ) -> Result<Cid> {
        let (s, a) = ask("write", 1, true);
        let block = RawCodec.encode(&token)?;
        suspend(s).await;
        if a != Answer::Normal {
            return Err(anyhow!("injected: write failed"));
        }
        let cid = cid_with(&block, Code::Blake3_256);
        self.inner
            .lock()
            .expect("lock")
            .map
            .insert(cid.to_bytes(), block);
        Ok(cid)
    }
}

/// Another handle, with its own failures
#[derive(Clone)]
pub struct Shared(pub std::sync::Arc<FaultStore>);

#[async_trait]
impl UcanStore<RawCodec> for Shared {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        self.0.read(cid).await
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(
        &mut self,
        token: T,
    ) -> Result<Cid> {
        let (s, a) = ask("write", 1, true);
        let block = RawCodec.encode(&token)?;
        suspend(s).await;
        if a != Answer::Normal {
            return Err(anyhow!("injected: write failed"));
        }
        let cid = cid_with(&block, Code::Blake3_256);
        self.0
            .inner
            .lock()
            .expect("lock")
            .map
            .insert(cid.to_bytes(), block);
        Ok(cid)
    }
}
