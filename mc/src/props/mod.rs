pub mod builder;
pub mod caps;
pub mod encoding;
pub mod faults;
pub mod grants;
pub mod history;
pub mod hostile;
pub mod ipld;
pub mod keytypes;
pub mod links;
pub mod storage;
pub mod tamper;
pub mod times;

use crate::engine::Harness;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C20"];

pub fn harnesses(id: &str) -> Vec<Harness> {
    match id {
        "C01" => grants::c01(),
        "C02" => grants::c02(),
        "C03" => links::harnesses(),
        "C04" => times::c04(),
        "C05" => tamper::harnesses(),
        "C06" => times::c06(),
        "C07" => history::harnesses(),
        "C08" => faults::harnesses(),
        "C09" => encoding::c09(),
        "C10" => builder::harnesses(),
        "C11" => encoding::c11(),
        "C12" => ipld::c12(),
        "C20" => ipld::c20(),
        "C13" => hostile::harnesses(),
        "C14" => caps::c14(),
        "C15" => caps::c15(),
        "C16" => caps::c16(),
        "C17" => storage::harnesses(),
        "C19" => keytypes::harnesses(),
        _ => vec![],
    }
}

const COMMON: &[&str] = &[
    "third-party crates (serde, libipld, base64, cid, url, bs58) behave as specified on the alphabets used, except where the check itself compares their result",
    "signature schemes are unforgeable; where a toy scheme stands in for a real one the library treats keys as opaque",
];

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut a = COMMON.to_vec();
    match id {
        "C01" | "C02" => a.push("the application's scope and ability orders are themselves partial orders"),
        _ => {}
    }
    a
}
