use crate::{engine::Harness, threads};

pub const IDS: &[&str] = &["C18"];

pub fn harnesses(id: &str) -> Vec<Harness> {
    match id {
        "C18" => threads::harnesses(),
        _ => vec![],
    }
}

pub fn assumptions(_: &str) -> Vec<&'static str> {
    vec![
        "threads interact through std's (or futures') locks, condition variables and atomics only; a data race in safe Rust is excluded by the compiler",
        "sequentially consistent memory: weak orderings of atomics are not explored",
        "the code under test is /repo's with its std:: paths leading to a crate that adds scheduling points (mcthreads/shadow.py)",
    ]
}
