//! C18: the store under every interleaving. See /verif/DESIGN.md
#[path = "../../mc/src/clock.rs"]
mod clock;
#[path = "../../mc/src/driver.rs"]
mod driver;
#[path = "../../mc/src/engine.rs"]
mod engine;
#[path = "../../mc/src/journal.rs"]
mod journal;
mod props;
mod threads;
#[allow(dead_code)]
#[path = "../../mc/src/world.rs"]
mod world;

fn main() {
    driver::main()
}
