//! Model checking of rs-ucan: see /verif/DESIGN.md
mod big;
mod clock;
mod driver;
mod engine;
mod exec;
mod fault;
mod journal;
mod jsons;
mod keys;
mod props;
mod sem;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let [_, what, levels] = args.as_slice() {
        if what == "long-chain" {
            // a process that the harness starts and that may end abruptly
            std::process::exit(props::hostile::long_chain(levels.parse().expect("number")));
        }
    }
    driver::main()
}
