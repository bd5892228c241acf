//! Deterministic simulation of the gpt crate on simulated storage, see DESIGN.md.
#![allow(invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]

mod choice;
#[macro_use]
mod env;
mod findings;
mod hist;
mod hostile;
mod manual;
mod model;
mod ondisk;
mod props;
mod report;
mod runner;
mod scen;
mod sched;
mod shim;
mod sim;
mod twin;
mod types;
mod variants;
mod world;

#[global_allocator]
static ALLOC: env::Counting = env::Counting;

fn main() {
    env::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}
