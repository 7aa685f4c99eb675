//! gsnopar: digests of the searches of C07 from a crate built without its parallel feature.
#![allow(dead_code, invalid_runtime_symbol_definitions)]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/funs.rs"]
mod funs;
#[path = "../../harness/src/parcfg.rs"]
mod parcfg;
#[path = "../../harness/src/trace.rs"]
mod trace;
#[path = "../../harness/src/vclock.rs"]
mod vclock;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    parcfg::print_digests(std::env::args().nth(1).as_deref() == Some("thorough"));
}
