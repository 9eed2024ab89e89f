#![allow(dead_code)]
#[path = "../types.rs"]
mod types;

fn main() {
    engine::main(types::properties())
}
