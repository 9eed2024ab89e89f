#![allow(dead_code)]
#[path = "../poseidon.rs"]
mod poseidon;

fn main() {
    engine::main(poseidon::properties())
}
