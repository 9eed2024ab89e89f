#![allow(dead_code)]
#[path = "../merkle.rs"]
mod merkle;
#[path = "../poseidon.rs"]
mod poseidon;

fn main() {
    engine::main(merkle::properties())
}
