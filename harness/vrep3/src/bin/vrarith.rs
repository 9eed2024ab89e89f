#![allow(dead_code)]
#[path = "../arith.rs"]
mod arith;
#[path = "../kit.rs"]
mod kit;

fn main() {
    engine::main(arith::properties())
}
