#![allow(dead_code)]
#[path = "../g16.rs"]
mod g16;
#[path = "../r1cs.rs"]
mod r1cs;

fn main() {
    engine::main(g16::properties())
}
