#![allow(dead_code)]
#[path = "../plonk.rs"]
mod plonk;
#[path = "../r1cs.rs"]
mod r1cs;

fn main() {
    engine::main(plonk::properties())
}
