#![allow(dead_code)]
#[path = "../num.rs"]
mod num;

fn main() {
    engine::main(num::properties())
}
