#![allow(dead_code)]
#[path = "../bristol.rs"]
mod bristol;

fn main() {
    engine::main(bristol::properties())
}
