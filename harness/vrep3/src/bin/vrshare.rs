#![allow(dead_code)]
#[path = "../kit.rs"]
mod kit;
#[path = "../share.rs"]
mod share;

fn main() {
    engine::main(share::properties())
}
