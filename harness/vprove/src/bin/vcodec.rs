#![allow(dead_code)]
#[path = "../codec.rs"]
mod codec;

fn main() {
    engine::main(codec::properties())
}
