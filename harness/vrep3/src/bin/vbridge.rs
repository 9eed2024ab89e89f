#![allow(dead_code)]
#[path = "../bridge.rs"]
mod bridge;
#[path = "../kit.rs"]
mod kit;

fn main() {
    engine::main(bridge::properties())
}
