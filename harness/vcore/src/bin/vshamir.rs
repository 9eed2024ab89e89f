#![allow(dead_code)]
#[path = "../../../vrep3/src/kit.rs"]
#[macro_use]
mod kit;
#[path = "../rep3sec.rs"]
mod rep3sec;
#[path = "../shamir.rs"]
mod shamir;

fn main() {
    engine::main(shamir::properties())
}
