#![allow(dead_code)]
#[path = "../kit.rs"]
mod kit;
#[path = "../ringlut.rs"]
mod ringlut;
#[path = "../ringops.rs"]
mod ringops;

fn main() {
    let mut p = ringops::properties();
    p.push(ringlut::property());
    engine::main(p)
}
