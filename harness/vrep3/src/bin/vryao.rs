#![allow(dead_code)]
#[path = "../conv.rs"]
mod conv;
#[path = "../kit.rs"]
mod kit;
#[path = "../yao.rs"]
mod yao;

fn main() {
    engine::main(conv::properties().into_iter().chain(yao::properties()).collect())
}
