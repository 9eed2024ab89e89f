#![allow(dead_code)]
#[path = "../kit.rs"]
mod kit;
#[path = "../vm.rs"]
mod vm;
#[path = "../vmlang.rs"]
mod vmlang;

fn main() {
    engine::main(vm::properties())
}
