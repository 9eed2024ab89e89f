mod config;
mod fault;
mod hist;
mod net;
mod sess;

fn main() {
    let mut p = vec![];
    p.extend(hist::properties());
    p.extend(fault::properties());
    p.extend(sess::properties());
    p.extend(config::properties());
    engine::main(p)
}
