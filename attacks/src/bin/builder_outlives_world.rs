//! a builder is kept when the world is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let b = {
        let mut w = World::new();
        w.spawn().with(v(1))
    };
    println!("{}", { b }.build().as_u64());
}
