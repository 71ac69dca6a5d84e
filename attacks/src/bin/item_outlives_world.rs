//! an item is kept when the world is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let a = {
        let (w, es) = world();
        let mut q = w.query::<(&V,)>();
        let x: &V = q.get(es[3]).unwrap().0;
        x
    };
    println!("{}", read(a));
}
