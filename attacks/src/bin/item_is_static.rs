//! an item is good for ever
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn first() -> &'static V {
    let (w, es) = world();
    let mut q = w.query::<(&'static V,)>();
    let x: &'static V = q.get(es[0]).unwrap().0;
    x
}

fn main() {
    let a = first();
    println!("{}", read(a));
}
