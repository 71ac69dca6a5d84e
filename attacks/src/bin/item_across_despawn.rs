//! an item is kept across the end of its entity
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let a = w.query::<(&V,)>().get(es[0]).unwrap().0;
    w.despawn(es[0]);
    println!("{}", read(a));
}
