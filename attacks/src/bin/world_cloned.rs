//! a world is cloned
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut x = w.clone();
    x.despawn(es[0]);
    println!("{}", read(w.query::<(&V,)>().get(es[0]).unwrap().0));
    drop(x);
    drop(w);
}
