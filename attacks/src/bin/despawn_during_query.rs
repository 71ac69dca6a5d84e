//! the world is changed while an item is held
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let mut q = w.query::<(&V,)>();
    let a = q.get(es[0]).unwrap().0;
    let _ = (w.despawn(es[0]), &es);
    println!("{}", read(a));
}
