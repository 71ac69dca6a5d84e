//! the world is used while a builder is
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let b = w.spawn().with(v(1));
    w.despawn(es[0]);
    stir(&mut w);
    let e = b.with(s(1)).build();
    println!("{}", read(w.query::<(&V,)>().get(e).unwrap().0));
}
