//! a component borrows from another component
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
struct Lent<'a>(&'a V);

fn main() {
    let (mut w, es) = world();
    let mut q = w.query::<(&V,)>();
    let x: &V = q.get(es[0]).unwrap().0;
    let mut w2 = World::new();
    w2.spawn().with(Lent(x)).build();
    drop(q);
    w.despawn(es[0]);
    for (l,) in w2.query::<(&Lent<'static>,)>().iter() {
        println!("{}", read(l.0));
    }
}
