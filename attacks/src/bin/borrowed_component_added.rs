//! an added component borrows from something that goes first
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
struct Lent<'a>(&'a [u64]);

fn main() {
    let mut w = World::new();
    let e = w.spawn().build();
    {
        let x = vec![1u64, 2, 3];
        w.add_component(e, Lent(&x));
    }
    for (l,) in w.query::<(&Lent<'static>,)>().iter() {
        println!("{}", l.0.len() as u64 + l.0[0]);
    }
}
