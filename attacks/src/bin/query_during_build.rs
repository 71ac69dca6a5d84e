//! a query is used while an entity is built
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, _) = world();
    let b = w.spawn().with(v(1));
    let mut q = w.query::<(&V,)>();
    let a = q.iter().next().unwrap().0;
    let mut b = b.with(s(1));
    b.build();
    println!("{}", read(a));
}
