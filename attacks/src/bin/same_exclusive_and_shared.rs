//! one query names a component exclusively and shared
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&mut V, EcsIds, &V)>();
    let (b, _, a) = q.get(es[1]).unwrap();
    let x = &a.0[0];
    b.0 = vec![1; 100];
    println!("{x}");
}
