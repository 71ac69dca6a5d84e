//! an exclusive query is let in beside a shared one
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&V, &S)>();
    let mut r = w.query::<(&mut V,)>();
    let x = &q.get(es[2]).unwrap().0 .0[0];
    r.get(es[2]).unwrap().0 .0 = vec![2; 90];
    println!("{x}");
}
