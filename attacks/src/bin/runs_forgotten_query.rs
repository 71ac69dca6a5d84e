//! a query is never dropped, its lock stays taken
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    std::mem::forget(w.query::<(&V,)>());
    let mut q = w.query::<(&V,)>();
    println!("{}", read(q.get(es[0]).unwrap().0));
    drop(q);
    stir(&mut w);
    drop(w);
}
