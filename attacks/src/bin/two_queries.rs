//! two queries exclude nothing
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut r = w.query::<(&mut V,)>();
    println!("{}", both(q.get(es[2]).unwrap().0, r.get(es[2]).unwrap().0));
}
