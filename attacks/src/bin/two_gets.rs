//! one row is got exclusively twice
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let a = q.get(es[0]).unwrap().0;
    let b = q.get(es[0]).unwrap().0;
    println!("{}", both(a, b));
}
