//! a query is cloned
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut r = q.clone();
    let (a, b) = (q.iter().next().unwrap().0, r.iter().next().unwrap().0);
    println!("{}", both(a, b));
}
