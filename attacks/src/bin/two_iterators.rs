//! two iterators over one query hand out the same row exclusively
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let a = q.iter().next().unwrap().0;
    let b = q.iter().next().unwrap().0;
    println!("{}", both(a, b));
}
