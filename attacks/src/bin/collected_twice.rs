//! items of two passes are kept
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let x: Vec<_> = q.iter().collect();
    let y: Vec<_> = q.iter().collect();
    for ((a,), (b,)) in x.into_iter().zip(y) {
        println!("{}", both(a, b));
    }
}
