//! one query names a component shared and exclusively
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(&V, &mut V)>();
    for (a, b) in q.iter() {
        let x = &a.0[0];
        b.0 = vec![1; 100];
        println!("{x}");
    }
}
