//! one query names a component exclusively twice
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(&mut V, &mut V)>();
    for (a, b) in q.iter() {
        println!("{}", both(a, b));
    }
}
