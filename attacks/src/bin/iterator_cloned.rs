//! an iterator with exclusive items is cloned
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut i = q.iter();
    let mut j = i.clone();
    let (a, b) = (i.next().unwrap().0, j.next().unwrap().0);
    println!("{}", both(a, b));
}
