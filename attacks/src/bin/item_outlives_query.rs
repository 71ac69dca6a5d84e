//! an item is kept when its query, and with it the lock, is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let a = q.get(es[0]).unwrap().0;
    drop(q);
    let mut r = w.query::<(&mut V,)>();
    let b = r.get(es[0]).unwrap().0;
    println!("{}", both(a, b));
}
