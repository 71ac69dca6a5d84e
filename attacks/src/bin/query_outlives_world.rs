//! a query is kept when the world is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut q = {
        let (w, _) = world();
        w.query::<(&V,)>()
    };
    for (x,) in q.iter() {
        println!("{}", read(x));
    }
}
