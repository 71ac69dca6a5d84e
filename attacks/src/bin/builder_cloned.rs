//! a builder is cloned
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut w = World::new();
    let mut a = w.spawn().with(v(1));
    let mut b = a.clone();
    a.build();
    b.build();
    println!("{}", w.query::<(&V,)>().iter().map(|(x,)| read(x)).sum::<u64>());
}
