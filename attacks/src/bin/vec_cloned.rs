//! a vector is cloned
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let x = vec_of(vec![v(1), v(2)]);
    let y = x.clone();
    println!("{}", x.len() + y.len());
    drop(x);
    drop(y);
}
