//! an element is looked at when it is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut x = vec_of(vec![v(1), v(2)]);
    let a = view::<V>(&x);
    x.pop();
    println!("{}", read(&a[1]));
}
