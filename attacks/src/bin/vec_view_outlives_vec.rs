//! an element is looked at when its vector has grown
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut x = vec_of(vec![1usize, 2, 3, 4]);
    let a = view::<usize>(&x);
    x.realloc();
    println!("{}", a[1]);
}
