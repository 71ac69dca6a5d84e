//! a safe push from nowhere
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut x = vec_of(vec![[1u64; 4]]);
    x.push_raw(8 as *mut _);
    println!("{}", x.len());
}
