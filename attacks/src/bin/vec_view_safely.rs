//! a safe view as another type of that layout
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let x = vec_of(vec![16usize, 17]);
    println!("{}", x.as_slice::<&'static u64>()[0]);
}
