//! a safe exclusive view as another type of that layout
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut x = vec_of(vec![16usize, 17]);
    let b = x.as_slice_mut::<Box<u64>>();
    *b[1] = 5;
    println!("{}", b.len());
}
