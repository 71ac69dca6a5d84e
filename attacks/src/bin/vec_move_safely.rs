//! a safe move to a vector of another type of that layout
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut x = vec_of(vec![16usize, 17]);
    let mut y = vec_of(vec![Box::new(5usize)]);
    x.swap_move_element_to_other_vec(&mut y, 0);
    drop(y);
    println!("{}", x.len());
}
