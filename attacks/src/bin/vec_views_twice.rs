//! exclusive views of one vector are held at once
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut x = vec_of(vec![v(1), v(2)]);
    let (a, b) = (view_mut::<V>(&mut x), view_mut::<V>(&mut x));
    println!("{}", both(&mut a[0], &mut b[0]));
}
