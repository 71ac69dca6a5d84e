//! two builders are in use at once
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut w = World::new();
    let a = w.spawn().with(v(1));
    let b = w.spawn().with(v(2));
    let (mut a, mut b) = (a.with(s(1)), b.with(s(2)));
    println!("{} {}", a.build() == b.build(), w.is_alive(a.build()));
}
