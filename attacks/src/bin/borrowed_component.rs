//! a component borrows from something that goes first
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
struct Lent<'a>(&'a str);

fn main() {
    let mut w = World::new();
    {
        let x = String::from("not for long");
        w.spawn().with(Lent(x.as_str())).build();
    }
    for (l,) in w.query::<(&Lent<'static>,)>().iter() {
        println!("{}", l.0);
    }
}
