//! an item of an iterator is kept when its query is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let a = {
        let mut q = w.query::<(&V,)>();
        let x = q.iter().next().unwrap().0;
        x
    };
    let x = &a.0[0];
    w.query::<(&mut V,)>().iter().for_each(|(b,)| b.0 = vec![3; 90]);
    println!("{x}");
}
