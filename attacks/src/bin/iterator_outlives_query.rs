//! an iterator is kept when its query is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut i = {
        let mut q = w.query::<(&mut V,)>();
        let i = q.iter();
        i
    };
    let mut r = w.query::<(&mut V,)>();
    println!("{}", both(i.next().unwrap().0, r.iter().next().unwrap().0));
}
