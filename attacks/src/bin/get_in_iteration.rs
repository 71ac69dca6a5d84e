//! a row is got while an iterator hands it out
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(EcsIds, &mut V)>();
    for (e, a) in q.iter() {
        let b = q.get(e).unwrap().1;
        println!("{}", both(a, b));
    }
}
