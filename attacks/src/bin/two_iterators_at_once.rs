//! two iterators over one query are advanced in turns
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, _) = world();
    let mut q = w.query::<(EcsIds, &mut V)>();
    let (mut i, mut j) = (q.iter(), q.iter());
    while let (Some((_, a)), Some((_, b))) = (i.next(), j.next()) {
        println!("{}", both(a, b));
    }
}
