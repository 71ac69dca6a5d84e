//! the world is changed while it is iterated over
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    for (a,) in q.iter() {
        let _ = (w.despawn(es[0]), &es);
        a.0.push(1);
        println!("{}", read(a));
    }
}
