//! shared items of one query are all held at once, beside other shared queries
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn thread_local(w: &World, e: EcsId) -> u64 {
    w.query::<(&V,)>().get(e).map_or(0, |(x,)| read(x))
}

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&V, EcsIds)>();
    let x: Vec<_> = q.iter().collect();
    let mut r = w.query::<(&V, &V, &S)>();
    let y: Vec<_> = r.iter().collect();
    let z = thread_local(&w, es[0]);
    println!("{}", x.iter().map(|(v, _)| read(v)).sum::<u64>() + y.iter().map(|(a, b, _)| read(a) + read(b)).sum::<u64>() + z);
}
