//! values are swapped between rows and columns through references
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut x: Vec<_> = q.iter().map(|(x,)| x).collect();
    for i in 0..x.len() {
        let (a, b) = x.split_at_mut(i);
        if let (Some(a), Some(b)) = (a.first_mut(), b.first_mut()) {
            std::mem::swap(*a, *b);
        }
    }
    for a in x {
        a.0.extend([1; 50]);
    }
    println!("{}", read(q.get(es[0]).unwrap().0));
}
