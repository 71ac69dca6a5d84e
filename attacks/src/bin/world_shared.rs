//! a world with thread-bound components is shared with another thread
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let mut w = World::new();
    let e = w.spawn().with(Cell::new(0u64)).build();
    thread::scope(|sc| {
        for _ in 0..2 {
            sc.spawn(|| {
                for _ in 0..50 {
                    let mut q = w.query::<(&Cell<u64>,)>();
                    let c = q.get(e).unwrap().0;
                    c.set(c.get() + 1);
                }
            });
        }
    });
}
