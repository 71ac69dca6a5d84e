//! an iterator is sent to another thread
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let mut w = World::new();
    let x = Rc::new(Cell::new(1u64));
    for _ in 0..9 {
        w.spawn().with(x.clone()).build();
    }
    let mut q = w.query::<(&Rc<Cell<u64>>,)>();
    let i = q.iter();
    thread::scope(|sc| {
        sc.spawn(move || {
            for (c,) in i {
                let d = c.clone();
                d.set(d.get() + 1);
            }
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
        }
    });
}
