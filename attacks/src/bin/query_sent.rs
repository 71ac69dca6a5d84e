//! a query is sent to another thread
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let mut w = World::new();
    let x = Rc::new(Cell::new(1u64));
    w.spawn().with(x.clone()).build();
    thread::scope(|sc| {
        let mut q = w.query::<(&Rc<Cell<u64>>,)>();
        sc.spawn(move || {
            for _ in 0..50 {
                for (c,) in q.iter() {
                    let d = c.clone();
                    d.set(d.get() + 1);
                }
            }
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
        }
    });
}
