//! a builder with thread-bound components is sent to another thread
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let mut w = World::new();
    let x = Rc::new(Cell::new(1u64));
    let mut b = w.spawn();
    for _ in 0..1 {
        b = b.with(x.clone());
    }
    thread::scope(|sc| {
        sc.spawn(move || {
            thread::yield_now();
            drop(b);
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
            thread::yield_now();
        }
    });
}
