//! an untyped vector of thread-bound elements is sent to another thread
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let x = Rc::new(Cell::new(1u64));
    let t = vec_of(vec![x.clone(), x.clone()]);
    thread::scope(|sc| {
        sc.spawn(move || {
            thread::yield_now();
            drop(t);
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
            thread::yield_now();
        }
    });
}
