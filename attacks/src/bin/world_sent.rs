//! a world with thread-bound components is sent to another thread
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let x = Rc::new(RefCell::new(vec![1u64]));
    let mut w = World::new();
    let e = w.spawn().with(x.clone()).build();
    let t = thread::spawn(move || {
        for _ in 0..50 {
            let mut q = w.query::<(&Rc<RefCell<Vec<u64>>>,)>();
            let c = q.get(e).unwrap().0.clone();
            c.borrow_mut().push(2);
        }
    });
    for _ in 0..50 {
        x.clone().borrow_mut().push(1);
    }
    t.join().unwrap();
}
