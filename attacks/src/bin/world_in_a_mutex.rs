//! a world with thread-bound components is handed around in a mutex
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::{Cell, RefCell}, rc::Rc, thread};

fn main() {
    let x = Rc::new(Cell::new(1u64));
    let mut w = World::new();
    let e = w.spawn().with(x.clone()).build();
    let m = std::sync::Arc::new(std::sync::Mutex::new(w));
    let n = m.clone();
    let t = thread::spawn(move || {
        for _ in 0..50 {
            let g = n.lock().unwrap();
            let mut q = g.query::<(&Rc<Cell<u64>>,)>();
            let c = q.get(e).unwrap().0.clone();
            c.set(c.get() + 1);
        }
    });
    for _ in 0..50 {
        let c = x.clone();
        c.set(c.get() + 1);
    }
    t.join().unwrap();
}
