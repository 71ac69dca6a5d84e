//! a destructor reaches for the world its value is in
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::{cell::RefCell, rc::Rc};
struct Deep(Rc<RefCell<World>>, u64);
impl Drop for Deep {
    fn drop(&mut self) {
        if let Ok(mut w) = self.0.try_borrow_mut() {
            w.spawn().with(v(self.1)).build();
            for (x,) in w.query::<(&mut V,)>().iter() {
                x.0.push(self.1);
            }
        }
    }
}

fn main() {
    let w = Rc::new(RefCell::new(World::new()));
    for i in 0..9 {
        let e = w.borrow_mut().spawn().with(Deep(w.clone(), i)).with(v(i)).build();
        if i % 2 == 0 {
            w.borrow_mut().add_component(e, s(i));
        }
        if i % 3 == 0 {
            w.borrow_mut().remove_component::<Deep>(e);
        }
        if i % 4 == 1 {
            w.borrow_mut().despawn(e);
        }
    }
    let inner = w.replace(World::new());
    drop(inner);
    println!("{}", w.borrow().query::<(&V,)>().iter().count());
}
