//! a safe push of what is no value of the type
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, _) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let e = w.spawn().build();
    let mut junk = [1usize; 8];
    w.add_component_dynamic_with_data(e, id, junk.as_mut_ptr() as *mut u8);
    println!("{}", read(w.query::<(&V,)>().get(e).unwrap().0));
}
