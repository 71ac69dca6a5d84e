//! a safe builder step with what is no value of the type
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, _) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let mut junk = [1usize; 8];
    let e = w.spawn().with_dynamic_with_data(junk.as_mut_ptr() as *mut u8, id).build();
    println!("{}", read(w.query::<(&V,)>().get(e).unwrap().0));
}
