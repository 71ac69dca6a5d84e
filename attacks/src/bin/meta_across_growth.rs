//! a record of an entity is kept while the table grows
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let m = w.get_entity_meta(es[0]).unwrap();
    for _ in 0..200 {
        stir(&mut w);
    }
    println!("{}", m.instance_meta.index);
}
