//! what an untyped vector allows without unsafe code
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let i = TypeInfo::new(std::alloc::Layout::new::<u64>(), None);
    println!("{}", i == TypeInfo::new(std::alloc::Layout::new::<V>(), None));
    let (mut w, _) = world();
    stir(&mut w);
    let m = w.get_or_create_type_id_ecsid::<V>();
    println!("{:?} {}", w.get_entity_meta(m), i.layout.size());
}
