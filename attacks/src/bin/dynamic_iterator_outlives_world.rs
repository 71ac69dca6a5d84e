//! an iterator at run time is advanced when entities have moved
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, _) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Mut(id)]);
    let mut i = q.iter();
    i.next();
    drop(w);
    println!("{}", i.count());
}
