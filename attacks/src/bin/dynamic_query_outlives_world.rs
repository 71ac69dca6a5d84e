//! a query at run time is kept when the world is gone
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let mut q = {
        let (mut w, _) = world();
        let id = w.get_or_create_type_id_ecsid::<V>();
        w.query_dynamic([FetchType::EcsId, FetchType::Immut(id)])
    };
    println!("{}", q.iter().count());
}
