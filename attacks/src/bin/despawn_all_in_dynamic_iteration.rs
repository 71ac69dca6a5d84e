//! the world is changed while it is iterated over at run time
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Immut(id)]);
    let mut n = 0;
    for [e, x] in q.iter() {
        let _ = (es.iter().for_each(|&e| { w.despawn(e); }), &es);
        n += (e as usize + x as usize) % 2;
    }
    println!("{n}");
}
