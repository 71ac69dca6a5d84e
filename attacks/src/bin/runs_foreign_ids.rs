//! handles and component ids of one world are used in another
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let (a, ea) = world();
    let mut b = World::new();
    let mut eb = Vec::new();
    eb.push(b.spawn().with(s(1)).with(7u8).build());
    eb.push(b.spawn().with([1u64; 9]).build());
    eb.push(b.spawn().build());
    eb.push(b.get_or_create_type_id_ecsid::<V>());
    for &x in &ea {
        for &y in &eb {
            for k in 0..7 {
                let _ = catch_unwind(AssertUnwindSafe(|| match k {
                    0 => b.add_component_dynamic(x, y),
                    1 => b.add_component_dynamic(y, x),
                    2 => b.remove_component_dynamic(y, x),
                    3 => drop(b.spawn().with_dynamic(x).with_dynamic(y).build()),
                    4 => drop(b.query_dynamic([FetchType::Mut(x), FetchType::EcsId]).iter().count()),
                    5 => drop(b.query::<(&V,)>().get(x).map(|(v,)| read(v))),
                    _ => b.add_component(x, v(8)),
                }));
            }
        }
    }
    stir(&mut b);
    drop(b);
    println!("{}", read(a.query::<(&V,)>().get(ea[0]).unwrap().0));
}
