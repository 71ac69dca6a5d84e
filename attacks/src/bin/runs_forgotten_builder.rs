//! builders are never dropped, then handles of other worlds name their slots
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let mut w = World::new();
    let mut other = World::new();
    let es: Vec<_> = (0..20).map(|i| other.spawn().with(v(i)).build()).collect();
    std::mem::forget(w.spawn());
    std::mem::forget(w.spawn().with(v(1)));
    std::mem::forget(w.spawn_with_capacity(64).with(s(1)));
    w.spawn().with(v(2)).build();
    stir(&mut w);
    for &e in &es {
        for k in 0..9 {
            let _ = catch_unwind(AssertUnwindSafe(|| match k {
                0 => drop(w.is_alive(e)),
                1 => w.add_component(e, s(3)),
                2 => w.remove_component::<V>(e),
                3 => drop(w.has_component::<S>(e)),
                4 => drop(w.query::<(&mut V, &S)>().get(e).map(|(x, _)| x.0.push(1))),
                5 => w.add_component_dynamic(e, es[0]),
                6 => w.remove_component_dynamic(e, es[1]),
                7 => drop(w.spawn().with(v(4)).with_dynamic(e).build()),
                _ => drop(w.despawn(e)),
            }));
        }
    }
    stir(&mut w);
    println!("{}", w.query::<(&V,)>().iter().map(|(x,)| read(x)).sum::<u64>());
}
