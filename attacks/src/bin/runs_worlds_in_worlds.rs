//! worlds, builders and queries are themselves components
#![forbid(unsafe_code)]
#![allow(unused)]
use attacks::*;

fn main() {
    let (mut w, es) = world();
    let (inner, ei) = world();
    w.add_component(es[0], inner);
    let e = w.spawn().with(world().0).with(v(3)).build();
    for (x, i) in w.query::<(&mut V, &mut World)>().iter() {
        stir(i);
        x.0.push(i.is_alive(ei[0]) as u64);
        println!("{}", i.query::<(&V,)>().iter().map(|(x,)| read(x)).sum::<u64>());
    }
    w.remove_component::<World>(e);
    stir(&mut w);
    let back = std::mem::replace(w.query::<(&mut World,)>().get(es[0]).unwrap().0, World::new());
    drop(w);
    println!("{}", back.query::<(&V,)>().iter().count());
}
