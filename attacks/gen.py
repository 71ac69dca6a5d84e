#!/usr/bin/env python3
"""Writes src/bin: one program each. The comment says what the program would do."""
import os, re
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "bin")
P = {}
def a(name, why, body, top=""):
    P[name] = (why, body, top)

# ---- exclusive references twice
a("two_iterators", "two iterators over one query hand out the same row exclusively", """
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let a = q.iter().next().unwrap().0;
    let b = q.iter().next().unwrap().0;
    println!("{}", both(a, b));
""")
a("two_iterators_at_once", "two iterators over one query are advanced in turns", """
    let (w, _) = world();
    let mut q = w.query::<(EcsIds, &mut V)>();
    let (mut i, mut j) = (q.iter(), q.iter());
    while let (Some((_, a)), Some((_, b))) = (i.next(), j.next()) {
        println!("{}", both(a, b));
    }
""")
a("two_gets", "one row is got exclusively twice", """
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let a = q.get(es[0]).unwrap().0;
    let b = q.get(es[0]).unwrap().0;
    println!("{}", both(a, b));
""")
a("get_in_iteration", "a row is got while an iterator hands it out", """
    let (w, _) = world();
    let mut q = w.query::<(EcsIds, &mut V)>();
    for (e, a) in q.iter() {
        let b = q.get(e).unwrap().1;
        println!("{}", both(a, b));
    }
""")
a("iterator_cloned", "an iterator with exclusive items is cloned", """
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut i = q.iter();
    let mut j = i.clone();
    let (a, b) = (i.next().unwrap().0, j.next().unwrap().0);
    println!("{}", both(a, b));
""")
a("query_cloned", "a query is cloned", """
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut r = q.clone();
    let (a, b) = (q.iter().next().unwrap().0, r.iter().next().unwrap().0);
    println!("{}", both(a, b));
""")
a("collected_twice", "items of two passes are kept", """
    let (w, _) = world();
    let mut q = w.query::<(&mut V,)>();
    let x: Vec<_> = q.iter().collect();
    let y: Vec<_> = q.iter().collect();
    for ((a,), (b,)) in x.into_iter().zip(y) {
        println!("{}", both(a, b));
    }
""")
a("same_twice", "one query names a component exclusively twice", """
    let (w, _) = world();
    let mut q = w.query::<(&mut V, &mut V)>();
    for (a, b) in q.iter() {
        println!("{}", both(a, b));
    }
""")
a("same_shared_and_exclusive", "one query names a component shared and exclusively", """
    let (w, _) = world();
    let mut q = w.query::<(&V, &mut V)>();
    for (a, b) in q.iter() {
        let x = &a.0[0];
        b.0 = vec![1; 100];
        println!("{x}");
    }
""")
a("same_exclusive_and_shared", "one query names a component exclusively and shared", """
    let (w, es) = world();
    let mut q = w.query::<(&mut V, EcsIds, &V)>();
    let (b, _, a) = q.get(es[1]).unwrap();
    let x = &a.0[0];
    b.0 = vec![1; 100];
    println!("{x}");
""")
a("two_queries", "two queries exclude nothing", """
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut r = w.query::<(&mut V,)>();
    println!("{}", both(q.get(es[2]).unwrap().0, r.get(es[2]).unwrap().0));
""")
a("shared_query_then_exclusive", "an exclusive query is let in beside a shared one", """
    let (w, es) = world();
    let mut q = w.query::<(&V, &S)>();
    let mut r = w.query::<(&mut V,)>();
    let x = &q.get(es[2]).unwrap().0 .0[0];
    r.get(es[2]).unwrap().0 .0 = vec![2; 90];
    println!("{x}");
""")
# ---- references that outlive what they point to
a("item_outlives_query", "an item is kept when its query, and with it the lock, is gone", """
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let a = q.get(es[0]).unwrap().0;
    drop(q);
    let mut r = w.query::<(&mut V,)>();
    let b = r.get(es[0]).unwrap().0;
    println!("{}", both(a, b));
""")
a("iterated_item_outlives_query", "an item of an iterator is kept when its query is gone", """
    let (w, _) = world();
    let a = {
        let mut q = w.query::<(&V,)>();
        let x = q.iter().next().unwrap().0;
        x
    };
    let x = &a.0[0];
    w.query::<(&mut V,)>().iter().for_each(|(b,)| b.0 = vec![3; 90]);
    println!("{x}");
""")
a("iterator_outlives_query", "an iterator is kept when its query is gone", """
    let (w, _) = world();
    let mut i = {
        let mut q = w.query::<(&mut V,)>();
        let i = q.iter();
        i
    };
    let mut r = w.query::<(&mut V,)>();
    println!("{}", both(i.next().unwrap().0, r.iter().next().unwrap().0));
""")
a("item_outlives_world", "an item is kept when the world is gone", """
    let a = {
        let (w, es) = world();
        let mut q = w.query::<(&V,)>();
        let x: &V = q.get(es[3]).unwrap().0;
        x
    };
    println!("{}", read(a));
""")
a("item_is_static", "an item is good for ever", """
    let a = first();
    println!("{}", read(a));
""", """
fn first() -> &'static V {
    let (w, es) = world();
    let mut q = w.query::<(&'static V,)>();
    let x: &'static V = q.get(es[0]).unwrap().0;
    x
}
""")
a("query_outlives_world", "a query is kept when the world is gone", """
    let mut q = {
        let (w, _) = world();
        w.query::<(&V,)>()
    };
    for (x,) in q.iter() {
        println!("{}", read(x));
    }
""")
a("dynamic_query_outlives_world", "a query at run time is kept when the world is gone", """
    let mut q = {
        let (mut w, _) = world();
        let id = w.get_or_create_type_id_ecsid::<V>();
        w.query_dynamic([FetchType::EcsId, FetchType::Immut(id)])
    };
    println!("{}", q.iter().count());
""")
a("dynamic_iterator_outlives_world", "an iterator at run time is advanced when entities have moved", """
    let (mut w, _) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Mut(id)]);
    let mut i = q.iter();
    i.next();
    drop(w);
    println!("{}", i.count());
""")
for n, call in dict(spawn="stir(&mut w)", despawn="w.despawn(es[0])", add="w.add_component(es[1], s(9))", remove="w.remove_component::<S>(es[0])", despawn_all="es.iter().for_each(|&e| { w.despawn(e); })", id="w.get_or_create_type_id_ecsid::<u8>()").items():
    a(f"{n}_during_query", "the world is changed while an item is held", f"""
    let (mut w, es) = world();
    let mut q = w.query::<(&V,)>();
    let a = q.get(es[0]).unwrap().0;
    let _ = ({call}, &es);
    println!("{{}}", read(a));
""")
    a(f"{n}_in_iteration", "the world is changed while it is iterated over", f"""
    let (mut w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    for (a,) in q.iter() {{
        let _ = ({call}, &es);
        a.0.push(1);
        println!("{{}}", read(a));
    }}
""")
    a(f"{n}_in_dynamic_iteration", "the world is changed while it is iterated over at run time", f"""
    let (mut w, es) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let mut q = w.query_dynamic([FetchType::EcsId, FetchType::Immut(id)]);
    let mut n = 0;
    for [e, x] in q.iter() {{
        let _ = ({call}, &es);
        n += (e as usize + x as usize) % 2;
    }}
    println!("{{n}}");
""")
a("item_across_despawn", "an item is kept across the end of its entity", """
    let (mut w, es) = world();
    let a = w.query::<(&V,)>().get(es[0]).unwrap().0;
    w.despawn(es[0]);
    println!("{}", read(a));
""")
a("meta_across_growth", "a record of an entity is kept while the table grows", """
    let (mut w, es) = world();
    let m = w.get_entity_meta(es[0]).unwrap();
    for _ in 0..200 {
        stir(&mut w);
    }
    println!("{}", m.instance_meta.index);
""")
# ---- builders
a("two_builders", "two builders are in use at once", """
    let mut w = World::new();
    let a = w.spawn().with(v(1));
    let b = w.spawn().with(v(2));
    let (mut a, mut b) = (a.with(s(1)), b.with(s(2)));
    println!("{} {}", a.build() == b.build(), w.is_alive(a.build()));
""")
a("world_during_build", "the world is used while a builder is", """
    let (mut w, es) = world();
    let b = w.spawn().with(v(1));
    w.despawn(es[0]);
    stir(&mut w);
    let e = b.with(s(1)).build();
    println!("{}", read(w.query::<(&V,)>().get(e).unwrap().0));
""")
a("query_during_build", "a query is used while an entity is built", """
    let (mut w, _) = world();
    let b = w.spawn().with(v(1));
    let mut q = w.query::<(&V,)>();
    let a = q.iter().next().unwrap().0;
    let mut b = b.with(s(1));
    b.build();
    println!("{}", read(a));
""")
a("builder_cloned", "a builder is cloned", """
    let mut w = World::new();
    let mut a = w.spawn().with(v(1));
    let mut b = a.clone();
    a.build();
    b.build();
    println!("{}", w.query::<(&V,)>().iter().map(|(x,)| read(x)).sum::<u64>());
""")
a("builder_outlives_world", "a builder is kept when the world is gone", """
    let b = {
        let mut w = World::new();
        w.spawn().with(v(1))
    };
    println!("{}", { b }.build().as_u64());
""")
# ---- components that are borrowed
a("borrowed_component", "a component borrows from something that goes first", """
    let mut w = World::new();
    {
        let x = String::from("not for long");
        w.spawn().with(Lent(x.as_str())).build();
    }
    for (l,) in w.query::<(&Lent<'static>,)>().iter() {
        println!("{}", l.0);
    }
""", "struct Lent<'a>(&'a str);\n")
a("borrowed_component_added", "an added component borrows from something that goes first", """
    let mut w = World::new();
    let e = w.spawn().build();
    {
        let x = vec![1u64, 2, 3];
        w.add_component(e, Lent(&x));
    }
    for (l,) in w.query::<(&Lent<'static>,)>().iter() {
        println!("{}", l.0.len() as u64 + l.0[0]);
    }
""", "struct Lent<'a>(&'a [u64]);\n")
a("borrowed_item", "a component borrows from another component", """
    let (mut w, es) = world();
    let mut q = w.query::<(&V,)>();
    let x: &V = q.get(es[0]).unwrap().0;
    let mut w2 = World::new();
    w2.spawn().with(Lent(x)).build();
    drop(q);
    w.despawn(es[0]);
    for (l,) in w2.query::<(&Lent<'static>,)>().iter() {
        println!("{}", read(l.0));
    }
""", "struct Lent<'a>(&'a V);\n")
# ---- threads
top = "use std::{cell::{Cell, RefCell}, rc::Rc, thread};\n"
a("world_sent", "a world with thread-bound components is sent to another thread", """
    let x = Rc::new(RefCell::new(vec![1u64]));
    let mut w = World::new();
    let e = w.spawn().with(x.clone()).build();
    let t = thread::spawn(move || {
        for _ in 0..50 {
            let mut q = w.query::<(&Rc<RefCell<Vec<u64>>>,)>();
            let c = q.get(e).unwrap().0.clone();
            c.borrow_mut().push(2);
        }
    });
    for _ in 0..50 {
        x.clone().borrow_mut().push(1);
    }
    t.join().unwrap();
""", top)
a("world_shared", "a world with thread-bound components is shared with another thread", """
    let mut w = World::new();
    let e = w.spawn().with(Cell::new(0u64)).build();
    thread::scope(|sc| {
        for _ in 0..2 {
            sc.spawn(|| {
                for _ in 0..50 {
                    let mut q = w.query::<(&Cell<u64>,)>();
                    let c = q.get(e).unwrap().0;
                    c.set(c.get() + 1);
                }
            });
        }
    });
""", top)
a("world_in_a_mutex", "a world with thread-bound components is handed around in a mutex", """
    let x = Rc::new(Cell::new(1u64));
    let mut w = World::new();
    let e = w.spawn().with(x.clone()).build();
    let m = std::sync::Arc::new(std::sync::Mutex::new(w));
    let n = m.clone();
    let t = thread::spawn(move || {
        for _ in 0..50 {
            let g = n.lock().unwrap();
            let mut q = g.query::<(&Rc<Cell<u64>>,)>();
            let c = q.get(e).unwrap().0.clone();
            c.set(c.get() + 1);
        }
    });
    for _ in 0..50 {
        let c = x.clone();
        c.set(c.get() + 1);
    }
    t.join().unwrap();
""", top)
a("query_sent", "a query is sent to another thread", """
    let mut w = World::new();
    let x = Rc::new(Cell::new(1u64));
    w.spawn().with(x.clone()).build();
    thread::scope(|sc| {
        let mut q = w.query::<(&Rc<Cell<u64>>,)>();
        sc.spawn(move || {
            for _ in 0..50 {
                for (c,) in q.iter() {
                    let d = c.clone();
                    d.set(d.get() + 1);
                }
            }
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
        }
    });
""", top)
a("iterator_sent", "an iterator is sent to another thread", """
    let mut w = World::new();
    let x = Rc::new(Cell::new(1u64));
    for _ in 0..9 {
        w.spawn().with(x.clone()).build();
    }
    let mut q = w.query::<(&Rc<Cell<u64>>,)>();
    let i = q.iter();
    thread::scope(|sc| {
        sc.spawn(move || {
            for (c,) in i {
                let d = c.clone();
                d.set(d.get() + 1);
            }
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
        }
    });
""", top)
a("builder_sent", "a builder with thread-bound components is sent to another thread", """
    let mut w = World::new();
    let x = Rc::new(Cell::new(1u64));
    let mut b = w.spawn();
    for _ in 0..1 {
        b = b.with(x.clone());
    }
    thread::scope(|sc| {
        sc.spawn(move || {
            thread::yield_now();
            drop(b);
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
            thread::yield_now();
        }
    });
""", top)
a("vec_sent", "an untyped vector of thread-bound elements is sent to another thread", """
    let x = Rc::new(Cell::new(1u64));
    let t = vec_of(vec![x.clone(), x.clone()]);
    thread::scope(|sc| {
        sc.spawn(move || {
            thread::yield_now();
            drop(t);
        });
        for _ in 0..50 {
            let c = x.clone();
            c.set(c.get() + 1);
            thread::yield_now();
        }
    });
""", top)
# ---- functions that are unsafe for a reason
a("push_safely", "a safe push of what is no value of the type", """
    let (mut w, _) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let e = w.spawn().build();
    let mut junk = [1usize; 8];
    w.add_component_dynamic_with_data(e, id, junk.as_mut_ptr() as *mut u8);
    println!("{}", read(w.query::<(&V,)>().get(e).unwrap().0));
""")
a("build_safely", "a safe builder step with what is no value of the type", """
    let (mut w, _) = world();
    let id = w.get_or_create_type_id_ecsid::<V>();
    let mut junk = [1usize; 8];
    let e = w.spawn().with_dynamic_with_data(junk.as_mut_ptr() as *mut u8, id).build();
    println!("{}", read(w.query::<(&V,)>().get(e).unwrap().0));
""")
a("vec_push_safely", "a safe push from nowhere", """
    let mut x = vec_of(vec![[1u64; 4]]);
    x.push_raw(8 as *mut _);
    println!("{}", x.len());
""")
a("vec_view_safely", "a safe view as another type of that layout", """
    let x = vec_of(vec![16usize, 17]);
    println!("{}", x.as_slice::<&'static u64>()[0]);
""")
a("vec_view_mut_safely", "a safe exclusive view as another type of that layout", """
    let mut x = vec_of(vec![16usize, 17]);
    let b = x.as_slice_mut::<Box<u64>>();
    *b[1] = 5;
    println!("{}", b.len());
""")
a("vec_move_safely", "a safe move to a vector of another type of that layout", """
    let mut x = vec_of(vec![16usize, 17]);
    let mut y = vec_of(vec![Box::new(5usize)]);
    x.swap_move_element_to_other_vec(&mut y, 0);
    drop(y);
    println!("{}", x.len());
""")
a("vec_view_outlives_vec", "an element is looked at when its vector has grown", """
    let mut x = vec_of(vec![1usize, 2, 3, 4]);
    let a = view::<usize>(&x);
    x.realloc();
    println!("{}", a[1]);
""")
a("vec_view_outlives_pop", "an element is looked at when it is gone", """
    let mut x = vec_of(vec![v(1), v(2)]);
    let a = view::<V>(&x);
    x.pop();
    println!("{}", read(&a[1]));
""")
a("vec_view_outlives_removal", "an element is looked at when it is gone", """
    let mut x = vec_of(vec![v(1), v(2)]);
    let a = view::<V>(&x);
    x.swap_remove(0);
    println!("{}", read(&a[0]) + read(&a[1]));
""")
a("vec_views_twice", "exclusive views of one vector are held at once", """
    let mut x = vec_of(vec![v(1), v(2)]);
    let (a, b) = (view_mut::<V>(&mut x), view_mut::<V>(&mut x));
    println!("{}", both(&mut a[0], &mut b[0]));
""")
a("vec_cloned", "a vector is cloned", """
    let x = vec_of(vec![v(1), v(2)]);
    let y = x.clone();
    println!("{}", x.len() + y.len());
    drop(x);
    drop(y);
""")
a("world_cloned", "a world is cloned", """
    let (w, es) = world();
    let mut x = w.clone();
    x.despawn(es[0]);
    println!("{}", read(w.query::<(&V,)>().get(es[0]).unwrap().0));
    drop(x);
    drop(w);
""")
# ---- programs that compile today: whatever they do, it must not be undefined
a("runs_forgotten_query", "a query is never dropped, its lock stays taken", """
    let (mut w, es) = world();
    std::mem::forget(w.query::<(&V,)>());
    let mut q = w.query::<(&V,)>();
    println!("{}", read(q.get(es[0]).unwrap().0));
    drop(q);
    stir(&mut w);
    drop(w);
""")
a("runs_forgotten_builder", "builders are never dropped, then handles of other worlds name their slots", """
    let mut w = World::new();
    let mut other = World::new();
    let es: Vec<_> = (0..20).map(|i| other.spawn().with(v(i)).build()).collect();
    std::mem::forget(w.spawn());
    std::mem::forget(w.spawn().with(v(1)));
    std::mem::forget(w.spawn_with_capacity(64).with(s(1)));
    w.spawn().with(v(2)).build();
    stir(&mut w);
    for &e in &es {
        for k in 0..9 {
            let _ = catch_unwind(AssertUnwindSafe(|| match k {
                0 => drop(w.is_alive(e)),
                1 => w.add_component(e, s(3)),
                2 => w.remove_component::<V>(e),
                3 => drop(w.has_component::<S>(e)),
                4 => drop(w.query::<(&mut V, &S)>().get(e).map(|(x, _)| x.0.push(1))),
                5 => w.add_component_dynamic(e, es[0]),
                6 => w.remove_component_dynamic(e, es[1]),
                7 => drop(w.spawn().with(v(4)).with_dynamic(e).build()),
                _ => drop(w.despawn(e)),
            }));
        }
    }
    stir(&mut w);
    println!("{}", w.query::<(&V,)>().iter().map(|(x,)| read(x)).sum::<u64>());
""", "use std::panic::{catch_unwind, AssertUnwindSafe};\n")
a("runs_foreign_ids", "handles and component ids of one world are used in another", """
    let (a, ea) = world();
    let mut b = World::new();
    let mut eb = Vec::new();
    eb.push(b.spawn().with(s(1)).with(7u8).build());
    eb.push(b.spawn().with([1u64; 9]).build());
    eb.push(b.spawn().build());
    eb.push(b.get_or_create_type_id_ecsid::<V>());
    for &x in &ea {
        for &y in &eb {
            for k in 0..7 {
                let _ = catch_unwind(AssertUnwindSafe(|| match k {
                    0 => b.add_component_dynamic(x, y),
                    1 => b.add_component_dynamic(y, x),
                    2 => b.remove_component_dynamic(y, x),
                    3 => drop(b.spawn().with_dynamic(x).with_dynamic(y).build()),
                    4 => drop(b.query_dynamic([FetchType::Mut(x), FetchType::EcsId]).iter().count()),
                    5 => drop(b.query::<(&V,)>().get(x).map(|(v,)| read(v))),
                    _ => b.add_component(x, v(8)),
                }));
            }
        }
    }
    stir(&mut b);
    drop(b);
    println!("{}", read(a.query::<(&V,)>().get(ea[0]).unwrap().0));
""", "use std::panic::{catch_unwind, AssertUnwindSafe};\n")
a("runs_reentrant_drop", "a destructor reaches for the world its value is in", """
    let w = Rc::new(RefCell::new(World::new()));
    for i in 0..9 {
        let e = w.borrow_mut().spawn().with(Deep(w.clone(), i)).with(v(i)).build();
        if i % 2 == 0 {
            w.borrow_mut().add_component(e, s(i));
        }
        if i % 3 == 0 {
            w.borrow_mut().remove_component::<Deep>(e);
        }
        if i % 4 == 1 {
            w.borrow_mut().despawn(e);
        }
    }
    let inner = w.replace(World::new());
    drop(inner);
    println!("{}", w.borrow().query::<(&V,)>().iter().count());
""", """use std::{cell::RefCell, rc::Rc};
struct Deep(Rc<RefCell<World>>, u64);
impl Drop for Deep {
    fn drop(&mut self) {
        if let Ok(mut w) = self.0.try_borrow_mut() {
            w.spawn().with(v(self.1)).build();
            for (x,) in w.query::<(&mut V,)>().iter() {
                x.0.push(self.1);
            }
        }
    }
}
""")
a("runs_worlds_in_worlds", "worlds, builders and queries are themselves components", """
    let (mut w, es) = world();
    let (inner, ei) = world();
    w.add_component(es[0], inner);
    let e = w.spawn().with(world().0).with(v(3)).build();
    for (x, i) in w.query::<(&mut V, &mut World)>().iter() {
        stir(i);
        x.0.push(i.is_alive(ei[0]) as u64);
        println!("{}", i.query::<(&V,)>().iter().map(|(x,)| read(x)).sum::<u64>());
    }
    w.remove_component::<World>(e);
    stir(&mut w);
    let back = std::mem::replace(w.query::<(&mut World,)>().get(es[0]).unwrap().0, World::new());
    drop(w);
    println!("{}", back.query::<(&V,)>().iter().count());
""")
a("runs_swapped_rows", "values are swapped between rows and columns through references", """
    let (w, es) = world();
    let mut q = w.query::<(&mut V,)>();
    let mut x: Vec<_> = q.iter().map(|(x,)| x).collect();
    for i in 0..x.len() {
        let (a, b) = x.split_at_mut(i);
        if let (Some(a), Some(b)) = (a.first_mut(), b.first_mut()) {
            std::mem::swap(*a, *b);
        }
    }
    for a in x {
        a.0.extend([1; 50]);
    }
    println!("{}", read(q.get(es[0]).unwrap().0));
""")
a("runs_shared_items", "shared items of one query are all held at once, beside other shared queries", """
    let (w, es) = world();
    let mut q = w.query::<(&V, EcsIds)>();
    let x: Vec<_> = q.iter().collect();
    let mut r = w.query::<(&V, &V, &S)>();
    let y: Vec<_> = r.iter().collect();
    let z = thread_local(&w, es[0]);
    println!("{}", x.iter().map(|(v, _)| read(v)).sum::<u64>() + y.iter().map(|(a, b, _)| read(a) + read(b)).sum::<u64>() + z);
""", """
fn thread_local(w: &World, e: EcsId) -> u64 {
    w.query::<(&V,)>().get(e).map_or(0, |(x,)| read(x))
}
""")
a("runs_empty_vec", "what an untyped vector allows without unsafe code", """
    let i = TypeInfo::new(std::alloc::Layout::new::<u64>(), None);
    println!("{}", i == TypeInfo::new(std::alloc::Layout::new::<V>(), None));
    let (mut w, _) = world();
    stir(&mut w);
    let m = w.get_or_create_type_id_ecsid::<V>();
    println!("{:?} {}", w.get_entity_meta(m), i.layout.size());
""")

for f in os.listdir(D):
    os.unlink(os.path.join(D, f))
for n, (why, body, top) in P.items():
    use = "use attacks::*;\n"
    with open(os.path.join(D, n + ".rs"), "w") as f:
        f.write(f"//! {why}\n#![forbid(unsafe_code)]\n#![allow(unused)]\n{use}{top}\nfn main() {{{body}}}\n")
print(len(P))
