//! A dense walk over the whole API with little bookkeeping, for interpreters that cost a thousand times
//! the running time (Miri) and for the sanitizers: every call, on every component type, in the situations
//! where undefined behaviour hides (empty storage, growth, last and middle rows, items of one iteration
//! alive together, zero-sized and over-aligned types, caught panics).
use crate::drive::Out;
use crate::engine::*;
use crate::kinds::*;
use crate::queries::*;
use crate::rng::{mix, Rng};
use crate::{alloc, ledger};
use arche_tape::{spawn, EcsId, EcsIds, World};
use std::alloc::Layout;
use untyped_vec::{TypeInfo, UntypedVec};

struct T0 {
    r: Rng,
    n: u64,
}
impl T0 {
    fn v<T: Comp>(&mut self) -> u64 {
        self.n += 1;
        match T::MASK {
            u64::MAX => self.n | 5 << 40,
            m => mix(self.n) & m,
        }
    }
    fn mk<T: Comp>(&mut self) -> (T, u64) {
        let v = self.v::<T>();
        (alloc::untrack(|| T::make(v)), v)
    }
}
fn same(what: &str, got: u64, want: u64) {
    if got != want {
        ledger::error(format!("tour: {what} reads {got:#x}, should be {want:#x}"));
    }
}
/// everything that can be read, by every path
fn look<T: Comp, U: Comp>(w: &mut World, es: &[(EcsId, Option<u64>, Option<u64>)], t: &mut T0, write: bool) -> Vec<(EcsId, Option<u64>, Option<u64>)> {
    let mut es = es.to_vec();
    // shared items, all alive together
    {
        let mut q = w.query::<(EcsIds, &T)>();
        let all: Vec<(EcsId, &T)> = q.iter().collect();
        let want = es.iter().filter(|e| e.1.is_some()).count();
        if all.len() != want {
            ledger::error(format!("tour: {} items, should be {want}", all.len()));
        }
        for (id, x) in &all {
            let e = es.iter().find(|e| e.0 == *id);
            same("typed item", read(*x), e.and_then(|e| e.1).unwrap_or(u64::MAX - 1));
        }
        // items outlive the iterator
        let last = all.last().map(|x| read(x.1));
        drop(all);
        if let (Some(l), Some((_, x))) = (last, q.iter().last()) {
            same("last typed item", read(x), l);
        }
    }
    // two columns, one of them mutable, all items alive together
    {
        let mut q = w.query::<(&U, EcsIds, &mut T)>();
        let all: Vec<_> = q.iter().collect();
        for (u, id, x) in all {
            let e = es.iter_mut().find(|e| e.0 == id).expect("tour: unknown entity");
            same("pair item U", read(u), e.2.unwrap_or(u64::MAX - 1));
            same("pair item T", read(&*x), e.1.unwrap_or(u64::MAX - 1));
            if write {
                let v = t.v::<T>();
                x.set(v);
                e.1 = Some(v);
            }
        }
        for e in es.iter_mut() {
            if let Some((u, _, x)) = q.get(e.0) {
                same("lookup U", read(u), e.2.unwrap_or(u64::MAX - 1));
                if write {
                    let v = t.v::<T>();
                    x.set(v);
                    e.1 = Some(v);
                }
                same("lookup T", read(&*x), e.1.unwrap_or(u64::MAX - 1));
            }
        }
    }
    // dynamic: pointers to all rows, used after all were handed out
    let (ti, ui) = (w.get_or_create_type_id_ecsid::<T>(), w.get_or_create_type_id_ecsid::<U>());
    {
        let mut ptrs: Vec<[*mut u8; 3]> = vec![];
        let _ = dyn_iter(w, &[F::Mut(ti), F::Id, F::Ref(ui)], Plan { collect: true, ..ONCE }, &mut |p, _| {
            ptrs.push([p[0], p[1], p[2]]);
            unsafe {
                let id = *(p[1] as *const EcsId);
                let e = es.iter_mut().find(|e| e.0 == id).expect("tour: unknown entity");
                let x = &mut *(p[0] as *mut T);
                same("dynamic T", read(&*x), e.1.unwrap_or(u64::MAX - 1));
                same("dynamic U", read(&*(p[2] as *const U)), e.2.unwrap_or(u64::MAX - 1));
                if write {
                    let v = t.v::<T>();
                    alloc::untrack(|| x.set(v));
                    e.1 = Some(v);
                }
            }
            true
        });
    }
    // columns as slices
    {
        let _ = dyn_cols(w, &[F::Id, F::Mut(ti)], &mut |g| unsafe {
            let ids = std::slice::from_raw_parts(g[0].0 as *const EcsId, g[0].1);
            let xs = std::slice::from_raw_parts_mut(g[1].0 as *mut T, g[1].1);
            for (id, x) in ids.iter().zip(xs) {
                let e = es.iter_mut().find(|e| e.0 == *id).expect("tour: unknown entity");
                same("column T", read(&*x), e.1.unwrap_or(u64::MAX - 1));
                if write {
                    let v = t.v::<T>();
                    alloc::untrack(|| x.set(v));
                    e.1 = Some(v);
                }
            }
            true
        });
        let _ = dyn_cols(w, &[F::Ref(ui), F::Id], &mut |g| unsafe {
            let us = std::slice::from_raw_parts(g[0].0 as *const U, g[0].1);
            let ids = std::slice::from_raw_parts(g[1].0 as *const EcsId, g[1].1);
            for (id, u) in ids.iter().zip(us) {
                let e = es.iter().find(|e| e.0 == *id).expect("tour: unknown entity");
                same("column U", read(u), e.2.unwrap_or(u64::MAX - 1));
            }
            true
        });
    }
    for e in &es {
        match (w.get_component_mut_dynamic(e.0, ti), e.1) {
            (Some(p), Some(v)) => same("pointer T", unsafe { read(&*(p as *const T)) }, v),
            (None, None) => {}
            _ => ledger::error("tour: a component is there and should not, or the reverse".into()),
        }
    }
    es
}
fn forgive<T: Comp>(v: u64, before: i64) {
    if T::DROPS && T::MASK != 0 {
        ledger::forgive(v);
    } else if T::DROPS && ledger::zst_live(T::K) == before + 1 {
        ledger::forgive_zst(T::K, 1);
    }
}
fn quiet(f: impl FnOnce()) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
}

fn world<T: Comp, U: Comp>(r: Rng) {
    let mut t = T0 { r, n: 0 };
    let mut w = World::new();
    assert!(w.query::<(&T, &mut U)>().iter().next().is_none());
    assert_eq!(w.query::<(EcsIds,)>().iter().count(), 0);
    let mut es: Vec<(EcsId, Option<u64>, Option<u64>)> = vec![];
    if t.r.pct(50) {
        let e = w.spawn().build();
        w.despawn(e);
    }
    // the four combinations, in both orders
    {
        let ((x, vx), (u, vu)) = (t.mk::<T>(), t.mk::<U>());
        es.push((spawn!(&mut w, x, u), Some(vx), Some(vu)));
        let ((x, vx), (u, vu)) = (t.mk::<T>(), t.mk::<U>());
        es.push((w.spawn_with_capacity(3).with(u).with(x).build(), Some(vx), Some(vu)));
        let (x, vx) = t.mk::<T>();
        es.push((spawn!(&mut w, x), Some(vx), None));
        let (u, vu) = t.mk::<U>();
        es.push((spawn!(&mut w, u), None, Some(vu)));
        es.push((spawn!(&mut w), None, None));
    }
    let (ti, ui) = (w.get_or_create_type_id_ecsid::<T>(), w.get_or_create_type_id_ecsid::<U>());
    for (id, ..) in &mut w.query::<(EcsIds, &T)>().iter().map(|(e, x)| (e, read(x))) {
        assert!(w.is_alive(id));
    }
    let ids = [ti, ui];
    let known = |es: &[(EcsId, Option<u64>, Option<u64>)], w: &mut World, t: &mut T0, wr| {
        let mut all = es.to_vec();
        all.extend(ids.iter().map(|&i| (i, None, None)));
        all.retain(|e| w.is_alive(e.0));
        let mut l = look::<T, U>(w, &all, t, wr);
        l.retain(|e| !ids.contains(&e.0));
        l
    };
    es = known(&es, &mut w, &mut t, true);
    // empty every storage of one combination, and use it while it is empty
    w.remove_component::<U>(es[0].0);
    es[0].2 = None;
    w.remove_component_dynamic(es[1].0, ui);
    es[1].2 = None;
    es = known(&es, &mut w, &mut t, true);
    // fill it again, past its first allocation
    for i in 0..t.r.range(4, 7) {
        let ((x, vx), (u, vu)) = (t.mk::<T>(), t.mk::<U>());
        let e = if i % 2 == 0 {
            w.spawn().with(x).with(u).build()
        } else {
            let e = w.spawn().build();
            w.add_component(e, u);
            w.add_component(e, x);
            e
        };
        es.push((e, Some(vx), Some(vu)));
    }
    es = known(&es, &mut w, &mut t, false);
    // raw data, by the id of the type
    {
        let (x, vx) = t.mk::<T>();
        let mut x = std::mem::ManuallyDrop::new(x);
        let e = es[4].0;
        unsafe { w.add_component_dynamic_with_data(e, ti, &mut x as *mut _ as *mut u8) };
        es[4].1 = Some(vx);
    }
    // rejected calls
    let dead = {
        let e = w.spawn().build();
        w.despawn(e);
        e
    };
    let e0 = es[0].0;
    {
        // the value handed to a refused call may be dropped or leaked, nothing else may
        let (before, (x, v)) = (ledger::zst_live(T::K), t.mk::<T>());
        quiet(|| w.add_component(e0, x));
        forgive::<T>(v, before);
        quiet(|| w.remove_component::<U>(e0));
        quiet(|| w.add_component_dynamic(e0, ti));
        quiet(|| w.add_component_dynamic(e0, dead));
        let (x, _) = t.mk::<T>();
        let (before, (y, v)) = (ledger::zst_live(T::K), t.mk::<T>());
        quiet(|| {
            w.spawn().with(x).with(y).build();
        });
        // the first value was accepted, so the builder owns it; it is gone once it unwound
        forgive::<T>(v, before - 1);
    }
    es = known(&es, &mut w, &mut t, true);
    // middle, first and last rows go; entities used as components; builders left alone or used twice
    for _ in 0..t.r.range(1, 3) {
        let i = t.r.below(es.len());
        let e = es.swap_remove(i);
        assert!(w.despawn(e.0) && !w.despawn(e.0));
    }
    let tag = w.spawn().build();
    for i in 0..2 {
        let e = es[(i * 3) % es.len()].0;
        w.add_component_dynamic(e, tag);
        if i == 1 {
            w.remove_component_dynamic(e, tag);
        }
    }
    {
        let (x, _) = t.mk::<T>();
        drop(w.spawn().with(x).with_dynamic(tag));
        let (u, vu) = t.mk::<U>();
        let mut b = w.spawn().with(u).with_dynamic(tag);
        let e = b.build();
        assert!(b.build() == e);
        drop(b);
        es.push((e, None, Some(vu)));
    }
    es.push((tag, None, None));
    es = known(&es, &mut w, &mut t, true);
    // a destructor that panics
    if T::DROPS && !cfg!(no_bombs) {
        for how in 0..2 {
            if let Some(i) = es.iter().position(|e| e.1.is_some() && e.0 != tag) {
                let v = es[i].1.unwrap();
                ledger::with(|l| if T::MASK == 0 { l.zst_bomb = Some(T::K) } else { l.bombs.push(v) });
                let e = es[i].0;
                if how == 0 {
                    quiet(|| w.remove_component::<T>(e));
                    es[i].1 = None;
                } else {
                    quiet(|| {
                        w.despawn(e);
                    });
                    es.swap_remove(i);
                }
                ledger::with(|l| {
                    l.zst_bomb = None;
                    l.bombs.clear()
                });
            }
        }
        known(&es, &mut w, &mut t, false);
    }
    drop(w);
    if ledger::live_count() != 0 || zst_keys().any(|k| ledger::zst_live(k) != 0) {
        ledger::error("tour: values left after the world was dropped, destructor missing".into());
    }
}

fn dynamic(d: u16, r: Rng) {
    let dc = &DYN[d as usize];
    let mut t = T0 { r, n: 0 };
    let mut w = World::new();
    let id = unsafe { w.spawn_with_component_meta(dc.meta()).build() };
    let mut val = || {
        t.n += 1;
        match dc.mask() {
            u64::MAX => t.n | 6 << 40,
            m => mix(t.n) & m,
        }
    };
    let mut es: Vec<(EcsId, Option<u64>)> = vec![];
    for i in 0..6 {
        let v = val();
        let mut b = dc.make(v);
        let e = if i == 4 {
            // misaligned in the builder
            unsafe { w.spawn().with(C5::make(v)).with_dynamic_with_data(b.ptr(), id).build() }
        } else if i % 2 == 0 {
            unsafe { w.spawn().with_dynamic_with_data(b.ptr(), id).with(C3(v)).build() }
        } else {
            let e = w.spawn().with(C3(v)).build();
            unsafe { w.add_component_dynamic_with_data(e, id, b.ptr()) };
            e
        };
        es.push((e, Some(v)));
    }
    let read_all = |w: &mut World, es: &[(EcsId, Option<u64>)]| {
        let mut n = 0;
        let _ = dyn_iter(w, &[F::Id, F::Ref(id)], Plan { collect: true, ..ONCE }, &mut |p, _| unsafe {
            let e = *(p[0] as *const EcsId);
            same("dynamic value", dc.read(p[1]), es.iter().find(|x| x.0 == e).and_then(|x| x.1).unwrap_or(u64::MAX - 1));
            n += 1;
            true
        });
        same("rows", n, es.iter().filter(|e| e.1.is_some()).count() as u64);
        let _ = dyn_cols(w, &[F::Mut(id), F::Id], &mut |g| unsafe {
            for i in 0..g[0].1 {
                let e = *(g[1].0 as *const EcsId).add(i);
                same("dynamic column", dc.read(g[0].0.wrapping_add(i * dc.size)), es.iter().find(|x| x.0 == e).and_then(|x| x.1).unwrap_or(u64::MAX - 1));
            }
            true
        });
        for e in es {
            match (w.get_component_mut_dynamic(e.0, id), e.1) {
                (Some(p), Some(v)) => same("dynamic pointer", unsafe { dc.read(p) }, v),
                (None, None) => {}
                _ => ledger::error("tour: a run-time described component is there and should not, or the reverse".into()),
            }
        }
    };
    read_all(&mut w, &es);
    for i in [4usize, 0] {
        w.remove_component_dynamic(es[i].0, id);
        es[i].1 = None;
        read_all(&mut w, &es);
    }
    for i in [1usize, 5] {
        let v = val();
        let p = w.get_component_mut_dynamic(es[i].0, id).expect("present");
        unsafe { dc.write(p, v) };
        es[i].1 = Some(v);
    }
    w.remove_component::<C3>(es[2].0);
    read_all(&mut w, &es);
    assert!(w.despawn(es[3].0));
    es.swap_remove(3);
    read_all(&mut w, &es);
    // a description nothing used goes away again
    let other = unsafe { w.spawn_with_component_meta(dc.meta()).build() };
    assert!(w.despawn(other));
    let again = w.spawn().build();
    w.add_component_dynamic(es[0].0, again);
    drop(w);
    if ledger::live_count() != 0 || zst_keys().any(|k| ledger::zst_live(k) != 0) {
        ledger::error("tour: values left after the world was dropped, destructor missing".into());
    }
}

fn vec<T: Comp>(r: Rng) {
    let mut t = T0 { r, n: 0 };
    let info = TypeInfo::new(Layout::new::<T>(), Some(KINDS[T::K as usize].drop_fn));
    let mut a = unsafe { UntypedVec::new_from_raw(info) };
    let mut b = UntypedVec::new_from_untyped_vec(&mut a);
    let check = |v: &mut UntypedVec, m: &[u64]| unsafe {
        let s: Vec<u64> = v.as_slice::<T>().iter().map(|x| read(x)).collect();
        if s != m {
            ledger::error(format!("tour: vector reads {s:x?}, should be {m:x?}"));
        }
        for i in 0..=m.len() {
            if v.get_raw(i).map(|p| read(&*(p as *const T))) != m.get(i).copied() {
                ledger::error("tour: vector element differs".into());
            }
        }
    };
    let (mut ma, mut mb) = (vec![], vec![]);
    check(&mut a, &ma);
    assert!(!a.pop());
    unsafe { assert!(a.as_slice_mut::<T>().is_empty()) };
    for _ in 0..t.r.range(5, 9) {
        let (x, v) = t.mk::<T>();
        let mut x = std::mem::ManuallyDrop::new(x);
        unsafe { a.push_raw(&mut x as *mut _ as *mut _) };
        ma.push(v);
    }
    check(&mut a, &ma);
    for i in [2usize, 0, ma.len() - 3] {
        unsafe { a.swap_move_element_to_other_vec(&mut b, i) };
        let v = ma.swap_remove(i);
        mb.push(v);
        check(&mut a, &ma);
        check(&mut b, &mb);
    }
    a.swap_remove(0);
    ma.swap_remove(0);
    unsafe {
        let all = b.as_slice_mut::<T>();
        for (x, m) in all.iter_mut().zip(mb.iter_mut()) {
            let v = t.v::<T>();
            x.set(v);
            *m = v;
        }
        if let Some(p) = b.get_mut_raw(1) {
            let v = t.v::<T>();
            (*(p as *mut T)).set(v);
            mb[1] = v;
        }
    }
    check(&mut b, &mb);
    check(&mut a, &ma);
    while a.pop() {
        ma.pop();
    }
    check(&mut a, &ma);
    let mut last = b;
    unsafe { last.swap_move_element_to_other_vec(&mut a, 0) };
    ma.push(mb.swap_remove(0));
    check(&mut a, &ma);
    check(&mut last, &mb);
    drop(last);
    drop(a);
    if ledger::live_count() != 0 || zst_keys().any(|k| ledger::zst_live(k) != 0) {
        ledger::error("tour: elements left after the vectors were dropped, destructor missing".into());
    }
}

macro_rules! tours {
    ($($a:ident $b:ident $c:ident),* $(,)?) => {
        static WORLDS: &[(u16, u16, fn(Rng))] = &[$(($a::K, $b::K, world::<$a, $b>), ($a::K, $c::K, world::<$a, $c>)),*];
        static VECS: &[(u16, fn(Rng))] = &[$(($a::K, vec::<$a>)),*];
    };
}
tours!(
    C0 C15 C9, C1 C14 C12, C2 C16 C8, C3 C10 C22, C4 C13 C20, C5 C18 C7, C6 C11 C15, C7 C0 C12, C8 C14 C3, C9 C21 C16, C10 C15 C11,
    C11 C22 C8, C12 C3 C13, C13 C18 C12, C14 C23 C13, C15 C19 C18, C16 C5 C10, C17 C2 C14, C18 C20 C9, C19 C12 C15, C20 C1 C4, C21 C16 C13,
    C22 C6 C14, C23 C17 C22
);

pub fn count() -> usize {
    WORLDS.len() + VECS.len() + if cfg!(miri) { BASIC_DYN } else { DYN.len() } + 1
}
pub fn run(seed: u64, prop: u32, idx: u64) -> Out {
    ledger::reset();
    alloc::reset();
    let mut out = Out { shape: "tour".into(), steps: 1, ..Out::default() };
    let r = Rng::new(mix(seed ^ mix(idx ^ 0x70f4)));
    // vectors only for C12
    let n = if prop == 12 { VECS.len() } else { count() };
    // spread the expensive large types over the workers
    let i = (idx as usize * 29) % n;
    let (res, what) = if i == count() - 1 {
        out.add("thread_tours", 1);
        match crate::share::run() {
            Ok(seen) => out.add("shared_or_sent", seen.iter().filter(|s| s.1).count() as u64),
            Err(m) => return out.with(prop, Vio { tags: c(6), sus: 0, what: m, step: 0 }),
        }
        (Ok(()), "threads".to_string())
    } else if i < VECS.len() {
        out.add("vector_tours", 1);
        (attempt(|| VECS[i].1(r)), format!("vector of kind {}", VECS[i].0))
    } else if i < VECS.len() + WORLDS.len() {
        let t = &WORLDS[i - VECS.len()];
        out.add("world_tours", 1);
        (attempt(|| t.2(r)), format!("world with kinds {} and {}", t.0, t.1))
    } else {
        let d = i - VECS.len() - WORLDS.len();
        out.add("dynamic_tours", 1);
        (attempt(|| dynamic(d as u16, r)), format!("run-time described class {d}"))
    };
    // what ran, as the monitors saw it
    let (made, drops, reads) = ledger::with(|l| (l.made, l.drops, l.reads));
    out.trace = mix(i as u64 ^ mix(made ^ mix(drops ^ mix(reads))));
    out.add("values_made", made);
    out.add("destructors_seen", drops);
    if let Err(m) = res {
        return out.with(prop, Vio { tags: 0, sus: 0, what: format!("tour of {what}: {m}"), step: 0 });
    }
    if let Some(e) = ledger::take_error() {
        let mut t = 0;
        if e.contains("aligned") || e.contains("corrupt") || e.contains("bytes of") {
            t |= c(6) | c(12);
        }
        if e.contains("destructor") || e.contains("dropped") {
            t |= c(5) | if i < VECS.len() { c(12) } else { 0 };
        }
        return out.with(prop, Vio { tags: t, sus: 0, what: format!("tour of {what}: {e}"), step: 0 });
    }
    if let Some(e) = alloc::first_error() {
        return out.with(prop, Vio { tags: c(6) | c(12), sus: 0, what: format!("tour of {what}: allocator monitor: {e}"), step: 0 });
    }
    out
}
