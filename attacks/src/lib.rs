//! What the attacks share. The attacks themselves are safe code; what is unsafe here keeps to the contracts.
pub use arche_tape::{spawn, EcsId, EcsIds, FetchType, StaticQuery, World};
pub use untyped_vec::{TypeInfo, UntypedVec};

/// a component that owns memory, so that reading it after its end, or writing it from two places, shows
#[derive(Debug, Clone, PartialEq)]
pub struct V(pub Vec<u64>);
#[derive(Debug, Clone, PartialEq)]
pub struct S(pub String);
pub fn v(n: u64) -> V {
    V((0..4).map(|i| n * 10 + i).collect())
}
pub fn s(n: u64) -> S {
    S(format!("component number {n}"))
}
/// a world with a few entities, each with `V`, every other one with `S` too
pub fn world() -> (World, Vec<EcsId>) {
    let mut w = World::new();
    let mut es = Vec::new();
    for i in 0..6 {
        let e = w.spawn().with(v(i)).build();
        if i % 2 == 0 {
            w.add_component(e, s(i));
        }
        es.push(e);
    }
    (w, es)
}
/// moves memory around
pub fn stir(w: &mut World) {
    for i in 0..40 {
        let e = w.spawn().with(v(100 + i)).build();
        if i % 3 == 0 {
            w.add_component(e, s(i));
        }
        if i % 5 == 0 {
            w.despawn(e);
        }
    }
}
pub fn read(x: &V) -> u64 {
    x.0.iter().sum()
}
/// uses two exclusive references at once
pub fn both(a: &mut V, b: &mut V) -> u64 {
    let n = a.0.len();
    let first = &a.0[0];
    let f = *first;
    b.0 = vec![7; n * 40];
    b.0.push(1);
    a.0.push(f);
    a.0[0] = 3;
    read(a) + read(b)
}
/// an untyped vector that holds these values
pub fn vec_of<T: 'static>(values: Vec<T>) -> UntypedVec {
    let info = TypeInfo::new(std::alloc::Layout::new::<T>(), Some(|p| unsafe { std::ptr::drop_in_place(p as *mut T) }));
    let mut out = unsafe { UntypedVec::new_from_raw(info) };
    for x in values {
        let mut x = std::mem::ManuallyDrop::new(x);
        unsafe { out.push_raw(&mut x as *mut _ as *mut _) };
    }
    out
}
/// the element type is the caller's word; every attack keeps it
pub fn view<T: 'static>(x: &UntypedVec) -> &[T] {
    unsafe { x.as_slice::<T>() }
}
pub fn view_mut<T: 'static>(x: &mut UntypedVec) -> &mut [T] {
    unsafe { x.as_slice_mut::<T>() }
}
