//! Which threads the safe interface lets a component reach (C06). A component that is neither `Send` nor
//! `Sync` must stay on the thread that made it. Where a type of the library claims to be `Send` or `Sync`,
//! it is sent or shared here, and the component itself records which thread touched it.
use crate::engine::attempt;
use arche_tape::World;
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering};
use std::thread::ThreadId;

/// touches of a `Lone` by a thread that did not make it
static STRAYS: AtomicU64 = AtomicU64::new(0);

pub struct Lone {
    home: ThreadId,
    n: Cell<u64>,
    _here: PhantomData<*mut ()>,
}
impl Lone {
    fn new() -> Lone {
        Lone { home: std::thread::current().id(), n: Cell::new(0), _here: PhantomData }
    }
    fn touch(&self) {
        self.n.set(self.n.get() + 1);
        if std::thread::current().id() != self.home {
            STRAYS.fetch_add(1, Ordering::Relaxed);
        }
    }
}
impl Drop for Lone {
    fn drop(&mut self) {
        self.touch()
    }
}

struct Is<T>(PhantomData<T>);
fn is<T>(_: &T) -> Is<T> {
    Is(PhantomData)
}
// inherent methods exist, and win, where the bound holds
impl<T: Sync> Is<T> {
    fn share(&self, t: &T, f: fn(&T)) -> bool {
        std::thread::scope(|s| {
            let _ = s.spawn(|| f(t)).join();
        });
        true
    }
}
impl<T: Send> Is<T> {
    fn send(&self, t: T, f: fn(T)) -> bool {
        std::thread::scope(|s| {
            let _ = s.spawn(move || f(t)).join();
        });
        true
    }
}
trait Not<T> {
    fn share(&self, _: &T, _: fn(&T)) -> bool {
        false
    }
    fn send(&self, _: T, _: fn(T)) -> bool {
        false
    }
}
impl<T> Not<T> for Is<T> {}

fn world() -> World {
    let mut w = World::new();
    for i in 0..3u32 {
        let e = w.spawn().with(Lone::new()).build();
        if i > 0 {
            w.add_component(e, i);
        }
    }
    w
}
/// What is shared or sent, and whether a component was touched by another thread.
pub fn run() -> Result<Vec<(&'static str, bool)>, String> {
    let mut seen = vec![];
    let mut bad = None;
    let mut note = |what: &'static str, possible: bool| {
        seen.push((what, possible));
        if STRAYS.swap(0, Ordering::Relaxed) > 0 && bad.is_none() {
            bad = Some(format!("safe code reaches a component that is neither Send nor Sync from another thread: {what}"));
        }
    };
    attempt(|| {
        let w = world();
        note("a World is shared", is(&w).share(&w, |w| w.query::<(&Lone,)>().iter().for_each(|(l,)| l.touch())));
        note("a World is sent", is(&w).send(w, |w| w.query::<(&Lone,)>().iter().for_each(|(l,)| l.touch())));
        let w = world();
        let q = w.query::<(&Lone,)>();
        note("a query is sent", is(&q).send(q, |mut q| q.iter().for_each(|(l,)| l.touch())));
        let mut q = w.query::<(&Lone,)>();
        let i = q.iter();
        note("an iterator is sent", is(&i).send(i, |i| i.for_each(|(l,)| l.touch())));
        drop(q);
        let mut w = world();
        let b = w.spawn().with(Lone::new());
        note("a builder is sent", is(&b).send(b, drop));
        drop(w);
    })
    .map_err(|m| format!("sharing panicked: {m}"))?;
    match bad {
        Some(b) => Err(b),
        None => Ok(seen),
    }
}
