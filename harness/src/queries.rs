//! Uniform view of typed queries (fixed table) and dynamic queries (any run-time list of ids).
use crate::kinds::*;
use arche_tape::{EcsId, EcsIds, FetchType, World};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
    Id,
    Ref(u16),
    Mut(u16),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cell {
    Id(EcsId),
    Val(u16, u64, usize),
}
pub type Row<'x> = &'x [Cell];

/// Called per mutable cell with (kind, old value); Some(v) writes v.
pub type Writer<'x> = &'x mut dyn FnMut(u16, u64) -> Option<u64>;

pub trait IntoCell {
    fn cell(self, w: Writer) -> Cell;
}
impl IntoCell for EcsId {
    fn cell(self, _: Writer) -> Cell {
        Cell::Id(self)
    }
}
impl<'a, T: Comp> IntoCell for &'a T {
    fn cell(self, _: Writer) -> Cell {
        Cell::Val(T::K, read(self), self as *const T as usize)
    }
}
impl<'a, T: Comp> IntoCell for &'a mut T {
    fn cell(self, w: Writer) -> Cell {
        let v = read(&*self);
        if let Some(n) = w(T::K, v) {
            crate::alloc::untrack(|| self.set(n));
        }
        Cell::Val(T::K, v, self as *mut T as usize)
    }
}
pub trait PartOf {
    const P: Part;
}
impl PartOf for EcsIds {
    const P: Part = Part::Id;
}
impl<T: Comp> PartOf for &'static T {
    const P: Part = Part::Ref(T::K);
}
impl<T: Comp> PartOf for &'static mut T {
    const P: Part = Part::Mut(T::K);
}

pub struct Query {
    pub parts: &'static [Part],
    /// Iterates from a fresh query; `plan` says how (see `Plan`). The row callback returns false to stop.
    pub iter: fn(&World, Plan, &mut dyn FnMut(Row, u32) -> bool, Writer) -> Result<(), String>,
    pub get: fn(&World, &[EcsId], &mut dyn FnMut(usize, Option<Row>), Writer),
    /// hold the query alive while running a closure
    pub hold: fn(&World, &mut dyn FnMut()),
    /// one iteration, with callbacks after the query was obtained and before it is dropped
    pub guarded: fn(&World, &mut dyn FnMut(), &mut dyn FnMut(Row), Writer, &mut dyn FnMut()),
}
/// How an iteration is driven.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// first take this many items from an iterator and drop it, on the same query
    pub prefix: usize,
    /// use `Iterator::collect`-like internal iteration (for_each) instead of next()
    pub internal: bool,
    /// how many times to iterate fully on the same query; the pass number is given to the callback
    pub passes: u32,
    /// polls after exhaustion
    pub polls: usize,
    /// take all items before looking at (and writing through) the first: they are all valid at once
    pub collect: bool,
    /// first drive iterators through every other method of `Iterator` (seeded), see `proto!`
    pub proto: u64,
}
pub const ONCE: Plan = Plan { prefix: 0, internal: false, passes: 1, polls: 0, collect: false, proto: 0 };

/// `$it` makes a fresh iterator. `next` gives the reference sequence; whatever other method drives an
/// iterator, it must see the same items in the same order.
#[macro_export]
macro_rules! proto {
    ($it:expr, $seed:expr, $what:expr, $pat:pat => $key:expr) => {{
        let mut r = $crate::rng::Rng::new($seed);
        let mut all = Vec::new();
        {
            let mut it = $it;
            let mut hints = Vec::new();
            loop {
                hints.push(it.size_hint());
                match it.next() {
                    Some($pat) => all.push($key),
                    None => break,
                }
                if all.len() > 100_000 {
                    return Err(format!("{}: the iterator does not end", $what));
                }
            }
            for (i, (lo, hi)) in hints.into_iter().enumerate() {
                let left = all.len() - i;
                if lo > left || hi.map_or(false, |h| h < left) {
                    return Err(format!("{}: size_hint says {lo}..{hi:?} with {left} items left", $what));
                }
            }
        }
        let n = $it.count();
        if n != all.len() {
            return Err(format!("{}: count() is {n}, next() yields {}", $what, all.len()));
        }
        if $it.last().map(|$pat| $key) != all.last().copied() {
            return Err(format!("{}: last() is not the last item", $what));
        }
        // nth
        {
            let mut it = $it;
            let mut pos = 0;
            loop {
                let k = match r.below(4) {
                    0 => 0,
                    1 => r.below(3),
                    2 => r.below(70),
                    _ => r.below(all.len() + 2),
                };
                let got = it.nth(k).map(|$pat| $key);
                if got != all.get(pos + k).copied() {
                    return Err(format!("{}: nth({k}) after {pos} of {} items gives another item", $what, all.len()));
                }
                pos += k + 1;
                if got.is_none() {
                    break;
                }
            }
            if it.next().is_some() || it.nth(r.below(3)).is_some() {
                return Err(format!("{}: an item after nth() returned None", $what));
            }
        }
        // some items, then the rest by fold / by position / collected
        for how in 0..11 {
            let mut it = $it;
            let p = r.below(all.len() + 1);
            for _ in 0..p {
                it.next();
            }
            let mut rest = Vec::new();
            match how {
                0 => {
                    it.fold((), |_, $pat| rest.push($key));
                }
                1 => {
                    let stop = r.below(all.len() + 1);
                    let found = it.position(|$pat| {
                        rest.push($key);
                        rest.len() > stop
                    });
                    if found != (all.len() - p > stop).then_some(stop) {
                        return Err(format!("{}: position() gives {found:?}", $what));
                    }
                    for $pat in it {
                        rest.push($key)
                    }
                }
                2 => {
                    let k = r.below(all.len() + 2);
                    for $pat in it.by_ref().take(k) {
                        rest.push($key)
                    }
                    rest.extend(it.map(|$pat| $key));
                }
                3 => {
                    let n = it.count();
                    if n != all.len() - p {
                        return Err(format!("{}: count() after {p} of {} items is {n}", $what, all.len()));
                    }
                    continue;
                }
                4 => {
                    if it.last().map(|$pat| $key) != all[p..].last().copied() {
                        return Err(format!("{}: last() after {p} of {} items is not the last item", $what, all.len()));
                    }
                    continue;
                }
                5 => it.for_each(|$pat| rest.push($key)),
                6 | 7 | 8 => {
                    let stop = r.below(all.len() + 1);
                    let hit = match how {
                        6 => !it.all(|$pat| {
                            rest.push($key);
                            rest.len() <= stop
                        }),
                        7 => it.any(|$pat| {
                            rest.push($key);
                            rest.len() > stop
                        }),
                        _ => it
                            .find_map(|$pat| {
                                rest.push($key);
                                (rest.len() > stop).then_some(())
                            })
                            .is_some(),
                    };
                    if hit != (all.len() - p > stop) {
                        return Err(format!("{}: a search (no. {how}) after {p} of {} items ends at another item", $what, all.len()));
                    }
                    rest.extend(it.map(|$pat| $key));
                }
                9 => {
                    let mut n = 0usize;
                    let best = it.max_by_key(|_| {
                        n += 1;
                        (n * 7919) % 1009
                    });
                    let want = (1..=all.len() - p).max_by_key(|n| (n * 7919) % 1009).map(|n| all[p + n - 1]);
                    if n != all.len() - p || best.map(|$pat| $key) != want {
                        return Err(format!("{}: max_by_key() after {p} of {} items sees {n} or gives another item", $what, all.len()));
                    }
                    continue;
                }
                _ => {
                    let v: Vec<_> = it.collect();
                    for $pat in v {
                        rest.push($key)
                    }
                }
            }
            if rest[..] != all[p..] {
                return Err(format!("{}: after {p} of {} items, driving on another way (no. {how}) yields {} items or others", $what, all.len(), rest.len()));
            }
        }
        let (k, s) = (r.below(all.len() + 2), r.range(1, 5));
        let mut rest = Vec::new();
        for $pat in $it.skip(k).step_by(s) {
            rest.push($key)
        }
        if !rest.iter().eq(all.iter().skip(k).step_by(s)) {
            return Err(format!("{}: skip({k}).step_by({s}) yields other items", $what));
        }
    }};
}

#[macro_export]
macro_rules! q {
    ($name:ident, $($v:ident : $t:ty),+) => {
        pub const $name: Query = Query {
            parts: &[$(<$t as PartOf>::P),+],
            iter: |w, plan, f, wr| {
                let mut q = w.query::<($($t,)+)>();
                if plan.proto != 0 {
                    $crate::proto!(q.iter(), plan.proto, "typed query", ($($v,)+) => [$($v.cell(&mut |_, _| None)),+]);
                }
                if plan.prefix > 0 {
                    let mut it = q.iter();
                    for _ in 0..plan.prefix {
                        if it.next().is_none() { break }
                    }
                }
                for pass in 0..plan.passes {
                    if plan.collect {
                        let all: Vec<_> = q.iter().take(100_000).collect();
                        for ($($v,)+) in all {
                            if !f(&[$($v.cell(wr)),+], pass) { return Ok(()); }
                        }
                    } else if plan.internal {
                        let mut go = true;
                        q.iter().for_each(|($($v,)+)| {
                            if go { go = f(&[$($v.cell(wr)),+], pass); }
                        });
                    } else {
                        let mut it = q.iter();
                        while let Some(($($v,)+)) = it.next() {
                            if !f(&[$($v.cell(wr)),+], pass) { return Ok(()); }
                        }
                        for _ in 0..plan.polls {
                            if it.next().is_some() {
                                return Err("an exhausted typed query iterator yielded another item".into());
                            }
                        }
                    }
                }
                Ok(())
            },
            get: |w, es, f, wr| {
                let mut q = w.query::<($($t,)+)>();
                for (i, &e) in es.iter().enumerate() {
                    match q.get(e) {
                        None => f(i, None),
                        Some(($($v,)+)) => f(i, Some(&[$($v.cell(wr)),+])),
                    }
                }
            },
            hold: |w, f| {
                let q = w.query::<($($t,)+)>();
                f();
                drop(q);
            },
            guarded: |w, enter, f, wr, leave| {
                let mut q = w.query::<($($t,)+)>();
                enter();
                for ($($v,)+) in q.iter() {
                    f(&[$($v.cell(wr)),+]);
                }
                leave();
                drop(q);
            },
        };
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F {
    Id,
    Ref(EcsId),
    Mut(EcsId),
}
fn fetch(f: F) -> FetchType {
    match f {
        F::Id => FetchType::EcsId,
        F::Ref(i) => FetchType::Immut(i),
        F::Mut(i) => FetchType::Mut(i),
    }
}
fn dyn_n<const N: usize>(
    w: &World,
    fs: &[F],
    plan: Plan,
    f: &mut dyn FnMut(&[*mut u8], u32) -> bool,
) -> Result<(), String> {
    let mut q = w.query_dynamic::<N>(std::array::from_fn(|i| fetch(fs[i])));
    if plan.proto != 0 {
        proto!(q.iter(), plan.proto, "dynamic query", p => p);
        proto!(q.column_iter(), plan.proto, "column query", p => p.map(|c| words(&c)));
    }
    if plan.prefix > 0 {
        let mut it = q.iter();
        for _ in 0..plan.prefix {
            if it.next().is_none() {
                break;
            }
        }
    }
    for pass in 0..plan.passes {
        if plan.collect {
            let all: Vec<_> = q.iter().take(100_000).collect();
            for p in all {
                if !f(&p, pass) {
                    return Ok(());
                }
            }
        } else if plan.internal {
            let mut go = true;
            q.iter().for_each(|p| {
                if go {
                    go = f(&p, pass)
                }
            });
        } else {
            let mut it = q.iter();
            while let Some(p) = it.next() {
                if !f(&p, pass) {
                    return Ok(());
                }
            }
            for _ in 0..plan.polls {
                if it.next().is_some() {
                    return Err("an exhausted dynamic query iterator yielded another item".into());
                }
            }
        }
    }
    Ok(())
}
fn words<T>(c: &T) -> (usize, usize) {
    if std::mem::size_of::<T>() != std::mem::size_of::<(usize, usize)>() {
        return (0, 0);
    }
    unsafe { std::mem::transmute_copy(c) }
}
/// column groups: per group the (base pointer, rows) of every requested item
fn col_n<const N: usize>(
    w: &World,
    fs: &[F],
    f: &mut dyn FnMut(&[(*mut u8, usize)]) -> bool,
) -> Result<bool, String> {
    let mut q = w.query_dynamic::<N>(std::array::from_fn(|i| fetch(fs[i])));
    let mut it = q.column_iter();
    while let Some(g) = it.next() {
        // PtrLen is `repr(C)` (pointer, length) without accessors
        if std::mem::size_of_val(&g) != N * std::mem::size_of::<(*mut u8, usize)>() {
            return Ok(false);
        }
        let g: [PtrLen; N] = unsafe { std::mem::transmute_copy(&g) };
        let v: Vec<(*mut u8, usize)> = crate::alloc::untrack(|| g.iter().map(|c| (c.0, c.1)).collect());
        if !f(&v) {
            return Ok(true);
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err("an exhausted column iterator yielded another group".into());
        }
    }
    Ok(true)
}
/// the library's private type of a column
#[repr(C)]
#[derive(Clone, Copy)]
struct PtrLen(*mut u8, usize);

pub const MAX_DYN: usize = 16;
macro_rules! disp {
    ($n:expr, $f:ident, ($($a:expr),*)) => {
        match $n {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            6 => $f::<6>($($a),*),
            7 => $f::<7>($($a),*),
            8 => $f::<8>($($a),*),
            9 => $f::<9>($($a),*),
            10 => $f::<10>($($a),*),
            11 => $f::<11>($($a),*),
            12 => $f::<12>($($a),*),
            13 => $f::<13>($($a),*),
            14 => $f::<14>($($a),*),
            15 => $f::<15>($($a),*),
            16 => $f::<16>($($a),*),
            _ => unreachable!(),
        }
    };
}
pub fn dyn_iter(w: &World, fs: &[F], plan: Plan, f: &mut dyn FnMut(&[*mut u8], u32) -> bool) -> Result<(), String> {
    disp!(fs.len(), dyn_n, (w, fs, plan, f))
}
pub fn dyn_cols(w: &World, fs: &[F], f: &mut dyn FnMut(&[(*mut u8, usize)]) -> bool) -> Result<bool, String> {
    disp!(fs.len(), col_n, (w, fs, f))
}
fn hold_n<const N: usize>(w: &World, fs: &[F], f: &mut dyn FnMut()) {
    let q = w.query_dynamic::<N>(std::array::from_fn(|i| fetch(fs[i])));
    f();
    drop(q);
}
pub fn dyn_hold(w: &World, fs: &[F], f: &mut dyn FnMut()) {
    disp!(fs.len(), hold_n, (w, fs, f))
}
fn guard_n<const N: usize>(w: &World, fs: &[F], enter: &mut dyn FnMut(), f: &mut dyn FnMut(&[*mut u8]), leave: &mut dyn FnMut()) {
    let mut q = w.query_dynamic::<N>(std::array::from_fn(|i| fetch(fs[i])));
    enter();
    for p in q.iter() {
        f(&p);
    }
    leave();
    drop(q);
}
pub fn dyn_guard(w: &World, fs: &[F], enter: &mut dyn FnMut(), f: &mut dyn FnMut(&[*mut u8]), leave: &mut dyn FnMut()) {
    disp!(fs.len(), guard_n, (w, fs, enter, f, leave))
}
