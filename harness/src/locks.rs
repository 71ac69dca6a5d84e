//! C07: queries obtained from several threads that share a world read-only.
//!
//! `schedule`: a controller decides which thread requests or releases which query, one event at a time,
//! and a model of which components are held in which mode says whether the request has to wait. A thread
//! that waits is recognised by being asleep inside the call (/proc/self/task/<tid>/stat).
//! `stress`: threads query freely; shadow counters (relaxed, so that they order nothing) watch for two
//! queries being inside one component, and plain increments through the references must all arrive.
use crate::drive::{gettid, thread_stat, Beat, Out};
use crate::engine::*;
use crate::kinds::*;
use crate::profiles;
use crate::qtable::QUERIES;
use crate::queries::*;
use crate::rng::{mix, Rng};
use crate::{alloc, ledger};
use arche_tape::{EcsId, World};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// The library's `World` is not `Sync` (it stores raw pointers), yet its queries take `&World` and locks.
/// Nothing but queries is run through the shared reference.
struct Shared(World);
unsafe impl Sync for Shared {}

#[derive(Clone, Debug)]
enum LQ {
    T(usize),
    D(Vec<F>),
}
impl LQ {
    fn hold(&self, w: &World, f: &mut dyn FnMut()) {
        match self {
            LQ::T(q) => (QUERIES[*q].hold)(w, f),
            LQ::D(v) => dyn_hold(w, v, f),
        }
    }
}
/// component -> mutable?
type Access = BTreeMap<u32, bool>;
fn clash(a: &Access, b: &Access) -> Option<u32> {
    a.iter().find(|(k, m)| b.get(k).map_or(false, |n| **m || *n)).map(|(k, _)| *k)
}

struct Pool {
    comps: Vec<(u32, EcsId, Class)>,
    by_kind: BTreeMap<u16, u32>,
    typed: Vec<usize>,
    unused: Vec<EcsId>,
}
impl Pool {
    fn new(h: &Hist) -> Pool {
        let comps = h.in_use();
        let by_kind: BTreeMap<u16, u32> = comps.iter().filter_map(|c| match c.2 { Class::Typed(k) => Some((k, c.0)), _ => None }).collect();
        // every component in use, none twice (asking for one twice in one query waits for itself)
        let typed = (0..QUERIES.len())
            .filter(|&q| {
                let mut seen = vec![];
                QUERIES[q].parts.iter().all(|p| match p {
                    Part::Id => true,
                    Part::Ref(k) | Part::Mut(k) => {
                        let ok = by_kind.contains_key(k) && !seen.contains(k);
                        seen.push(*k);
                        ok
                    }
                })
            })
            .collect();
        Pool { comps, by_kind, typed, unused: h.unused_ids() }
    }
    fn access(&self, q: &LQ) -> Access {
        let mut a = Access::new();
        match q {
            LQ::T(q) => {
                for p in QUERIES[*q].parts {
                    match p {
                        Part::Id => {}
                        Part::Ref(k) => {
                            a.insert(self.by_kind[k], false);
                        }
                        Part::Mut(k) => {
                            a.insert(self.by_kind[k], true);
                        }
                    }
                }
            }
            LQ::D(v) => {
                for f in v {
                    let (id, m) = match f {
                        F::Id => continue,
                        F::Ref(i) => (i, false),
                        F::Mut(i) => (i, true),
                    };
                    if let Some(x) = self.comps.iter().find(|c| c.1 == *id) {
                        a.insert(x.0, m);
                    }
                }
            }
        }
        a
    }
    fn pick(&self, r: &mut Rng, near: Option<&Access>, typed: usize) -> LQ {
        if !self.typed.is_empty() && r.pct(typed) {
            // mostly one that shares a component with `near`
            for _ in 0..6 {
                let q = LQ::T(*r.pick(&self.typed));
                match near {
                    Some(n) if r.pct(80) && !self.access(&q).keys().any(|k| n.contains_key(k)) => {}
                    _ => return q,
                }
            }
            return LQ::T(*r.pick(&self.typed));
        }
        let most = *r.pick(&[3, 3, 8, MAX_DYN]);
        let n = r.range(1, most);
        let mut v = vec![];
        let mut taken = vec![];
        let wr = r.range(0, 100);
        if let Some(near) = near {
            if r.pct(75) && !near.is_empty() {
                let ks: Vec<u32> = near.keys().copied().collect();
                let k = *r.pick(&ks);
                let id = self.comps.iter().find(|c| c.0 == k).unwrap().1;
                taken.push(k);
                v.push(if r.pct(60) { F::Mut(id) } else { F::Ref(id) });
            }
        }
        while v.len() < n {
            if r.pct(12) {
                v.push(F::Id);
                continue;
            }
            let x = *r.pick(&self.comps);
            if taken.contains(&x.0) {
                v.push(F::Id);
                continue;
            }
            taken.push(x.0);
            v.push(if r.pct(wr) { F::Mut(x.1) } else { F::Ref(x.1) });
        }
        if n < MAX_DYN && !self.unused.is_empty() && r.pct(6) {
            v.push(F::Mut(*r.pick(&self.unused)));
        }
        r.shuffle(&mut v);
        LQ::D(v)
    }
}

fn world(seed: u64, idx: u64, plain: bool, tiny: bool) -> Result<Hist, Vio> {
    ledger::reset();
    alloc::reset();
    let hs = mix(seed ^ mix(idx ^ 0x10c5));
    let mut r = Rng::new(hs);
    let mut p = profiles::profile(7, &mut r, tiny);
    if p.bulk > 0 || p.ops > 450 {
        p.bulk = 0;
        p.ops = 150;
    }
    if p.focus.is_none() && !tiny && r.pct(50) {
        p.kinds = (0..NK as u16).collect();
        p.max_set = 9;
        p.ops = 80;
        p.w.add += 40;
        p.full = 40;
    }
    if p.focus.is_none() && !tiny && r.pct(14) {
        // hundreds of components
        p.max_tag = r.range(60, 360);
        p.max_dyn = 20;
        p.w.newtag = 80;
        p.w.newdyn = 15;
        p.w.add += 60;
        p.w.remove = 5;
        p.max_set = r.range(5, 60);
        p.max_live = 500;
        p.full = 500;
        p.ops = r.range(300, 900);
    }
    p.w.despawn_used = 0;
    p.w.bomb = 0;
    p.w.reject = 0;
    if plain {
        p.focus = None;
        p.kinds = (0..NK as u16).filter(|&k| !KINDS[k as usize].drops && KINDS[k as usize].mask == u64::MAX).collect();
        p.dyns.retain(|&d| (d as usize) < BASIC_DYN && DYN[d as usize].drop.is_none() && DYN[d as usize].size >= 8);
        p.w.despawn_comp = 0;
        p.max_live = if tiny { 5 } else { 30 };
        p.ops = if tiny { 14 } else { 120 };
        p.max_set = 4;
    }
    let ops = p.ops;
    let mut h = Hist::new(hs, p, 1, c(8))?;
    for _ in 0..ops {
        h.step()?;
    }
    Ok(h)
}

const IDLE: u32 = 0;
const REQUEST: u32 = 1;
const HELD: u32 = 2;
const FAILED: u32 = 3;
const RELEASE: u32 = 4;
const QUIT: u32 = 5;
/// leave the query by a panic, which is caught
const UNWIND: u32 = 6;

struct Slot {
    cmd: AtomicU32,
    phase: AtomicU32,
    tid: AtomicU64,
    q: Mutex<Option<LQ>>,
    why: Mutex<String>,
}

const UNWOUND: &str = "the holder of the query panics";

fn wait_until(f: impl Fn() -> bool) {
    let mut n = 0u32;
    while !f() {
        n += 1;
        if n < 200 {
            std::hint::spin_loop()
        } else {
            std::thread::park_timeout(Duration::from_micros(200))
        }
    }
}

/// Ends the process: threads stuck in the library cannot be joined.
fn report(idx: u64, beat: &Beat, what: String) -> ! {
    let _ = beat;
    println!("MON-VIOLATION {{\"idx\":{idx},\"shape\":\"locks\",\"tags\":{},\"what\":\"{}\"}}", c(7), crate::esc(&what));
    std::process::exit(10)
}

pub fn schedule(seed: u64, idx: u64, verbose: bool, beat: &Beat) -> Out {
    let mut out = Out { shape: "schedule".into(), ..Out::default() };
    let mut h = match world(seed, idx, false, false) {
        Ok(h) => h,
        Err(v) => return out.with(7, v),
    };
    let pool = Pool::new(&h);
    if pool.comps.is_empty() {
        out.shape = "empty".into();
        return out;
    }
    out.add("worlds", 1);
    out.add("max_components", pool.comps.len() as u64);
    let mut r = Rng::new(mix(seed ^ mix(idx) ^ 0x7ead));
    const N: usize = 4;
    let slots: Vec<Slot> = (0..N)
        .map(|_| Slot { cmd: AtomicU32::new(IDLE), phase: AtomicU32::new(IDLE), tid: AtomicU64::new(0), q: Mutex::new(None), why: Mutex::new(String::new()) })
        .collect();
    let w = Shared(h.w.take().unwrap());
    let names: BTreeMap<u32, String> = pool.comps.iter().map(|c| (c.0, format!("{} ({:?})", c.1, c.2))).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = slots
            .iter()
            .map(|sl| {
                let w = &w;
                s.spawn(move || {
                    let w = { let w: &Shared = w; &w.0 };
                    sl.tid.store(gettid(), SeqCst);
                    loop {
                        wait_until(|| sl.cmd.load(SeqCst) != IDLE);
                        if sl.cmd.load(SeqCst) == QUIT {
                            return;
                        }
                        let q = sl.q.lock().unwrap().take().unwrap();
                        sl.cmd.store(IDLE, SeqCst);
                        sl.phase.store(REQUEST, SeqCst);
                        let res = attempt(|| {
                            q.hold(w, &mut || {
                                sl.phase.store(HELD, SeqCst);
                                wait_until(|| matches!(sl.cmd.load(SeqCst), RELEASE | UNWIND));
                                if sl.cmd.swap(IDLE, SeqCst) == UNWIND {
                                    panic!("{UNWOUND}")
                                }
                            })
                        });
                        if let Err(e) = res {
                            if !e.starts_with(UNWOUND) {
                                *sl.why.lock().unwrap() = e;
                                sl.phase.store(FAILED, SeqCst);
                                continue;
                            }
                        }
                        sl.phase.store(IDLE, SeqCst);
                    }
                })
            })
            .collect();
        wait_until(|| slots.iter().all(|s| s.tid.load(SeqCst) != 0));
        let mut held: Vec<Option<(LQ, Access)>> = vec![None; N];
        let mut waiting: Option<usize> = None;
        let n = r.range(30, 90);
        let describe = |held: &[Option<(LQ, Access)>]| {
            held.iter().flatten().map(|(q, a)| format!("{} of {}", match q { LQ::T(t) => format!("typed query {:?}", QUERIES[*t].parts), LQ::D(_) => "dynamic query".into() }, a.iter().map(|(k, m)| format!("{}{}", if *m { "mut " } else { "" }, names[k])).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("; ")
        };
        let mut ev = 0;
        while ev < n || waiting.is_some() || held.iter().any(|h| h.is_some()) {
            ev += 1;
            beat.tick();
            let others = |held: &[Option<(LQ, Access)>], me: usize, a: &Access| -> Option<u32> {
                held.iter().enumerate().filter(|(i, _)| *i != me).filter_map(|(_, h)| h.as_ref()).find_map(|(_, b)| clash(a, b))
            };
            let idle: Vec<usize> = (0..N).filter(|&i| held[i].is_none()).collect();
            let holding: Vec<usize> = (0..N).filter(|&i| held[i].is_some() && waiting != Some(i)).collect();
            let request = waiting.is_none() && ev < n && !idle.is_empty() && (holding.is_empty() || r.pct(60));
            if request {
                let i = *r.pick(&idle);
                let near = if holding.is_empty() { None } else { held[*r.pick(&holding)].as_ref().map(|h| h.1.clone()) };
                let q = pool.pick(&mut r, near.as_ref(), 45);
                let a = pool.access(&q);
                let must_wait = others(&held, i, &a);
                if verbose {
                    eprintln!("thread {i} requests {q:?} (must wait for {:?}), held: {}", must_wait.map(|k| &names[&k]), describe(&held));
                }
                out.trace = mix(out.trace ^ mix(a.iter().fold(i as u64, |x, (k, m)| mix(x ^ *k as u64 * 2 + *m as u64))));
                *slots[i].q.lock().unwrap() = Some(q.clone());
                slots[i].cmd.store(REQUEST, SeqCst);
                hs[i].thread().unpark();
                wait_until(|| slots[i].phase.load(SeqCst) != IDLE);
                let t = Instant::now();
                let (mut seen, mut asleep) = (0u32, 0u32);
                loop {
                    match slots[i].phase.load(SeqCst) {
                        HELD => {
                            if let Some(k) = must_wait {
                                let me = describe(&[Some((q, a))]);
                                report(idx, beat, format!("event {ev}: {me} was obtained although component {} is held by: {}", names[&k], describe(&held)));
                            }
                            out.add(if held.iter().any(|h| h.is_some()) { "obtained_beside_others" } else { "obtained_alone" }, 1);
                            if held.iter().flatten().any(|(_, b)| a.keys().any(|k| b.contains_key(k))) {
                                out.add("shared_reads", 1);
                            }
                            held[i] = Some((q.clone(), a.clone()));
                            break;
                        }
                        FAILED => report(idx, beat, format!("event {ev}: obtaining {} panicked: {}", describe(&[Some((q, a))]), slots[i].why.lock().unwrap())),
                        _ => {}
                    }
                    let st = thread_stat(slots[i].tid.load(SeqCst)).map_or('?', |s| s.0);
                    seen += 1;
                    asleep = if st == 'S' { asleep + 1 } else { 0 };
                    if must_wait.is_some() {
                        if asleep >= 3 {
                            out.add("waited", 1);
                            if held.iter().flatten().filter(|(_, b)| clash(&a, b).is_some()).count() > 1 {
                                out.add("waited_for_several", 1);
                            }
                            held[i] = Some((q.clone(), a.clone()));
                            waiting = Some(i);
                            break;
                        }
                        if t.elapsed() > Duration::from_secs(20) {
                            out.add("inconclusive", 1);
                            // neither obtained nor asleep: let it be
                            held[i] = Some((q.clone(), a.clone()));
                            waiting = Some(i);
                            break;
                        }
                    } else if t.elapsed() > Duration::from_secs(2) {
                        if asleep > 100 && asleep > seen / 2 {
                            let me = describe(&[Some((q, a))]);
                            report(idx, beat, format!("event {ev}: {me} has to wait although nothing it needs is held mutably or needed mutably; held: {}", describe(&held)));
                        }
                        if t.elapsed() > Duration::from_secs(30) {
                            println!("MON-HANG {{\"idx\":{idx},\"step\":{ev},\"asleep\":false}}");
                            std::process::exit(11);
                        }
                    }
                    if t.elapsed() > Duration::from_millis(5) {
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
            } else if !holding.is_empty() {
                let i = *r.pick(&holding);
                if let Some(x) = waiting {
                    // still waiting for the others?
                    if slots[x].phase.load(SeqCst) == HELD {
                        let k = others(&held, x, &held[x].as_ref().unwrap().1).unwrap();
                        report(idx, beat, format!("event {ev}: a waiting query was obtained before component {} was released; all: {}", names[&k], describe(&held)));
                    }
                }
                let how = if r.pct(8) { UNWIND } else { RELEASE };
                if verbose {
                    eprintln!("thread {i} releases{}", if how == UNWIND { " by a panic" } else { "" });
                }
                if how == UNWIND {
                    out.add("released_by_panic", 1);
                }
                out.trace = mix(out.trace ^ mix(0x4e1 + i as u64));
                // what the model says after the release
                let after = waiting.map(|x| {
                    let mut rest = held.clone();
                    rest[i] = None;
                    (x, others(&rest, x, &held[x].as_ref().unwrap().1))
                });
                if let Some((x, Some(k))) = after {
                    slots[i].cmd.store(how, SeqCst);
                    hs[i].thread().unpark();
                    wait_until(|| slots[i].phase.load(SeqCst) == IDLE || slots[i].phase.load(SeqCst) == FAILED);
                    held[i] = None;
                    std::thread::sleep(Duration::from_micros(50));
                    if slots[x].phase.load(SeqCst) == HELD {
                        report(idx, beat, format!("event {ev}: a waiting query was obtained although component {} is still held; all: {}", names[&k], describe(&held)));
                    }
                    out.add("kept_waiting", 1);
                    continue;
                }
                slots[i].cmd.store(how, SeqCst);
                hs[i].thread().unpark();
                wait_until(|| slots[i].phase.load(SeqCst) == IDLE || slots[i].phase.load(SeqCst) == FAILED);
                held[i] = None;
                out.add("released", 1);
                if let Some((x, None)) = after {
                    // now it must come
                    let t = Instant::now();
                    let mut asleep = 0u32;
                    while slots[x].phase.load(SeqCst) == REQUEST {
                        if t.elapsed() > Duration::from_millis(5) {
                            std::thread::sleep(Duration::from_millis(1));
                            let st = thread_stat(slots[x].tid.load(SeqCst)).map_or('?', |s| s.0);
                            asleep = if st == 'S' { asleep + 1 } else { 0 };
                        }
                        if t.elapsed() > Duration::from_secs(3) && asleep > 500 {
                            let me = describe(&held[x..=x]);
                            report(idx, beat, format!("event {ev}: {me} still waits although every query it had to wait for was dropped"));
                        }
                    }
                    if slots[x].phase.load(SeqCst) == FAILED {
                        report(idx, beat, format!("event {ev}: obtaining {} panicked: {}", describe(&held[x..=x]), slots[x].why.lock().unwrap()));
                    }
                    out.add("woken", 1);
                    waiting = None;
                }
            }
        }
        out.steps = ev as u64;
        for (s, h) in slots.iter().zip(&hs) {
            s.cmd.store(QUIT, SeqCst);
            h.thread().unpark();
        }
    });
    // the world still works, and returns everything
    h.w = Some(w.0);
    if let Err(v) = h.finish() {
        return out.with(7, v);
    }
    out
}

/// Free-running threads on one world.
pub fn stress(seed: u64, idx: u64, threads: usize, rounds: usize, single: bool, tiny: bool, beat: &Beat) -> Out {
    let mut out = Out { shape: if single { "stress-single" } else { "stress-ordered" }.into(), ..Out::default() };
    let mut h = match world(seed, idx, true, tiny) {
        Ok(h) => h,
        Err(v) => return out.with(7, v),
    };
    let pool = Pool::new(&h);
    // components in one global order: locks are always taken in it, so no two threads can wait for each other
    let mut order = pool.comps.clone();
    order.retain(|c| c.2.size() >= 8 && c.2.drops().is_none() && c.2.mask() == u64::MAX);
    order.sort_by_key(|c| match c.2 {
        Class::Typed(k) => k as u32,
        _ => 1000 + c.0,
    });
    if order.is_empty() {
        out.shape = "empty".into();
        return out;
    }
    let rank = |x: u32| order.iter().position(|c| c.0 == x);
    let typed: Vec<usize> = pool
        .typed
        .iter()
        .copied()
        .filter(|&q| {
            let ks: Vec<u32> = QUERIES[q].parts.iter().filter_map(|p| match p { Part::Ref(k) | Part::Mut(k) => Some(pool.by_kind[k]), _ => None }).collect();
            let rs: Vec<Option<usize>> = ks.iter().map(|&k| rank(k)).collect();
            !ks.is_empty() && rs.iter().all(|r| r.is_some()) && rs.windows(2).all(|w| w[0] < w[1]) && (!single || ks.len() == 1)
        })
        .collect();
    let rows = h.rows();
    let w = Shared(h.w.take().unwrap());
    let inside: BTreeMap<u32, AtomicI64> = order.iter().map(|c| (c.0, AtomicI64::new(0))).collect();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    // relaxed, so that the monitor itself orders nothing; the order in which queries were obtained
    let (seq, woven, failed) = (AtomicU64::new(0), AtomicU64::new(0), std::sync::atomic::AtomicBool::new(false));
    let (nq, nrows, contended, maxr) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    // per thread: component sets written, with counts
    let done: Mutex<Vec<BTreeMap<(Vec<u32>, Vec<u32>), u64>>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (w, pool, order, typed, inside, bad, nq, nrows, contended, maxr, done, seq, woven, failed) = (&w, &pool, &order, &typed, &inside, &bad, &nq, &nrows, &contended, &maxr, &done, &seq, &woven, &failed);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let w = { let w: &Shared = w; &w.0 };
                    let mut r = Rng::new(mix(seed ^ mix(idx) ^ mix(t as u64 + 99)));
                    let mut mine: BTreeMap<(Vec<u32>, Vec<u32>), u64> = BTreeMap::new();
                    for _ in 0..rounds {
                        beat.tick();
                        let q = if !typed.is_empty() && r.pct(50) {
                            LQ::T(*r.pick(typed))
                        } else {
                            let n = if single { 1 } else { r.range(1, order.len().min(5)) };
                            let mut ix: Vec<usize> = (0..order.len()).collect();
                            r.shuffle(&mut ix);
                            ix.truncate(n);
                            ix.sort();
                            let wr = r.range(10, 90);
                            let mut v: Vec<F> = ix.into_iter().map(|i| if r.pct(wr) { F::Mut(order[i].1) } else { F::Ref(order[i].1) }).collect();
                            if r.pct(20) && v.len() < MAX_DYN {
                                let i = r.below(v.len() + 1);
                                v.insert(i, F::Id);
                            }
                            LQ::D(v)
                        };
                        let a = pool.access(&q);
                        let enter = || {
                            woven.fetch_add(mix(seq.fetch_add(1, Relaxed) << 8 | t as u64), Relaxed);
                            for (k, m) in &a {
                                let ctr = &inside[k];
                                if *m {
                                    let old = ctr.fetch_add(-1_000_000, Relaxed);
                                    if old != 0 {
                                        failed.store(true, Relaxed);
                                        bad.lock().unwrap().get_or_insert(format!("mutable query {q:?} is inside component {k} together with {} other queries (state {old})", old.rem_euclid(1_000_000)));
                                    }
                                } else {
                                    let old = ctr.fetch_add(1, Relaxed);
                                    if old < 0 {
                                        failed.store(true, Relaxed);
                                        bad.lock().unwrap().get_or_insert(format!("query {q:?} is inside component {k} together with a mutable query"));
                                    }
                                    maxr.fetch_max(old.max(0) as u64 + 1, Relaxed);
                                    if old > 0 {
                                        contended.fetch_add(1, Relaxed);
                                    }
                                }
                            }
                        };
                        let leave = || {
                            for (k, m) in &a {
                                inside[k].fetch_add(if *m { 1_000_000 } else { -1 }, Relaxed);
                            }
                        };
                        let mut n = 0u64;
                        let delay = r.below(4) * 20;
                        let res = attempt(|| match &q {
                            LQ::T(qi) => {
                                hold_typed(w, *qi, &mut n, &enter, &leave, delay)
                            }
                            LQ::D(v) => dyn_guarded(w, v, pool, &mut n, &enter, &leave, delay),
                        });
                        if let Err(e) = res {
                            failed.store(true, Relaxed);
                            bad.lock().unwrap().get_or_insert(format!("query {q:?} panicked: {e}"));
                            return;
                        }
                        if let Some(e) = ledger::take_error() {
                            failed.store(true, Relaxed);
                            bad.lock().unwrap().get_or_insert(format!("through query {q:?}: {e}"));
                            return;
                        }
                        nq.fetch_add(1, Relaxed);
                        nrows.fetch_add(n, Relaxed);
                        let need: Vec<u32> = a.keys().copied().collect();
                        let muts: Vec<u32> = a.iter().filter(|x| *x.1).map(|x| *x.0).collect();
                        *mine.entry((need, muts)).or_default() += 1;
                        if failed.load(Relaxed) {
                            return;
                        }
                    }
                    done.lock().unwrap().push(mine);
                })
                .unwrap();
        }
    });
    out.add("queries", nq.into_inner());
    out.add("rows_visited", nrows.into_inner());
    out.add("reads_beside_reads", contended.into_inner());
    out.add("max_readers_at_once", maxr.into_inner());
    out.trace = woven.into_inner();
    out.steps = (rounds * threads) as u64;
    if let Some(b) = bad.into_inner().unwrap() {
        std::mem::forget(w);
        return out.with(7, Vio { tags: c(7), sus: 0, what: b, step: 0 });
    }
    // every increment arrived
    let mut incs: Vec<BTreeMap<u32, u64>> = vec![BTreeMap::new(); rows.len()];
    for m in done.into_inner().unwrap() {
        for ((need, muts), n) in m {
            for (i, (_, comps)) in rows.iter().enumerate() {
                if need.iter().all(|k| comps.iter().any(|x| x.0 == *k)) {
                    for k in &muts {
                        *incs[i].entry(*k).or_default() += n;
                    }
                }
            }
        }
    }
    let mut world = w.0;
    let mut cells = 0;
    for (i, (id, comps)) in rows.iter().enumerate() {
        for (k, v) in comps {
            let Some(cc) = order.iter().find(|x| x.0 == *k) else { continue };
            let want = v.wrapping_add(incs[i].get(k).copied().unwrap_or(0));
            let got = match attempt(|| world.get_component_mut_dynamic(*id, cc.1).map(|p| unsafe { cc.2.read(p as *const u8) })) {
                Ok(Some(g)) => g,
                other => return out.with(7, Vio { tags: c(2), sus: 0, what: format!("after the stress, component {:?} of {id} reads {other:?}", cc.2), step: 0 }),
            };
            cells += 1;
            if got != want {
                std::mem::forget(world);
                return out.with(7, Vio { tags: c(7), sus: 0, what: format!("component {:?} of {id} was {v:#x}, was incremented {} times by threads with mutable queries, and reads {got:#x}", cc.2, want.wrapping_sub(*v)), step: 0 });
            }
        }
    }
    out.add("cells_conserved", cells);
    drop(world);
    out
}
/// increments every mutable cell of every row, with the shadow counters entered while the query lives
fn hold_typed(w: &World, q: usize, n: &mut u64, enter: &dyn Fn(), leave: &dyn Fn(), delay: usize) {
    (QUERIES[q].guarded)(
        w,
        &mut || {
            enter();
            for _ in 0..delay {
                std::hint::spin_loop()
            }
        },
        &mut |_| *n += 1,
        &mut |_, v| Some(v.wrapping_add(1)),
        &mut || leave(),
    )
}
fn dyn_guarded(w: &World, fs: &[F], pool: &Pool, n: &mut u64, enter: &dyn Fn(), leave: &dyn Fn(), delay: usize) {
    let cls: Vec<Option<(Class, bool)>> = fs
        .iter()
        .map(|f| match f {
            F::Id => None,
            F::Ref(i) => Some((pool.comps.iter().find(|c| c.1 == *i).unwrap().2, false)),
            F::Mut(i) => Some((pool.comps.iter().find(|c| c.1 == *i).unwrap().2, true)),
        })
        .collect();
    dyn_guard(
        w,
        fs,
        &mut || {
            enter();
            for _ in 0..delay {
                std::hint::spin_loop()
            }
        },
        &mut |ptrs| {
            *n += 1;
            for (p, cl) in ptrs.iter().zip(&cls) {
                if let Some((cl, m)) = cl {
                    unsafe {
                        let v = cl.read(*p);
                        if *m {
                            cl.write(*p, v.wrapping_add(1));
                        }
                    }
                }
            }
        },
        &mut || leave(),
    )
}
