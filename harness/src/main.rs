//! Runtime monitors for Ellecs: see /verif/DESIGN.md.
//!   mon world|vecs|... <Cnn> --seed N --hist N [--start I] [--secs N] [--threads N] [--only I] [--tiny] [--verbose]
mod alloc;
mod drive;
mod engine;
mod faults;
mod grid;
mod kinds;
mod layouts;
mod ledger;
mod locks;
mod profiles;
mod qtable;
mod queries;
mod rng;
mod share;
mod special;
mod tour;
mod vecs;

use drive::{drive, Beat, Out};
use engine::*;
use rng::{mix, Rng};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

#[global_allocator]
static G: alloc::Mon = alloc::Mon;

macro_rules! stats {
    ($($sum:ident)*; $($max:ident)*; $($or:ident)*) => {
        #[derive(Default, Clone, Debug)]
        pub struct Stat {
            pub ops: [u64; 21],
            $(pub $sum: u64,)*
            $(pub $max: usize,)*
            $(pub $or: u64,)*
        }
        impl Stat {
            pub fn merge(&mut self, o: &Stat) {
                for i in 0..21 { self.ops[i] += o.ops[i] }
                $(self.$sum += o.$sum;)*
                $(self.$max = self.$max.max(o.$max);)*
                $(self.$or |= o.$or;)*
            }
            pub fn json(&self) -> String {
                let mut v: Vec<String> = vec![];
                for (i, n) in OPN.iter().enumerate() { v.push(format!("\"op_{n}\":{}", self.ops[i])) }
                $(v.push(format!("\"{}\":{}", stringify!($sum), self.$sum));)*
                $(v.push(format!("\"{}\":{}", stringify!($max), self.$max));)*
                $(v.push(format!("\"{}\":{}", stringify!($or), self.$or.count_ones()));)*
                format!("{{{}}}", v.join(","))
            }
        }
    };
}
stats!(handles despawns builds twins adds removes writes rejects bombs drop_bombs abandons comp_despawns known tqueries dqueries
    cqueries protocols rows groups nonempty lookups found checks cells dead_checks ledger_checks arch_checks foreign unreadable;
    archs max_live max_set; arity darity);

thread_local! {
    static LAST: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn last_panic() -> Option<String> {
    LAST.with(|l| l.borrow().clone())
}
fn hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::untrack(|| {
            if alloc::fired() {
                let m = i.to_string().replace('\n', " ");
                eprintln!("panic after a refused request: {m}");
                let ub = ["unsafe precondition(s) violated", "null pointer dereference", "misaligned pointer dereference"].iter().any(|u| m.contains(u));
                std::process::exit(if ub { faults::ALLOC } else { faults::PANIC });
            }
            if !engine::inside() {
                eprintln!("MON-HARNESS {i}");
                std::process::exit(3);
            }
            if let Some(l) = i.location() {
                let f = l.file().rsplit('/').next().unwrap_or("").to_string();
                let _ = LAST.try_with(|x| *x.borrow_mut() = Some(format!("{f}:{}", l.line())));
            }
        })
    }));
}

pub struct Args {
    pub v: Vec<String>,
}
impl Args {
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.v.iter().position(|a| a == k).map_or(d, |i| self.v[i + 1].parse().expect("number"))
    }
    pub fn has(&self, k: &str) -> bool {
        self.v.iter().any(|a| a == k)
    }
    pub fn text(&self, k: &str) -> Option<&str> {
        self.v.iter().position(|a| a == k).map(|i| self.v[i + 1].as_str())
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            ch if (ch as u32) < 32 => o.push(' '),
            ch => o.push(ch),
        }
    }
    o
}

pub struct Outcome {
    pub vio: Option<Vio>,
    pub st: Stat,
    pub trace: u64,
    pub known: Vec<String>,
    pub name: &'static str,
    pub steps: usize,
}

fn hist_seed(seed: u64, prop: u32, idx: u64) -> u64 {
    mix(seed ^ mix(prop as u64 ^ mix(idx)))
}
/// One history, start to end, on this thread.
pub fn run_hist(prop: u32, seed: u64, idx: u64, ablate: u32, tiny: bool, verbose: bool, beat: Option<&Beat>) -> Outcome {
    ledger::reset();
    alloc::reset();
    let hs = hist_seed(seed, prop, idx);
    let mut r = Rng::new(hs ^ 0x5151);
    let p = profiles::profile(prop, &mut r, tiny);
    let name = p.name;
    let ops = p.ops;
    if verbose {
        eprintln!("history {idx}: {p:?}");
    }
    let mut h = match Hist::new(hs, p, 1, ablate) {
        Ok(h) => h,
        Err(v) => return Outcome { vio: Some(v), st: Stat::default(), trace: 0, known: vec![], name, steps: 0 },
    };
    h.verbose = verbose;
    let mut bad = None;
    for s in 0..ops {
        if let Some(b) = beat {
            b.step.store(s as u64 + 1, Ordering::Relaxed);
        }
        if let Err(v) = h.step() {
            bad = Some(v);
            break;
        }
    }
    if bad.is_none() {
        bad = h.finish().err();
    }
    if let Some(v) = &bad {
        if v.tags & c(prop) == 0 && !tiny {
            bad = h.opinion(prop, v).or(bad);
        }
    }
    if let Some(w) = h.w.take() {
        // after a violation the world may be in any state; do not run its destructor
        std::mem::forget(w);
    }
    Outcome { vio: bad, st: h.st, trace: h.trace, known: h.known, name, steps: h.step }
}

/// Operations that belong to one property and that a history can go without:
/// acting on stale handles, refused calls, despawned components, abandoned builders.
const SPECIAL: u32 = c(1) | c(8) | c(10) | c(13);

/// Are all of these histories free of violations when the operations of `ablate` are left out?
struct Clean {
    memo: Mutex<Vec<(u32, bool)>>,
}
impl Clean {
    fn get(&self, ablate: u32, beat: &Beat, run: &dyn Fn(u64, u32) -> Outcome) -> bool {
        // a thread that waits here is not hanging
        let mut m = loop {
            if let Ok(m) = self.memo.try_lock() {
                break m;
            }
            beat.step.fetch_add(1, Ordering::Relaxed);
            std::thread::sleep(std::time::Duration::from_millis(10));
        };
        if let Some(x) = m.iter().find(|x| x.0 == ablate) {
            return x.1;
        }
        let x = (0..250).all(|i| run(1_000_000 + i, ablate).vio.is_none());
        m.push((ablate, x));
        x
    }
}

/// Does this violation belong to `prop`?
///
/// A violation that names the property does. One seen after operations of the property
/// does when these operations cause it: histories with no special operations at all are
/// fine, and histories with those of this property alone are not (or all others are fine).
fn decide(prop: u32, idx: u64, o: &Outcome, tiny: bool, clean: &Clean, beat: &Beat, run: &dyn Fn(u64, u32) -> Outcome) -> bool {
    let Some(v) = &o.vio else { return false };
    let p = c(prop);
    if v.tags & p != 0 {
        return true;
    }
    if v.sus & p == 0 {
        return false;
    }
    let without = run(idx, p).vio.is_none();
    if tiny {
        return without;
    }
    if !clean.get(SPECIAL, beat, run) {
        return false;
    }
    run(idx, SPECIAL & !p).vio.is_some() || !clean.get(SPECIAL & !p, beat, run) || (without && clean.get(p, beat, run))
}

fn main() {
    hook();
    let a = Args { v: std::env::args().skip(1).collect() };
    let prop: u32 = a.v[1][1..].parse().unwrap();
    let seed = a.num("--seed", 1);
    let (tiny, verbose) = (a.has("--tiny"), a.has("--verbose"));
    match a.v[0].as_str() {
        // random histories on one world each
        "world" => {
            let clean = Clean { memo: Mutex::new(vec![]) };
            drive(&a, &|i, b| {
            let o = run_hist(prop, seed, i, 0, tiny, verbose, Some(b));
            let mine = decide(prop, i, &o, tiny, &clean, b, &|i, ab| run_hist(prop, seed, i, ab, tiny, false, Some(b)));
            Out { vio: o.vio, mine, st: Some(o.st), trace: o.trace, known: o.known, shape: o.name.into(), steps: o.steps as u64, ..Out::default() }
            })
        }
        // random operations on untyped vectors
        "vecs" => drive(&a, &|i, b| {
            let mut vs = vecs::VStat::default();
            let r = vecs::run(seed, i, tiny, verbose, Some(b), &mut vs);
            let mut o = Out { shape: "vecs".into(), trace: vs.trace, steps: vs.steps, vs: Some(vs), ..Out::default() };
            if let Err(v) = r {
                o = o.with(prop, v);
            }
            o
        }),
        // queries held by several threads, one event at a time
        "locks" => drive(&a, &|i, b| locks::schedule(seed, i, verbose, b)),
        // queries by free-running threads
        "stress" => {
            let (n, rounds, single) = (a.num("--workers", 8) as usize, a.num("--rounds", 400) as usize, a.has("--single"));
            drive(&a, &|i, b| locks::stress(seed, i, n, rounds, single, tiny, b))
        }
        // small histories over types of all sizes and alignments
        "grid" => drive(&a, &|i, _| {
            let (v, trace, steps) = grid::run(seed, i);
            let mut o = Out { shape: "grid".into(), trace, steps, ..Out::default() };
            o.add("values_made", ledger::with(|l| l.made));
            o.add("destructors_seen", ledger::with(|l| l.drops));
            match v {
                Some(v) => o.with(prop, v),
                None => o,
            }
        }),
        // every call on every component type
        "tour" => drive(&a, &|i, _| tour::run(seed, prop, i)),
        // the allocator refuses a request, each time in a process of its own
        "refused" => {
            let v = a.has("--vecs");
            drive(&a, &|i, _| faults::refused(prop, seed, i, v))
        }
        "oomchild" => faults::child(prop, seed, a.num("--idx", 0), a.has("--vecs")),
        // the same cycle again and again
        "cycles" => drive(&a, &|i, b| special::cycles(seed, i, tiny, verbose, b)),
        // the same history twice, and two histories alternately
        "twins" => drive(&a, &|i, b| special::twins(seed, i, tiny, b)),
        // many spawns in few slots
        "longrun" => {
            let n = a.num("--spawns", 1 << 20);
            drive(&a, &|i, b| special::longrun(seed, i, n, b))
        }
        "generations" => {
            let n = a.num("--bits", 32) as u32;
            drive(&a, &|_, b| special::generations(n, b))
        }
        other => panic!("unknown command {other:?}"),
    }
}
