//! Destructor ledger (per thread): every value with a destructor has a unique token; the ledger knows
//! which tokens are alive, and records any second drop, drop of garbage, or corruption it sees.
use crate::alloc::untrack;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Ledger {
    pub live: HashMap<u64, u16>, // token -> kind
    pub zst_made: HashMap<u16, u64>,
    pub zst_dropped: HashMap<u16, u64>,
    pub errors: Vec<String>,
    pub drops: u64,
    pub made: u64,
    pub reads: u64,
    /// tokens whose destructor panics (after recording the drop)
    pub bombs: Vec<u64>,
    pub exploded: u64,
    /// armed zero sized kind: its next drop panics
    pub zst_bomb: Option<u16>,
}

thread_local! {
    static L: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    untrack(|| L.with(|l| f(&mut l.borrow_mut())))
}
pub fn reset() {
    with(|l| *l = Ledger::default());
}
pub fn error(s: String) {
    with(|l| {
        if l.errors.len() < 20 {
            l.errors.push(s)
        }
    });
}
pub fn take_error() -> Option<String> {
    with(|l| if l.errors.is_empty() { None } else { Some(l.errors.remove(0)) })
}

pub fn make(tok: u64, kind: u16) {
    with(|l| {
        l.made += 1;
        if l.live.insert(tok, kind).is_some() {
            l.errors.push(format!("harness: token {tok} made twice"));
        }
    });
}
/// Returns true if the destructor has to panic.
#[must_use]
pub fn dropped(tok: u64, kind: u16) -> bool {
    with(|l| {
        l.drops += 1;
        match l.live.remove(&tok) {
            None => {
                l.errors.push(format!("destructor of component kind {kind} ran on value {tok:#x} which is not alive (dropped twice, or not a value)"));
                false
            }
            Some(k) if k != kind => {
                l.errors.push(format!("destructor of component kind {kind} ran on value {tok:#x} of kind {k}"));
                false
            }
            Some(_) => {
                if let Some(i) = l.bombs.iter().position(|&b| b == tok) {
                    l.bombs.swap_remove(i);
                    l.exploded += 1;
                    return true;
                }
                false
            }
        }
    })
}
pub fn zst_make(kind: u16) {
    with(|l| {
        l.made += 1;
        *l.zst_made.entry(kind).or_default() += 1
    });
}
#[must_use]
pub fn zst_drop(kind: u16) -> bool {
    with(|l| {
        l.drops += 1;
        let d = l.zst_dropped.entry(kind).or_default();
        *d += 1;
        let d = *d;
        let m = l.zst_made.get(&kind).copied().unwrap_or(0);
        if d > m {
            l.errors.push(format!("zero-sized component kind {kind}: {d} drops but only {m} values made"));
        }
        if l.zst_bomb == Some(kind) {
            l.zst_bomb = None;
            l.exploded += 1;
            return true;
        }
        false
    })
}
pub fn is_live(tok: u64) -> bool {
    with(|l| {
        l.reads += 1;
        l.live.contains_key(&tok)
    })
}
/// Forget a value the harness allows to be leaked (argument of a call that panicked).
pub fn forgive(tok: u64) {
    with(|l| {
        l.live.remove(&tok);
    });
}
pub fn zst_live(kind: u16) -> i64 {
    with(|l| {
        l.zst_made.get(&kind).copied().unwrap_or(0) as i64
            - l.zst_dropped.get(&kind).copied().unwrap_or(0) as i64
    })
}

pub fn forgive_zst(kind: u16, n: i64) {
    with(|l| *l.zst_dropped.entry(kind).or_default() += n as u64)
}
pub fn live_count() -> usize {
    with(|l| l.live.len())
}
