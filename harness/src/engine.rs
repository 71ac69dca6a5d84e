//! One history: a real `World` driven by random operations next to a reference model, with monitors
//! comparing the two. Everything is a function of (seed, profile), so a history replays exactly.
use crate::kinds::*;
use crate::ledger;
use crate::queries::*;
use crate::qtable::QUERIES;
use crate::rng::{mix, Rng};
use crate::{alloc, Stat};
use arche_tape::entities::EcsIdGen;
use arche_tape::{EcsId, World};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Key = (usize, EcsIdGen);
pub fn key(e: EcsId) -> Key {
    (e.uindex(), e.generation())
}

/// Property bit.
pub const fn c(n: u32) -> u32 {
    1 << n
}
#[derive(Debug, Clone)]
pub struct Vio {
    /// properties the monitor that fired decides
    pub tags: u32,
    /// properties that may be to blame because of what the history did before; confirmed by ablation
    pub sus: u32,
    pub what: String,
    pub step: usize,
}
pub type R<T> = Result<T, Vio>;
pub fn vio<T>(tags: u32, what: impl Into<String>) -> R<T> {
    Err(Vio { tags, sus: 0, what: what.into(), step: 0 })
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let s = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
    if s == "bomb" {
        return s;
    }
    match crate::last_panic() {
        Some(l) => format!("{s} [{l}]"),
        None => s,
    }
}
/// A call into the library; a panic comes back as its message.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = INSIDE.with(|i| i.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| alloc::track(f)));
    INSIDE.with(|i| i.set(old));
    r.map_err(panic_text)
}
thread_local! {
    static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// is this thread inside a library call?
pub fn inside() -> bool {
    INSIDE.with(|i| i.get())
}

/// A call that must not panic.
pub fn call<T>(tags: u32, what: &str, f: impl FnOnce() -> T) -> R<T> {
    attempt(f).or_else(|m| vio(tags, format!("{what} panicked: {m}")))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Tag,
    Typed(u16),
    Dyn(u16),
}
impl Class {
    pub fn size(self) -> usize {
        match self {
            Class::Tag => 0,
            Class::Typed(k) => KINDS[k as usize].size,
            Class::Dyn(d) => DYN[d as usize].size,
        }
    }
    pub fn align(self) -> usize {
        match self {
            Class::Tag => 1,
            Class::Typed(k) => KINDS[k as usize].align,
            Class::Dyn(d) => DYN[d as usize].align,
        }
    }
    pub fn mask(self) -> u64 {
        match self {
            Class::Tag => 0,
            Class::Typed(k) => KINDS[k as usize].mask,
            Class::Dyn(d) => DYN[d as usize].mask(),
        }
    }
    /// ledger key if values have a destructor
    pub fn drops(self) -> Option<u16> {
        match self {
            Class::Typed(k) if KINDS[k as usize].drops => Some(k),
            Class::Dyn(d) if DYN[d as usize].drop.is_some() => Some(DYN[d as usize].key),
            _ => None,
        }
    }
    pub unsafe fn read(self, p: *const u8) -> u64 {
        match self {
            Class::Tag => 0,
            Class::Typed(k) => (KINDS[k as usize].read_ptr)(p),
            Class::Dyn(d) => DYN[d as usize].read(p),
        }
    }
    pub unsafe fn write(self, p: *mut u8, v: u64) {
        match self {
            Class::Tag => {}
            Class::Typed(k) => (KINDS[k as usize].write_ptr)(p, v),
            Class::Dyn(d) => DYN[d as usize].write(p, v),
        }
    }
}

/// A component named the way a call names it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cr {
    /// by type
    K(u16),
    /// by entity (index into `ents`)
    E(u32),
}

pub struct Ent {
    pub id: EcsId,
    pub alive: bool,
    pub class: Class,
    pub comps: BTreeMap<u32, u64>,
    /// has ever been in the component set of an archetype
    pub used: bool,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: &'static str,
    pub kinds: Vec<u16>,
    /// run-time described component classes
    pub dyns: Vec<u16>,
    pub max_dyn: usize,
    pub max_tag: usize,
    pub ops: usize,
    pub max_live: usize,
    /// largest random component set
    pub max_set: usize,
    /// full check every so many operations
    pub full: usize,
    /// slots churned before anything is registered
    pub prechurn: usize,
    /// entities spawned in one go at the start
    pub bulk: usize,
    /// query table entry to focus on
    pub focus: Option<usize>,
    /// most additions and removals on this many entities
    pub hot: usize,
    pub w: Weights,
}
#[derive(Clone, Debug)]
pub struct Weights {
    pub spawn: u32,
    pub add: u32,
    pub remove: u32,
    pub despawn: u32,
    pub stale: u32,
    pub newdyn: u32,
    pub newtag: u32,
    pub reg: u32,
    pub despawn_comp: u32,
    pub despawn_used: u32,
    pub abandon: u32,
    pub twice: u32,
    pub reject: u32,
    pub bomb: u32,
    pub write: u32,
    pub tquery: u32,
    pub dquery: u32,
    pub cols: u32,
    pub get: u32,
    pub churn: u32,
    pub arch: u32,
}
impl Default for Weights {
    fn default() -> Self {
        Weights {
            spawn: 14,
            add: 22,
            remove: 16,
            despawn: 9,
            stale: 3,
            newdyn: 3,
            newtag: 2,
            reg: 1,
            despawn_comp: 2,
            despawn_used: 0,
            abandon: 2,
            twice: 1,
            reject: 4,
            bomb: 2,
            write: 12,
            tquery: 12,
            dquery: 10,
            cols: 4,
            get: 6,
            churn: 1,
            arch: 4,
        }
    }
}
impl Weights {
    fn list(&self) -> [u32; 21] {
        [
            self.spawn, self.add, self.remove, self.despawn, self.stale, self.newdyn, self.newtag, self.reg,
            self.despawn_comp, self.despawn_used, self.abandon, self.twice, self.reject, self.bomb, self.write,
            self.tquery, self.dquery, self.cols, self.get, self.churn, self.arch,
        ]
    }
}
pub const OPN: [&str; 21] = [
    "spawn", "add", "remove", "despawn", "stale", "newdyn", "newtag", "reg", "despawn_comp", "despawn_used",
    "abandon", "build_twice", "reject", "bomb", "write", "tquery", "dquery", "cols", "get", "churn", "arch",
];

pub struct Hist {
    pub w: Option<World>,
    pub p: Profile,
    pub seed: u64,
    pub tag: u64,
    pub step: usize,
    pub ents: Vec<Ent>,
    by_key: BTreeMap<Key, u32>,
    slot_last: HashMap<usize, u32>,
    pub live: Vec<u32>,
    pos: HashMap<u32, usize>,
    typed: [Option<u32>; NK],
    dyns: Vec<u32>,
    tags: Vec<u32>,
    hot: Vec<u32>,
    counter: u64,
    peak: usize,
    /// handles up to here have been checked against the peak
    bounded: usize,
    archs: HashMap<usize, Vec<u32>>,
    sig_arch: HashMap<Vec<u32>, usize>,
    pub trace: u64,
    pub st: Stat,
    /// properties whose special operations are left out (attribution)
    pub ablate: u32,
    done: u32,
    pub verbose: bool,
    pub known: Vec<String>,
    light: bool,
    /// the history has its thread (ledger, allocator) to itself
    pub solo: bool,
    last_op: &'static str,
}

impl Hist {
    pub fn new(seed: u64, p: Profile, tag: u64, ablate: u32) -> R<Hist> {
        let w = call(c(2), "World::new", World::new)?;
        let light = cfg!(miri);
        Ok(Hist {
            w: Some(w),
            p,
            seed,
            tag,
            step: 0,
            ents: vec![],
            by_key: BTreeMap::new(),
            slot_last: HashMap::new(),
            live: vec![],
            pos: HashMap::new(),
            typed: [None; NK],
            dyns: vec![],
            tags: vec![],
            hot: vec![],
            counter: 0,
            peak: 0,
            bounded: 0,
            archs: HashMap::new(),
            sig_arch: HashMap::new(),
            trace: seed,
            st: Stat::default(),
            ablate,
            done: 0,
            verbose: false,
            known: vec![],
            light,
            solo: true,
            last_op: "",
        })
    }
    fn world(&mut self) -> &mut World {
        self.w.as_mut().unwrap()
    }
    fn wr(&self) -> &World {
        self.w.as_ref().unwrap()
    }
    fn log(&mut self, x: u64) {
        self.trace = mix(self.trace ^ x);
    }
    fn log_id(&mut self, e: EcsId) {
        self.log(e.as_u64())
    }
    /// A value never used before for this class (as far as its size allows).
    fn fresh(&mut self, cl: Class) -> u64 {
        self.counter += 1;
        let v = self.counter | self.tag << 40;
        let m = cl.mask();
        if m == u64::MAX {
            v
        } else if m == 0 {
            0
        } else {
            mix(v) & m
        }
    }
    pub fn class_of(&self, cr: Cr) -> Class {
        match cr {
            Cr::K(k) => Class::Typed(k),
            Cr::E(e) => self.ents[e as usize].class,
        }
    }
    /// model index of a component, if it has an entity yet
    fn res(&self, cr: Cr) -> Option<u32> {
        match cr {
            Cr::K(k) => self.typed[k as usize],
            Cr::E(e) => Some(e),
        }
    }
    fn id(&self, e: u32) -> EcsId {
        self.ents[e as usize].id
    }
    fn show(&self, e: u32) -> String {
        let x = &self.ents[e as usize];
        format!("{} ({:?}, {:?})", x.id, x.class, x.comps.keys().map(|&k| self.ents[k as usize].class).collect::<Vec<_>>())
    }

    // ---------------------------------------------------------------- model bookkeeping

    /// A handle the library just issued.
    fn issue(&mut self, id: EcsId, class: Class, ctx: u32) -> R<u32> {
        let k = key(id);
        self.log_id(id);
        if let Some(&o) = self.by_key.get(&k) {
            return vio(
                c(1) | ctx,
                format!("handle {id} was issued twice (it was issued before, and is {} now)", if self.ents[o as usize].alive { "alive" } else { "dead" }),
            );
        }
        let n = self.ents.len() as u32;
        if let Some(&o) = self.slot_last.get(&id.uindex()) {
            let old = self.ents[o as usize].id;
            self.distinct(id, old)?;
        }
        if let Some(&o) = self.live.last() {
            let other = self.ents[o as usize].id;
            self.distinct(id, other)?;
        }
        if n >= 2 {
            let i = (mix(n as u64) % n as u64) as usize;
            let j = (i + 1 + (mix(n as u64 ^ 1 << 40) % (n as u64 - 1)) as usize) % n as usize;
            self.ordered([self.ents[i].id, self.ents[j].id, id])?;
        }
        self.slot_last.insert(id.uindex(), n);
        self.by_key.insert(k, n);
        self.ents.push(Ent { id, alive: true, class, comps: BTreeMap::new(), used: false });
        self.pos.insert(n, self.live.len());
        self.live.push(n);
        self.peak = self.peak.max(self.live.len());
        self.st.handles += 1;
        if !call(c(1), "is_alive on a new handle", || self.wr().is_alive(id))? {
            return vio(c(1) | ctx, format!("new handle {id} does not report alive"));
        }
        Ok(n)
    }
    /// two different handles must differ under every comparison
    fn distinct(&self, a: EcsId, b: EcsId) -> R<()> {
        use std::hash::{Hash, Hasher};
        let h = |e: EcsId| {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            e.hash(&mut s);
            s.finish()
        };
        let a2 = a;
        if a == b || !(a == a2) || a.as_u64() == b.as_u64() || a.as_u64() != a2.as_u64() || h(a) != h(a2) || a.cmp(&b) == std::cmp::Ordering::Equal || a != a2 {
            return vio(c(1), format!("handles {a} and {b} are different but compare or convert as the same (or one differs from itself)"));
        }
        if h(a) == h(b) {
            return vio(c(1), format!("handles {a} and {b} are different but hash the same"));
        }
        let lt = a.cmp(&b) == std::cmp::Ordering::Less;
        if a.cmp(&b) != b.cmp(&a).reverse() || a.partial_cmp(&b) != Some(a.cmp(&b)) || b.partial_cmp(&a) != Some(b.cmp(&a)) || (a < b) != lt || (a >= b) == lt || (b > a) != lt || (b <= a) == lt {
            return vio(c(1), format!("handles {a} and {b} are not consistently ordered"));
        }
        Ok(())
    }
    /// the order of handles has no cycles
    fn ordered(&self, mut t: [EcsId; 3]) -> R<()> {
        t.sort();
        if t[0] >= t[1] || t[1] >= t[2] || t[0] >= t[2] {
            return vio(c(1), format!("the order of handles {}, {} and {} is not total", t[0], t[1], t[2]));
        }
        Ok(())
    }
    /// learn the entity the library made for a type (if it had none, the call makes it)
    fn learn(&mut self, k: u16, ctx: u32) -> R<u32> {
        let id = call(ctx | c(9), "get_or_create_type_id_ecsid", || (KINDS[k as usize].reg)(self.w.as_mut().unwrap()))?;
        if let Some(e) = self.typed[k as usize] {
            if key(self.ents[e as usize].id) != key(id) {
                return vio(c(9) | c(10), format!("the component entity of kind {k} changed from {} to {id}", self.ents[e as usize].id));
            }
            return Ok(e);
        }
        let e = self.issue(id, Class::Typed(k), ctx)?;
        self.typed[k as usize] = Some(e);
        Ok(e)
    }
    fn kill(&mut self, e: u32) {
        let x = &mut self.ents[e as usize];
        x.alive = false;
        x.comps.clear();
        let p = self.pos.remove(&e).unwrap();
        self.live.swap_remove(p);
        if p < self.live.len() {
            self.pos.insert(self.live[p], p);
        }
        self.dyns.retain(|&d| d != e);
        self.tags.retain(|&d| d != e);
        self.hot.retain(|&d| d != e);
        for t in self.typed.iter_mut() {
            if *t == Some(e) {
                *t = None
            }
        }
    }
    fn mark_used(&mut self, e: u32) {
        let l: Vec<u32> = self.ents[e as usize].comps.keys().copied().collect();
        for k in l {
            self.ents[k as usize].used = true;
        }
    }
    fn sig(&self, e: u32) -> Vec<u32> {
        self.ents[e as usize].comps.keys().copied().collect()
    }
    /// bound on handle indices: everything that exists now, plus builders open during the operation
    fn bound(&mut self, open: usize) -> R<()> {
        self.peak = self.peak.max(self.live.len() + open);
        let from = std::mem::replace(&mut self.bounded, self.ents.len());
        for e in &self.ents[from..] {
            if e.id.uindex() >= self.peak {
                return vio(
                    c(15),
                    format!("handle {} has index {} although at most {} entities ever existed at once", e.id, e.id.uindex(), self.peak),
                );
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- choosing

    fn pick_live(&self, r: &mut Rng) -> Option<u32> {
        if self.live.is_empty() {
            return None;
        }
        let hot: Vec<u32> = self.hot.clone();
        if !hot.is_empty() && r.pct(80) {
            return Some(*r.pick(&hot));
        }
        Some(*r.pick(&self.live))
    }
    fn pick_comp(&self, r: &mut Rng) -> Cr {
        let nk = self.p.kinds.len();
        let (nd, nt) = (self.dyns.len(), self.tags.len());
        let odd = (self.p.max_tag > 0) as usize;
        let i = r.below(nk + nd + nt + odd + (nk + nd + nt + odd == 0) as usize);
        if i < nk {
            let k = self.p.kinds[i];
            match self.typed[k as usize] {
                Some(e) if r.pct(30) => Cr::E(e),
                _ => Cr::K(k),
            }
        } else if i < nk + nd {
            Cr::E(self.dyns[i - nk])
        } else if i < nk + nd + nt {
            Cr::E(self.tags[i - nk - nd])
        } else if !self.tags.is_empty() && r.pct(80) {
            Cr::E(*r.pick(&self.tags))
        } else if self.live.is_empty() {
            Cr::K(3)
        } else if r.pct(15) {
            // any entity can be a component
            Cr::E(*r.pick(&self.live))
        } else {
            Cr::K(*self.p.kinds.first().unwrap_or(&3))
        }
    }
    /// distinct components to build an entity from
    fn pick_set(&self, r: &mut Rng) -> Vec<Cr> {
        let mut set: Vec<Cr> = vec![];
        let mode = r.below(10);
        if mode < 5 && !self.live.is_empty() {
            let e = *r.pick(&self.live);
            for s in self.sig(e) {
                set.push(match self.ents[s as usize].class {
                    Class::Typed(k) if r.pct(70) => Cr::K(k),
                    _ => Cr::E(s),
                });
            }
            if mode >= 3 && !set.is_empty() && r.pct(50) {
                let i = r.below(set.len());
                set.swap_remove(i);
            }
        }
        if let (Some(q), true) = (self.p.focus, mode >= 7) {
            for p in QUERIES[q].parts {
                if let Part::Ref(k) | Part::Mut(k) = p {
                    set.push(Cr::K(*k))
                }
            }
            // sometimes a near miss
            if r.pct(35) && !set.is_empty() {
                let i = r.below(set.len());
                set.swap_remove(i);
            }
        }
        let extra = if mode < 3 { 0 } else { r.below(self.p.max_set + 1) };
        for _ in 0..extra {
            set.push(self.pick_comp(r));
        }
        let mut seen: Vec<(Option<u32>, Cr)> = vec![];
        set.retain(|&cr| {
            let id = self.res(cr);
            let dup = seen.iter().any(|&(i, c2)| c2 == cr || (id.is_some() && i == id));
            if !dup {
                seen.push((id, cr));
            }
            !dup
        });
        r.shuffle(&mut set);
        set
    }
    fn values(&mut self, set: &[Cr]) -> Vec<u64> {
        set.iter()
            .map(|&cr| {
                let cl = self.class_of(cr);
                self.fresh(cl)
            })
            .collect()
    }

    // ---------------------------------------------------------------- operations

    pub fn step(&mut self) -> R<()> {
        let mut r = Rng::new(mix(self.seed).wrapping_add((self.step as u64).wrapping_mul(0x9E37_79B9)));
        let s = self.step;
        self.step += 1;
        if s == 0 {
            self.setup(&mut r).map_err(|v| self.blame(v, s))?;
        }
        let mut op = r.weighted(&self.p.w.list());
        // keep the population near its target
        if self.live.len() > self.p.max_live && op == 0 {
            op = 3;
        }
        if self.verbose {
            eprintln!("step {s}: {} (live {})", OPN[op], self.live.len());
        }
        self.last_op = OPN[op];
        self.st.ops[op] += 1;
        let res = self.op(op, &mut r).and_then(|_| self.after(op, &mut r));
        res.map_err(|v| self.blame(v, s))
    }
    fn blame(&self, mut v: Vio, s: usize) -> Vio {
        v.step = s;
        v.sus = self.done & !v.tags;
        v.what = format!("step {s} ({}): {}", self.last_op, v.what);
        v
    }
    fn op(&mut self, op: usize, r: &mut Rng) -> R<()> {
        match op {
            0 => self.op_spawn(r, false),
            1 => self.op_add(r),
            2 => self.op_remove(r),
            3 => self.op_despawn(r),
            4 => self.op_stale(r),
            5 => self.op_newdyn(r),
            6 => self.op_newtag(r),
            7 => {
                if self.p.kinds.is_empty() {
                    return Ok(());
                }
                let k = *r.pick(&self.p.kinds);
                self.learn(k, c(9)).map(|_| ())
            }
            8 => self.op_despawn_comp(r),
            9 => self.op_despawn_used(r),
            10 => self.op_abandon(r),
            11 => self.op_spawn(r, true),
            12 => self.op_reject(r),
            13 => self.op_bomb(r),
            14 => self.op_write(r),
            15 => self.op_tquery(r),
            16 => self.op_dquery(r),
            17 => self.op_cols(r),
            18 => self.op_get(r),
            19 => {
                let n = r.range(2, 12);
                self.churn(n)
            }
            _ => self.check_archs(),
        }
    }
    fn after(&mut self, op: usize, r: &mut Rng) -> R<()> {
        self.drain(0)?;
        self.bound(0)?;
        let structural = matches!(op, 0..=3 | 8..=13);
        if self.step % self.p.full == 0 || (structural && self.live.len() <= 40 && !self.light && self.p.full == 1) {
            self.check_all(r)?;
        } else if structural && !self.live.is_empty() {
            for _ in 0..if self.light { 1 } else { 3 } {
                let e = *r.pick(&self.live);
                self.check_entity(e, r)?;
            }
        }
        self.drain(0)
    }
    /// what the ledger and the allocator monitor recorded
    fn drain(&mut self, ctx: u32) -> R<()> {
        if let Some(e) = ledger::take_error() {
            let mut t = ctx;
            if e.contains("destructor") {
                t |= c(5);
                if e.contains("corrupt") || e.contains("misaligned") {
                    t |= c(6)
                }
            }
            if e.contains("aligned") {
                t |= c(6)
            }
            if e.contains("bytes of") {
                t |= c(2) | c(4) | c(6)
            }
            if e.contains("run-time") {
                t |= c(9)
            }
            if e.contains("zero-sized") {
                t |= c(5)
            }
            if t == 0 {
                t = c(5)
            }
            return vio(t, e);
        }
        if let Some(e) = alloc::first_error() {
            return vio(c(6) | ctx, format!("allocator monitor: {e}"));
        }
        Ok(())
    }

    /// A capacity no allocation can have: the hint is refused or not followed, and either way no entity is
    /// left behind but one that was built.
    fn impossible_hint(&mut self, r: &mut Rng) -> R<()> {
        self.done |= c(8);
        let cap = *r.pick(&[usize::MAX, usize::MAX - 7, isize::MAX as usize + 1]);
        let w = self.w.as_mut().unwrap();
        match attempt(|| w.spawn_with_capacity(cap).build()) {
            Ok(id) => {
                self.issue(id, Class::Tag, c(13))?;
                self.bound(0)
            }
            Err(_) => {
                self.st.rejects += 1;
                self.bound(1)?;
                let id = call(c(1) | c(8) | c(13), "spawn", || self.w.as_mut().unwrap().spawn().build())?;
                if id.uindex() >= self.peak.max(self.live.len() + 1) {
                    return vio(
                        c(8) | c(13) | c(15),
                        format!("a builder with capacity {cap} was refused and left an entity behind: the next one has index {} although at most {} ever existed at once", id.uindex(), self.peak),
                    );
                }
                self.issue(id, Class::Tag, c(13))?;
                self.bound(0)?;
                Ok(())
            }
        }
    }
    fn setup(&mut self, r: &mut Rng) -> R<()> {
        self.last_op = "setup";
        if self.ablate & c(8) == 0 && r.pct(12) {
            for _ in 0..r.range(1, 3) {
                self.impossible_hint(r)?;
            }
        }
        if self.p.prechurn > 0 {
            let n = self.p.prechurn;
            let keep = r.below(n / 2 + 1);
            let mut es = vec![];
            for _ in 0..n {
                es.push(self.spawn_plain()?);
            }
            r.shuffle(&mut es);
            for &e in &es[keep.min(n)..] {
                self.despawn_now(e, c(1))?;
            }
            // some go round several times, so that generations differ between slots
            let rounds = r.range(1, 6);
            self.churn(rounds)?;
        }
        if self.p.bulk > 0 {
            let mut made = 0;
            // all of one combination, or in batches
            let one = self.p.bulk > 60_000 && r.pct(60);
            while made < self.p.bulk {
                let mut set = self.pick_set(r);
                let mut n = r.range(1, 400).min(self.p.bulk - made);
                if one && made >= 400 && !set.is_empty() {
                    set.truncate(3);
                    n = self.p.bulk - made;
                }
                for _ in 0..n {
                    let vals = self.values(&set);
                    self.build(&set, &vals, r, 0)?;
                    self.drain(0)?;
                }
                made += n;
                // there and back again
                for _ in 0..if one && n > 400 { 8 } else { 0 } {
                    let e = *r.pick(&self.live);
                    let now: Vec<u32> = self.ents[e as usize].comps.keys().copied().collect();
                    let back = match now.is_empty() || r.pct(50) {
                        false => {
                            let x = *r.pick(&now);
                            let cr = set.iter().copied().find(|&cr| self.res(cr) == Some(x)).unwrap_or(Cr::E(x));
                            self.remove(e, x, r)?;
                            self.spawn_plain()?;
                            self.add(e, cr, r)
                        }
                        true => {
                            let cr = self.pick_comp(r);
                            if self.res(cr).map_or(false, |x| now.contains(&x)) {
                                continue;
                            }
                            self.add(e, cr, r)?;
                            match self.res(cr) {
                                Some(x) => self.remove(e, x, r),
                                None => Ok(()),
                            }
                        }
                    };
                    back?;
                    self.check_entity(e, r)?;
                    let other = *r.pick(&self.live);
                    self.check_entity(other, r)?;
                    self.drain(0)?;
                }
            }
        }
        for _ in 0..self.p.hot {
            let set = self.pick_set(r);
            let vals = self.values(&set);
            let e = self.build(&set, &vals, r, 0)?;
            self.hot.push(e);
        }
        Ok(())
    }
    fn spawn_plain(&mut self) -> R<u32> {
        let id = call(c(1) | c(13), "spawn", || self.w.as_mut().unwrap().spawn().build())?;
        let e = self.issue(id, Class::Tag, c(13))?;
        self.bound(0)?;
        Ok(e)
    }
    fn churn(&mut self, n: usize) -> R<()> {
        for _ in 0..n {
            let e = self.spawn_plain()?;
            if self.ents.len() % 2 == 0 {
                self.check_meta(e)?;
            }
            self.despawn_now(e, c(1))?;
        }
        Ok(())
    }
    fn despawn_now(&mut self, e: u32, ctx: u32) -> R<()> {
        let id = self.id(e);
        let ok = call(ctx | c(2), "despawn", || self.w.as_mut().unwrap().despawn(id))?;
        if !ok {
            return vio(c(1) | ctx, format!("despawn of live {} returned false", self.show(e)));
        }
        self.kill(e);
        if call(c(1), "is_alive after despawn", || self.wr().is_alive(id))? {
            return vio(c(1) | ctx, format!("{id} still alive after despawn"));
        }
        self.st.despawns += 1;
        Ok(())
    }

    /// Builds one entity; how: 0 plain, 1 build again several times.
    fn build(&mut self, set: &[Cr], vals: &[u64], r: &mut Rng, how: u32) -> R<u32> {
        let plan: Vec<(Cr, Option<EcsId>, Class, u64, bool)> = set
            .iter()
            .zip(vals)
            .map(|(&cr, &v)| (cr, self.res(cr).map(|e| self.id(e)), self.class_of(cr), v, r.pct(50)))
            .collect();
        let start = r.below(8);
        let cap = *r.pick(&[0, 1, 3, 8, 16, 64, 1000, 100_000]);
        let meta = r.pct(6) && !self.p.dyns.is_empty() && self.dyns.len() < self.p.max_dyn;
        let dcl = if meta { *r.pick(&self.p.dyns) } else { 0 };
        let w = self.w.as_mut().unwrap();
        let mut ids = vec![];
        let id = call(c(13) | c(2), "building an entity", || {
            let mut b = if meta {
                unsafe { w.spawn_with_component_meta(DYN[dcl as usize].meta()) }
            } else if start < 4 {
                w.spawn()
            } else {
                w.spawn_with_capacity(cap)
            };
            for &(cr, id, cl, v, coin) in &plan {
                b = add_to_builder(b, cr, id, cl, v, coin);
            }
            let id = b.build();
            for _ in 0..how {
                ids.push(b.build());
            }
            id
        })?;
        let mut comps = BTreeMap::new();
        for (&cr, &v) in set.iter().zip(vals) {
            let e = match cr {
                Cr::K(k) => self.learn(k, c(13))?,
                Cr::E(e) => e,
            };
            comps.insert(e, v);
        }
        for i in ids {
            if key(i) != key(id) {
                return vio(c(13), format!("building again returned {i} instead of {id}"));
            }
        }
        let class = if meta { Class::Dyn(dcl) } else { Class::Tag };
        let e = self.issue(id, class, c(13))?;
        if meta {
            self.dyns.push(e)
        }
        self.ents[e as usize].comps = comps;
        self.mark_used(e);
        self.st.builds += 1;
        self.st.max_set = self.st.max_set.max(set.len());
        self.bound(0)?;
        Ok(e)
    }
    fn op_spawn(&mut self, r: &mut Rng, twice: bool) -> R<()> {
        let set = self.pick_set(r);
        let vals = self.values(&set);
        let how = if twice { 1 + r.below(3) as u32 } else { 0 };
        let e = self.build(&set, &vals, r, how)?;
        self.check_entity(e, r)?;
        self.check_meta(e)?;
        self.drain(c(13))?;
        if self.p.hot > self.hot.len() {
            self.hot.push(e)
        }
        if self.p.max_live < 100 && r.pct(30) {
            // an entity of the same set in another order
            let mut order: Vec<usize> = (0..set.len()).collect();
            r.shuffle(&mut order);
            let set2: Vec<Cr> = order
                .iter()
                .map(|&i| match set[i] {
                    Cr::K(k) if r.pct(30) => Cr::E(self.typed[k as usize].unwrap()),
                    Cr::E(x) => match self.ents[x as usize].class {
                        Class::Typed(k) if r.pct(50) && self.typed[k as usize] == Some(x) => Cr::K(k),
                        _ => Cr::E(x),
                    },
                    o => o,
                })
                .collect();
            let vals2 = self.values(&set2);
            let f = self.build(&set2, &vals2, r, 0)?;
            self.check_entity(f, r)?;
            let (a, b) = (self.arch_of(e)?, self.arch_of(f)?);
            if a.0 != b.0 {
                return vio(c(13) | c(14), format!("entities {} and {} were built from the same components in different order but are in archetypes {} and {}", self.show(e), self.show(f), a.0, b.0));
            }
            self.st.twins += 1;
        }
        Ok(())
    }
    fn arch_of(&self, e: u32) -> R<(usize, usize)> {
        let id = self.id(e);
        match call(c(14), "get_entity_meta", || self.wr().get_entity_meta(id).cloned())? {
            None => vio(c(14) | c(1), format!("live entity {} has no record", self.show(e))),
            Some(m) => Ok((m.instance_meta.archetype.0, m.instance_meta.index)),
        }
    }
    fn ctx_of(&self, cr: Cr) -> u32 {
        match cr {
            Cr::K(_) => 0,
            Cr::E(_) => c(9),
        }
    }
    fn op_add(&mut self, r: &mut Rng) -> R<()> {
        let Some(e) = self.pick_live(r) else { return Ok(()) };
        let mut cr = self.pick_comp(r);
        for _ in 0..4 {
            match self.res(cr) {
                Some(x) if self.ents[e as usize].comps.contains_key(&x) => cr = self.pick_comp(r),
                _ => break,
            }
        }
        if let Some(x) = self.res(cr) {
            if self.ents[e as usize].comps.contains_key(&x) {
                return self.remove(e, x, r);
            }
        }
        self.add(e, cr, r)
    }
    fn add(&mut self, e: u32, cr: Cr, r: &mut Rng) -> R<()> {
        let cl = self.class_of(cr);
        let v = self.fresh(cl);
        let id = self.id(e);
        let cid = self.res(cr).map(|x| self.id(x));
        let ctx = self.ctx_of(cr);
        let coin = r.pct(50);
        let w = self.w.as_mut().unwrap();
        call(c(2) | ctx, "adding a component", || match (cr, cl) {
            (Cr::K(k), _) => (KINDS[k as usize].add)(w, id, v),
            (_, Class::Typed(k)) => unsafe { (KINDS[k as usize].add_raw)(w, id, cid.unwrap(), v) },
            (_, Class::Dyn(d)) => {
                let dc = &DYN[d as usize];
                let mut b = dc.make(v);
                if dc.size == 0 && coin {
                    w.add_component_dynamic(id, cid.unwrap())
                } else {
                    unsafe { w.add_component_dynamic_with_data(id, cid.unwrap(), b.ptr()) }
                }
                alloc::untrack(|| drop(b));
            }
            (_, Class::Tag) => {
                if coin {
                    w.add_component_dynamic(id, cid.unwrap())
                } else {
                    let mut u = ();
                    unsafe { w.add_component_dynamic_with_data(id, cid.unwrap(), &mut u as *mut () as *mut u8) }
                }
            }
        })?;
        let x = match cr {
            Cr::K(k) => self.learn(k, c(2))?,
            Cr::E(x) => x,
        };
        self.ents[e as usize].comps.insert(x, v);
        self.mark_used(e);
        self.st.adds += 1;
        self.drain(ctx)?;
        self.check_entity(e, r).map_err(|v| Vio { tags: v.tags | ctx, ..v })
    }
    fn op_remove(&mut self, r: &mut Rng) -> R<()> {
        let Some(mut e) = self.pick_live(r) else { return Ok(()) };
        for _ in 0..6 {
            if !self.ents[e as usize].comps.is_empty() {
                break;
            }
            e = self.pick_live(r).unwrap();
        }
        let sig = self.sig(e);
        if sig.is_empty() {
            return Ok(());
        }
        let x = *r.pick(&sig);
        self.remove(e, x, r)
    }
    fn remove(&mut self, e: u32, x: u32, r: &mut Rng) -> R<()> {
        let (id, cid) = (self.id(e), self.id(x));
        let typed = match self.ents[x as usize].class {
            Class::Typed(k) if self.typed[k as usize] == Some(x) && r.pct(60) => Some(k),
            _ => None,
        };
        let ctx = if typed.is_none() { c(9) } else { 0 };
        let w = self.w.as_mut().unwrap();
        call(c(2) | ctx, "removing a component", || match typed {
            Some(k) => (KINDS[k as usize].remove)(w, id),
            None => w.remove_component_dynamic(id, cid),
        })?;
        self.ents[e as usize].comps.remove(&x);
        self.mark_used(e);
        self.st.removes += 1;
        self.drain(ctx)?;
        self.check_entity(e, r).map_err(|v| Vio { tags: v.tags | ctx, ..v })
    }
    fn plain_victim(&self, r: &mut Rng) -> Option<u32> {
        for _ in 0..30 {
            let e = *r.pick(&self.live);
            let x = &self.ents[e as usize];
            if x.class == Class::Tag && !x.used && (!self.tags.contains(&e) || r.pct(10)) {
                return Some(e);
            }
        }
        None
    }
    fn op_despawn(&mut self, r: &mut Rng) -> R<()> {
        if self.live.is_empty() {
            return Ok(());
        }
        let Some(e) = self.plain_victim(r) else { return Ok(()) };
        self.despawn_now(e, 0)?;
        self.check_dead(e, r)
    }
    fn pick_dead(&self, r: &mut Rng) -> Option<u32> {
        for _ in 0..20 {
            if self.ents.is_empty() {
                return None;
            }
            let e = r.below(self.ents.len()) as u32;
            if !self.ents[e as usize].alive {
                return Some(e);
            }
        }
        None
    }
    fn op_stale(&mut self, r: &mut Rng) -> R<()> {
        let Some(e) = self.pick_dead(r) else { return Ok(()) };
        if self.ablate & c(1) != 0 {
            return Ok(());
        }
        self.done |= c(1);
        let id = self.id(e);
        let ok = call(c(1), "despawn of a dead handle", || self.w.as_mut().unwrap().despawn(id))?;
        if ok {
            return vio(c(1), format!("despawn of dead {id} returned true"));
        }
        self.check_dead(e, r)?;
        // operations by id that find nothing and change nothing
        let comp = match r.below(3) {
            0 => self.pick_dead(r),
            _ if !self.live.is_empty() => Some(*r.pick(&self.live)),
            _ => None,
        };
        if let Some(x) = comp {
            let cid = self.id(x);
            let w = self.w.as_mut().unwrap();
            let mut scratch = vec![0u64; 1024];
            // a dead entity is never given the data, so the content does not matter
            let res = attempt(|| unsafe {
                w.remove_component_dynamic(id, cid);
                w.add_component_dynamic_with_data(id, cid, scratch.as_mut_ptr() as *mut u8);
            });
            // refusing loudly would be fine as well
            drop(res);
        }
        // a dead component on a live entity
        if let (Some(x), false) = (self.pick_dead(r), self.live.is_empty()) {
            let l = *r.pick(&self.live);
            let (lid, cid) = (self.id(l), self.id(x));
            let w = self.w.as_mut().unwrap();
            let mut scratch = vec![0u64; 1024];
            let res = attempt(|| unsafe {
                w.remove_component_dynamic(lid, cid);
                w.add_component_dynamic_with_data(lid, cid, scratch.as_mut_ptr() as *mut u8);
            });
            drop(res);
            self.check_entity(l, r)?;
        }
        if self.live.len() <= 40 && !self.light {
            self.check_all(r)?;
        }
        Ok(())
    }
    fn op_newdyn(&mut self, r: &mut Rng) -> R<()> {
        if self.p.dyns.is_empty() || self.dyns.len() >= self.p.max_dyn {
            return Ok(());
        }
        let d = *r.pick(&self.p.dyns);
        let w = self.w.as_mut().unwrap();
        let id = call(c(9), "spawn_with_component_meta", || unsafe { w.spawn_with_component_meta(DYN[d as usize].meta()).build() })?;
        let e = self.issue(id, Class::Dyn(d), c(9))?;
        self.dyns.push(e);
        self.check_meta(e)
    }
    fn op_newtag(&mut self, r: &mut Rng) -> R<()> {
        if self.tags.len() >= self.p.max_tag || self.live.is_empty() {
            return Ok(());
        }
        let e = if r.pct(50) {
            self.spawn_plain()?
        } else {
            match self.plain_victim(r) {
                Some(e) => e,
                None => return Ok(()),
            }
        };
        if !self.tags.contains(&e) && !self.hot.contains(&e) {
            self.tags.push(e);
        }
        Ok(())
    }
    /// despawn of an entity that describes a component nothing ever had
    fn op_despawn_comp(&mut self, r: &mut Rng) -> R<()> {
        if self.ablate & c(10) != 0 {
            return Ok(());
        }
        let mut l: Vec<u32> = self.live.iter().copied().filter(|&e| { let x = &self.ents[e as usize]; !x.used && x.class != Class::Tag }).collect();
        if l.is_empty() {
            // make one
            let e = if r.pct(50) || self.p.dyns.is_empty() {
                let Some(&k) = self.p.kinds.iter().find(|&&k| self.typed[k as usize].is_none()) else { return Ok(()) };
                self.learn(k, c(10))?
            } else {
                let d = *r.pick(&self.p.dyns);
                let w = self.w.as_mut().unwrap();
                let id = call(c(10), "spawn_with_component_meta", || unsafe { w.spawn_with_component_meta(DYN[d as usize].meta()).build() })?;
                self.issue(id, Class::Dyn(d), c(10))?
            };
            self.bound(0)?;
            l.push(e);
        }
        let e = *r.pick(&l);
        let class = self.ents[e as usize].class;
        self.done |= c(10);
        self.despawn_now(e, c(10))?;
        self.st.comp_despawns += 1;
        let tag10 = |v: Vio| Vio { what: format!("after a component entity was despawned: {}", v.what), ..v };
        self.check_dead(e, r).map_err(tag10)?;
        // the slot is taken again by something that must inherit nothing
        if r.pct(80) {
            let f = match r.below(4) {
                0 => self.spawn_plain()?,
                1 => {
                    let set = self.pick_set(r);
                    let vals = self.values(&set);
                    self.build(&set, &vals, r, 0)?
                }
                2 if !self.p.kinds.is_empty() => {
                    let k = *r.pick(&self.p.kinds);
                    self.learn(k, c(10))?
                }
                _ => match class {
                    Class::Typed(k) => self.learn(k, c(10))?,
                    _ => self.spawn_plain()?,
                },
            };
            self.bound(0)?;
            self.check_meta(f).map_err(tag10)?;
            self.check_entity(f, r).map_err(tag10)?;
            self.check_dead(e, r).map_err(tag10)?;
            if r.pct(70) {
                // use it as a component
                let t = *r.pick(&self.live);
                if !self.ents[t as usize].comps.contains_key(&f) {
                    self.add(t, Cr::E(f), r).map_err(tag10)?;
                }
                self.dquery_of(&[None, Some((f, false))], r).map_err(tag10)?;
                self.dquery_dead(e, r).map_err(tag10)?;
            }
        }
        if let Class::Typed(k) = class {
            // the type again, from scratch
            if r.pct(60) && !self.live.is_empty() {
                let t = *r.pick(&self.live);
                let has = self.typed[k as usize].map_or(false, |x| self.ents[t as usize].comps.contains_key(&x));
                if !has {
                    self.add(t, Cr::K(k), r).map_err(tag10)?;
                }
                for q in 0..NK {
                    if matches!(QUERIES[q].parts, [Part::Ref(a) | Part::Mut(a)] if *a == k) {
                        self.tquery(q, r).map_err(tag10)?;
                    }
                }
            }
        }
        if self.live.len() < 200 {
            self.check_all(r).map_err(tag10)?;
        }
        self.drain(0)
    }
    /// despawn of an entity that is, or was, a component of something
    fn op_despawn_used(&mut self, r: &mut Rng) -> R<()> {
        if self.ablate & c(10) != 0 {
            return Ok(());
        }
        let l: Vec<u32> = self.live.iter().copied().filter(|&e| self.ents[e as usize].used).collect();
        if l.is_empty() {
            return Ok(());
        }
        let e = *r.pick(&l);
        let id = self.id(e);
        self.done |= c(10);
        let class = self.ents[e as usize].class;
        let users: Vec<u32> = self.live.iter().copied().filter(|&u| self.ents[u as usize].comps.contains_key(&e)).collect();
        match attempt(|| self.w.as_mut().unwrap().despawn(id)) {
            Err(m) if m.starts_with("not yet implemented") => {
                // listed as a known finding; the world must not have changed
                let kf = "World::despawn of an entity that an archetype has as a component panics with \"not yet implemented\"";
                if !self.known.iter().any(|k| k == kf) {
                    self.known.push(kf.into());
                }
                self.st.known += 1;
            }
            Err(m) => return vio(c(10), format!("despawn of component entity {} panicked: {m}", self.show(e))),
            Ok(false) => return vio(c(10) | c(1), format!("despawn of live component entity {} returned false", self.show(e))),
            Ok(true) => {
                for u in users {
                    self.ents[u as usize].comps.remove(&e);
                }
                self.kill(e);
                self.archs.clear();
                self.sig_arch.clear();
                self.st.comp_despawns += 1;
                self.check_dead(e, r)?;
                self.dquery_dead(e, r)?;
                if r.pct(60) {
                    let f = self.spawn_plain()?;
                    self.check_meta(f)?;
                    let t = *r.pick(&self.live);
                    self.add(t, Cr::E(f), r)?;
                    self.dquery_of(&[None, Some((f, false))], r)?;
                }
                if let (Class::Typed(k), false) = (class, self.live.is_empty()) {
                    let t = *r.pick(&self.live);
                    let has = self.typed[k as usize].map_or(false, |x| self.ents[t as usize].comps.contains_key(&x));
                    if !has {
                        self.add(t, Cr::K(k), r)?;
                    }
                }
            }
        }
        self.check_all(r)?;
        self.drain(0)
    }
    fn op_abandon(&mut self, r: &mut Rng) -> R<()> {
        if self.ablate & c(13) != 0 {
            return Ok(());
        }
        self.done |= c(13);
        let set = self.pick_set(r);
        let vals = self.values(&set);
        let plan: Vec<(Cr, Option<EcsId>, Class, u64, bool)> = set
            .iter()
            .zip(&vals)
            .map(|(&cr, &v)| (cr, self.res(cr).map(|e| self.id(e)), self.class_of(cr), v, r.pct(50)))
            .collect();
        let cap = *r.pick(&[0, 0, 1, 50]);
        // one of the destructors may panic
        let armed: Vec<usize> = (0..plan.len()).filter(|&i| plan[i].2.drops().is_some()).collect();
        let armed = if !armed.is_empty() && self.ablate & c(8) == 0 && !cfg!(no_bombs) && r.pct(20) { Some(*r.pick(&armed)) } else { None };
        if let Some(i) = armed {
            self.done |= c(8);
            self.arm_value(plan[i].2, plan[i].3);
        }
        let w = self.w.as_mut().unwrap();
        let res = attempt(|| {
            let mut b = if cap == 0 { w.spawn() } else { w.spawn_with_capacity(cap) };
            for &(cr, id, cl, v, coin) in &plan {
                b = add_to_builder(b, cr, id, cl, v, coin);
            }
        });
        self.disarm();
        if let Err(m) = res {
            if armed.is_none() || m != "bomb" {
                return vio(if armed.is_some() { c(8) | c(13) } else { c(13) }, format!("abandoning a builder panicked: {m}"));
            }
            self.st.drop_bombs += 1;
        }
        for cr in set {
            if let Cr::K(k) = cr {
                self.learn(k, c(13))?;
            }
        }
        self.st.abandons += 1;
        self.bound(1)?;
        self.drain(c(5))?;
        self.check_ledger()?;
        self.query_ids(r)
    }

    /// A builder that has built its entity is given one more component. It may refuse, and then the entity
    /// is the one that was built; it may accept, and then the entity has the component too.
    fn op_extend_built(&mut self, r: &mut Rng) -> R<()> {
        let set = self.pick_set(r);
        let vals = self.values(&set);
        let extra = self.pick_comp(r);
        let cl = self.class_of(extra);
        let v = self.fresh(cl);
        let zst_before = cl.drops().filter(|_| cl.size() == 0).map(|k| ledger::zst_live(k));
        let part = |h: &Hist, cr: Cr, v: u64, coin: bool| (cr, h.res(cr).map(|e| h.id(e)), h.class_of(cr), v, coin);
        let plan: Vec<_> = set.iter().zip(&vals).map(|(&cr, &v)| part(self, cr, v, r.pct(50))).collect();
        let more = part(self, extra, v, r.pct(50));
        let (hint, cap) = (r.pct(50), r.below(200));
        let zst_set = plan.iter().filter(|p| p.2.size() == 0 && p.2.drops() == cl.drops()).count() as i64;
        let (mut got, mut again) = (None, None);
        let w = self.w.as_mut().unwrap();
        let res = attempt(|| {
            let mut b = if hint { w.spawn_with_capacity(cap) } else { w.spawn() };
            for &(cr, id, cl, v, coin) in &plan {
                b = add_to_builder(b, cr, id, cl, v, coin);
            }
            got = Some(b.build());
            let (cr, id, cl, v, coin) = more;
            let mut b = add_to_builder(b, cr, id, cl, v, coin);
            again = Some(b.build());
        });
        if self.verbose {
            eprintln!("    giving a built builder {extra:?} on top of {set:?}: {res:?}");
        }
        let Some(id) = got else {
            return vio(c(13) | c(2), format!("building an entity: panicked: {res:?}"));
        };
        let mut comps = BTreeMap::new();
        for (&cr, &v) in set.iter().zip(&vals) {
            let e = match cr {
                Cr::K(k) => self.learn(k, c(13))?,
                Cr::E(e) => e,
            };
            comps.insert(e, v);
        }
        let x = match extra {
            Cr::K(k) => self.learn(k, c(13))?,
            Cr::E(e) => e,
        };
        let tags = c(13) | c(8);
        if res.is_ok() {
            if again.map(key) != Some(key(id)) {
                return vio(tags, format!("building again returned {} instead of {id}", again.unwrap()));
            }
            if comps.insert(x, v).is_some() {
                return vio(tags, "a builder accepted the same component twice");
            }
        } else {
            self.st.rejects += 1;
            match (extra, cl.drops()) {
                (Cr::K(_), Some(k)) => {
                    let left = if cl.size() > 0 { ledger::is_live(v) } else { ledger::zst_live(k) > zst_before.unwrap() + zst_set };
                    if left {
                        return vio(c(5) | c(8), format!("a built builder refused {cl:?} and did not drop it"));
                    }
                }
                (_, Some(_)) if cl.size() > 0 => ledger::forgive(v),
                (_, Some(k)) => {
                    if ledger::zst_live(k) == zst_before.unwrap() + zst_set + 1 {
                        ledger::forgive_zst(k, 1);
                    }
                }
                _ => (),
            }
        }
        let t8 = |q: Vio| Vio { what: format!("after a builder that had built its entity was given another component ({res:?}): {}", q.what), tags: q.tags | tags, ..q };
        let e = self.issue(id, Class::Tag, c(13))?;
        self.ents[e as usize].comps = comps;
        self.mark_used(e);
        self.st.builds += 1;
        self.bound(0).map_err(&t8)?;
        self.drain(tags)?;
        self.check_ledger().map_err(&t8)?;
        if res.is_ok() && cl.drops().is_some() && cl.size() > 0 {
            // accepted, but not on the entity: then it would have to be gone
            let w = self.w.as_ref().unwrap();
            let cid = self.id(x);
            let on = w.query_dynamic([arche_tape::FetchType::EcsId, arche_tape::FetchType::Immut(cid)]).iter().any(|[p, _]| key(unsafe { *(p as *const EcsId) }) == key(id));
            if !on && ledger::is_live(v) {
                return vio(c(5) | tags, format!("a built builder accepted {cl:?}, the entity does not have it, and it was not dropped"));
            }
        }
        self.check_entity(e, r).map_err(&t8)?;
        self.check_meta(e).map_err(&t8)
    }

    /// A call that has to be refused with a panic; nothing may change.
    fn op_reject(&mut self, r: &mut Rng) -> R<()> {
        if self.ablate & c(8) != 0 || self.live.is_empty() {
            return Ok(());
        }
        self.done |= c(8);
        let e = *r.pick(&self.live);
        let id = self.id(e);
        let sig = self.sig(e);
        let dead = self.pick_dead(r);
        if r.pct(4) {
            return self.impossible_hint(r);
        }
        if r.pct(6) {
            return self.op_extend_built(r);
        }
        let variant = r.below(16);
        // values handed to the refused call; through the safe interface?
        let mut owned: Vec<(Class, u64, bool)> = vec![];
        let zst_before: Vec<(u16, i64)> = zst_keys().map(|k| (k, ledger::zst_live(k))).collect();
        let mut learn: Vec<u16> = vec![];
        let mut open = 0;
        let name;
        let res: Result<(), String>;
        match variant {
            0 | 1 => {
                name = "adding a component twice";
                if sig.is_empty() {
                    return Ok(());
                }
                let x = *r.pick(&sig);
                let cl = self.ents[x as usize].class;
                let v = self.fresh(cl);
                let cid = self.id(x);
                let w = self.w.as_mut().unwrap();
                let by_type = matches!(cl, Class::Typed(k) if self.typed[k as usize] == Some(x)) && variant == 0;
                owned.push((cl, v, by_type));
                res = attempt(|| match cl {
                    Class::Typed(k) if by_type => (KINDS[k as usize].add)(w, id, v),
                    Class::Typed(k) => unsafe { (KINDS[k as usize].add_raw)(w, id, cid, v) },
                    Class::Dyn(d) => {
                        let mut b = DYN[d as usize].make(v);
                        unsafe { w.add_component_dynamic_with_data(id, cid, b.ptr()) };
                    }
                    Class::Tag => w.add_component_dynamic(id, cid),
                });
            }
            2 => {
                name = "removing an absent component by type";
                if self.p.kinds.is_empty() {
                    return Ok(());
                }
                let k = *r.pick(&self.p.kinds);
                if self.typed[k as usize].map_or(false, |x| sig.contains(&x)) {
                    return Ok(());
                }
                learn.push(k);
                let w = self.w.as_mut().unwrap();
                res = attempt(|| (KINDS[k as usize].remove)(w, id));
            }
            3 => {
                name = "removing an absent component by entity";
                let x = *r.pick(&self.live);
                if sig.contains(&x) {
                    return Ok(());
                }
                let cid = self.id(x);
                let w = self.w.as_mut().unwrap();
                res = attempt(|| w.remove_component_dynamic(id, cid));
            }
            4..=7 => {
                name = "giving a builder the same component twice";
                let set = self.pick_set(r);
                if set.is_empty() {
                    return Ok(());
                }
                let mut vals = self.values(&set);
                let mut set2 = set.clone();
                // the duplicate may be named differently
                let i = r.below(set.len());
                let dup = match (set[i], self.res(set[i])) {
                    (Cr::K(_), Some(x)) if r.pct(50) => Cr::E(x),
                    (cr, _) => cr,
                };
                let at = r.range(i + 1, set.len());
                set2.insert(at, dup);
                let cl = self.class_of(dup);
                let v = self.fresh(cl);
                vals.insert(at, v);
                let plan: Vec<_> = set2
                    .iter()
                    .zip(&vals)
                    .map(|(&cr, &v)| (cr, self.res(cr).map(|e| self.id(e)), self.class_of(cr), v, r.pct(50)))
                    .collect();
                owned.push((cl, v, matches!(dup, Cr::K(_))));
                learn.extend(set.iter().take(at).filter_map(|cr| match cr { Cr::K(k) => Some(*k), _ => None }));
                open = 1;
                let w = self.w.as_mut().unwrap();
                let mut late = None;
                res = attempt(|| {
                    let mut b = w.spawn();
                    for &(cr, id, cl, v, coin) in &plan {
                        b = add_to_builder(b, cr, id, cl, v, coin);
                    }
                    late = Some(b.build());
                });
                if res.is_ok() {
                    return vio(c(8) | c(13), "a builder accepted the same component twice");
                }
            }
            8 | 9 => {
                name = "using a component that expects data as a plain one";
                let l: Vec<u32> = self.live.iter().copied().filter(|&x| self.ents[x as usize].class.size() > 0 && !sig.contains(&x)).collect();
                if l.is_empty() {
                    return Ok(());
                }
                let cid = self.id(*r.pick(&l));
                let w = self.w.as_mut().unwrap();
                if variant == 8 {
                    res = attempt(|| w.add_component_dynamic(id, cid));
                } else {
                    let set = self.pick_set(r);
                    let vals = self.values(&set);
                    let plan: Vec<_> = set
                        .iter()
                        .zip(&vals)
                        .map(|(&cr, &v)| (cr, self.res(cr).map(|e| self.id(e)), self.class_of(cr), v, r.pct(50)))
                        .filter(|p| p.1 != Some(cid))
                        .collect();
                    learn.extend(plan.iter().filter_map(|p| match p.0 { Cr::K(k) => Some(k), _ => None }));
                    open = 1;
                    let w = self.w.as_mut().unwrap();
                    res = attempt(|| {
                        let mut b = w.spawn();
                        for &(cr, id, cl, v, coin) in &plan {
                            b = add_to_builder(b, cr, id, cl, v, coin);
                        }
                        let _ = b.with_dynamic(cid).build();
                    });
                }
                if res.is_ok() {
                    return vio(c(8) | c(9), "a component that expects data was accepted without data");
                }
            }
            10..=12 => {
                name = "using a dead entity as a component";
                let Some(x) = dead else { return Ok(()) };
                let cid = self.id(x);
                let w = self.w.as_mut().unwrap();
                if variant == 10 {
                    res = attempt(|| w.add_component_dynamic(id, cid));
                } else {
                    let set = self.pick_set(r);
                    let vals = self.values(&set);
                    let plan: Vec<_> = set
                        .iter()
                        .zip(&vals)
                        .map(|(&cr, &v)| (cr, self.res(cr).map(|e| self.id(e)), self.class_of(cr), v, r.pct(50)))
                        .collect();
                    learn.extend(set.iter().filter_map(|cr| match cr { Cr::K(k) => Some(*k), _ => None }));
                    open = 1;
                    // enough bytes for any layout the dead component may have had
                    let mut scratch = vec![0u64; 1024];
                    let w = self.w.as_mut().unwrap();
                    // a slot that has never been reissued and registers types takes the dead slot: register first
                    res = attempt(|| {
                        let mut b = w.spawn();
                        for &(cr, id, cl, v, coin) in &plan {
                            b = add_to_builder(b, cr, id, cl, v, coin);
                        }
                        let mut b = if variant == 11 { b.with_dynamic(cid) } else { unsafe { b.with_dynamic_with_data(scratch.as_mut_ptr() as *mut u8, cid) } };
                        b.build();
                    });
                    if res.is_ok() {
                        return vio(c(8) | c(1), "a builder accepted a dead entity as a component");
                    }
                }
                if res.is_ok() {
                    return vio(c(8) | c(1), "a dead entity was accepted as a component");
                }
            }
            _ => {
                name = "acting on a dead entity";
                let Some(x) = dead else { return Ok(()) };
                let did = self.id(x);
                let cr = self.pick_comp(r);
                let cid = self.res(cr).map(|x| self.id(x));
                let cl = self.class_of(cr);
                let v = self.fresh(cl);
                let w = self.w.as_mut().unwrap();
                match (variant, cr) {
                    (13, Cr::K(k)) | (14, Cr::K(k)) => {
                        owned.push((cl, v, true));
                        res = attempt(|| (KINDS[k as usize].add)(w, did, v));
                    }
                    (_, Cr::K(k)) => res = attempt(|| (KINDS[k as usize].remove)(w, did)),
                    (_, Cr::E(_)) => res = attempt(|| w.add_component_dynamic(did, cid.unwrap())),
                }
            }
        }
        if self.verbose {
            eprintln!("    {name}: {res:?}");
        }
        self.st.rejects += res.is_err() as u64;
        let t8 = |v: Vio| Vio { what: format!("after {name} ({res:?}): {}", v.what), ..v };
        for k in learn {
            self.learn(k, c(8)).map_err(&t8)?;
        }
        // the value handed to the refused call itself is dropped; an unsafe call may leak it
        for (cl, v, safe) in owned {
            if let Some(k) = cl.drops() {
                if safe {
                    let left = if cl.size() > 0 { ledger::is_live(v) } else { ledger::zst_live(k) > zst_before.iter().find(|b| b.0 == k).unwrap().1 };
                    if left && res.is_err() {
                        return vio(c(5) | c(8), format!("{name} ({res:?}): the refused value of {cl:?} was not dropped"));
                    }
                } else if cl.size() > 0 {
                    ledger::forgive(v);
                } else {
                    let before = zst_before.iter().find(|b| b.0 == k).unwrap().1;
                    if ledger::zst_live(k) == before + 1 {
                        ledger::forgive_zst(k, 1);
                    }
                }
            }
        }
        self.bound(open).map_err(&t8)?;
        self.drain(0)?;
        self.check_ledger().map_err(&t8)?;
        if self.live.len() <= 300 && !self.light {
            self.check_all(r).map_err(&t8)?;
        } else {
            self.check_entity(e, r).map_err(&t8)?;
        }
        self.query_ids(r).map_err(&t8)
    }

    /// a component value whose destructor can panic
    fn pick_bomb(&self, r: &mut Rng) -> Option<(u32, u32)> {
        if self.ablate & c(8) != 0 || cfg!(no_bombs) {
            return None;
        }
        let l: Vec<(u32, u32)> = self
            .live
            .iter()
            .flat_map(|&e| self.ents[e as usize].comps.keys().map(move |&x| (e, x)))
            .filter(|&(_, x)| self.ents[x as usize].class.drops().is_some())
            .collect();
        if l.is_empty() {
            None
        } else {
            Some(*r.pick(&l))
        }
    }
    fn arm(&self, e: u32, x: u32) {
        self.arm_value(self.ents[x as usize].class, self.ents[e as usize].comps[&x])
    }
    fn arm_value(&self, cl: Class, v: u64) {
        let k = cl.drops().unwrap();
        if cl.size() == 0 {
            ledger::with(|l| l.zst_bomb = Some(k));
        } else {
            ledger::with(|l| l.bombs.push(v));
        }
    }
    fn disarm(&self) {
        ledger::with(|l| {
            l.zst_bomb = None;
            l.bombs.clear();
        });
    }
    /// A destructor that panics inside a removal or a despawn.
    fn op_bomb(&mut self, r: &mut Rng) -> R<()> {
        let Some((e, x)) = self.pick_bomb(r) else { return Ok(()) };
        let despawn = self.ents[e as usize].class == Class::Tag && !self.ents[e as usize].used && r.pct(50);
        let (id, cid) = (self.id(e), self.id(x));
        self.done |= c(8);
        self.arm(e, x);
        let w = self.w.as_mut().unwrap();
        let res = attempt(|| {
            if despawn {
                w.despawn(id);
            } else {
                w.remove_component_dynamic(id, cid);
            }
        });
        self.disarm();
        if let Err(m) = &res {
            if m != "bomb" {
                return vio(c(8), format!("panicking destructor caused another panic: {m}"));
            }
        }
        self.st.bombs += res.is_err() as u64;
        let t8 = |v: Vio| Vio { what: format!("after a panicking destructor in {}: {}", if despawn { "despawn" } else { "remove" }, v.what), ..v };
        if despawn {
            self.kill(e);
            self.check_dead(e, r).map_err(t8)?;
        } else {
            self.ents[e as usize].comps.remove(&x);
            self.mark_used(e);
            self.check_entity(e, r).map_err(t8)?;
        }
        self.check_ledger().map_err(t8)?;
        if self.live.len() <= 300 && !self.light {
            self.check_all(r).map_err(t8)?;
        }
        self.query_ids(r).map_err(t8)?;
        self.drain(0)
    }

    fn op_write(&mut self, r: &mut Rng) -> R<()> {
        let Some(mut e) = self.pick_live(r) else { return Ok(()) };
        for _ in 0..6 {
            if !self.ents[e as usize].comps.is_empty() {
                break;
            }
            e = self.pick_live(r).unwrap();
        }
        let sig = self.sig(e);
        if sig.is_empty() {
            return Ok(());
        }
        let x = *r.pick(&sig);
        let cl = self.ents[x as usize].class;
        let (id, cid) = (self.id(e), self.id(x));
        let old = self.ents[e as usize].comps[&x];
        let typed = match cl {
            Class::Typed(k) if self.typed[k as usize] == Some(x) => Some(k),
            _ => None,
        };
        let v = self.fresh(cl);
        let w = self.w.as_mut().unwrap();
        let path = r.below(4);
        let got = match (path, typed) {
            (0 | 1, Some(k)) => call(c(4), "mutable typed lookup", || (KINDS[k as usize].get_mut)(w, id, Some(v)))?,
            (2, _) => {
                // through a dynamic query's pointer
                let mut got = None;
                call(c(4), "dynamic query", || {
                    dyn_iter(w, &[F::Id, F::Mut(cid)], ONCE, &mut |p, _| {
                        let i = unsafe { *(p[0] as *const EcsId) };
                        if key(i) == key(id) {
                            got = Some(unsafe { cl.read(p[1]) });
                            unsafe { cl.write(p[1], v) };
                        }
                        true
                    })
                })?
                .or_else(|m| vio(c(3), m))?;
                got
            }
            _ => {
                let p = call(c(4) | c(9), "get_component_mut_dynamic", || w.get_component_mut_dynamic(id, cid))?;
                p.map(|p| unsafe {
                    let o = cl.read(p);
                    cl.write(p, v);
                    o
                })
            }
        };
        if got != Some(old) {
            return vio(c(4) | c(2), format!("write path {path} to {:?} of {} saw {got:x?}, last written was {old:x}", cl, self.show(e)));
        }
        self.ents[e as usize].comps.insert(x, v);
        self.st.writes += 1;
        let t4 = |v: Vio| Vio { tags: v.tags | c(4), ..v };
        self.drain(c(4))?;
        self.check_entity(e, r).map_err(t4)?;
        if r.pct(50) && self.live.len() < 400 {
            self.dquery_of(&[None, Some((x, r.pct(30)))], r).map_err(t4)?;
        }
        if let Some(k) = typed {
            if r.pct(50) && self.live.len() < 400 {
                let q = (0..NK).find(|&q| matches!(QUERIES[q].parts, [Part::Ref(a) | Part::Mut(a)] if *a == k)).unwrap();
                self.tquery(q, r).map_err(t4)?;
            }
        }
        let _ = id;
        Ok(())
    }

    // ---------------------------------------------------------------- queries

    fn op_tquery(&mut self, r: &mut Rng) -> R<()> {
        let q = match self.p.focus {
            Some(f) if r.pct(50) => f,
            _ => {
                // prefer queries whose kinds all occur
                let mut q = r.below(QUERIES.len());
                for _ in 0..6 {
                    let ok = QUERIES[q].parts.iter().all(|p| match p {
                        Part::Id => true,
                        Part::Ref(k) | Part::Mut(k) => self.typed[*k as usize].is_some(),
                    });
                    if ok {
                        break;
                    }
                    q = r.below(QUERIES.len());
                }
                q
            }
        };
        self.tquery(q, r)
    }
    fn query_ids(&mut self, r: &mut Rng) -> R<()> {
        let q = QUERIES.iter().position(|q| q.parts == [Part::Id]).unwrap();
        self.tquery(q, r)
    }
    /// One typed query, iterated and compared with the model.
    fn tquery(&mut self, qi: usize, r: &mut Rng) -> R<()> {
        let q = &QUERIES[qi];
        let kinds: Vec<u16> = q.parts.iter().filter_map(|p| match p { Part::Ref(k) | Part::Mut(k) => Some(*k), _ => None }).collect();
        let comps: Vec<Option<u32>> = kinds.iter().map(|&k| self.typed[k as usize]).collect();
        let expect: Vec<u32> = if comps.iter().any(|x| x.is_none()) {
            vec![]
        } else {
            self.live.iter().copied().filter(|&e| comps.iter().all(|x| self.ents[e as usize].comps.contains_key(&x.unwrap()))).collect()
        };
        let has_id = q.parts.contains(&Part::Id);
        let addr = self.addr_map(&expect, &comps.iter().flatten().copied().collect::<Vec<_>>(), !has_id || r.pct(40))?;
        let plan = Plan {
            prefix: if r.pct(30) { r.below(expect.len() + 2) } else { 0 },
            internal: r.pct(30),
            passes: 1 + (r.pct(25) as u32),
            polls: r.below(4),
            collect: r.pct(25),
            proto: if r.pct(5) && expect.len() < 400 { r.next() | 1 } else { 0 },
        };
        self.st.protocols += (plan.proto != 0) as u64;
        let write_pct = if r.pct(50) { *r.pick(&[5, 30, 100]) } else { 0 };
        let limit = expect.len() * plan.passes as usize + 4;
        struct S<'a> {
            h: &'a mut Hist,
            r: &'a mut Rng,
            pending: Vec<(u16, u64)>,
            seen: Vec<Vec<u32>>,
            err: Option<Vio>,
            rows: usize,
            anon: usize,
        }
        let world = self.w.take().unwrap();
        let s = RefCell::new(S { h: self, r, pending: vec![], seen: vec![vec![]; plan.passes as usize], err: None, rows: 0, anon: 0 });
        let mut wr = |k: u16, _old: u64| -> Option<u64> {
            alloc::untrack(|| {
                let s = &mut *s.borrow_mut();
                if s.r.pct(write_pct) {
                    let v = s.h.fresh(Class::Typed(k));
                    s.pending.push((k, v));
                    Some(v)
                } else {
                    None
                }
            })
        };
        let mut row = |cells: &[Cell], pass: u32| -> bool {
            alloc::untrack(|| {
                let s = &mut *s.borrow_mut();
                s.rows += 1;
                let pend = std::mem::take(&mut s.pending);
                if s.rows > limit {
                    s.err = vio::<()>(c(3), format!("typed query {:?} yields more than {limit} items, expected {}", q.parts, expect.len())).err();
                    return false;
                }
                match s.h.row_of(q.parts, cells, &addr) {
                    Err(v) => {
                        s.err = Some(v);
                        return false;
                    }
                    Ok(None) => s.anon += 1,
                    Ok(Some(e)) => {
                        s.seen[pass as usize].push(e);
                        // the values of this row
                        for cell in cells {
                            if let Cell::Val(k, v, _) = *cell {
                                let x = s.h.typed[k as usize].unwrap_or(u32::MAX);
                                match s.h.ents[e as usize].comps.get(&x) {
                                    Some(&m) if m == v => {}
                                    m => {
                                        s.err = vio::<()>(
                                            c(3) | c(4),
                                            format!("typed query {:?}: item of {} carries {v:#x} for kind {k}, last written was {m:x?}", q.parts, s.h.show(e)),
                                        )
                                        .err();
                                        return false;
                                    }
                                }
                            }
                        }
                        for (k, v) in pend {
                            let x = s.h.typed[k as usize].unwrap();
                            s.h.ents[e as usize].comps.insert(x, v);
                            s.h.st.writes += 1;
                        }
                    }
                }
                true
            })
        };
        let res = call(c(3), &format!("typed query {:?}", q.parts), || (q.iter)(&world, plan, &mut row, &mut wr));
        let S { h, r, seen, err, anon, .. } = s.into_inner();
        h.w = Some(world);
        if let Some(v) = err {
            return Err(v);
        }
        res?.or_else(|m| vio(c(3), m))?;
        h.st.tqueries += 1;
        h.st.rows += seen.iter().map(|s| s.len() as u64).sum::<u64>() + anon as u64;
        h.st.nonempty += !expect.is_empty() as u64;
        h.st.arity |= 1 << q.parts.len();
        if anon > 0 || (kinds.iter().all(|&k| KINDS[k as usize].size == 0) && !has_id) {
            if anon != expect.len() * plan.passes as usize {
                return vio(c(3), format!("typed query {:?} yielded {anon} items in {} passes, {} entities match", q.parts, plan.passes, expect.len()));
            }
            return h.drain(0);
        }
        let want: BTreeSet<u32> = expect.iter().copied().collect();
        for (pass, l) in seen.iter().enumerate() {
            let set: BTreeSet<u32> = l.iter().copied().collect();
            if set.len() != l.len() {
                return vio(c(3), format!("typed query {:?} pass {pass} yielded an entity twice ({} items, {} different)", q.parts, l.len(), set.len()));
            }
            if set != want {
                let missing: Vec<String> = want.difference(&set).take(3).map(|&e| h.show(e)).collect();
                let extra: Vec<String> = set.difference(&want).take(3).map(|&e| h.show(e)).collect();
                return vio(c(3), format!("typed query {:?} pass {pass}: {} items, {} entities match; missing {missing:?}, extra {extra:?}", q.parts, l.len(), want.len()));
            }
            if *l != seen[0] {
                return vio(c(3) | c(16), "two iterations of one query differ in order");
            }
            for &e in l.iter() {
                let id = h.id(e);
                h.log_id(id)
            }
        }
        if want.len() < 600 && r.pct(20) {
            h.lookup(qi, r)?;
        }
        h.drain(0)
    }
    /// The address of every given component of every given entity.
    fn addr_map(&mut self, ents: &[u32], comps: &[u32], wanted: bool) -> R<Option<HashMap<usize, (u32, u32)>>> {
        if !wanted && ents.len() > 300 {
            return Ok(None);
        }
        let mut m = HashMap::new();
        for &x in comps {
            if self.ents[x as usize].class.size() == 0 {
                continue;
            }
            let cid = self.id(x);
            for &e in ents {
                let id = self.id(e);
                let w = self.w.as_mut().unwrap();
                match call(c(4) | c(9), "get_component_mut_dynamic", || w.get_component_mut_dynamic(id, cid))? {
                    None => return vio(c(4) | c(2), format!("get_component_mut_dynamic finds no {:?} on {}", self.ents[x as usize].class, self.show(e))),
                    Some(p) => match m.insert(p as usize, (e, x)) {
                        Some(o) if o != (e, x) => {
                            return vio(c(4) | c(2) | c(6), format!("one address for the components of {} and {}", self.show(o.0), self.show(e)))
                        }
                        _ => {}
                    },
                }
            }
        }
        Ok(Some(m))
    }
    /// which entity a row belongs to; all its cells have to agree
    fn row_of(&self, parts: &[Part], cells: &[Cell], addr: &Option<HashMap<usize, (u32, u32)>>) -> R<Option<u32>> {
        let mut e: Option<u32> = None;
        let mut put = |x: u32, how: &str| -> R<()> {
            match e {
                Some(o) if o != x => vio(c(3) | c(4), format!("query {parts:?}: one item mixes {} and {} ({how})", self.show(o), self.show(x))),
                _ => {
                    e = Some(x);
                    Ok(())
                }
            }
        };
        for cell in cells {
            match *cell {
                Cell::Id(id) => match self.by_key.get(&key(id)) {
                    Some(&x) if self.ents[x as usize].alive => put(x, "handles")?,
                    _ => return vio(c(3), format!("query {parts:?} yielded handle {id}, which is not alive")),
                },
                Cell::Val(k, _, a) => {
                    if let (Some(m), true) = (addr, KINDS[k as usize].size > 0) {
                        match m.get(&a) {
                            Some(&(x, cm)) if Some(cm) == self.typed[k as usize] => put(x, "references")?,
                            _ => return vio(c(3) | c(4), format!("query {parts:?} yielded a reference for kind {k} that is no matching entity's component")),
                        }
                    }
                }
            }
        }
        Ok(e)
    }
    fn op_get(&mut self, r: &mut Rng) -> R<()> {
        let q = match self.p.focus {
            Some(f) if r.pct(50) => f,
            _ => r.below(QUERIES.len()),
        };
        self.lookup(q, r)
    }
    /// Typed lookup of entities, live and dead.
    fn lookup(&mut self, qi: usize, r: &mut Rng) -> R<()> {
        let q = &QUERIES[qi];
        if self.ents.is_empty() {
            return Ok(());
        }
        let n = if self.light { 3 } else { 8 };
        let mut l: Vec<u32> = (0..n).map(|_| r.below(self.ents.len()) as u32).collect();
        for _ in 0..n {
            if let Some(e) = self.pick_live(r) {
                l.push(e)
            }
        }
        // entities that match, if any
        let comps: Option<Vec<u32>> = q.parts.iter().filter_map(|p| match p { Part::Ref(k) | Part::Mut(k) => Some(self.typed[*k as usize]), _ => None }).collect();
        if let Some(cs) = &comps {
            let m: Vec<u32> = self.live.iter().copied().filter(|&e| cs.iter().all(|x| self.ents[e as usize].comps.contains_key(x))).collect();
            if !m.is_empty() {
                for _ in 0..n {
                    l.push(*r.pick(&m))
                }
            }
        }
        let ids: Vec<EcsId> = l.iter().map(|&e| self.id(e)).collect();
        let write_pct = if r.pct(30) { 50 } else { 0 };
        struct S<'a> {
            h: &'a mut Hist,
            r: &'a mut Rng,
            pending: Vec<(u16, u64)>,
            err: Option<Vio>,
            found: u64,
        }
        let world = self.w.take().unwrap();
        let s = RefCell::new(S { h: self, r, pending: vec![], err: None, found: 0 });
        let mut wr = |k: u16, _| {
            alloc::untrack(|| {
                let s = &mut *s.borrow_mut();
                if s.err.is_none() && s.r.pct(write_pct) {
                    let v = s.h.fresh(Class::Typed(k));
                    s.pending.push((k, v));
                    Some(v)
                } else {
                    None
                }
            })
        };
        let mut f = |i: usize, row: Option<&[Cell]>| {
            alloc::untrack(|| {
                let s = &mut *s.borrow_mut();
                if s.err.is_some() {
                    return;
                }
                let e = l[i];
                let pend = std::mem::take(&mut s.pending);
                let en = &s.h.ents[e as usize];
                let want = en.alive && comps.as_ref().map_or(false, |cs| cs.iter().all(|x| en.comps.contains_key(x)));
                match row {
                    None if !want => {}
                    None => s.err = vio::<()>(c(3) | c(4), format!("typed lookup {:?} of {} finds nothing", q.parts, s.h.show(e))).err(),
                    Some(_) if !want => {
                        let t = if en.alive { c(3) } else { c(1) | c(3) };
                        s.err = vio::<()>(t, format!("typed lookup {:?} of {} (alive: {}) finds something", q.parts, s.h.show(e), en.alive)).err()
                    }
                    Some(cells) => {
                        s.found += 1;
                        for cell in cells {
                            match *cell {
                                Cell::Id(id) if key(id) != key(en.id) => {
                                    s.err = vio::<()>(c(3), format!("typed lookup {:?} of {} yields the handle {id}", q.parts, s.h.show(e))).err();
                                    return;
                                }
                                Cell::Val(k, v, _) => {
                                    let m = en.comps[&s.h.typed[k as usize].unwrap()];
                                    if m != v {
                                        s.err = vio::<()>(c(3) | c(4), format!("typed lookup {:?} of {} reads {v:#x} for kind {k}, last written was {m:#x}", q.parts, s.h.show(e))).err();
                                        return;
                                    }
                                }
                                _ => {}
                            }
                        }
                        for (k, v) in pend {
                            let x = s.h.typed[k as usize].unwrap();
                            s.h.ents[e as usize].comps.insert(x, v);
                            s.h.st.writes += 1;
                        }
                    }
                }
            })
        };
        let res = call(c(3), &format!("typed lookup {:?}", q.parts), || (q.get)(&world, &ids, &mut f, &mut wr));
        let S { h, err, found, .. } = s.into_inner();
        h.w = Some(world);
        if let Some(v) = err {
            return Err(v);
        }
        res?;
        h.st.lookups += ids.len() as u64;
        h.st.found += found;
        h.drain(0)
    }

    /// random fetch list: None is the handle, Some((component, mutable))
    fn pick_fetches(&self, r: &mut Rng) -> Vec<Option<(u32, bool)>> {
        let n = if r.pct(80) { r.range(1, 8) } else { r.range(1, MAX_DYN) };
        let mut fs: Vec<Option<(u32, bool)>> = vec![];
        if let Some(e) = self.pick_live(r) {
            let mut sig = self.sig(e);
            r.shuffle(&mut sig);
            for &x in sig.iter().take(n) {
                fs.push(Some((x, r.pct(40))));
            }
        }
        let fill = *r.pick(&[60, 60, 92]);
        while fs.len() < n && r.pct(fill) {
            fs.push(None)
        }
        // sometimes something else: unused, dead or repeated components
        if fs.len() < MAX_DYN && r.pct(15) && !self.live.is_empty() {
            let x = *r.pick(&self.live);
            if !fs.iter().flatten().any(|f| f.0 == x) {
                fs.push(Some((x, r.pct(40))));
            }
        }
        if fs.len() < MAX_DYN && r.pct(4) {
            if let Some(x) = self.pick_dead(r) {
                if !fs.iter().flatten().any(|f| f.0 == x) {
                    fs.push(Some((x, r.pct(40))));
                }
            }
        }
        if fs.len() < MAX_DYN && r.pct(15) {
            if let Some(&f) = fs.iter().find(|f| matches!(f, Some((_, false)))) {
                fs.push(f)
            }
        }
        if fs.is_empty() {
            fs.push(None)
        }
        r.shuffle(&mut fs);
        fs.truncate(MAX_DYN);
        fs
    }
    fn op_dquery(&mut self, r: &mut Rng) -> R<()> {
        let fs = self.pick_fetches(r);
        self.dquery_of(&fs, r)
    }
    /// a query that names a dead component finds nothing
    fn dquery_dead(&mut self, e: u32, r: &mut Rng) -> R<()> {
        self.dquery_of(&[None, Some((e, r.pct(50)))], r)?;
        self.dquery_of(&[Some((e, r.pct(50)))], r)?;
        self.cols_of(&[None, Some((e, false))])
    }
    fn to_fetch(&self, fs: &[Option<(u32, bool)>]) -> Vec<F> {
        fs.iter()
            .map(|f| match f {
                None => F::Id,
                Some((x, false)) => F::Ref(self.id(*x)),
                Some((x, true)) => F::Mut(self.id(*x)),
            })
            .collect()
    }
    fn matching(&self, fs: &[Option<(u32, bool)>]) -> Vec<u32> {
        self.live.iter().copied().filter(|&e| fs.iter().flatten().all(|(x, _)| self.ents[e as usize].comps.contains_key(x))).collect()
    }
    fn dquery_of(&mut self, fs: &[Option<(u32, bool)>], r: &mut Rng) -> R<()> {
        let fetches = self.to_fetch(fs);
        let expect = self.matching(fs);
        let ctx = if fs.iter().flatten().any(|f| !matches!(self.ents[f.0 as usize].class, Class::Typed(_))) { c(9) } else { 0 };
        let comps: Vec<u32> = fs.iter().flatten().map(|f| f.0).collect();
        let live_comps: Vec<u32> = comps.iter().copied().filter(|&x| self.ents[x as usize].alive).collect();
        let has_id = fs.contains(&None);
        let addr = self.addr_map(&expect, &live_comps, !has_id || r.pct(40))?;
        let plan = Plan {
            prefix: if r.pct(30) { r.below(expect.len() + 2) } else { 0 },
            internal: r.pct(30),
            passes: 1 + (r.pct(25) as u32),
            polls: r.below(4),
            collect: r.pct(25),
            proto: if r.pct(5) && expect.len() < 400 { r.next() | 1 } else { 0 },
        };
        self.st.protocols += (plan.proto != 0) as u64;
        let write_pct = if r.pct(50) { *r.pick(&[5, 30, 100]) } else { 0 };
        let limit = expect.len() * plan.passes as usize + 4;
        let world = self.w.take().unwrap();
        let (mut seen, mut err, mut rows, mut anon) = (vec![vec![]; plan.passes as usize], None, 0usize, 0usize);
        let h = &mut *self;
        let res = call(c(3) | ctx, &format!("dynamic query {fetches:?}"), || {
            dyn_iter(&world, &fetches, plan, &mut |p, pass| {
                alloc::untrack(|| {
                    rows += 1;
                    if rows > limit {
                        err = vio::<()>(c(3), format!("dynamic query {fetches:?} yields more than {limit} items, expected {}", expect.len())).err();
                        return false;
                    }
                    match h.dyn_row(fs, p, &addr, write_pct, r, ctx) {
                        Err(v) => {
                            err = Some(v);
                            false
                        }
                        Ok(Some(e)) => {
                            seen[pass as usize].push(e);
                            true
                        }
                        Ok(None) => {
                            anon += 1;
                            true
                        }
                    }
                })
            })
        });
        h.w = Some(world);
        if let Some(v) = err {
            return Err(v);
        }
        res?.or_else(|m| vio(c(3), m))?;
        self.st.dqueries += 1;
        self.st.rows += rows as u64;
        self.st.nonempty += !expect.is_empty() as u64;
        self.st.darity |= 1 << fs.len();
        let zst_only = !has_id && comps.iter().all(|&x| self.ents[x as usize].class.size() == 0);
        if zst_only {
            if anon != expect.len() * plan.passes as usize {
                return vio(c(3) | ctx, format!("dynamic query {fetches:?} yielded {anon} items in {} passes, {} entities match", plan.passes, expect.len()));
            }
            return self.drain(ctx);
        }
        let want: BTreeSet<u32> = expect.iter().copied().collect();
        for l in &seen {
            let set: BTreeSet<u32> = l.iter().copied().collect();
            if set.len() != l.len() || set != want {
                let missing: Vec<String> = want.difference(&set).take(3).map(|&e| self.show(e)).collect();
                let extra: Vec<String> = set.difference(&want).take(3).map(|&e| self.show(e)).collect();
                return vio(c(3) | ctx, format!("dynamic query {fetches:?}: {} items ({} different), {} entities match; missing {missing:?}, extra {extra:?}", l.len(), set.len(), want.len()));
            }
            for &e in l {
                let id = self.id(e);
                self.log_id(id)
            }
            if *l != seen[0] {
                return vio(c(3) | c(16), "two iterations of one dynamic query differ in order");
            }
        }
        self.drain(ctx)
    }
    /// Checks (and maybe overwrites) the components of one dynamic row.
    fn dyn_row(
        &mut self,
        fs: &[Option<(u32, bool)>],
        p: &[*mut u8],
        addr: &Option<HashMap<usize, (u32, u32)>>,
        write_pct: usize,
        r: &mut Rng,
        ctx: u32,
    ) -> R<Option<u32>> {
        let mut e: Option<u32> = None;
        for (f, &ptr) in fs.iter().zip(p) {
            let x = match f {
                None => {
                    if ptr.is_null() || ptr as usize % std::mem::align_of::<EcsId>() != 0 {
                        return vio(c(3) | c(6), "dynamic query yields an unaligned handle pointer");
                    }
                    let id = unsafe { *(ptr as *const EcsId) };
                    match self.by_key.get(&key(id)) {
                        Some(&x) if self.ents[x as usize].alive => x,
                        _ => return vio(c(3), format!("dynamic query yielded handle {id}, which is not alive")),
                    }
                }
                Some((x, _)) => {
                    let cl = self.ents[*x as usize].class;
                    if ptr.is_null() || ptr as usize % cl.align() != 0 {
                        return vio(c(6) | c(9), format!("dynamic query yields pointer {ptr:p} for {cl:?}, which needs alignment {}", cl.align()));
                    }
                    if cl.size() == 0 {
                        continue;
                    }
                    match addr {
                        None => continue,
                        Some(m) => match m.get(&(ptr as usize)) {
                            Some(&(e2, cm)) if cm == *x => e2,
                            _ => return vio(c(3) | c(4) | ctx, format!("dynamic query yielded a pointer for {cl:?} that is no matching entity's component")),
                        },
                    }
                }
            };
            match e {
                Some(o) if o != x => return vio(c(3) | ctx, format!("dynamic query: one item mixes {} and {}", self.show(o), self.show(x))),
                _ => e = Some(x),
            }
        }
        let Some(e) = e else { return Ok(None) };
        for (f, &ptr) in fs.iter().zip(p) {
            if let Some((x, m)) = f {
                let cl = self.ents[*x as usize].class;
                let Some(&want) = self.ents[e as usize].comps.get(x) else {
                    return vio(c(3) | ctx, format!("dynamic query for {cl:?} yielded {}, which does not have it", self.show(e)));
                };
                let got = unsafe { cl.read(ptr) };
                if got != want {
                    return vio(c(3) | c(4) | ctx, format!("dynamic query: {cl:?} of {} reads {got:#x}, last written was {want:#x}", self.show(e)));
                }
                if *m && cl.size() > 0 && r.pct(write_pct) {
                    let v = self.fresh(cl);
                    unsafe { cl.write(ptr, v) };
                    self.ents[e as usize].comps.insert(*x, v);
                    self.st.writes += 1;
                }
            }
        }
        Ok(Some(e))
    }
    fn op_cols(&mut self, r: &mut Rng) -> R<()> {
        let fs = self.pick_fetches(r);
        self.cols_of(&fs)
    }
    /// Column iteration: one group per combination, as many rows as it has entities.
    fn cols_of(&mut self, fs: &[Option<(u32, bool)>]) -> R<()> {
        let fetches = self.to_fetch(fs);
        let mut want: BTreeMap<Vec<u32>, usize> = BTreeMap::new();
        let expect = self.matching(fs);
        for &e in &expect {
            *want.entry(self.sig(e)).or_default() += 1;
        }
        let live_comps: Vec<u32> = fs.iter().flatten().map(|f| f.0).filter(|&x| self.ents[x as usize].alive).collect();
        let has_id = fs.contains(&None);
        let addr = self.addr_map(&expect, &live_comps, !has_id)?;
        let ctx = if fs.iter().flatten().any(|f| !matches!(self.ents[f.0 as usize].class, Class::Typed(_))) { c(9) } else { 0 };
        let world = self.w.take().unwrap();
        let (mut seen, mut groups, mut err) = (vec![], vec![], None);
        let (mut anon, mut ngroups) = (0usize, 0usize);
        let h = &mut *self;
        let mut r = Rng::new(h.counter ^ 77);
        let limit = expect.len() + 4;
        let res = call(c(3) | ctx, &format!("column query {fetches:?}"), || {
            dyn_cols(&world, &fetches, &mut |g| {
                alloc::untrack(|| {
                    ngroups += 1;
                    let n = g[0].1;
                    if g.iter().any(|c| c.1 != n) {
                        err = vio::<()>(c(3) | c(14), "columns of one group have different lengths").err();
                        return false;
                    }
                    if seen.len() + anon + n > limit || ngroups > 2_000_000 {
                        err = vio::<()>(c(3) | c(14), format!("column query {fetches:?} yields more rows than the {} that match", expect.len())).err();
                        return false;
                    }
                    let mut sig: Option<Vec<u32>> = None;
                    for i in 0..n {
                        let p: Vec<*mut u8> = fs
                            .iter()
                            .zip(g)
                            .map(|(f, c)| {
                                let sz = match f {
                                    None => std::mem::size_of::<EcsId>(),
                                    Some((x, _)) => h.ents[*x as usize].class.size(),
                                };
                                c.0.wrapping_add(i * sz)
                            })
                            .collect();
                        match h.dyn_row(fs, &p, &addr, if i % 7 == 3 { 50 } else { 0 }, &mut r, ctx) {
                            Err(v) => {
                                err = Some(v);
                                return false;
                            }
                            Ok(None) => anon += 1,
                            Ok(Some(e)) => {
                                seen.push(e);
                                let s = h.sig(e);
                                match &sig {
                                    Some(o) if *o != s => {
                                        err = vio::<()>(c(14) | c(3), format!("one column group holds entities of different component sets, e.g. {}", h.show(e))).err();
                                        return false;
                                    }
                                    _ => sig = Some(s),
                                }
                            }
                        }
                    }
                    if let Some(s) = sig {
                        groups.push((s, n));
                    }
                    true
                })
            })
        });
        h.w = Some(world);
        if let Some(v) = err {
            return Err(v);
        }
        let readable = res?.or_else(|m| vio(c(3), m))?;
        if !readable {
            self.st.unreadable += 1;
            return Ok(());
        }
        self.st.cqueries += 1;
        self.st.rows += (seen.len() + anon) as u64;
        self.st.groups += groups.len() as u64;
        if anon > 0 || (!has_id && live_comps.iter().all(|&x| self.ents[x as usize].class.size() == 0)) {
            if anon != expect.len() {
                return vio(c(3) | ctx, format!("column query {fetches:?} yielded {anon} rows, {} entities match", expect.len()));
            }
            return Ok(());
        }
        let set: BTreeSet<u32> = seen.iter().copied().collect();
        if set.len() != seen.len() || set != expect.iter().copied().collect() {
            return vio(c(3) | ctx, format!("column query {fetches:?}: {} rows ({} different), {} entities match", seen.len(), set.len(), expect.len()));
        }
        for (s, n) in groups {
            match want.remove(&s) {
                Some(m) if m == n => {}
                m => return vio(c(14), format!("column query {fetches:?}: a group of {n} rows for a combination that has {m:?} entities (or was already yielded)")),
            }
        }
        self.drain(ctx)
    }

    // ---------------------------------------------------------------- observers

    fn check_meta(&self, e: u32) -> R<()> {
        let x = &self.ents[e as usize];
        let Some(m) = call(c(1), "get_entity_meta", || self.wr().get_entity_meta(x.id).cloned())? else {
            return vio(c(1) | c(14), format!("live entity {} has no record", self.show(e)));
        };
        let l = m.component_meta.layout;
        let ok = match x.class {
            Class::Tag => l.size() == 0 && m.component_meta.drop_fn.is_none(),
            Class::Typed(k) => l.size() == KINDS[k as usize].size && l.align() == KINDS[k as usize].align,
            Class::Dyn(d) => l.size() == DYN[d as usize].size && l.align() == DYN[d as usize].align && m.component_meta.drop_fn.is_some() == DYN[d as usize].drop.is_some(),
        };
        if !ok {
            return vio(c(9) | c(10), format!("{} describes components of size {} align {} (destructor: {}), should be {:?}", x.id, l.size(), l.align(), m.component_meta.drop_fn.is_some(), x.class));
        }
        Ok(())
    }
    /// everything an observer can see of one live entity
    pub fn check_entity(&mut self, e: u32, r: &mut Rng) -> R<()> {
        let id = self.id(e);
        self.st.checks += 1;
        if !call(c(1), "is_alive", || self.wr().is_alive(id))? {
            return vio(c(1) | c(2), format!("live entity {} reports dead", self.show(e)));
        }
        self.check_meta(e)?;
        let comps: Vec<(u32, u64)> = self.ents[e as usize].comps.iter().map(|(&x, &v)| (x, v)).collect();
        for (x, v) in &comps {
            let cl = self.ents[*x as usize].class;
            let ctx = if matches!(cl, Class::Typed(_)) { 0 } else { c(9) };
            let cid = self.id(*x);
            let w = self.w.as_mut().unwrap();
            match call(c(2) | c(4) | ctx, "get_component_mut_dynamic", || w.get_component_mut_dynamic(id, cid))? {
                None => return vio(c(2) | ctx, format!("{} lost its component {cl:?}", self.show(e))),
                Some(p) => {
                    if p.is_null() || p as usize % cl.align() != 0 {
                        return vio(c(6) | c(9), format!("pointer {p:p} to {cl:?} of {} is not aligned to {}", self.show(e), cl.align()));
                    }
                    let g = unsafe { cl.read(p) };
                    self.drain(ctx)?;
                    if g != *v {
                        return vio(c(2) | c(4) | ctx, format!("{cl:?} of {} reads {g:#x} through its pointer, last written was {v:#x}", self.show(e)));
                    }
                }
            }
            if let Class::Typed(k) = cl {
                if self.typed[k as usize] == Some(*x) {
                    let kd = &KINDS[k as usize];
                    if !call(c(2), "has_component", || (kd.has)(self.wr(), id))? {
                        return vio(c(2), format!("has_component denies kind {k} of {}", self.show(e)));
                    }
                    let g = call(c(2) | c(3), "typed lookup", || (kd.get)(self.wr(), id))?;
                    if g != Some(*v) {
                        return vio(if g.is_none() { c(2) | c(3) } else { c(2) | c(3) | c(4) }, format!("typed lookup of kind {k} of {} reads {g:x?}, last written was {v:#x}", self.show(e)));
                    }
                }
            }
            self.st.cells += 1;
        }
        // and nothing else
        let kinds: Vec<u16> = if self.live.len() > 60 || self.light { (0..1).map(|_| r.below(NK) as u16).collect() } else { (0..NK as u16).collect() };
        for k in kinds {
            let has = self.typed[k as usize].map_or(false, |x| self.ents[e as usize].comps.contains_key(&x));
            if has {
                continue;
            }
            let kd = &KINDS[k as usize];
            if call(c(2), "has_component", || (kd.has)(self.wr(), id))? {
                return vio(c(2), format!("has_component claims kind {k} of {}", self.show(e)));
            }
            if let Some(g) = call(c(2) | c(3), "typed lookup", || (kd.get)(self.wr(), id))? {
                return vio(c(2) | c(3), format!("typed lookup finds kind {k} ({g:#x}) on {}", self.show(e)));
            }
        }
        for _ in 0..if self.light { 1 } else { 3 } {
            let x = *r.pick(&self.live);
            if !self.ents[e as usize].comps.contains_key(&x) {
                let cid = self.id(x);
                let w = self.w.as_mut().unwrap();
                if call(c(2) | c(9), "get_component_mut_dynamic for an absent component", || w.get_component_mut_dynamic(id, cid))?.is_some() {
                    return vio(c(2) | c(9), format!("{} has a component {:?} it was never given", self.show(e), self.ents[x as usize].class));
                }
            }
        }
        Ok(())
    }
    /// a dead handle: finds nothing
    fn check_dead(&mut self, e: u32, r: &mut Rng) -> R<()> {
        let id = self.id(e);
        let w = self.wr();
        if call(c(1), "is_alive on a dead handle", || w.is_alive(id))? {
            return vio(c(1), format!("dead handle {id} reports alive"));
        }
        if call(c(1), "get_entity_meta of a dead handle", || w.get_entity_meta(id).is_some())? {
            return vio(c(1), format!("dead handle {id} has a record"));
        }
        for _ in 0..4 {
            let k = r.below(NK);
            let kd = &KINDS[k];
            if call(c(1), "has_component on a dead handle", || (kd.has)(w, id))? || call(c(1) | c(3), "typed lookup of a dead handle", || (kd.get)(w, id))?.is_some() {
                return vio(c(1), format!("dead handle {id} has component kind {k}"));
            }
        }
        let l: Vec<u32> = (0..4).filter_map(|_| if self.live.is_empty() { None } else { Some(*r.pick(&self.live)) }).collect();
        for x in l {
            let (xid, w) = (self.id(x), self.w.as_mut().unwrap());
            if call(c(1), "get_component_mut_dynamic on a dead handle", || w.get_component_mut_dynamic(id, xid))?.is_some() {
                return vio(c(1), format!("dead handle {id} has a component"));
            }
            if call(c(1) | c(10), "get_component_mut_dynamic for a dead component", || w.get_component_mut_dynamic(xid, id))?.is_some() {
                return vio(c(1) | c(10), format!("dead handle {id} names a component of {}", self.show(x)));
            }
        }
        self.st.dead_checks += 1;
        Ok(())
    }
    /// a handle of another world
    pub fn foreign(&mut self, id: EcsId) -> R<()> {
        // the receiving world can only answer for indices it has issued
        if !self.slot_last.contains_key(&id.uindex()) {
            return Ok(());
        }
        let known = self.by_key.get(&key(id)).copied().filter(|&e| self.ents[e as usize].alive);
        let alive = call(c(16), "is_alive on another world's handle", || self.wr().is_alive(id))?;
        if alive != known.is_some() {
            return vio(c(16) | c(1), format!("another world's handle {id}: alive {alive}, should be {}", known.is_some()));
        }
        for k in 0..NK {
            let want = known.and_then(|e| self.typed[k].and_then(|x| self.ents[e as usize].comps.get(&x).copied()));
            let got = call(c(16), "typed lookup of another world's handle", || (KINDS[k].get)(self.wr(), id))?;
            let has = call(c(16), "has_component of another world's handle", || (KINDS[k].has)(self.wr(), id))?;
            if got != want || has != want.is_some() {
                return vio(c(16), format!("another world's handle {id}: kind {k} reads {got:x?} (has: {has}), should be {want:x?}"));
            }
        }
        // as a component in a dynamic query
        let want = known.map_or(0, |x| self.live.iter().filter(|&&e| self.ents[e as usize].comps.contains_key(&x)).count());
        let mut n = 0;
        call(c(16), "dynamic query with another world's handle", || {
            dyn_iter(self.wr(), &[F::Id, F::Ref(id)], ONCE, &mut |_, _| {
                n += 1;
                n < 100_000
            })
        })?
        .or_else(|m| vio(c(16), m))?;
        if n != want {
            return vio(c(16), format!("dynamic query for another world's handle {id} yields {n} rows, should be {want}"));
        }
        self.st.foreign += 1;
        Ok(())
    }
    fn check_ledger(&mut self) -> R<()> {
        if !self.solo {
            return Ok(());
        }
        let mut want: HashMap<u16, i64> = HashMap::new();
        let mut n = 0;
        for &e in &self.live {
            for (&x, &v) in &self.ents[e as usize].comps {
                let cl = self.ents[x as usize].class;
                if let Some(k) = cl.drops() {
                    if cl.size() > 0 {
                        n += 1;
                        if !ledger::is_live(v) {
                            return vio(c(5), format!("{cl:?} value {v:#x} of {} has been dropped", self.show(e)));
                        }
                    } else {
                        *want.entry(k).or_default() += 1;
                    }
                }
            }
        }
        if ledger::live_count() != n {
            return vio(c(5), format!("{} values have not been dropped, but the world owns only {n}", ledger::live_count()));
        }
        for k in zst_keys() {
            let w = want.get(&k).copied().unwrap_or(0);
            let l = ledger::zst_live(k);
            if w != l {
                return vio(c(5), format!("{l} zero-sized values of kind {k} have not been dropped, the world owns {w}"));
            }
        }
        self.st.ledger_checks += 1;
        Ok(())
    }
    /// C14: sets, archetypes and rows
    fn check_archs(&mut self) -> R<()> {
        let mut rows: HashMap<usize, Vec<(usize, u32)>> = HashMap::new();
        for i in 0..self.live.len() {
            let e = self.live[i];
            let (a, row) = self.arch_of(e)?;
            rows.entry(a).or_default().push((row, e));
            let sig = self.sig(e);
            match self.archs.get(&a) {
                Some(s) if *s != sig => {
                    return vio(c(14), format!("archetype {a} of {} was used for another component set", self.show(e)));
                }
                Some(_) => {}
                None => {
                    self.archs.insert(a, sig.clone());
                }
            }
            match self.sig_arch.get(&sig) {
                Some(&o) if o != a => return vio(c(14), format!("{} is in archetype {a}, entities with the same component set are in {o}", self.show(e))),
                Some(_) => {}
                None => {
                    self.sig_arch.insert(sig, a);
                }
            }
        }
        for (a, mut l) in rows {
            l.sort();
            for (i, (row, e)) in l.iter().enumerate() {
                if *row != i {
                    return vio(c(14), format!("rows of archetype {a} are not 0..{}: {} has row {row}", l.len(), self.show(*e)));
                }
            }
        }
        self.st.archs = self.st.archs.max(self.archs.len());
        self.st.arch_checks += 1;
        Ok(())
    }
    pub fn check_all(&mut self, r: &mut Rng) -> R<()> {
        let l = self.live.clone();
        for e in l {
            self.check_entity(e, r)?;
        }
        for _ in 0..4 {
            if let Some(e) = self.pick_dead(r) {
                self.check_dead(e, r)?;
            }
        }
        self.check_archs()?;
        self.check_ledger()?;
        let live = self.live.len();
        self.st.max_live = self.st.max_live.max(live);
        self.drain(0)
    }
    /// A second opinion, after a violation of another property: does the world, as it stands, contradict
    /// itself in a way that breaks `prop` too? Compares answers of the library with each other only, as
    /// the model may have parted from the world.
    pub fn opinion(&mut self, prop: u32, first: &Vio) -> Option<Vio> {
        let _ = ledger::take_error();
        self.disarm();
        match catch_unwind(AssertUnwindSafe(|| self.contradiction(prop, first))) {
            Ok(Err(v)) if v.tags & c(prop) != 0 => Some(Vio { tags: v.tags | first.tags, sus: first.sus, what: format!("{}; then: {}", first.what, v.what), step: first.step }),
            _ => None,
        }
    }
    fn contradiction(&mut self, prop: u32, first: &Vio) -> R<()> {
        if self.w.is_none() {
            return Ok(());
        }
        match prop {
            1 | 2 | 3 | 4 | 14 => {
                let mut alive = vec![];
                let mut slots: HashMap<usize, u32> = HashMap::new();
                for e in 0..self.ents.len() as u32 {
                    let (id, w) = (self.id(e), self.wr());
                    let a = call(c(1), "is_alive", || w.is_alive(id))?;
                    if a != call(c(1), "get_entity_meta", || w.get_entity_meta(id).is_some())? {
                        return vio(c(1), format!("is_alive of {id} is {a}, get_entity_meta does not agree"));
                    }
                    if a {
                        if let Some(o) = slots.insert(id.uindex(), e) {
                            if self.id(o) != id {
                                return vio(c(1), format!("the handles {} and {id} of one slot are both alive", self.id(o)));
                            }
                        }
                        alive.push(e);
                    }
                }
                if prop == 1 {
                    return Ok(());
                }
                if prop == 14 {
                    let mut rows: HashMap<(usize, usize), u32> = HashMap::new();
                    for &e in &alive {
                        let at = self.arch_of(e)?;
                        if let Some(o) = rows.insert(at, e) {
                            return vio(c(14), format!("the live entities {} and {} are both in row {} of archetype {}", self.id(o), self.id(e), at.1, at.0));
                        }
                    }
                    return Ok(());
                }
                for (x, xid, cl) in self.in_use() {
                    if !self.wr().is_alive(xid) {
                        continue;
                    }
                    let typed = match cl {
                        Class::Typed(k) if self.typed[k as usize] == Some(x) => Some(&KINDS[k as usize]),
                        _ => None,
                    };
                    let mut found: BTreeMap<Key, *mut u8> = BTreeMap::new();
                    for &e in &alive {
                        let id = self.id(e);
                        let w = self.w.as_mut().unwrap();
                        let p = call(c(2) | c(4), "get_component_mut_dynamic", || w.get_component_mut_dynamic(id, xid))?;
                        if let Some(kd) = typed {
                            let (h, g) = (call(c(2), "has_component", || (kd.has)(self.wr(), id))?, call(c(2) | c(3), "typed lookup", || (kd.get)(self.wr(), id))?);
                            let _ = ledger::take_error();
                            if h != p.is_some() || g.is_some() != p.is_some() {
                                return vio(c(2) | c(3), format!("{id}: has_component {h}, found by a lookup {}, by get_component_mut_dynamic {}", g.is_some(), p.is_some()));
                            }
                        }
                        if let Some(p) = p {
                            found.insert(key(id), p);
                        }
                    }
                    let mut seen: BTreeMap<Key, *mut u8> = BTreeMap::new();
                    let mut bad = None;
                    let res = attempt(|| {
                        dyn_iter(self.wr(), &[F::Id, F::Ref(xid)], ONCE, &mut |p, _| {
                            let id = unsafe { *(p[0] as *const EcsId) };
                            if seen.insert(key(id), p[1]).is_some() && bad.is_none() {
                                bad = Some(format!("{id} is yielded twice by one query"));
                            }
                            seen.len() <= self.ents.len()
                        })
                    });
                    if let Err(m) = res {
                        return vio(c(3), format!("a dynamic query for {cl:?} panicked: {m}"));
                    }
                    if let Some(b) = bad {
                        return vio(c(3), b);
                    }
                    for &e in &alive {
                        let id = self.id(e);
                        match (found.get(&key(id)), seen.get(&key(id))) {
                            (Some(p), Some(q)) if p != q && cl.size() > 0 => {
                                return vio(c(4), format!("{cl:?} of {id} is at {p:p} according to get_component_mut_dynamic and at {q:p} according to a query"));
                            }
                            (Some(_), None) => return vio(c(3), format!("a query for {cl:?} does not yield {id}, which has it")),
                            (None, Some(_)) => return vio(c(3), format!("a query for {cl:?} yields {id}, which does not have it")),
                            _ => {}
                        }
                    }
                    if let Some(k) = seen.keys().find(|k| !slots.get(&k.0).map_or(false, |&e| key(self.id(e)) == **k)) {
                        return vio(c(3), format!("a query for {cl:?} yields {k:?}, which is not alive"));
                    }
                    if cl.size() > 0 {
                        let all: BTreeSet<usize> = found.values().map(|p| *p as usize).collect();
                        if all.len() != found.len() {
                            return vio(c(4), format!("two live entities share one {cl:?}"));
                        }
                    }
                }
                Ok(())
            }
            // what the destructors and the allocator see of the end of the world
            5 | 6 | 15 if self.solo && !first.what.contains("panicked") => {
                let w = self.w.take();
                call(c(5), "dropping the world", || drop(w))?;
                self.drain(0)?;
                let st = alloc::stats();
                if alloc::ACTIVE && (st.live_bytes != 0 || st.live_blocks != 0) {
                    return vio(c(15), format!("{} bytes in {} blocks were not returned when the world was dropped", st.live_bytes, st.live_blocks));
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    /// the end of the world
    pub fn finish(&mut self) -> R<()> {
        self.last_op = "finish";
        let mut r = Rng::new(self.seed ^ 0xf1f1);
        let s = self.step;
        self.check_all(&mut r).map_err(|v| self.blame(v, s))?;
        let n = if self.light { 1 } else { 4 };
        for _ in 0..n {
            self.op_tquery(&mut r).map_err(|v| self.blame(v, s))?;
            self.op_dquery(&mut r).map_err(|v| self.blame(v, s))?;
            self.op_cols(&mut r).map_err(|v| self.blame(v, s))?;
        }
        self.query_ids(&mut r).map_err(|v| self.blame(v, s))?;
        let res = self.drop_world();
        res.map_err(|v| self.blame(v, s))
    }
    fn drop_world(&mut self) -> R<()> {
        self.last_op = "drop world";
        let w = self.w.take();
        let mut r = Rng::new(self.seed ^ 0xd409);
        let bomb = if r.pct(15) { self.pick_bomb(&mut r) } else { None };
        match bomb {
            None => call(c(5), "dropping the world", || drop(w))?,
            Some((e, x)) => {
                self.done |= c(8);
                self.arm(e, x);
                let res = attempt(|| drop(w));
                self.disarm();
                self.last_op = "drop world, one destructor panics";
                if let Err(m) = &res {
                    if m != "bomb" {
                        return vio(c(8), format!("a panicking destructor in the drop of the world caused another panic: {m}"));
                    }
                }
                self.st.drop_bombs += res.is_err() as u64;
            }
        }
        self.drain(0)?;
        if self.solo {
            if ledger::live_count() != 0 {
                return vio(c(5), format!("{} component values were not dropped with the world", ledger::live_count()));
            }
            for k in zst_keys() {
                if ledger::zst_live(k) != 0 {
                    return vio(c(5), format!("{} zero-sized values of kind {k} were not dropped with the world", ledger::zst_live(k)));
                }
            }
            let st = alloc::stats();
            if alloc::ACTIVE && (st.live_bytes != 0 || st.live_blocks != 0) {
                return vio(c(15), format!("{} bytes in {} blocks were not returned when the world was dropped", st.live_bytes, st.live_blocks));
            }
        }
        Ok(())
    }
}

/// ledger keys of zero-sized classes with a destructor
pub fn zst_keys() -> impl Iterator<Item = u16> {
    KINDS
        .iter()
        .enumerate()
        .filter(|(_, k)| k.drops && k.size == 0)
        .map(|(i, _)| i as u16)
        .chain(DYN.iter().filter(|d| d.drop.is_some() && d.size == 0).map(|d| d.key))
}

fn add_to_builder<'a>(
    b: arche_tape::entity_builder::EntityBuilder<'a>,
    cr: Cr,
    id: Option<EcsId>,
    cl: Class,
    v: u64,
    coin: bool,
) -> arche_tape::entity_builder::EntityBuilder<'a> {
    match (cr, cl) {
        (Cr::K(k), _) => (KINDS[k as usize].with)(b, v),
        (_, Class::Typed(k)) => unsafe { (KINDS[k as usize].with_raw)(b, id.unwrap(), v) },
        (_, Class::Dyn(d)) => {
            let dc = &DYN[d as usize];
            let mut buf = dc.make(v);
            let b = if dc.size == 0 && coin {
                b.with_dynamic(id.unwrap())
            } else {
                unsafe { b.with_dynamic_with_data(buf.ptr(), id.unwrap()) }
            };
            alloc::untrack(|| drop(buf));
            b
        }
        (_, Class::Tag) => {
            if coin {
                b.with_dynamic(id.unwrap())
            } else {
                let mut u = ();
                unsafe { b.with_dynamic_with_data(&mut u as *mut () as *mut u8, id.unwrap()) }
            }
        }
    }
}

// ---------------------------------------------------------------- for the locking monitors
impl Hist {
    /// components some live entity has: (model index, id, class)
    pub fn in_use(&self) -> Vec<(u32, EcsId, Class)> {
        let mut s: BTreeSet<u32> = BTreeSet::new();
        for &e in &self.live {
            s.extend(self.ents[e as usize].comps.keys());
        }
        s.into_iter().map(|x| (x, self.id(x), self.ents[x as usize].class)).collect()
    }
    /// live entities and what they have
    pub fn rows(&self) -> Vec<(EcsId, Vec<(u32, u64)>)> {
        self.live.iter().map(|&e| { let x = &self.ents[e as usize]; (x.id, x.comps.iter().map(|(&k, &v)| (k, v)).collect()) }).collect()
    }
    /// an id that is no component of anything: dead, or alive and never used
    pub fn unused_ids(&self) -> Vec<EcsId> {
        self.ents.iter().filter(|x| !x.used).map(|x| x.id).take(6).collect()
    }
}

// ---------------------------------------------------------------- cycles (C15)
/// One cycle of operations that returns a world to the population it had before.
#[derive(Clone, Debug)]
pub struct Cycle {
    spawns: Vec<(Vec<Cr>, usize, u32)>,
    flips: Vec<(usize, Cr, bool)>,
    abandons: Vec<Vec<Cr>>,
    rejects: usize,
    fresh_comps: Vec<u16>,
    types: Vec<u16>,
    queries: Vec<usize>,
    order: u64,
    plain: usize,
    rewrite: usize,
}
impl Hist {
    /// The components of `n` base entities, and what every cycle does.
    pub fn make_cycle(&mut self, r: &mut Rng, size: usize) -> R<(Vec<u32>, Cycle)> {
        let n = r.range(1, 2 + size);
        let mut base = vec![];
        for _ in 0..n {
            let set = self.pick_set(r);
            let vals = self.values(&set);
            base.push(self.build(&set, &vals, r, 0)?);
        }
        let mut cy = Cycle {
            spawns: vec![],
            flips: vec![],
            abandons: vec![],
            rejects: r.below(4),
            fresh_comps: vec![],
            types: vec![],
            queries: vec![],
            order: r.next(),
            plain: r.below(6),
            rewrite: r.below(3),
        };
        for _ in 0..r.range(1, 3) {
            cy.spawns.push((self.pick_set(r), r.range(1, size), r.below(4) as u32 / 3));
        }
        for _ in 0..r.range(0, 5) {
            let b = r.below(n);
            let cr = if r.pct(50) && !self.ents[base[b] as usize].comps.is_empty() { Cr::E(*r.pick(&self.sig(base[b]))) } else { self.pick_comp(r) };
            cy.flips.push((b, cr, r.pct(50)));
        }
        for _ in 0..r.range(0, 2) {
            cy.abandons.push(self.pick_set(r));
        }
        if !self.p.dyns.is_empty() {
            for _ in 0..r.range(0, 3) {
                cy.fresh_comps.push(*r.pick(&self.p.dyns));
            }
        }
        for _ in 0..r.range(0, 2) {
            let k = r.below(NK) as u16;
            if self.typed[k as usize].is_none() && !cy.types.contains(&k) && !self.p.kinds.contains(&k) {
                cy.types.push(k)
            }
        }
        for _ in 0..r.range(0, 3) {
            cy.queries.push(r.below(QUERIES.len()));
        }
        // types registered once and for all are population too
        let sets = cy.spawns.iter().flat_map(|s| &s.0).chain(cy.flips.iter().map(|f| &f.1)).chain(cy.abandons.iter().flatten());
        let kinds: BTreeSet<u16> = sets.filter_map(|cr| match cr { Cr::K(k) => Some(*k), _ => None }).collect();
        for k in kinds {
            self.learn(k, c(15))?;
        }
        Ok((base, cy))
    }
    pub fn cycle(&mut self, base: &[u32], cy: &Cycle) -> R<()> {
        let mut r = Rng::new(cy.order);
        let r = &mut r;
        let before: Vec<Vec<u32>> = base.iter().map(|&b| self.sig(b)).collect();
        let live = self.live.len();
        let mut temps = vec![];
        for (set, n, twice) in &cy.spawns {
            for _ in 0..*n {
                let vals = self.values(set);
                // no component descriptions of its own: an entity like that could not be despawned plainly
                let keep = std::mem::take(&mut self.p.dyns);
                let e = self.build(set, &vals, r, *twice);
                self.p.dyns = keep;
                temps.push(e?);
            }
        }
        for (b, cr, get) in &cy.flips {
            let e = base[*b];
            let has = self.res(*cr).map_or(false, |x| self.ents[e as usize].comps.contains_key(&x));
            if has {
                let x = self.res(*cr).unwrap();
                self.remove(e, x, r)?;
                if *get {
                    for &q in &cy.queries {
                        self.tquery(q, r)?;
                    }
                }
                self.add(e, *cr, r)?;
            } else {
                self.add(e, *cr, r)?;
                let x = self.res(*cr).unwrap();
                self.remove(e, x, r)?;
            }
        }
        for set in &cy.abandons {
            let vals = self.values(set);
            let plan: Vec<(Cr, Option<EcsId>, Class, u64)> =
                set.iter().zip(&vals).map(|(&cr, &v)| (cr, self.res(cr).map(|e| self.id(e)), self.class_of(cr), v)).collect();
            let w = self.w.as_mut().unwrap();
            call(c(13) | c(15), "abandoning a builder", || {
                let mut b = w.spawn();
                for &(cr, id, cl, v) in &plan {
                    b = add_to_builder(b, cr, id, cl, v, false);
                }
            })?;
            for &cr in set {
                if let Cr::K(k) = cr {
                    self.learn(k, c(13))?;
                }
            }
            self.bound(1)?;
        }
        let mut others = vec![];
        for &d in &cy.fresh_comps {
            let w = self.w.as_mut().unwrap();
            let id = call(c(10) | c(15), "spawn_with_component_meta", || unsafe { w.spawn_with_component_meta(DYN[d as usize].meta()).build() })?;
            others.push(self.issue(id, Class::Dyn(d), c(15))?);
            self.bound(0)?;
        }
        for &k in &cy.types {
            others.push(self.learn(k, c(15))?);
            self.bound(0)?;
        }
        for _ in 0..cy.plain {
            others.push(self.spawn_plain()?);
        }
        for _ in 0..cy.rejects {
            // rejected calls: a component twice, a dead entity
            let e = *r.pick(base);
            let id = self.id(e);
            if let Some(&x) = self.sig(e).first() {
                let cid = self.id(x);
                let cl = self.ents[x as usize].class;
                if cl == Class::Tag {
                    let _ = attempt(|| self.w.as_mut().unwrap().add_component_dynamic(id, cid));
                }
            }
            if let Some(d) = self.pick_dead(r) {
                let dead = self.id(d);
                let _ = attempt(|| self.w.as_mut().unwrap().add_component_dynamic(dead, id));
                if self.w.as_mut().map(|w| w.despawn(dead)) != Some(false) {
                    return vio(c(1), format!("despawn of dead {dead} returned true"));
                }
            }
        }
        for &q in &cy.queries {
            self.tquery(q, r)?;
        }
        temps.extend(others);
        r.shuffle(&mut temps);
        for e in temps {
            self.despawn_now(e, c(15))?;
        }
        for _ in 0..cy.rewrite {
            self.op_write(r)?;
        }
        self.drain(c(15))?;
        self.bound(0)?;
        if self.live.len() != live || base.iter().zip(&before).any(|(&b, s)| &self.sig(b) != s) {
            panic!("the cycle did not restore the population");
        }
        Ok(())
    }
}
impl Hist {
    pub fn peak_index(&self) -> usize {
        self.peak
    }
}
