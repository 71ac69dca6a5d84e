//! The component types the workloads use: every class of size, alignment, padding, zero size and
//! destructor, each behind one table entry so that the engine can pick types at run time.
use crate::ledger;
use arche_tape::entity_builder::EntityBuilder;
use arche_tape::{EcsId, World};
use std::hint::black_box;
use untyped_vec::UntypedVec;

pub trait Comp: 'static + Sized {
    const K: u16;
    /// bits of a value that survive a round trip
    const MASK: u64;
    const DROPS: bool = false;
    fn make(v: u64) -> Self;
    /// value, or None if the bytes are not what `make` wrote
    fn val(&self) -> Option<u64>;
    fn set(&mut self, v: u64) {
        *self = Self::make(v);
    }
}

/// an interpreter pays for every byte looked at, and sees a stray write anyway
const STEP: usize = if cfg!(miri) { 39 } else { 1 };
pub fn fill(v: u64, i: usize) -> u8 {
    if cfg!(miri) {
        return (v as u8) ^ (i as u8);
    }
    (crate::rng::mix(v ^ (i as u64).wrapping_mul(0x9E37)) >> 13) as u8
}

pub struct C0(pub u8);
pub struct C1(pub u16);
pub struct C2(pub u32);
pub struct C3(pub u64);
pub struct C4(pub u128);
pub struct C5([u8; 3]);
pub struct C6 {
    v: u64,
    pad: [u8; 100],
}
#[repr(align(16))]
pub struct C7(pub u64);
#[repr(align(64))]
pub struct C8(u64, [u8; 40]);
#[repr(align(128))]
pub struct C9(u64, [u8; 200]);
pub struct C10;
#[repr(align(16))]
pub struct C11;
pub struct C12;
#[repr(align(64))]
pub struct C13;
pub struct C14(pub u64);
pub struct C15(Box<(u64, u64)>);
pub struct C16(u64, Vec<u8>);
pub struct C17(u64, [u8; 3000]);
#[repr(align(32))]
pub struct C18(Box<u64>);
pub struct C19(f32);
pub struct C20(&'static str, u64);
pub struct C21(u32, u8, u64);
pub struct C22(Option<Box<u64>>, u64);
pub struct C23(pub u64);
pub const NK: usize = 24;

macro_rules! plain {
    ($t:ident, $k:literal, $int:ty) => {
        impl Comp for $t {
            const K: u16 = $k;
            const MASK: u64 = <$int>::MAX as u64;
            fn make(v: u64) -> Self {
                $t(v as $int)
            }
            fn val(&self) -> Option<u64> {
                Some(self.0 as u64)
            }
        }
    };
}
plain!(C0, 0, u8);
plain!(C1, 1, u16);
plain!(C2, 2, u32);
plain!(C3, 3, u64);
plain!(C7, 7, u64);
plain!(C23, 23, u64);
impl Comp for C4 {
    const K: u16 = 4;
    const MASK: u64 = u64::MAX;
    fn make(v: u64) -> Self {
        C4((v as u128) << 64 | !(v as u128) & (u64::MAX as u128))
    }
    fn val(&self) -> Option<u64> {
        let v = (self.0 >> 64) as u64;
        (self.0 as u64 == !v).then_some(v)
    }
}
impl Comp for C5 {
    const K: u16 = 5;
    const MASK: u64 = 0xffff;
    fn make(v: u64) -> Self {
        let (a, b) = (v as u8, (v >> 8) as u8);
        C5([a, b, a ^ b ^ 0x5a])
    }
    fn val(&self) -> Option<u64> {
        let [a, b, c] = self.0;
        (c == a ^ b ^ 0x5a).then_some(a as u64 | (b as u64) << 8)
    }
}
impl Comp for C6 {
    const K: u16 = 6;
    const MASK: u64 = u64::MAX;
    fn make(v: u64) -> Self {
        let mut pad = [0; 100];
        for (i, b) in pad.iter_mut().enumerate().step_by(STEP) {
            *b = fill(v, i)
        }
        C6 { v, pad }
    }
    fn val(&self) -> Option<u64> {
        self.pad.iter().enumerate().step_by(STEP).all(|(i, &b)| b == fill(self.v, i)).then_some(self.v)
    }
}
macro_rules! padded {
    ($t:ident, $k:literal, $n:literal) => {
        impl Comp for $t {
            const K: u16 = $k;
            const MASK: u64 = u64::MAX;
            fn make(v: u64) -> Self {
                let mut pad = [0; $n];
                for (i, b) in pad.iter_mut().enumerate().step_by(STEP) {
                    *b = fill(v, i)
                }
                $t(v, pad)
            }
            fn val(&self) -> Option<u64> {
                self.1.iter().enumerate().step_by(STEP).all(|(i, &b)| b == fill(self.0, i)).then_some(self.0)
            }
        }
    };
}
padded!(C8, 8, 40);
padded!(C9, 9, 200);

macro_rules! zst {
    ($t:ident, $k:literal) => {
        impl Comp for $t {
            const K: u16 = $k;
            const MASK: u64 = 0;
            fn make(_: u64) -> Self {
                $t
            }
            fn val(&self) -> Option<u64> {
                Some(0)
            }
        }
    };
}
zst!(C10, 10);
zst!(C11, 11);

macro_rules! zst_drop {
    ($t:ident, $k:literal) => {
        impl Comp for $t {
            const K: u16 = $k;
            const MASK: u64 = 0;
            const DROPS: bool = true;
            fn make(_: u64) -> Self {
                ledger::zst_make($k);
                $t
            }
            fn val(&self) -> Option<u64> {
                Some(0)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                let a = black_box(self as *const Self as usize);
                if a % std::mem::align_of::<Self>() != 0 {
                    ledger::error(format!("destructor of zero-sized kind {} ran at misaligned address", $k));
                }
                if ledger::zst_drop($k) {
                    panic!("bomb");
                }
            }
        }
    };
}
zst_drop!(C12, 12);
zst_drop!(C13, 13);

macro_rules! drops {
    ($t:ident, $k:literal, |$v:ident| $make:expr, |$s:ident| $val:expr) => {
        impl Comp for $t {
            const K: u16 = $k;
            const MASK: u64 = u64::MAX;
            const DROPS: bool = true;
            fn make($v: u64) -> Self {
                ledger::make($v, $k);
                $make
            }
            fn val(&self) -> Option<u64> {
                let $s = self;
                let v: Option<u64> = $val;
                if let Some(v) = v {
                    if !ledger::is_live(v) {
                        ledger::error(format!("component kind {} value {v:#x} is reachable after its destructor ran", $k));
                    }
                }
                v
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                let a = black_box(self as *const Self as usize);
                if a % std::mem::align_of::<Self>() != 0 {
                    ledger::error(format!("destructor of kind {} ran at misaligned address", $k));
                }
                let $s = &*self;
                let v: Option<u64> = $val;
                match v {
                    None => ledger::error(format!("destructor of kind {} ran on corrupted bytes", $k)),
                    Some(v) => {
                        if ledger::dropped(v, $k) {
                            panic!("bomb");
                        }
                    }
                }
            }
        }
    };
}
drops!(C14, 14, |v| C14(v), |s| Some(s.0));
drops!(C15, 15, |v| C15(Box::new((v, !v))), |s| (s.0 .1 == !s.0 .0).then_some(s.0 .0));
drops!(C16, 16, |v| C16(v, (0..(v % 37) as usize).map(|i| fill(v, i)).collect()), |s| (s.1.len()
    == (s.0 % 37) as usize
    && s.1.iter().enumerate().all(|(i, &b)| b == fill(s.0, i)))
.then_some(s.0));
drops!(
    C17,
    17,
    |v| {
        let mut pad = [0u8; 3000];
        for i in (0..3000).step_by(251) {
            pad[i] = fill(v, i)
        }
        C17(v, pad)
    },
    |s| (0..3000).step_by(251).all(|i| s.1[i] == fill(s.0, i)).then_some(s.0)
);
drops!(C18, 18, |v| C18(Box::new(v)), |s| Some(*s.0));

impl Comp for C19 {
    const K: u16 = 19;
    const MASK: u64 = 0xff_ffff;
    fn make(v: u64) -> Self {
        C19((v & 0xff_ffff) as f32)
    }
    fn val(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
}
static WORDS: [&str; 4] = ["", "a", "component", "Hello, world"];
impl Comp for C20 {
    const K: u16 = 20;
    const MASK: u64 = u64::MAX;
    fn make(v: u64) -> Self {
        C20(WORDS[(v % 4) as usize], v)
    }
    fn val(&self) -> Option<u64> {
        // compare pointers first: a corrupted reference must not be read
        let w = WORDS[(self.1 % 4) as usize];
        (self.0.len() == w.len() && self.0.as_ptr() == w.as_ptr()).then_some(self.1)
    }
}
impl Comp for C21 {
    const K: u16 = 21;
    const MASK: u64 = u64::MAX;
    fn make(v: u64) -> Self {
        C21(v as u32, (v >> 7) as u8, v)
    }
    fn val(&self) -> Option<u64> {
        (self.0 == self.2 as u32 && self.1 == (self.2 >> 7) as u8).then_some(self.2)
    }
}
drops!(
    C22,
    22,
    |v| C22(if v % 3 == 0 { None } else { Some(Box::new(v)) }, v),
    |s| match &s.0 {
        None => (s.1 % 3 == 0).then_some(s.1),
        Some(b) => (s.1 % 3 != 0 && **b == s.1).then_some(s.1),
    }
);

fn chk_align<T>(r: &T, k: u16) {
    let a = black_box(r as *const T as usize);
    if a % std::mem::align_of::<T>() != 0 {
        ledger::error(format!("reference to component kind {k} at {a:#x} is not aligned to {}", std::mem::align_of::<T>()));
    }
}
/// value behind a reference, with all integrity monitors
pub fn read<T: Comp>(r: &T) -> u64 {
    chk_align(r, T::K);
    match r.val() {
        Some(v) => v,
        None => {
            ledger::error(format!("bytes of a component of kind {} are not a value that was ever written", T::K));
            u64::MAX
        }
    }
}

/// One table entry per component type.
pub struct Kind {
    pub name: &'static str,
    pub size: usize,
    pub align: usize,
    pub mask: u64,
    pub drops: bool,
    pub with: for<'a> fn(EntityBuilder<'a>, u64) -> EntityBuilder<'a>,
    pub with_raw: for<'a> unsafe fn(EntityBuilder<'a>, EcsId, u64) -> EntityBuilder<'a>,
    pub add: fn(&mut World, EcsId, u64),
    pub add_raw: unsafe fn(&mut World, EcsId, EcsId, u64),
    pub remove: fn(&mut World, EcsId),
    pub has: fn(&World, EcsId) -> bool,
    pub get: fn(&World, EcsId) -> Option<u64>,
    pub get_mut: fn(&World, EcsId, Option<u64>) -> Option<u64>,
    pub reg: fn(&mut World) -> EcsId,
    pub read_ptr: unsafe fn(*const u8) -> u64,
    pub write_ptr: unsafe fn(*mut u8, u64),
    pub iter: fn(&World, &mut dyn FnMut(EcsId, u64)),
    pub iter_mut: fn(&World, &mut dyn FnMut(u64) -> Option<u64>),
    pub drop_fn: fn(*mut std::mem::MaybeUninit<u8>),
    pub vec_push: unsafe fn(&mut UntypedVec, u64),
    pub vec_slice: unsafe fn(&UntypedVec) -> Vec<u64>,
    pub vec_slice_set: unsafe fn(&mut UntypedVec, usize, u64) -> usize,
}

/// Values of destructor types are made outside the library's allocation accounting.
fn mk<T: Comp>(v: u64) -> T {
    crate::alloc::untrack(|| T::make(v))
}

pub const fn kind<T: Comp>(name: &'static str) -> Kind {
    Kind {
        name,
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        mask: T::MASK,
        drops: T::DROPS,
        with: |b, v| b.with(mk::<T>(v)),
        with_raw: with_raw::<T>,
        add: |w, e, v| w.add_component(e, mk::<T>(v)),
        add_raw: add_raw::<T>,
        remove: |w, e| w.remove_component::<T>(e),
        has: |w, e| w.has_component::<T>(e),
        get: |w, e| w.query::<(&T,)>().get(e).map(|(r,)| read(r)),
        get_mut: |w, e, nv| {
            let mut q = w.query::<(&mut T,)>();
            q.get(e).map(|(r,)| {
                let old = read(r);
                if let Some(nv) = nv {
                    crate::alloc::untrack(|| r.set(nv));
                }
                old
            })
        },
        reg: |w| w.get_or_create_type_id_ecsid::<T>(),
        read_ptr: read_ptr::<T>,
        write_ptr: write_ptr::<T>,
        iter: |w, f| {
            for (e, r) in w.query::<(arche_tape::EcsIds, &T)>().iter() {
                f(e, read(r))
            }
        },
        iter_mut: |w, f| {
            let mut q = w.query::<(&mut T,)>();
            for (r,) in q.iter() {
                let old = read(r);
                if let Some(nv) = f(old) {
                    crate::alloc::untrack(|| r.set(nv));
                }
            }
        },
        drop_fn: drop_one::<T>,
        vec_push: vec_push::<T>,
        vec_slice: vec_slice::<T>,
        vec_slice_set: vec_slice_set::<T>,
    }
}
fn drop_one<T: Comp>(p: *mut std::mem::MaybeUninit<u8>) {
    if p.is_null() || p as usize % std::mem::align_of::<T>() != 0 {
        ledger::error(format!("destructor of kind {} got pointer {p:p}, not aligned", T::K));
        return;
    }
    unsafe { std::ptr::drop_in_place(p as *mut T) }
}
unsafe fn vec_push<T: Comp>(v: &mut UntypedVec, x: u64) {
    let mut c = std::mem::ManuallyDrop::new(mk::<T>(x));
    v.push_raw(&mut c as *mut _ as *mut std::mem::MaybeUninit<u8>)
}
unsafe fn vec_slice<T: Comp>(v: &UntypedVec) -> Vec<u64> {
    let s = v.as_slice::<T>();
    crate::alloc::untrack(|| {
        if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
            ledger::error(format!("slice of kind {} is not aligned", T::K));
            return vec![];
        }
        s.iter().map(read).collect()
    })
}
/// replaces one element through the mutable slice, returns the slice's length
unsafe fn vec_slice_set<T: Comp>(v: &mut UntypedVec, i: usize, x: u64) -> usize {
    let s = v.as_slice_mut::<T>();
    crate::alloc::untrack(|| {
        if s.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
            ledger::error(format!("mutable slice of kind {} is not aligned", T::K));
            return s.len();
        }
        if i < s.len() {
            s[i].set(x)
        }
        s.len()
    })
}
unsafe fn with_raw<'a, T: Comp>(b: EntityBuilder<'a>, id: EcsId, v: u64) -> EntityBuilder<'a> {
    let mut c = std::mem::ManuallyDrop::new(mk::<T>(v));
    b.with_dynamic_with_data(&mut c as *mut _ as *mut u8, id)
}
unsafe fn add_raw<T: Comp>(w: &mut World, e: EcsId, id: EcsId, v: u64) {
    let mut c = std::mem::ManuallyDrop::new(mk::<T>(v));
    w.add_component_dynamic_with_data(e, id, &mut c as *mut _ as *mut u8)
}
unsafe fn read_ptr<T: Comp>(p: *const u8) -> u64 {
    if p as usize % std::mem::align_of::<T>() != 0 || p.is_null() {
        ledger::error(format!("pointer to component kind {} at {:p} is not aligned to {}", T::K, p, std::mem::align_of::<T>()));
        return u64::MAX;
    }
    read(&*(p as *const T))
}
unsafe fn write_ptr<T: Comp>(p: *mut u8, v: u64) {
    if p as usize % std::mem::align_of::<T>() != 0 || p.is_null() {
        ledger::error(format!("pointer to component kind {} at {:p} is not aligned", T::K, p));
        return;
    }
    crate::alloc::untrack(|| (*(p as *mut T)).set(v))
}

pub static KINDS: [Kind; NK] = [
    kind::<C0>("u8"),
    kind::<C1>("u16"),
    kind::<C2>("u32"),
    kind::<C3>("u64"),
    kind::<C4>("u128"),
    kind::<C5>("[u8;3]"),
    kind::<C6>("bytes108"),
    kind::<C7>("align16"),
    kind::<C8>("align64"),
    kind::<C9>("align128"),
    kind::<C10>("zst"),
    kind::<C11>("zst-align16"),
    kind::<C12>("zst-drop"),
    kind::<C13>("zst-align64-drop"),
    kind::<C14>("token"),
    kind::<C15>("boxed"),
    kind::<C16>("vec"),
    kind::<C17>("big3008-drop"),
    kind::<C18>("align32-boxed"),
    kind::<C19>("f32"),
    kind::<C20>("str"),
    kind::<C21>("padded"),
    kind::<C22>("optbox"),
    kind::<C23>("u64b"),
];

/// Run-time described layouts.
pub struct DynClass {
    pub size: usize,
    pub align: usize,
    pub drop: Option<fn(*mut std::mem::MaybeUninit<u8>)>,
    pub key: u16,
}
pub const DK: u16 = 1000;

/// destructor of a run-time described component: the bytes are `value, fill...`
pub fn dyn_drop<const S: usize, const A: usize, const KEY: u16>(p: *mut std::mem::MaybeUninit<u8>) {
    let p = p as *mut u8;
    if p.is_null() || p as usize % A != 0 {
        ledger::error(format!("destructor of a run-time described component (size {S} align {A}) got misaligned pointer {p:p}"));
        return;
    }
    if S == 0 {
        if ledger::zst_drop(KEY) {
            panic!("bomb");
        }
        return;
    }
    match unsafe { dyn_read(p, S) } {
        None => ledger::error(format!("destructor of a run-time described component (size {S} align {A}) ran on corrupted bytes")),
        Some(v) => {
            if ledger::dropped(v, KEY) {
                panic!("bomb");
            }
        }
    }
}
pub use crate::layouts::{BASIC_DYN, DYN};
impl DynClass {
    pub fn mask(&self) -> u64 {
        match self.size {
            0 => 0,
            1..=7 => (1u64 << (8 * self.size.min(7))) - 1,
            _ => u64::MAX,
        }
    }
    pub fn meta(&self) -> arche_tape::world::ComponentMeta {
        let mut m = arche_tape::world::ComponentMeta::from_size_align(self.size, self.align);
        m.drop_fn = self.drop;
        m
    }
    /// the bytes of a new value (registered with the ledger if it has a destructor)
    pub fn make(&self, v: u64) -> Buf {
        crate::alloc::untrack(|| {
            if self.drop.is_some() {
                if self.size == 0 {
                    ledger::zst_make(self.key)
                } else {
                    ledger::make(v, self.key)
                }
            }
            Buf::new(&dyn_bytes(v, self.size), self.align)
        })
    }
    pub unsafe fn read(&self, p: *const u8) -> u64 {
        if p.is_null() || p as usize % self.align != 0 {
            ledger::error(format!("pointer {p:p} to a run-time described component is not aligned to {}", self.align));
            return u64::MAX;
        }
        match dyn_read(p, self.size) {
            Some(v) => {
                if self.drop.is_some() && self.size > 0 && !ledger::is_live(v) {
                    ledger::error(format!("run-time described value {v:#x} reachable after its destructor ran"));
                }
                v
            }
            None => {
                ledger::error(format!("bytes of a run-time described component (size {} align {}) are not a value that was ever written", self.size, self.align));
                u64::MAX
            }
        }
    }
    pub unsafe fn write(&self, p: *mut u8, v: u64) {
        if p.is_null() || p as usize % self.align != 0 {
            ledger::error(format!("pointer {p:p} to a run-time described component is not aligned to {}", self.align));
            return;
        }
        if let Some(d) = self.drop {
            d(p as *mut _);
        }
        let mut b = self.make(v);
        std::ptr::copy_nonoverlapping(b.ptr(), p, self.size);
        crate::alloc::untrack(|| drop(b));
    }
}
/// Bytes of one value at the alignment its layout asks for.
pub struct Buf {
    v: Vec<u8>,
    off: usize,
}
impl Buf {
    fn new(b: &[u8], align: usize) -> Buf {
        let mut v = vec![0u8; b.len() + align];
        let off = v.as_ptr().align_offset(align);
        v[off..off + b.len()].copy_from_slice(b);
        Buf { v, off }
    }
    pub fn ptr(&mut self) -> *mut u8 {
        unsafe { self.v.as_mut_ptr().add(self.off) }
    }
}
/// Sampled fill keeps large values cheap; where it starts depends on the value, so that many
/// values together cover every byte.
fn sample(v: u64, size: usize) -> (usize, usize) {
    if size > if cfg!(miri) { 64 } else { 300 } {
        (8 + (v % 61) as usize, 61)
    } else {
        (8, 1)
    }
}
fn dyn_bytes(v: u64, size: usize) -> Vec<u8> {
    let mut b = vec![0u8; size];
    let n = size.min(8);
    b[..n].copy_from_slice(&v.to_le_bytes()[..n]);
    let (mut i, step) = sample(v, size);
    while i < size {
        b[i] = fill(v, i);
        i += step;
    }
    if size > 8 {
        b[size - 1] = fill(v, size - 1);
    }
    b
}
unsafe fn dyn_read(p: *const u8, size: usize) -> Option<u64> {
    let n = size.min(8);
    let mut x = [0u8; 8];
    std::ptr::copy_nonoverlapping(p, x.as_mut_ptr(), n);
    let v = u64::from_le_bytes(x);
    let (mut i, step) = sample(v, size);
    while i < size {
        if *p.add(i) != fill(v, i) {
            return None;
        }
        i += step;
    }
    if size > 8 && *p.add(size - 1) != fill(v, size - 1) {
        return None;
    }
    Some(v)
}
