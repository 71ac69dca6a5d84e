//! Allocator monitor. Every block carries a header with the layout it was requested with and a canary
//! behind it; blocks are filled with a pattern when handed out and when freed. Blocks allocated while the
//! thread is inside `track` belong to the library under test and are counted per thread.
//! Under Miri and the compiler sanitizers the system allocator is used unchanged: they do their own
//! tracking, and headers would only hide errors from them.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Mon;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stats {
    pub live_bytes: i64,
    pub live_blocks: i64,
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
    pub errors: u64,
    pub max_align: usize,
}

thread_local! {
    static TRACK: Cell<u32> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static REALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
    static ERRORS: Cell<u64> = const { Cell::new(0) };
    // requests of the library by kind: all, resizes, of alignment 1, resizes of alignment 1
    static REQUESTS: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
    static RESIZING: Cell<bool> = const { Cell::new(false) };
    // requests of the kind until one is refused; 0: none is
    static REFUSE: Cell<(i64, usize)> = const { Cell::new((0, 0)) };
    static REFUSE_ALL: Cell<bool> = const { Cell::new(false) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static MAXALIGN: Cell<usize> = const { Cell::new(0) };
    // first error: kind, requested size/align, given size/align
    static FIRST: Cell<(u8, usize, usize, usize, usize)> = const { Cell::new((0, 0, 0, 0, 0)) };
}

pub const ACTIVE: bool = !cfg!(any(miri, plain_alloc));

/// Runs `f` with allocations attributed to the library.
pub fn track<R>(f: impl FnOnce() -> R) -> R {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(t.get() - 1));
        }
    }
    TRACK.with(|t| t.set(t.get() + 1));
    let _l = Leave;
    f()
}

/// Runs `f` (monitor bookkeeping that may run inside library calls, e.g. in a destructor) unattributed.
pub fn untrack<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let old = TRACK.with(|t| t.replace(0));
    let _b = Back(old);
    f()
}

/// The library's `k`th request of the kind from now on is refused, and with `all` every later one.
pub fn refuse(k: u64, kind: usize, all: bool) {
    REFUSE.with(|c| c.set((k as i64, kind)));
    REFUSE_ALL.with(|c| c.set(all));
    FIRED.with(|c| c.set(false));
}
/// Has a request been refused?
pub fn fired() -> bool {
    FIRED.try_with(|c| c.get()).unwrap_or(false)
}
pub fn requests() -> [u64; 4] {
    REQUESTS.with(|c| c.get())
}
fn refused(l: Layout) -> bool {
    let re = RESIZING.try_with(|c| c.get()).unwrap_or(false);
    let one = l.align() == 1;
    let is = [true, re, one, re && one];
    let _ = REQUESTS.try_with(|c| {
        let mut n = c.get();
        for k in 0..4 {
            n[k] += is[k] as u64;
        }
        c.set(n);
    });
    let (k, kind) = REFUSE.try_with(|c| c.get()).unwrap_or((0, 0));
    if k < 0 {
        return true;
    }
    if k == 0 || !is[kind] {
        return false;
    }
    let then = if k > 1 { k - 1 } else { -(REFUSE_ALL.with(|a| a.get()) as i64) };
    let _ = REFUSE.try_with(|c| c.set((then, kind)));
    if k == 1 {
        let _ = FIRED.try_with(|c| c.set(true));
    }
    k == 1
}

pub fn stats() -> Stats {
    Stats {
        live_bytes: LIVE_BYTES.with(|c| c.get()),
        live_blocks: LIVE_BLOCKS.with(|c| c.get()),
        allocs: ALLOCS.with(|c| c.get()),
        reallocs: REALLOCS.with(|c| c.get()),
        frees: FREES.with(|c| c.get()),
        errors: ERRORS.with(|c| c.get()),
        max_align: MAXALIGN.with(|c| c.get()),
    }
}

pub fn reset() {
    LIVE_BYTES.with(|c| c.set(0));
    LIVE_BLOCKS.with(|c| c.set(0));
    ALLOCS.with(|c| c.set(0));
    REQUESTS.with(|c| c.set([0; 4]));
    ERRORS.with(|c| c.set(0));
    FIRST.with(|c| c.set((0, 0, 0, 0, 0)));
}

pub fn first_error() -> Option<String> {
    let (k, rs, ra, gs, ga) = FIRST.with(|c| c.get());
    let what = match k {
        0 => return None,
        1 => "block released with a layout other than it was allocated with",
        2 => "block resized with a layout other than it was allocated with",
        3 => "bytes behind a block were overwritten",
        4 => "release of a pointer that is not a live block (double free or wrong pointer)",
        _ => "zero-sized allocation request",
    };
    Some(format!("{what}: allocated size {rs} align {ra}, given size {gs} align {ga}"))
}

fn err(kind: u8, rs: usize, ra: usize, gs: usize, ga: usize) {
    let _ = ERRORS.try_with(|c| c.set(c.get() + 1));
    let _ = FIRST.try_with(|c| {
        if c.get().0 == 0 {
            c.set((kind, rs, ra, gs, ga))
        }
    });
    if fired() {
        untrack(|| eprintln!("{}", first_error().unwrap_or_default()));
        std::process::exit(crate::faults::ALLOC);
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    tracked: u64,
}
const LIVE: u64 = 0x4c49_5645_b10c_cafe;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const TAIL: usize = 16;
const HS: usize = std::mem::size_of::<Header>();

fn front(align: usize) -> usize {
    (HS + align - 1) / align * align
}
fn outer(l: Layout) -> (Layout, usize) {
    let al = l.align().max(16);
    let f = front(al);
    (Layout::from_size_align(f + l.size() + TAIL, al).unwrap(), f)
}

unsafe fn put(base: *mut u8, l: Layout, f: usize, tracked: bool) -> *mut u8 {
    let p = base.add(f);
    let h = Header { magic: LIVE, size: l.size(), align: l.align(), tracked: tracked as u64 };
    (p.sub(HS) as *mut Header).write(h);
    std::ptr::write_bytes(p.add(l.size()), 0xC7, TAIL);
    p
}
unsafe fn tail_ok(p: *mut u8, size: usize) -> bool {
    (0..TAIL).all(|i| *p.add(size + i) == 0xC7)
}

fn tracked_now() -> bool {
    TRACK.try_with(|t| t.get() > 0).unwrap_or(false)
}
fn add(c: &'static std::thread::LocalKey<Cell<i64>>, d: i64) {
    let _ = c.try_with(|c| c.set(c.get() + d));
}
fn inc(c: &'static std::thread::LocalKey<Cell<u64>>) {
    let _ = c.try_with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE {
            return System.alloc(l);
        }
        if l.size() == 0 {
            err(5, 0, 0, l.size(), l.align());
        }
        if tracked_now() && refused(l) {
            return std::ptr::null_mut();
        }
        let (o, f) = outer(l);
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let t = tracked_now();
        if t {
            add(&LIVE_BYTES, l.size() as i64);
            add(&LIVE_BLOCKS, 1);
            inc(&ALLOCS);
            let _ = MAXALIGN.try_with(|c| c.set(c.get().max(l.align())));
            // poison: a read of never-written component memory shows up as this pattern
            std::ptr::write_bytes(base.add(f), 0xA5, l.size());
        }
        put(base, l, f, t)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ACTIVE {
            return System.dealloc(p, l);
        }
        let hp = p.sub(HS) as *mut Header;
        let h = hp.read_unaligned();
        if h.magic != LIVE {
            // not safe to touch any further: keep it, count it
            err(4, h.size, h.align, l.size(), l.align());
            return;
        }
        if h.size != l.size() || h.align != l.align() {
            err(1, h.size, h.align, l.size(), l.align());
        }
        if !tail_ok(p, h.size) {
            err(3, h.size, h.align, l.size(), l.align());
        }
        if h.tracked != 0 {
            add(&LIVE_BYTES, -(h.size as i64));
            add(&LIVE_BLOCKS, -1);
            inc(&FREES);
            std::ptr::write_bytes(p, 0xDE, h.size);
        }
        (*hp).magic = DEAD;
        let real = Layout::from_size_align_unchecked(h.size, h.align);
        let (o, f) = outer(real);
        System.dealloc(p.sub(f), o);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ACTIVE {
            return System.realloc(p, l, new);
        }
        let h = (p.sub(HS) as *mut Header).read_unaligned();
        if h.magic != LIVE {
            err(4, h.size, h.align, l.size(), l.align());
            return std::ptr::null_mut();
        }
        if h.size != l.size() || h.align != l.align() {
            err(2, h.size, h.align, l.size(), l.align());
        }
        inc(&REALLOCS);
        // always moves, so that pointers kept across growth dangle for certain
        let old = Layout::from_size_align_unchecked(h.size, h.align);
        let nl = Layout::from_size_align_unchecked(new, h.align);
        let _ = RESIZING.try_with(|c| c.set(true));
        let np = untracked_as(h.tracked != 0, || self.alloc(nl));
        let _ = RESIZING.try_with(|c| c.set(false));
        if np.is_null() {
            return np;
        }
        std::ptr::copy_nonoverlapping(p, np, h.size.min(new));
        self.dealloc(p, old);
        np
    }
}

/// allocation made on behalf of a block that is (not) the library's keeps that ownership
fn untracked_as<R>(tracked: bool, f: impl FnOnce() -> R) -> R {
    let old = TRACK.try_with(|t| t.replace(tracked as u32)).unwrap_or(0);
    let r = f();
    let _ = TRACK.try_with(|t| t.set(old));
    r
}
