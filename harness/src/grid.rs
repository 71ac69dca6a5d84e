//! Written by tools/gen_grid.py. Types of every alignment and many sizes, with and without a destructor, in small histories: what the
//! library does for a type is decided by its size, alignment and need of a destructor.
use crate::engine::{attempt, c, Vio};
use crate::kinds::*;
use crate::queries::*;
use crate::rng::{mix, Rng};
use crate::{alloc, ledger};
use arche_tape::{EcsId, World};
use std::collections::BTreeMap;
use std::hint::black_box;

#[repr(align(1))]
pub struct A1;
#[repr(align(2))]
pub struct A2;
#[repr(align(4))]
pub struct A4;
#[repr(align(8))]
pub struct A8;
#[repr(align(16))]
pub struct A16;
#[repr(align(32))]
pub struct A32;
#[repr(align(64))]
pub struct A64;
#[repr(align(128))]
pub struct A128;
#[repr(align(256))]
pub struct A256;
#[repr(align(512))]
pub struct A512;
#[repr(align(1024))]
pub struct A1024;
#[repr(align(4096))]
pub struct A4096;
#[repr(align(65536))]
pub struct A65536;
/// plain bytes
#[repr(C)]
pub struct G<A, const S: usize, const KEY: u16>([A; 0], [u8; S]);
/// with a destructor: of 8 bytes and more a token, of less counted
#[repr(C)]
pub struct GD<A, const S: usize, const KEY: u16>([A; 0], [u8; S]);

const fn mask(s: usize) -> u64 {
    if s >= 8 {
        u64::MAX
    } else {
        (1 << (8 * s)) - 1
    }
}
/// large values are looked at here and there
fn step(s: usize) -> usize {
    if cfg!(miri) {
        s.max(1)
    } else {
        1 + s / 97
    }
}
fn put<const S: usize>(v: u64) -> [u8; S] {
    let mut b = [0xA5; S];
    for i in 0..S.min(8) {
        b[i] = (v >> (8 * i)) as u8
    }
    for i in (8..S).step_by(step(S)) {
        b[i] = fill(v, i)
    }
    if S > 8 {
        b[S - 1] = fill(v, S)
    }
    b
}
fn take<const S: usize>(b: &[u8; S]) -> Option<u64> {
    let mut v = 0;
    for i in 0..S.min(8) {
        v |= (b[i] as u64) << (8 * i)
    }
    let ok = S <= 8 || (b[S - 1] == fill(v, S) && (8..S - 1).step_by(step(S)).all(|i| b[i] == fill(v, i)));
    ok.then_some(v)
}
impl<A: 'static, const S: usize, const KEY: u16> Comp for G<A, S, KEY> {
    const K: u16 = KEY;
    const MASK: u64 = mask(S);
    fn make(v: u64) -> Self {
        G([], put(v))
    }
    fn val(&self) -> Option<u64> {
        take(&self.1)
    }
}
impl<A: 'static, const S: usize, const KEY: u16> Comp for GD<A, S, KEY> {
    const K: u16 = KEY;
    const MASK: u64 = mask(S);
    const DROPS: bool = true;
    fn make(v: u64) -> Self {
        if S >= 8 {
            ledger::make(v, KEY)
        } else {
            ledger::zst_make(KEY)
        }
        GD([], put(v))
    }
    fn val(&self) -> Option<u64> {
        let v = take(&self.1);
        if let Some(v) = v {
            if S >= 8 && !ledger::is_live(v) {
                ledger::error(format!("component of size {S} and value {v:#x} is reachable after its destructor ran"));
            }
        }
        v
    }
}
impl<A, const S: usize, const KEY: u16> Drop for GD<A, S, KEY> {
    fn drop(&mut self) {
        let a = black_box(self as *const Self as usize);
        if a % std::mem::align_of::<Self>() != 0 {
            ledger::error(format!("destructor of size {S} align {} ran at misaligned address", std::mem::align_of::<Self>()));
        }
        match take(&self.1) {
            None => ledger::error(format!("destructor of size {S} ran on corrupted bytes")),
            Some(v) => {
                let _ = if S >= 8 { ledger::dropped(v, KEY) } else { ledger::zst_drop(KEY) };
            }
        }
    }
}

pub static GRID: [Kind; 149] = [
    kind::<G<A1, 0, 2000>>("size 0 align 1"),
    kind::<G<A1, 1, 2001>>("size 1 align 1"),
    kind::<G<A1, 2, 2002>>("size 2 align 1"),
    kind::<G<A1, 3, 2003>>("size 3 align 1"),
    kind::<G<A1, 5, 2004>>("size 5 align 1"),
    kind::<G<A1, 6, 2005>>("size 6 align 1"),
    kind::<G<A1, 7, 2006>>("size 7 align 1"),
    kind::<G<A1, 9, 2007>>("size 9 align 1"),
    kind::<G<A1, 11, 2008>>("size 11 align 1"),
    kind::<G<A1, 13, 2009>>("size 13 align 1"),
    kind::<G<A1, 17, 2010>>("size 17 align 1"),
    kind::<G<A1, 31, 2011>>("size 31 align 1"),
    kind::<G<A1, 33, 2012>>("size 33 align 1"),
    kind::<G<A1, 63, 2013>>("size 63 align 1"),
    kind::<G<A1, 65, 2014>>("size 65 align 1"),
    kind::<G<A1, 127, 2015>>("size 127 align 1"),
    kind::<G<A1, 129, 2016>>("size 129 align 1"),
    kind::<G<A1, 255, 2017>>("size 255 align 1"),
    kind::<G<A1, 1023, 2018>>("size 1023 align 1"),
    kind::<G<A1, 4097, 2019>>("size 4097 align 1"),
    kind::<G<A1, 66001, 2020>>("size 66001 align 1"),
    kind::<G<A2, 0, 2021>>("size 0 align 2"),
    kind::<G<A2, 2, 2022>>("size 2 align 2"),
    kind::<G<A2, 6, 2023>>("size 6 align 2"),
    kind::<G<A2, 10, 2024>>("size 10 align 2"),
    kind::<G<A2, 1026, 2025>>("size 1026 align 2"),
    kind::<G<A4, 0, 2026>>("size 0 align 4"),
    kind::<G<A4, 4, 2027>>("size 4 align 4"),
    kind::<G<A4, 12, 2028>>("size 12 align 4"),
    kind::<G<A4, 20, 2029>>("size 20 align 4"),
    kind::<G<A4, 36, 2030>>("size 36 align 4"),
    kind::<G<A4, 1020, 2031>>("size 1020 align 4"),
    kind::<G<A8, 0, 2032>>("size 0 align 8"),
    kind::<G<A8, 8, 2033>>("size 8 align 8"),
    kind::<G<A8, 16, 2034>>("size 16 align 8"),
    kind::<G<A8, 24, 2035>>("size 24 align 8"),
    kind::<G<A8, 32, 2036>>("size 32 align 8"),
    kind::<G<A8, 40, 2037>>("size 40 align 8"),
    kind::<G<A8, 48, 2038>>("size 48 align 8"),
    kind::<G<A8, 56, 2039>>("size 56 align 8"),
    kind::<G<A8, 64, 2040>>("size 64 align 8"),
    kind::<G<A8, 72, 2041>>("size 72 align 8"),
    kind::<G<A8, 96, 2042>>("size 96 align 8"),
    kind::<G<A8, 120, 2043>>("size 120 align 8"),
    kind::<G<A8, 128, 2044>>("size 128 align 8"),
    kind::<G<A8, 136, 2045>>("size 136 align 8"),
    kind::<G<A8, 256, 2046>>("size 256 align 8"),
    kind::<G<A8, 264, 2047>>("size 264 align 8"),
    kind::<G<A8, 512, 2048>>("size 512 align 8"),
    kind::<G<A8, 520, 2049>>("size 520 align 8"),
    kind::<G<A8, 2048, 2050>>("size 2048 align 8"),
    kind::<G<A8, 4104, 2051>>("size 4104 align 8"),
    kind::<G<A16, 0, 2052>>("size 0 align 16"),
    kind::<G<A16, 16, 2053>>("size 16 align 16"),
    kind::<G<A16, 32, 2054>>("size 32 align 16"),
    kind::<G<A16, 48, 2055>>("size 48 align 16"),
    kind::<G<A16, 80, 2056>>("size 80 align 16"),
    kind::<G<A16, 128, 2057>>("size 128 align 16"),
    kind::<G<A16, 144, 2058>>("size 144 align 16"),
    kind::<G<A16, 1040, 2059>>("size 1040 align 16"),
    kind::<G<A32, 0, 2060>>("size 0 align 32"),
    kind::<G<A32, 32, 2061>>("size 32 align 32"),
    kind::<G<A32, 64, 2062>>("size 64 align 32"),
    kind::<G<A32, 96, 2063>>("size 96 align 32"),
    kind::<G<A32, 2080, 2064>>("size 2080 align 32"),
    kind::<G<A64, 0, 2065>>("size 0 align 64"),
    kind::<G<A64, 64, 2066>>("size 64 align 64"),
    kind::<G<A64, 128, 2067>>("size 128 align 64"),
    kind::<G<A64, 192, 2068>>("size 192 align 64"),
    kind::<G<A64, 4160, 2069>>("size 4160 align 64"),
    kind::<G<A128, 0, 2070>>("size 0 align 128"),
    kind::<G<A128, 128, 2071>>("size 128 align 128"),
    kind::<G<A128, 256, 2072>>("size 256 align 128"),
    kind::<G<A128, 384, 2073>>("size 384 align 128"),
    kind::<G<A256, 0, 2074>>("size 0 align 256"),
    kind::<G<A256, 256, 2075>>("size 256 align 256"),
    kind::<G<A256, 512, 2076>>("size 512 align 256"),
    kind::<G<A512, 0, 2077>>("size 0 align 512"),
    kind::<G<A512, 512, 2078>>("size 512 align 512"),
    kind::<G<A512, 1536, 2079>>("size 1536 align 512"),
    kind::<G<A1024, 0, 2080>>("size 0 align 1024"),
    kind::<G<A1024, 1024, 2081>>("size 1024 align 1024"),
    kind::<G<A4096, 0, 2082>>("size 0 align 4096"),
    kind::<G<A4096, 4096, 2083>>("size 4096 align 4096"),
    kind::<G<A4096, 8192, 2084>>("size 8192 align 4096"),
    kind::<G<A65536, 0, 2085>>("size 0 align 65536"),
    kind::<G<A65536, 65536, 2086>>("size 65536 align 65536"),
    kind::<GD<A1, 0, 2087>>("size 0 align 1 drop"),
    kind::<GD<A1, 2, 2088>>("size 2 align 1 drop"),
    kind::<GD<A1, 5, 2089>>("size 5 align 1 drop"),
    kind::<GD<A1, 7, 2090>>("size 7 align 1 drop"),
    kind::<GD<A1, 11, 2091>>("size 11 align 1 drop"),
    kind::<GD<A1, 17, 2092>>("size 17 align 1 drop"),
    kind::<GD<A1, 33, 2093>>("size 33 align 1 drop"),
    kind::<GD<A1, 65, 2094>>("size 65 align 1 drop"),
    kind::<GD<A1, 129, 2095>>("size 129 align 1 drop"),
    kind::<GD<A1, 1023, 2096>>("size 1023 align 1 drop"),
    kind::<GD<A1, 66001, 2097>>("size 66001 align 1 drop"),
    kind::<GD<A2, 0, 2098>>("size 0 align 2 drop"),
    kind::<GD<A2, 2, 2099>>("size 2 align 2 drop"),
    kind::<GD<A2, 6, 2100>>("size 6 align 2 drop"),
    kind::<GD<A2, 1026, 2101>>("size 1026 align 2 drop"),
    kind::<GD<A4, 0, 2102>>("size 0 align 4 drop"),
    kind::<GD<A4, 12, 2103>>("size 12 align 4 drop"),
    kind::<GD<A4, 36, 2104>>("size 36 align 4 drop"),
    kind::<GD<A8, 0, 2105>>("size 0 align 8 drop"),
    kind::<GD<A8, 8, 2106>>("size 8 align 8 drop"),
    kind::<GD<A8, 16, 2107>>("size 16 align 8 drop"),
    kind::<GD<A8, 24, 2108>>("size 24 align 8 drop"),
    kind::<GD<A8, 32, 2109>>("size 32 align 8 drop"),
    kind::<GD<A8, 48, 2110>>("size 48 align 8 drop"),
    kind::<GD<A8, 64, 2111>>("size 64 align 8 drop"),
    kind::<GD<A8, 96, 2112>>("size 96 align 8 drop"),
    kind::<GD<A8, 128, 2113>>("size 128 align 8 drop"),
    kind::<GD<A8, 256, 2114>>("size 256 align 8 drop"),
    kind::<GD<A8, 512, 2115>>("size 512 align 8 drop"),
    kind::<GD<A8, 2048, 2116>>("size 2048 align 8 drop"),
    kind::<GD<A16, 0, 2117>>("size 0 align 16 drop"),
    kind::<GD<A16, 16, 2118>>("size 16 align 16 drop"),
    kind::<GD<A16, 32, 2119>>("size 32 align 16 drop"),
    kind::<GD<A16, 80, 2120>>("size 80 align 16 drop"),
    kind::<GD<A16, 144, 2121>>("size 144 align 16 drop"),
    kind::<GD<A32, 0, 2122>>("size 0 align 32 drop"),
    kind::<GD<A32, 32, 2123>>("size 32 align 32 drop"),
    kind::<GD<A32, 64, 2124>>("size 64 align 32 drop"),
    kind::<GD<A32, 96, 2125>>("size 96 align 32 drop"),
    kind::<GD<A32, 2080, 2126>>("size 2080 align 32 drop"),
    kind::<GD<A64, 0, 2127>>("size 0 align 64 drop"),
    kind::<GD<A64, 64, 2128>>("size 64 align 64 drop"),
    kind::<GD<A64, 128, 2129>>("size 128 align 64 drop"),
    kind::<GD<A64, 192, 2130>>("size 192 align 64 drop"),
    kind::<GD<A64, 4160, 2131>>("size 4160 align 64 drop"),
    kind::<GD<A128, 0, 2132>>("size 0 align 128 drop"),
    kind::<GD<A128, 128, 2133>>("size 128 align 128 drop"),
    kind::<GD<A128, 256, 2134>>("size 256 align 128 drop"),
    kind::<GD<A128, 384, 2135>>("size 384 align 128 drop"),
    kind::<GD<A256, 0, 2136>>("size 0 align 256 drop"),
    kind::<GD<A256, 256, 2137>>("size 256 align 256 drop"),
    kind::<GD<A256, 512, 2138>>("size 512 align 256 drop"),
    kind::<GD<A512, 0, 2139>>("size 0 align 512 drop"),
    kind::<GD<A512, 512, 2140>>("size 512 align 512 drop"),
    kind::<GD<A512, 1536, 2141>>("size 1536 align 512 drop"),
    kind::<GD<A1024, 0, 2142>>("size 0 align 1024 drop"),
    kind::<GD<A1024, 1024, 2143>>("size 1024 align 1024 drop"),
    kind::<GD<A4096, 0, 2144>>("size 0 align 4096 drop"),
    kind::<GD<A4096, 4096, 2145>>("size 4096 align 4096 drop"),
    kind::<GD<A4096, 8192, 2146>>("size 8192 align 4096 drop"),
    kind::<GD<A65536, 0, 2147>>("size 0 align 65536 drop"),
    kind::<GD<A65536, 65536, 2148>>("size 65536 align 65536 drop"),
];

struct Ent {
    id: EcsId,
    has: BTreeMap<usize, u64>,
}
struct Small {
    w: World,
    r: Rng,
    n: u64,
    /// types in use, and the component entity of each once known
    ts: Vec<usize>,
    ids: BTreeMap<usize, EcsId>,
    es: Vec<Ent>,
    ops: u64,
}
type E = Result<(), (u32, String)>;
fn bad(t: u32, m: String) -> E {
    Err((t, m))
}
impl Small {
    fn val(&mut self, g: usize) -> u64 {
        self.n += 1;
        match GRID[g].mask {
            u64::MAX => self.n | 7 << 40,
            m => mix(self.n) & m,
        }
    }
    fn entity(&mut self, i: usize) -> E {
        let e = &self.es[i];
        for &g in &self.ts {
            let k = &GRID[g];
            let want = e.has.get(&g).copied();
            if (k.has)(&self.w, e.id) != want.is_some() {
                return bad(c(2), format!("has_component of {} is {}", k.name, want.is_none()));
            }
            let got = (k.get)(&self.w, e.id);
            if got != want {
                return bad(c(2) | c(3) | c(4), format!("lookup of {} finds {got:x?}, last written was {want:x?}", k.name));
            }
            if let Some(&id) = self.ids.get(&g) {
                let p = self.w.get_component_mut_dynamic(e.id, id);
                if p.is_some() != want.is_some() {
                    return bad(c(2), format!("get_component_mut_dynamic of {} finds {p:x?}, last written was {want:x?}", k.name));
                }
                if let Some(p) = p {
                    let got = unsafe { (k.read_ptr)(p) };
                    if Some(got) != want {
                        return bad(c(2) | c(4), format!("the pointer to {} reads {got:#x}, last written was {want:x?}", k.name));
                    }
                }
            }
        }
        self.ledgers()
    }
    fn ledgers(&self) -> E {
        let (mut tokens, mut small) = (0usize, BTreeMap::<usize, i64>::new());
        for e in &self.es {
            for &g in e.has.keys() {
                if GRID[g].drops {
                    if GRID[g].size >= 8 {
                        tokens += 1
                    } else {
                        *small.entry(g).or_default() += 1
                    }
                }
            }
        }
        if let Some(e) = ledger::take_error() {
            let t = if e.contains("destructor") { c(5) | c(6) } else { c(6) };
            return bad(t | if e.contains("bytes of") { c(2) | c(4) } else { 0 }, e);
        }
        if ledger::live_count() != tokens {
            return bad(c(5), format!("{} values with a destructor are alive, entities own {tokens}", ledger::live_count()));
        }
        for &g in &self.ts {
            if GRID[g].drops && GRID[g].size < 8 {
                let (a, b) = (ledger::zst_live(2000 + g as u16), small.get(&g).copied().unwrap_or(0));
                if a != b {
                    return bad(c(5), format!("{a} values of {} are alive, entities own {b}", GRID[g].name));
                }
            }
        }
        if let Some(e) = alloc::first_error() {
            return bad(c(6), format!("allocator monitor: {e}"));
        }
        Ok(())
    }
    fn columns(&mut self) -> E {
        for &g in &self.ts {
            let k = &GRID[g];
            let mut want: Vec<(u64, u64)> = self.es.iter().filter_map(|e| e.has.get(&g).map(|&v| (e.id.as_u64(), v))).collect();
            want.sort();
            let mut got = vec![];
            (k.iter)(&self.w, &mut |e, v| got.push((e.as_u64(), v)));
            got.sort();
            if got != want {
                return bad(c(3) | c(4), format!("a query for {} yields {got:x?}, should be {want:x?}", k.name));
            }
            if let Some(&id) = self.ids.get(&g) {
                let mut got = vec![];
                let _ = dyn_iter(&self.w, &[F::Ref(id), F::Id], Plan { collect: true, ..ONCE }, &mut |p, _| {
                    let e = unsafe { *(p[1] as *const EcsId) };
                    got.push((e.as_u64(), unsafe { (k.read_ptr)(p[0]) }));
                    true
                });
                got.sort();
                if got != want {
                    return bad(c(3) | c(4) | c(9), format!("a dynamic query for {} yields {got:x?}, should be {want:x?}", k.name));
                }
                let mut got = vec![];
                let _ = dyn_cols(&self.w, &[F::Mut(id), F::Id], &mut |s| {
                    for i in 0..s[1].1 {
                        let e = unsafe { *(s[1].0 as *const EcsId).add(i) };
                        got.push((e.as_u64(), unsafe { (k.read_ptr)(s[0].0.wrapping_add(i * k.size)) }));
                    }
                    true
                });
                got.sort();
                if got != want {
                    return bad(c(3) | c(4) | c(9), format!("the columns of {} hold {got:x?}, should be {want:x?}", k.name));
                }
            }
        }
        self.ledgers()
    }
    fn id(&mut self, g: usize) -> Result<EcsId, (u32, String)> {
        let id = (GRID[g].reg)(&mut self.w);
        match self.ids.insert(g, id) {
            Some(o) if o != id => Err((c(13), format!("{} is component {o} and later {id}", GRID[g].name))),
            _ => Ok(id),
        }
    }
    fn op(&mut self) -> E {
        self.ops += 1;
        let n = self.es.len();
        match self.r.below(if n < 3 { 1 } else { 12 }) {
            0 | 1 | 2 => {
                let ids: BTreeMap<usize, EcsId> = self.ids.clone();
                let mut set = vec![];
                for &g in &self.ts {
                    if self.r.pct(60) {
                        set.push(g)
                    }
                }
                self.r.shuffle(&mut set);
                let vs: Vec<(usize, u64)> = set.iter().map(|&g| (g, self.val(g))).collect();
                let mut b = if self.r.pct(50) { self.w.spawn() } else { self.w.spawn_with_capacity(vs.len()) };
                for &(g, v) in &vs {
                    b = match ids.get(&g) {
                        Some(&id) if v % 3 == 0 => unsafe { (GRID[g].with_raw)(b, id, v) },
                        _ => (GRID[g].with)(b, v),
                    };
                }
                let id = b.build();
                drop(b);
                self.es.push(Ent { id, has: vs.into_iter().collect() });
                return self.entity(n);
            }
            3 | 4 | 5 => {
                let (i, g) = (self.r.below(n), self.ts[self.r.below(self.ts.len())]);
                if !self.es[i].has.contains_key(&g) {
                    let (v, e) = (self.val(g), self.es[i].id);
                    if self.r.pct(40) {
                        let id = self.id(g)?;
                        unsafe { (GRID[g].add_raw)(&mut self.w, e, id, v) }
                    } else {
                        (GRID[g].add)(&mut self.w, e, v)
                    }
                    self.es[i].has.insert(g, v);
                }
                self.entity(i)?;
            }
            6 | 7 | 8 => {
                let i = self.r.below(n);
                let l: Vec<usize> = self.es[i].has.keys().copied().collect();
                if !l.is_empty() {
                    let (g, e) = (l[self.r.below(l.len())], self.es[i].id);
                    if self.r.pct(40) {
                        let id = self.id(g)?;
                        self.w.remove_component_dynamic(e, id)
                    } else {
                        (GRID[g].remove)(&mut self.w, e)
                    }
                    self.es[i].has.remove(&g);
                }
                self.entity(i)?;
            }
            9 => {
                let i = self.r.below(n);
                let e = self.es.swap_remove(i);
                if !self.w.despawn(e.id) || self.w.is_alive(e.id) {
                    return bad(c(1), format!("{} was not despawned", e.id));
                }
                self.ledgers()?;
            }
            _ => {
                let i = self.r.below(n);
                let l: Vec<usize> = self.es[i].has.keys().copied().collect();
                if !l.is_empty() {
                    let (g, e) = (l[self.r.below(l.len())], self.es[i].id);
                    let v = self.val(g);
                    if self.r.pct(50) {
                        (GRID[g].get_mut)(&self.w, e, Some(v));
                    } else {
                        let id = self.id(g)?;
                        match self.w.get_component_mut_dynamic(e, id) {
                            Some(p) => unsafe { (GRID[g].write_ptr)(p, v) },
                            None => return bad(c(2), format!("get_component_mut_dynamic finds no {}", GRID[g].name)),
                        }
                    }
                    self.es[i].has.insert(g, v);
                    self.entity(i)?;
                }
            }
        }
        let i = self.r.below(self.es.len());
        self.entity(i)
    }
}

/// One history over type `first` and some others.
pub fn run(seed: u64, idx: u64) -> (Option<Vio>, u64, u64) {
    ledger::reset();
    alloc::reset();
    let mut r = Rng::new(mix(seed ^ mix(idx ^ 0x9714)));
    let first = (idx as usize * 37) % GRID.len();
    let mut ts = vec![first];
    for _ in 0..if r.pct(25) { 0 } else { r.range(1, 8) } {
        let g = r.below(GRID.len());
        if !ts.contains(&g) {
            ts.push(g)
        }
    }
    // the two largest sizes cost as much as a hundred others
    let big: usize = ts.iter().map(|&g| GRID[g].size / 20000).sum();
    let ops = if cfg!(miri) { 12 } else { r.range(10, 60) / (1 + big) + 4 };
    let names: Vec<&str> = ts.iter().map(|&g| GRID[g].name).collect();
    let mut s = Small { w: World::new(), r, n: 0, ts, ids: BTreeMap::new(), es: vec![], ops: 0 };
    let mut done = 0;
    let res = attempt(|| -> E {
        for i in 0..ops {
            s.op()?;
            done = i;
            if i % 12 == 11 {
                s.columns()?;
            }
        }
        s.columns()?;
        s.w = World::new();
        s.es.clear();
        s.ledgers()
    });
    let trace = mix(idx ^ mix(s.n ^ mix(s.ops ^ mix(ledger::with(|l| l.made ^ l.drops << 20 ^ l.reads << 40)))));
    let v = match res {
        Ok(Ok(())) => None,
        Ok(Err((t, m))) => Some((t, m)),
        Err(m) => Some((c(2) | c(6), format!("panicked: {m}"))),
    };
    let v = v.map(|(tags, m)| Vio { tags, sus: 0, what: format!("operation {done} on components {names:?}: {m}"), step: 0 });
    if v.is_some() {
        std::mem::forget(s);
    }
    (v, trace, ops as u64)
}
