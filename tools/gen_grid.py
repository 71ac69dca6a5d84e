plain=[]; drops=[]
A={1:[0,1,2,3,5,6,7,9,11,13,17,31,33,63,65,127,129,255,1023,4097,66001],2:[0,2,6,10,1026],4:[0,4,12,20,36,1020],8:[0,8,16,24,32,40,48,56,64,72,96,120,128,136,256,264,512,520,2048,4104],
16:[0,16,32,48,80,128,144,1040],32:[0,32,64,96,2080],64:[0,64,128,192,4160],128:[0,128,256,384],256:[0,256,512],512:[0,512,1536],1024:[0,1024],4096:[0,4096,8192],65536:[0,65536]}
n=0;out=[]
for a,l in A.items():
    for s in l:
        out.append((a,s,n,False)); n+=1
for a,l in A.items():
    for i,s in enumerate(l):
        if a>=32 or i%2==0 or s in (8,16,24,2): out.append((a,s,n,True)); n+=1

lines=[]
for a,s,k,d in out:
    lines.append(f"    kind::<{'GD' if d else 'G'}<A{a}, {s}, {2000+k}>>(\"size {s} align {a}{' drop' if d else ''}\"),")
body="\n".join(lines)
marks="\n".join(f"#[repr(align({a}))]\npub struct A{a};" for a in A)
open('' + __import__('os').path.dirname(__file__) + '/../harness/src/grid.rs','w').write(f'''//! Written by tools/gen_grid.py. Types of every alignment and many sizes, with and without a destructor, in small histories: what the
//! library does for a type is decided by its size, alignment and need of a destructor.
use crate::engine::{{attempt, c, Vio}};
use crate::kinds::*;
use crate::queries::*;
use crate::rng::{{mix, Rng}};
use crate::{{alloc, ledger}};
use arche_tape::{{EcsId, World}};
use std::collections::BTreeMap;
use std::hint::black_box;

{marks}
/// plain bytes
#[repr(C)]
pub struct G<A, const S: usize, const KEY: u16>([A; 0], [u8; S]);
/// with a destructor: of 8 bytes and more a token, of less counted
#[repr(C)]
pub struct GD<A, const S: usize, const KEY: u16>([A; 0], [u8; S]);

const fn mask(s: usize) -> u64 {{
    if s >= 8 {{
        u64::MAX
    }} else {{
        (1 << (8 * s)) - 1
    }}
}}
/// large values are looked at here and there
fn step(s: usize) -> usize {{
    if cfg!(miri) {{
        s.max(1)
    }} else {{
        1 + s / 97
    }}
}}
fn put<const S: usize>(v: u64) -> [u8; S] {{
    let mut b = [0xA5; S];
    for i in 0..S.min(8) {{
        b[i] = (v >> (8 * i)) as u8
    }}
    for i in (8..S).step_by(step(S)) {{
        b[i] = fill(v, i)
    }}
    if S > 8 {{
        b[S - 1] = fill(v, S)
    }}
    b
}}
fn take<const S: usize>(b: &[u8; S]) -> Option<u64> {{
    let mut v = 0;
    for i in 0..S.min(8) {{
        v |= (b[i] as u64) << (8 * i)
    }}
    let ok = S <= 8 || (b[S - 1] == fill(v, S) && (8..S - 1).step_by(step(S)).all(|i| b[i] == fill(v, i)));
    ok.then_some(v)
}}
impl<A: 'static, const S: usize, const KEY: u16> Comp for G<A, S, KEY> {{
    const K: u16 = KEY;
    const MASK: u64 = mask(S);
    fn make(v: u64) -> Self {{
        G([], put(v))
    }}
    fn val(&self) -> Option<u64> {{
        take(&self.1)
    }}
}}
impl<A: 'static, const S: usize, const KEY: u16> Comp for GD<A, S, KEY> {{
    const K: u16 = KEY;
    const MASK: u64 = mask(S);
    const DROPS: bool = true;
    fn make(v: u64) -> Self {{
        if S >= 8 {{
            ledger::make(v, KEY)
        }} else {{
            ledger::zst_make(KEY)
        }}
        GD([], put(v))
    }}
    fn val(&self) -> Option<u64> {{
        let v = take(&self.1);
        if let Some(v) = v {{
            if S >= 8 && !ledger::is_live(v) {{
                ledger::error(format!("component of size {{S}} and value {{v:#x}} is reachable after its destructor ran"));
            }}
        }}
        v
    }}
}}
impl<A, const S: usize, const KEY: u16> Drop for GD<A, S, KEY> {{
    fn drop(&mut self) {{
        let a = black_box(self as *const Self as usize);
        if a % std::mem::align_of::<Self>() != 0 {{
            ledger::error(format!("destructor of size {{S}} align {{}} ran at misaligned address", std::mem::align_of::<Self>()));
        }}
        match take(&self.1) {{
            None => ledger::error(format!("destructor of size {{S}} ran on corrupted bytes")),
            Some(v) => {{
                let _ = if S >= 8 {{ ledger::dropped(v, KEY) }} else {{ ledger::zst_drop(KEY) }};
            }}
        }}
    }}
}}

pub static GRID: [Kind; {n}] = [
{body}
];

struct Ent {{
    id: EcsId,
    has: BTreeMap<usize, u64>,
}}
struct Small {{
    w: World,
    r: Rng,
    n: u64,
    /// types in use, and the component entity of each once known
    ts: Vec<usize>,
    ids: BTreeMap<usize, EcsId>,
    es: Vec<Ent>,
    ops: u64,
}}
type E = Result<(), (u32, String)>;
fn bad(t: u32, m: String) -> E {{
    Err((t, m))
}}
impl Small {{
    fn val(&mut self, g: usize) -> u64 {{
        self.n += 1;
        match GRID[g].mask {{
            u64::MAX => self.n | 7 << 40,
            m => mix(self.n) & m,
        }}
    }}
    fn entity(&mut self, i: usize) -> E {{
        let e = &self.es[i];
        for &g in &self.ts {{
            let k = &GRID[g];
            let want = e.has.get(&g).copied();
            if (k.has)(&self.w, e.id) != want.is_some() {{
                return bad(c(2), format!("has_component of {{}} is {{}}", k.name, want.is_none()));
            }}
            let got = (k.get)(&self.w, e.id);
            if got != want {{
                return bad(c(2) | c(3) | c(4), format!("lookup of {{}} finds {{got:x?}}, last written was {{want:x?}}", k.name));
            }}
            if let Some(&id) = self.ids.get(&g) {{
                let p = self.w.get_component_mut_dynamic(e.id, id);
                if p.is_some() != want.is_some() {{
                    return bad(c(2), format!("get_component_mut_dynamic of {{}} finds {{p:x?}}, last written was {{want:x?}}", k.name));
                }}
                if let Some(p) = p {{
                    let got = unsafe {{ (k.read_ptr)(p) }};
                    if Some(got) != want {{
                        return bad(c(2) | c(4), format!("the pointer to {{}} reads {{got:#x}}, last written was {{want:x?}}", k.name));
                    }}
                }}
            }}
        }}
        self.ledgers()
    }}
    fn ledgers(&self) -> E {{
        let (mut tokens, mut small) = (0usize, BTreeMap::<usize, i64>::new());
        for e in &self.es {{
            for &g in e.has.keys() {{
                if GRID[g].drops {{
                    if GRID[g].size >= 8 {{
                        tokens += 1
                    }} else {{
                        *small.entry(g).or_default() += 1
                    }}
                }}
            }}
        }}
        if let Some(e) = ledger::take_error() {{
            let t = if e.contains("destructor") {{ c(5) | c(6) }} else {{ c(6) }};
            return bad(t | if e.contains("bytes of") {{ c(2) | c(4) }} else {{ 0 }}, e);
        }}
        if ledger::live_count() != tokens {{
            return bad(c(5), format!("{{}} values with a destructor are alive, entities own {{tokens}}", ledger::live_count()));
        }}
        for &g in &self.ts {{
            if GRID[g].drops && GRID[g].size < 8 {{
                let (a, b) = (ledger::zst_live(2000 + g as u16), small.get(&g).copied().unwrap_or(0));
                if a != b {{
                    return bad(c(5), format!("{{a}} values of {{}} are alive, entities own {{b}}", GRID[g].name));
                }}
            }}
        }}
        if let Some(e) = alloc::first_error() {{
            return bad(c(6), format!("allocator monitor: {{e}}"));
        }}
        Ok(())
    }}
    fn columns(&mut self) -> E {{
        for &g in &self.ts {{
            let k = &GRID[g];
            let mut want: Vec<(u64, u64)> = self.es.iter().filter_map(|e| e.has.get(&g).map(|&v| (e.id.as_u64(), v))).collect();
            want.sort();
            let mut got = vec![];
            (k.iter)(&self.w, &mut |e, v| got.push((e.as_u64(), v)));
            got.sort();
            if got != want {{
                return bad(c(3) | c(4), format!("a query for {{}} yields {{got:x?}}, should be {{want:x?}}", k.name));
            }}
            if let Some(&id) = self.ids.get(&g) {{
                let mut got = vec![];
                let _ = dyn_iter(&self.w, &[F::Ref(id), F::Id], Plan {{ collect: true, ..ONCE }}, &mut |p, _| {{
                    let e = unsafe {{ *(p[1] as *const EcsId) }};
                    got.push((e.as_u64(), unsafe {{ (k.read_ptr)(p[0]) }}));
                    true
                }});
                got.sort();
                if got != want {{
                    return bad(c(3) | c(4) | c(9), format!("a dynamic query for {{}} yields {{got:x?}}, should be {{want:x?}}", k.name));
                }}
                let mut got = vec![];
                let _ = dyn_cols(&self.w, &[F::Mut(id), F::Id], &mut |s| {{
                    for i in 0..s[1].1 {{
                        let e = unsafe {{ *(s[1].0 as *const EcsId).add(i) }};
                        got.push((e.as_u64(), unsafe {{ (k.read_ptr)(s[0].0.wrapping_add(i * k.size)) }}));
                    }}
                    true
                }});
                got.sort();
                if got != want {{
                    return bad(c(3) | c(4) | c(9), format!("the columns of {{}} hold {{got:x?}}, should be {{want:x?}}", k.name));
                }}
            }}
        }}
        self.ledgers()
    }}
    fn id(&mut self, g: usize) -> Result<EcsId, (u32, String)> {{
        let id = (GRID[g].reg)(&mut self.w);
        match self.ids.insert(g, id) {{
            Some(o) if o != id => Err((c(13), format!("{{}} is component {{o}} and later {{id}}", GRID[g].name))),
            _ => Ok(id),
        }}
    }}
    fn op(&mut self) -> E {{
        self.ops += 1;
        let n = self.es.len();
        match self.r.below(if n < 3 {{ 1 }} else {{ 12 }}) {{
            0 | 1 | 2 => {{
                let ids: BTreeMap<usize, EcsId> = self.ids.clone();
                let mut set = vec![];
                for &g in &self.ts {{
                    if self.r.pct(60) {{
                        set.push(g)
                    }}
                }}
                self.r.shuffle(&mut set);
                let vs: Vec<(usize, u64)> = set.iter().map(|&g| (g, self.val(g))).collect();
                let mut b = if self.r.pct(50) {{ self.w.spawn() }} else {{ self.w.spawn_with_capacity(vs.len()) }};
                for &(g, v) in &vs {{
                    b = match ids.get(&g) {{
                        Some(&id) if v % 3 == 0 => unsafe {{ (GRID[g].with_raw)(b, id, v) }},
                        _ => (GRID[g].with)(b, v),
                    }};
                }}
                let id = b.build();
                drop(b);
                self.es.push(Ent {{ id, has: vs.into_iter().collect() }});
                return self.entity(n);
            }}
            3 | 4 | 5 => {{
                let (i, g) = (self.r.below(n), self.ts[self.r.below(self.ts.len())]);
                if !self.es[i].has.contains_key(&g) {{
                    let (v, e) = (self.val(g), self.es[i].id);
                    if self.r.pct(40) {{
                        let id = self.id(g)?;
                        unsafe {{ (GRID[g].add_raw)(&mut self.w, e, id, v) }}
                    }} else {{
                        (GRID[g].add)(&mut self.w, e, v)
                    }}
                    self.es[i].has.insert(g, v);
                }}
                self.entity(i)?;
            }}
            6 | 7 | 8 => {{
                let i = self.r.below(n);
                let l: Vec<usize> = self.es[i].has.keys().copied().collect();
                if !l.is_empty() {{
                    let (g, e) = (l[self.r.below(l.len())], self.es[i].id);
                    if self.r.pct(40) {{
                        let id = self.id(g)?;
                        self.w.remove_component_dynamic(e, id)
                    }} else {{
                        (GRID[g].remove)(&mut self.w, e)
                    }}
                    self.es[i].has.remove(&g);
                }}
                self.entity(i)?;
            }}
            9 => {{
                let i = self.r.below(n);
                let e = self.es.swap_remove(i);
                if !self.w.despawn(e.id) || self.w.is_alive(e.id) {{
                    return bad(c(1), format!("{{}} was not despawned", e.id));
                }}
                self.ledgers()?;
            }}
            _ => {{
                let i = self.r.below(n);
                let l: Vec<usize> = self.es[i].has.keys().copied().collect();
                if !l.is_empty() {{
                    let (g, e) = (l[self.r.below(l.len())], self.es[i].id);
                    let v = self.val(g);
                    if self.r.pct(50) {{
                        (GRID[g].get_mut)(&self.w, e, Some(v));
                    }} else {{
                        let id = self.id(g)?;
                        match self.w.get_component_mut_dynamic(e, id) {{
                            Some(p) => unsafe {{ (GRID[g].write_ptr)(p, v) }},
                            None => return bad(c(2), format!("get_component_mut_dynamic finds no {{}}", GRID[g].name)),
                        }}
                    }}
                    self.es[i].has.insert(g, v);
                    self.entity(i)?;
                }}
            }}
        }}
        let i = self.r.below(self.es.len());
        self.entity(i)
    }}
}}

/// One history over type `first` and some others.
pub fn run(seed: u64, idx: u64) -> (Option<Vio>, u64, u64) {{
    ledger::reset();
    alloc::reset();
    let mut r = Rng::new(mix(seed ^ mix(idx ^ 0x9714)));
    let first = (idx as usize * 37) % GRID.len();
    let mut ts = vec![first];
    for _ in 0..if r.pct(25) {{ 0 }} else {{ r.range(1, 8) }} {{
        let g = r.below(GRID.len());
        if !ts.contains(&g) {{
            ts.push(g)
        }}
    }}
    // the two largest sizes cost as much as a hundred others
    let big: usize = ts.iter().map(|&g| GRID[g].size / 20000).sum();
    let ops = if cfg!(miri) {{ 12 }} else {{ r.range(10, 60) / (1 + big) + 4 }};
    let names: Vec<&str> = ts.iter().map(|&g| GRID[g].name).collect();
    let mut s = Small {{ w: World::new(), r, n: 0, ts, ids: BTreeMap::new(), es: vec![], ops: 0 }};
    let mut done = 0;
    let res = attempt(|| -> E {{
        for i in 0..ops {{
            s.op()?;
            done = i;
            if i % 12 == 11 {{
                s.columns()?;
            }}
        }}
        s.columns()?;
        s.w = World::new();
        s.es.clear();
        s.ledgers()
    }});
    let trace = mix(idx ^ mix(s.n ^ mix(s.ops ^ mix(ledger::with(|l| l.made ^ l.drops << 20 ^ l.reads << 40)))));
    let v = match res {{
        Ok(Ok(())) => None,
        Ok(Err((t, m))) => Some((t, m)),
        Err(m) => Some((c(2) | c(6), format!("panicked: {{m}}"))),
    }};
    let v = v.map(|(tags, m)| Vio {{ tags, sus: 0, what: format!("operation {{done}} on components {{names:?}}: {{m}}"), step: 0 }});
    if v.is_some() {{
        std::mem::forget(s);
    }}
    (v, trace, ops as u64)
}}
''')
