//! UntypedVec against `Vec<u64>` models (C11, C12).
use crate::engine::{attempt, c, call, vio, Class, R};
use crate::kinds::*;
use crate::rng::{mix, Rng};
use crate::drive::Beat;
use crate::{alloc, ledger};
use std::alloc::Layout;
use std::sync::atomic::Ordering;
use untyped_vec::{TypeInfo, UntypedVec};

#[derive(Default, Clone, Debug)]
pub struct VStat {
    pub hist: u64,
    pub push: u64,
    pub pop: u64,
    pub swap_remove: u64,
    pub moves: u64,
    pub grows: u64,
    pub refused_zst: u64,
    pub reads: u64,
    pub writes: u64,
    pub slices: u64,
    pub empty_probes: u64,
    pub oob_probes: u64,
    pub rejected: u64,
    pub bombs: u64,
    pub drop_bombs: u64,
    pub vec_drops: u64,
    pub drops_seen: u64,
    pub allocs: u64,
    pub max_len: u64,
    pub trace: u64,
    pub steps: u64,
    /// which element classes
    pub classes: std::collections::BTreeSet<u16>,
}
impl VStat {
    fn f(&mut self) -> [(&'static str, &mut u64); 19] {
        [
            ("hist", &mut self.hist), ("push", &mut self.push), ("pop", &mut self.pop), ("swap_remove", &mut self.swap_remove),
            ("moves", &mut self.moves), ("grows", &mut self.grows), ("zero_size_reallocs", &mut self.refused_zst), ("reads", &mut self.reads), ("writes", &mut self.writes),
            ("slices", &mut self.slices), ("empty_probes", &mut self.empty_probes), ("oob_probes", &mut self.oob_probes),
            ("rejected", &mut self.rejected), ("bombs", &mut self.bombs), ("drop_bombs", &mut self.drop_bombs), ("vec_drops", &mut self.vec_drops),
            ("drops_seen", &mut self.drops_seen), ("allocs", &mut self.allocs), ("max_len", &mut self.max_len),
        ]
    }
    pub fn merge(&mut self, o: &VStat) {
        let mut o = o.clone();
        self.classes.extend(&o.classes);
        for ((n, a), (_, b)) in self.f().into_iter().zip(o.f()) {
            match n {
                "max_len" => *a = (*a).max(*b),
                _ => *a += *b,
            }
        }
    }
    pub fn json(&self) -> String {
        let mut s = self.clone();
        let v: Vec<String> = s.f().into_iter().map(|(n, v)| format!("\"{n}\":{}", *v)).collect();
        format!("{{{},\"classes\":{}}}", v.join(","), self.classes.len())
    }
}

fn info(cl: Class, nodrop: bool) -> TypeInfo {
    let (layout, d) = match cl {
        Class::Typed(k) => {
            let k = &KINDS[k as usize];
            (Layout::from_size_align(k.size, k.align).unwrap(), Some(k.drop_fn))
        }
        Class::Dyn(d) => (Layout::from_size_align(DYN[d as usize].size, DYN[d as usize].align).unwrap(), DYN[d as usize].drop),
        Class::Tag => (Layout::new::<()>(), None),
    };
    TypeInfo::new(layout, if nodrop { None } else { d })
}

pub fn run(seed: u64, idx: u64, tiny: bool, verbose: bool, beat: Option<&Beat>, st: &mut VStat) -> R<()> {
    ledger::reset();
    alloc::reset();
    let mut r = Rng::new(mix(seed ^ mix(idx) ^ 0x7ec5));
    let nodrop;
    let cl = if r.pct(55) { Class::Typed(r.below(NK) as u16) } else { Class::Dyn(r.below(DYN.len()) as u16) };
    // leaking is only harmless for plain tokens
    nodrop = r.pct(8) && match cl {
        Class::Dyn(d) => DYN[d as usize].drop.is_some(),
        _ => matches!(cl, Class::Typed(14) | Class::Typed(17) | Class::Typed(12)),
    };
    st.classes.insert(match cl {
        Class::Typed(k) => k,
        Class::Dyn(d) => NK as u16 + d,
        Class::Tag => u16::MAX,
    });
    let ti = info(cl, nodrop);
    let nv = r.range(1, 3);
    let size = cl.size();
    let (ops, big) = if tiny {
        (r.range(20, 60), false)
    } else if r.pct(4) {
        (r.range(2000, 6000), true)
    } else {
        (r.range(30, 400), false)
    };
    let grow_bias = r.range(30, 75);
    let mut h = H { vs: vec![], m: vec![], cl, r, ctr: 0, st, nodrop, leaked: 0, tok: idx << 24 & 0xffff_ffff_ffff };
    for i in 0..nv {
        let v = if i > 0 && h.r.pct(40) {
            let f = &mut h.vs[0];
            call(c(11), "new_from_untyped_vec", || UntypedVec::new_from_untyped_vec(f))?
        } else {
            let t = ti.clone();
            call(c(11), "new_from_raw", || unsafe { UntypedVec::new_from_raw(t) })?
        };
        if v.get_type_info().layout != ti.layout || v.get_type_info().drop_fn.is_some() != ti.drop_fn.is_some() {
            return vio(c(11) | c(12), "new vector has another type info");
        }
        h.vs.push(v);
        h.m.push(vec![]);
    }
    if verbose {
        eprintln!("class {cl:?} size {size} align {} nodrop {nodrop} vecs {nv} ops {ops}", cl.align());
    }
    for s in 0..ops {
        if let Some(b) = beat {
            b.step.store(s as u64 + 1, Ordering::Relaxed);
        }
        let res = h.step(grow_bias, verbose).and_then(|_| h.drain()).and_then(|_| {
            if !big || s % 64 == 0 {
                h.check(s)
            } else {
                Ok(())
            }
        });
        if let Err(mut v) = res {
            v.what = format!("step {s} on {cl:?} (size {size}, align {}): {}", cl.align(), v.what);
            std::mem::forget(h.vs);
            return Err(v);
        }
        if h.r.pct(1) {
            h.replace()?;
        }
    }
    h.st.hist += 1;
    let vs = std::mem::take(&mut h.vs);
    for (i, v) in vs.into_iter().enumerate() {
        h.drop_vec(v, i)?;
        if h.nodrop {
            h.leaked += h.m[i].len();
        }
        h.m[i].clear();
        h.st.vec_drops += 1;
        h.drain()?;
        h.owned()?;
    }
    let s = alloc::stats();
    h.st.allocs = s.allocs;
    if alloc::ACTIVE && (s.live_bytes != 0 || s.live_blocks != 0) {
        return vio(c(12), format!("{cl:?}: {} bytes in {} blocks not returned when the vectors were dropped", s.live_bytes, s.live_blocks));
    }
    Ok(())
}

struct H<'a> {
    vs: Vec<UntypedVec>,
    m: Vec<Vec<u64>>,
    cl: Class,
    r: Rng,
    ctr: u64,
    st: &'a mut VStat,
    nodrop: bool,
    /// values given up by vectors without destructor
    leaked: usize,
    tok: u64,
}
impl H<'_> {
    fn fresh(&mut self) -> u64 {
        self.ctr += 1;
        let v = self.ctr | self.tok;
        match self.cl.mask() {
            u64::MAX => v,
            0 => 0,
            m => mix(v) & m,
        }
    }
    fn drain(&mut self) -> R<()> {
        if let Some(e) = ledger::take_error() {
            let mut t = c(12);
            if e.contains("bytes of") {
                t |= c(11)
            }
            return vio(t, e);
        }
        if let Some(e) = alloc::first_error() {
            return vio(c(12), format!("allocator monitor: {e}"));
        }
        Ok(())
    }
    fn push(&mut self, i: usize, x: u64) -> R<()> {
        let (cl, v) = (self.cl, &mut self.vs[i]);
        call(c(11), "push_raw", || unsafe {
            match cl {
                Class::Typed(k) => (KINDS[k as usize].vec_push)(v, x),
                Class::Dyn(d) => {
                    let mut b = DYN[d as usize].make(x);
                    v.push_raw(b.ptr() as *mut _);
                    alloc::untrack(|| drop(b));
                }
                Class::Tag => {}
            }
        })
    }
    /// sometimes one of the destructors panics: the others still have to run
    fn drop_vec(&mut self, v: UntypedVec, i: usize) -> R<()> {
        let n = self.m[i].len();
        let bomb = match self.cl.drops() {
            Some(k) if n > 0 && !self.nodrop && !cfg!(no_bombs) && self.r.pct(25) => Some(k),
            _ => None,
        };
        let Some(k) = bomb else { return call(c(12), "dropping a vector", || drop(v)) };
        let x = self.m[i][self.r.below(n)];
        ledger::with(|l| if self.cl.size() == 0 { l.zst_bomb = Some(k) } else { l.bombs.push(x) });
        let res = attempt(|| drop(v));
        ledger::with(|l| {
            l.zst_bomb = None;
            l.bombs.clear()
        });
        match res {
            Err(e) if e != "bomb" => vio(c(12), format!("a panicking destructor in a vector's drop caused another panic: {e}")),
            res => {
                self.st.drop_bombs += res.is_err() as u64;
                Ok(())
            }
        }
    }
    fn replace(&mut self) -> R<()> {
        let i = self.r.below(self.vs.len());
        let t = info(self.cl, self.nodrop);
        let v = unsafe { UntypedVec::new_from_raw(t) };
        let old = std::mem::replace(&mut self.vs[i], v);
        self.drop_vec(old, i)?;
        if self.nodrop {
            self.leaked += self.m[i].len();
        }
        self.m[i].clear();
        self.st.vec_drops += 1;
        self.drain()?;
        self.owned()
    }
    fn step(&mut self, bias: usize, verbose: bool) -> R<()> {
        let n = self.vs.len();
        let i = self.r.below(n);
        let len = self.m[i].len();
        let op = if self.r.pct(bias) { 0 } else { self.r.range(1, 12) };
        self.st.steps += 1;
        self.st.trace = mix(self.st.trace ^ (op as u64) << 32 ^ (i as u64) << 40 ^ len as u64 ^ (self.cl.size() as u64) << 16);
        if verbose {
            eprintln!("  op {op} on {i} (len {len})");
        }
        match op {
            0 => {
                let burst = if self.r.pct(5) { self.r.range(1, 40) } else { 1 };
                for _ in 0..burst {
                    let x = self.fresh();
                    self.push(i, x)?;
                    self.m[i].push(x);
                    self.st.push += 1;
                }
            }
            1 | 2 => {
                let v = &mut self.vs[i];
                let got = call(c(11), "pop", || v.pop())?;
                if got != (len > 0) {
                    return vio(c(11), format!("pop on a vector of {len} returned {got}"));
                }
                if len == 0 {
                    self.st.empty_probes += 1;
                } else {
                    self.m[i].pop();
                    self.gone(1);
                    self.st.pop += 1;
                }
            }
            3 | 4 => {
                if len == 0 {
                    return Ok(());
                }
                let j = if self.r.pct(20) { len - 1 } else { self.r.below(len) };
                let v = &mut self.vs[i];
                call(c(11), "swap_remove", || v.swap_remove(j))?;
                self.m[i].swap_remove(j);
                self.gone(1);
                self.st.swap_remove += 1;
            }
            5 | 6 => {
                if len == 0 || n < 2 {
                    return Ok(());
                }
                let j = if self.r.pct(20) { len - 1 } else { self.r.below(len) };
                let o = (i + self.r.range(1, n - 1)) % n;
                let (a, b) = two(&mut self.vs, i, o);
                call(c(11), "swap_move_element_to_other_vec", || unsafe { a.swap_move_element_to_other_vec(b, j) })?;
                let x = self.m[i].swap_remove(j);
                self.m[o].push(x);
                self.st.moves += 1;
            }
            7 => {
                if self.r.pct(80) {
                    return Ok(());
                }
                let v = &mut self.vs[i];
                if self.cl.size() == 0 {
                    // there is nothing to grow: the call may say so (it panics), but it must not
                    // ask for storage of size zero, nor disturb what is stored
                    let _ = attempt(|| v.realloc());
                    self.st.refused_zst += 1;
                    return Ok(());
                }
                call(c(11) | c(12), "realloc", || v.realloc())?;
                self.st.grows += 1;
            }
            8 | 9 => {
                if len == 0 {
                    return Ok(());
                }
                // replace one element through a mutable view
                let j = self.r.below(len);
                let x = self.fresh();
                let (cl, nodrop, how) = (self.cl, self.nodrop, self.r.below(3));
                if nodrop {
                    return Ok(());
                }
                let v = &mut self.vs[i];
                let ok = call(c(11), "writing through a view", || unsafe {
                    match (how, cl) {
                        (0, Class::Typed(k)) => (KINDS[k as usize].vec_slice_set)(v, j, x) == len,
                        (1, _) => match v.get_mut_raw(j) {
                            None => false,
                            Some(p) => {
                                cl.write(p, x);
                                true
                            }
                        },
                        _ => {
                            let p = v.as_mut_ptr();
                            cl.write(p.wrapping_add(j * cl.size()), x);
                            true
                        }
                    }
                })?;
                if !ok {
                    return vio(c(11), format!("mutable view of element {j} of {len} is missing, or has another length"));
                }
                self.m[i][j] = x;
                self.st.writes += 1;
            }
            10 => {
                // out of range
                let j = len + self.r.below(3) * 7;
                let v = &mut self.vs[i];
                let (a, b) = call(c(11), "get_raw out of range", || (v.get_raw(j).is_some(), v.get_mut_raw(j).is_some()))?;
                if a || b {
                    return vio(c(11), format!("element {j} of a vector of {len} is not reported absent"));
                }
                self.st.oob_probes += 1;
                if self.r.pct(50) {
                    let v = &mut self.vs[i];
                    if attempt(|| v.swap_remove(j)).is_ok() {
                        return vio(c(11) | c(12), format!("swap_remove of element {j} of a vector of {len} was accepted"));
                    }
                    self.st.rejected += 1;
                }
                if n > 1 && self.r.pct(50) {
                    let (a, b) = two(&mut self.vs, i, (i + 1) % n);
                    if attempt(|| unsafe { a.swap_move_element_to_other_vec(b, j) }).is_ok() {
                        return vio(c(11) | c(12), format!("moving element {j} of a vector of {len} was accepted"));
                    }
                    self.st.rejected += 1;
                }
            }
            11 => {
                // a destructor that panics
                let Some(k) = self.cl.drops() else { return Ok(()) };
                if len == 0 || self.nodrop || cfg!(no_bombs) {
                    return Ok(());
                }
                let pop = self.r.pct(40);
                let j = if pop { len - 1 } else { self.r.below(len) };
                let x = self.m[i][j];
                ledger::with(|l| if self.cl.size() == 0 { l.zst_bomb = Some(k) } else { l.bombs.push(x) });
                let v = &mut self.vs[i];
                let res = attempt(|| if pop { v.pop(); } else { v.swap_remove(j) });
                ledger::with(|l| {
                    l.zst_bomb = None;
                    l.bombs.clear()
                });
                if let Err(e) = res {
                    if e != "bomb" {
                        return vio(c(12), format!("a panicking destructor caused another panic: {e}"));
                    }
                    self.st.bombs += 1;
                }
                self.m[i].swap_remove(j);
            }
            _ => {
                // the vector itself moves
                let mut v = self.vs.swap_remove(i);
                let m = self.m.swap_remove(i);
                v = *Box::new(v);
                self.vs.push(v);
                self.m.push(m);
            }
        }
        self.st.max_len = self.st.max_len.max(self.m.iter().map(|m| m.len() as u64).max().unwrap());
        Ok(())
    }
    fn gone(&mut self, n: usize) {
        if self.nodrop {
            self.leaked += n
        }
    }
    fn check(&mut self, s: usize) -> R<()> {
        let (size, cl) = (self.cl.size(), self.cl);
        for i in 0..self.vs.len() {
            let v = &mut self.vs[i];
            let m = &self.m[i];
            let len = call(c(11), "len", || (v.len(), v.raw_len(), v.is_empty()))?;
            if len.0 != m.len() || len.2 != m.is_empty() {
                return vio(c(11), format!("length {} (empty: {}), a typed vector has {}", len.0, len.2, m.len()));
            }
            if size > 0 && len.1 != m.len() * size {
                return vio(c(11), format!("raw length {} for {} elements of {size} bytes", len.1, m.len()));
            }
            let base = call(c(11) | c(12), "as_mut_ptr", || unsafe { (v.as_immut_ptr() as usize, v.as_mut_ptr() as usize) })?;
            if base.0 % cl.align() != 0 || base.1 != base.0 || base.0 == 0 {
                return vio(c(12), format!("base pointers {base:x?} of a vector of {} are not aligned to {} (or differ)", m.len(), cl.align()));
            }
            let all = m.len() < 64 || s % 16 == 0;
            for (j, &x) in m.iter().enumerate() {
                if !all && j > 2 && j + 3 < m.len() && self.r.pct(90) {
                    continue;
                }
                let p = call(c(11), "get_raw", || (v.get_raw(j), v.get_mut_raw(j)))?;
                let (Some(a), Some(b)) = p else { return vio(c(11), format!("element {j} of {} is reported absent", m.len())) };
                if a as usize != b as usize || a as usize != base.0 + j * size {
                    return vio(c(11), format!("element {j} is at {a:p} / {b:p}, base {:#x}", base.0));
                }
                let got = unsafe { cl.read(a) };
                if got != x {
                    return vio(c(11), format!("element {j} of {} reads {got:#x}, a typed vector holds {x:#x}", m.len()));
                }
                self.st.reads += 1;
            }
            if let (Class::Typed(k), true) = (cl, all) {
                let got = call(c(11), "as_slice", || unsafe { (KINDS[k as usize].vec_slice)(v) })?;
                if &got != m {
                    return vio(c(11), format!("slice has {} elements {:x?}.., a typed vector has {} {:x?}..", got.len(), &got[..got.len().min(4)], m.len(), &m[..m.len().min(4)]));
                }
                self.st.slices += 1;
            }
        }
        self.drain()?;
        self.owned()
    }
    /// destructor ledger against the models
    fn owned(&mut self) -> R<()> {
        let n: usize = self.m.iter().map(|m| m.len()).sum::<usize>() + self.leaked;
        if let Some(k) = self.cl.drops() {
            let live = if self.cl.size() == 0 { ledger::zst_live(k) as usize } else { ledger::live_count() };
            if live != n {
                return vio(c(12), format!("{live} elements have not been dropped, the vectors own {n}"));
            }
        }
        self.st.drops_seen += 1;
        Ok(())
    }
}
fn two(v: &mut [UntypedVec], a: usize, b: usize) -> (&mut UntypedVec, &mut UntypedVec) {
    assert!(a != b);
    if a < b {
        let (l, r) = v.split_at_mut(b);
        (&mut l[a], &mut r[0])
    } else {
        let (l, r) = v.split_at_mut(a);
        (&mut r[0], &mut l[b])
    }
}
