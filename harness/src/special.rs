//! Long-running and two-world monitors: cycles (C15), determinism and independence (C16), handle
//! histories longer than any random walk (C01).
use crate::drive::{Beat, Out};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::{alloc, ledger, profiles, Stat};
use arche_tape::World;

/// C15: the same cycle over and over on one world.
pub fn cycles(seed: u64, idx: u64, tiny: bool, verbose: bool, beat: &Beat) -> Out {
    ledger::reset();
    alloc::reset();
    let hs = mix(seed ^ mix(idx ^ 0xc1c1e));
    let mut r = Rng::new(hs);
    let mut p = profiles::profile(15, &mut r, tiny);
    p.bulk = 0;
    p.w.despawn_used = 0;
    p.ops = p.ops.min(120);
    let ops = p.ops;
    let mut out = Out { shape: "cycles".into(), ..Out::default() };
    let mut h = match Hist::new(hs, p, 1, 0) {
        Ok(h) => h,
        Err(v) => return out.with(15, v),
    };
    h.verbose = verbose;
    for _ in 0..ops {
        beat.tick();
        if let Err(v) = h.step() {
            std::mem::forget(h.w.take());
            out.st = Some(h.st);
            return out.with(15, v);
        }
    }
    // how many cycles: long runs of short cycles reach past initial capacities
    // large populations pass every internal capacity, many cycles show slow growth
    let (size, exp) = *r.pick(&[(2, 11), (6, 10), (12, 9), (30, 8), (90, 7), (2, 12), (900, 4), (6000, 2)]);
    let (size, exp) = if tiny { (2, 4) } else { (size, exp) };
    let res = (|| {
        let (base, cy) = h.make_cycle(&mut r, size)?;
        if verbose {
            eprintln!("{cy:?}");
        }
        // live bytes after 1, 2, 4, 8 ... cycles
        let mut marks: Vec<i64> = vec![];
        let mut peaks: Vec<usize> = vec![];
        for n in 1..=(1u64 << exp) {
            beat.tick();
            h.cycle(&base, &cy)?;
            if n.is_power_of_two() {
                marks.push(alloc::stats().live_bytes);
                peaks.push(h.peak_index());
            }
            out.add("cycles", 1);
        }
        if verbose {
            eprintln!("live bytes after 1, 2, 4, ... cycles: {marks:?}");
        }
        out.add("max_live_bytes", *marks.iter().max().unwrap() as u64);
        let n = marks.len();
        // growth in each of the last three doublings is no warm-up
        if n >= 5 && (n - 3..n).all(|i| marks[i] > marks[i - 1]) {
            return vio(c(15), format!("memory grows with every repetition of a cycle that restores the population: {marks:?} bytes after 1, 2, 4, ... cycles"));
        }
        out.add(if n > 1 && marks[n - 1] > marks[1] { "worlds_grown_during_warm_up" } else { "worlds_level" }, 1);
        h.finish()
    })();
    out.steps = h.step as u64;
    out.trace = h.trace;
    out.known = h.known.clone();
    out.st = Some(h.st);
    if let Some(w) = h.w.take() {
        std::mem::forget(w);
    }
    match res {
        Ok(()) => out,
        Err(v) => out.with(15, v),
    }
}

fn new_hist(hs: u64, prop: u32, tag: u64, tiny: bool) -> R<Hist> {
    let mut r = Rng::new(hs ^ 0x5151);
    let p = profiles::profile(prop, &mut r, tiny);
    Hist::new(hs, p, tag, 0)
}
fn alone(hs: u64, tag: u64, tiny: bool, st: &mut Stat, beat: &Beat) -> R<(u64, usize)> {
    ledger::reset();
    alloc::reset();
    let mut h = new_hist(hs, 16, tag, tiny)?;
    let res = (|| {
        for _ in 0..h.p.ops {
            beat.tick();
            h.step()?;
        }
        h.finish()
    })();
    if let Some(w) = h.w.take() {
        std::mem::forget(w)
    }
    st.merge(&h.st);
    res.map(|_| (h.trace, h.p.ops))
}

/// C16: each history twice alone, then both of them alternately, handing each other's handles around.
pub fn twins(seed: u64, idx: u64, tiny: bool, beat: &Beat) -> Out {
    let mut out = Out { shape: "twins".into(), ..Out::default() };
    let mut st = Stat::default();
    let a = mix(seed ^ mix(idx ^ 0x7e1));
    // often the very same operations in both worlds
    let b = if idx % 3 == 0 { a } else { mix(a ^ 0xb) };
    let mut first = vec![];
    for (i, &s) in [a, b].iter().enumerate() {
        match alone(s, 1 + i as u64, tiny, &mut st, beat) {
            Ok(t) => first.push(t),
            Err(v) => {
                out.st = Some(st);
                return out.with(16, Vio { tags: v.tags & !c(16), ..v });
            }
        }
    }
    for (i, &s) in [a, b].iter().enumerate() {
        match alone(s, 1 + i as u64, tiny, &mut st, beat) {
            Ok(t) if t == first[i] => {}
            Ok(_) => {
                return out.with(16, Vio { tags: c(16), sus: 0, what: format!("the same {} operations on two fresh worlds gave different handles, results or orders", first[i].1), step: 0 })
            }
            Err(v) => return out.with(16, Vio { tags: c(16), sus: 0, what: format!("the same operations gave another result on a second fresh world: {}", v.what), step: v.step }),
        }
    }
    out.add("repeated_histories", 2);
    // alternately
    ledger::reset();
    alloc::reset();
    let mut hs = vec![];
    for (i, &s) in [a, b].iter().enumerate() {
        match new_hist(s, 16, 1 + i as u64, tiny) {
            Ok(mut h) => {
                h.solo = false;
                hs.push(h)
            }
            Err(v) => return out.with(16, Vio { tags: c(16), ..v }),
        }
    }
    let mut r = Rng::new(a ^ 0xa17e);
    let res = (|| {
        let mut left = [hs[0].p.ops, hs[1].p.ops];
        while left[0] + left[1] > 0 {
            beat.tick();
            let i = if left[0] == 0 { 1 } else if left[1] == 0 { 0 } else { r.below(2) };
            let burst = r.range(1, 4).min(left[i]);
            for _ in 0..burst {
                hs[i].step()?;
            }
            left[i] -= burst;
            if r.pct(25) {
                let j = r.below(2);
                let n = hs[1 - j].ents.len();
                if n > 0 {
                    for _ in 0..3 {
                        let id = hs[1 - j].ents[r.below(n)].id;
                        hs[j].foreign(id)?;
                    }
                    out.add("foreign_handles_tried", 3);
                }
            }
        }
        for i in [1, 0] {
            hs[i].finish()?;
        }
        Ok(())
    })();
    for (i, h) in hs.iter_mut().enumerate() {
        if let Some(w) = h.w.take() {
            std::mem::forget(w)
        }
        st.merge(&h.st);
        out.steps += h.step as u64;
        out.trace = mix(out.trace ^ first[i].0);
        out.known.extend(h.known.clone());
    }
    out.st = Some(st);
    if let Err(v) = res {
        let v: Vio = v;
        return out.with(16, Vio { tags: c(16), sus: 0, what: format!("two worlds used alternately (each is fine alone): {}", v.what), step: v.step });
    }
    for i in 0..2 {
        if hs[i].trace != first[i].0 {
            return out.with(16, Vio { tags: c(16), sus: 0, what: "a world used alternately with another gave different handles, results or orders than alone".into(), step: 0 });
        }
    }
    out.add("alternating_histories", 2);
    if ledger::live_count() != 0 || zst_keys().any(|k| ledger::zst_live(k) != 0) || alloc::stats().live_bytes != 0 {
        return out.with(16, Vio { tags: c(16), sus: 0, what: "two worlds used alternately did not return everything, each alone does".into(), step: 0 });
    }
    out
}

/// C01: one world, millions of spawns and despawns in few slots.
pub fn longrun(seed: u64, idx: u64, spawns: u64, beat: &Beat) -> Out {
    let mut out = Out { shape: "longrun".into(), ..Out::default() };
    let mut r = Rng::new(mix(seed ^ mix(idx ^ 0x1066)));
    // index 0: a single slot, so that its generation runs as far as possible
    let slots = if idx == 0 { 1 } else { r.range(2, 600) };
    let spawns = if idx == 0 { spawns } else { spawns / 16 };
    let res = attempt(|| {
        let mut w = World::new();
        let mut seen: Vec<u64> = alloc::untrack(|| Vec::with_capacity(spawns as usize));
        let mut live = vec![];
        let mut ghosts = vec![];
        let mut n = 0u64;
        let mut top = 0usize;
        // handles of old, kept for good
        let mut old: Vec<arche_tape::EcsId> = alloc::untrack(|| Vec::with_capacity(128));
        while n < spawns {
            if n % 4096 == 0 {
                beat.tick();
            }
            let e = w.spawn().build();
            n += 1;
            seen.push(e.as_u64());
            top = top.max(e.uindex());
            live.push(e);
            if !w.is_alive(e) {
                return Err((c(1), format!("handle {e}, spawn number {n}, is not alive")));
            }
            if n.is_power_of_two() || (n + 1).is_power_of_two() || (n - 1).is_power_of_two() {
                for &o in &old {
                    let parts = (o.generation() == e.generation(), o.uindex() == e.uindex());
                    if o == e || parts == (true, true) || o.as_u64() == e.as_u64() || o.cmp(&e) == std::cmp::Ordering::Equal || format!("{o}") == format!("{e}") {
                        return Err((c(1), format!("the handle of spawn number {n}, {e}, cannot be told from an earlier one, {o}")));
                    }
                }
                old.push(e);
            }
            if n % 64 == 0 || n.is_power_of_two() || (n + 1).is_power_of_two() {
                ghosts.push(e);
                if ghosts.len() > 64 {
                    let i = r.below(64);
                    ghosts.swap_remove(i);
                }
                for &g in &ghosts {
                    let is = live.iter().any(|l: &arche_tape::EcsId| l.as_u64() == g.as_u64() && l.generation() == g.generation() && l.uindex() == g.uindex());
                    if w.is_alive(g) != is || (!is && w.despawn(g)) {
                        return Err((c(1), format!("handle {g} is {} and is treated as the opposite after {n} spawns", if is { "alive" } else { "dead" })));
                    }
                }
            }
            if live.len() >= slots {
                let k = if live.len() == 1 || r.pct(90) { 1 } else { r.range(1, live.len()) };
                for _ in 0..k {
                    let i = r.below(live.len());
                    let d = live.swap_remove(i);
                    if !w.despawn(d) {
                        return Err((c(1), format!("despawn of live {d} returned false")));
                    }
                    if w.is_alive(d) || w.despawn(d) {
                        return Err((c(1), format!("{d} is still alive after its despawn")));
                    }
                }
            }
        }
        if top >= slots {
            return Err((c(15), format!("{slots} entities at once, but a handle has index {top}")));
        }
        let n = seen.len();
        seen.sort_unstable();
        seen.dedup();
        if seen.len() != n {
            return Err((c(1), format!("{} of {n} handles were issued before", n - seen.len())));
        }
        Ok((n, top))
    });
    match res {
        Ok(Ok((n, top))) => {
            out.add("handles_distinct", n as u64);
            out.add("max_index", top as u64);
            out.add("max_spawns_per_slot", (n / slots) as u64);
            out.trace = mix(slots as u64);
            out.steps = spawns;
            out
        }
        Ok(Err((t, m))) => out.with(1, Vio { tags: t, sus: 0, what: m, step: 0 }),
        Err(m) => out.with(1, Vio { tags: c(1), sus: 0, what: format!("panic: {m}"), step: 0 }),
    }
}

/// C01, thorough: every generation of one slot (2^32 of them), by bitmap.
pub fn generations(bits: u32, beat: &Beat) -> Out {
    let mut out = Out { shape: "generations".into(), ..Out::default() };
    let total = 1u64 << bits;
    let res = attempt(|| {
        let mut es = arche_tape::entities::Entities::new();
        let mut map = vec![0u64; (1usize << 32) / 64];
        let mut slot = None;
        for n in 0..total {
            if n % 65536 == 0 {
                beat.tick();
            }
            let e = es.spawn();
            let v = e.as_u64();
            if *slot.get_or_insert(v as u32) != v as u32 {
                return Err((c(15), format!("spawn {n} got slot {} although slot {} was free", v as u32, slot.unwrap())));
            }
            let g = (v >> 32) as usize;
            if map[g / 64] & 1 << (g % 64) != 0 {
                return Err((c(1), format!("handle {e} was issued twice in {n} spawns")));
            }
            map[g / 64] |= 1 << (g % 64);
            if !es.is_alive(e) || !es.despawn(e) || es.is_alive(e) {
                return Err((c(1), format!("{e} is not alive exactly until its despawn")));
            }
        }
        Ok(())
    });
    let bad = match res {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(m) => Some((c(1), format!("panic: {m}"))),
    };
    out.add("generations_of_one_slot", total);
    out.steps = total;
    match bad {
        None => out,
        Some((t, m)) => out.with(1, Vio { tags: t, sus: 0, what: m, step: 0 }),
    }
}
