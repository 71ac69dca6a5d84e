//! Workload shapes, and which of them each property's check runs.
use crate::engine::{Profile, Weights};
use crate::kinds::*;
use crate::qtable::QUERIES;
use crate::queries::Part;
use crate::rng::Rng;

fn some_kinds(r: &mut Rng, lo: usize, hi: usize, pool: &[u16]) -> Vec<u16> {
    let mut v = pool.to_vec();
    r.shuffle(&mut v);
    v.truncate(r.range(lo, hi).min(pool.len()));
    v
}
fn some_dyns(r: &mut Rng, lo: usize, hi: usize, dropping: bool) -> Vec<u16> {
    let n = if r.pct(50) { BASIC_DYN } else { DYN.len() };
    let mut v: Vec<u16> = (0..n as u16).filter(|&d| !dropping || DYN[d as usize].drop.is_some()).collect();
    r.shuffle(&mut v);
    v.truncate(r.range(lo, hi));
    v
}
pub const SHAPES: [&str; 13] = ["small", "medium", "wide", "big", "tagheavy", "hot", "recycled", "focus", "archstorm", "tiny", "huge", "deep", "archflood"];

fn shape(s: usize, r: &mut Rng, pool: &[u16], dropping: bool) -> Profile {
    let mut p = Profile {
        name: SHAPES[s],
        kinds: some_kinds(r, 2, 6, pool),
        dyns: some_dyns(r, 0, 3, dropping),
        max_dyn: 3,
        max_tag: 2,
        ops: r.range(60, 220),
        max_live: 12,
        max_set: 4,
        full: 1,
        prechurn: 0,
        bulk: 0,
        focus: None,
        hot: 0,
        w: Weights::default(),
    };
    match s {
        0 => {}
        1 => {
            p.kinds = some_kinds(r, 5, 14, pool);
            p.dyns = some_dyns(r, 1, 6, dropping);
            p.max_dyn = 6;
            p.max_tag = 6;
            p.ops = r.range(200, 500);
            p.max_live = 50;
            p.max_set = 8;
            p.full = 20;
        }
        2 => {
            p.kinds = some_kinds(r, 10, 24, pool);
            p.dyns = some_dyns(r, 3, 12, dropping);
            p.max_dyn = 12;
            p.max_tag = 30;
            p.ops = r.range(500, 1000);
            p.max_live = 250;
            p.max_set = 20;
            p.full = 150;
            p.w.newdyn = 6;
            p.w.newtag = 6;
        }
        3 => {
            p.kinds = some_kinds(r, 3, 6, pool);
            p.bulk = r.range(4200, 5600);
            p.ops = r.range(40, 120);
            p.max_live = 6000;
            p.full = 100;
            p.w.reject = 0;
            p.w.bomb = 0;
        }
        4 => {
            p.kinds = some_kinds(r, 1, 3, pool);
            p.max_tag = 90;
            p.max_dyn = 6;
            p.ops = r.range(300, 700);
            p.max_live = 160;
            p.max_set = 7;
            p.full = 50;
            p.w.newtag = 25;
            p.w.spawn = 25;
        }
        5 => {
            p.kinds = some_kinds(r, 6, 10, pool);
            p.hot = r.range(1, 4);
            p.ops = r.range(200, 500);
            p.max_live = 20;
            p.max_set = 3;
            p.full = 10;
            p.w.add = 50;
            p.w.remove = 45;
            p.w.spawn = 5;
            p.w.despawn = 3;
        }
        6 => {
            p.kinds = some_kinds(r, 3, 9, pool);
            p.prechurn = r.range(3, 90);
            p.ops = r.range(80, 250);
            p.max_live = 25;
            p.full = 4;
            p.max_set = 6;
        }
        7 => {
            let q = r.range(NK, QUERIES.len() - 1);
            p.kinds = QUERIES[q].parts.iter().filter_map(|p| match p { Part::Ref(k) | Part::Mut(k) => Some(*k), _ => None }).collect();
            p.kinds.extend(some_kinds(r, 0, 2, pool));
            p.kinds.sort();
            p.kinds.dedup();
            p.focus = Some(q);
            p.ops = r.range(60, 200);
            p.max_live = 30;
            p.full = 10;
            p.max_set = 4;
            p.w.tquery = 25;
            p.w.get = 15;
        }
        8 => {
            p.kinds = some_kinds(r, 10, 14, pool);
            p.dyns = some_dyns(r, 0, 2, dropping);
            p.ops = r.range(1200, 2200);
            p.max_live = 1500;
            p.max_set = 12;
            p.full = 1100;
            p.w = Weights { spawn: 100, add: 20, remove: 10, despawn: 6, tquery: 2, dquery: 2, cols: 2, write: 3, reject: 0, arch: 0, ..p.w };
        }
        10 => {
            // more entities than sixteen bits count
            p.kinds = some_kinds(r, 2, 4, pool);
            p.kinds.retain(|&k| KINDS[k as usize].size < 200);
            p.dyns.retain(|&d| DYN[d as usize].size < 200);
            p.bulk = r.range(66_000, 70_000);
            p.ops = r.range(20, 50);
            p.max_live = 72_000;
            p.full = 100;
            p.w.reject = 0;
            p.w.bomb = 0;
        }
        11 => {
            // entities with a hundred components
            p.kinds = some_kinds(r, 10, 20, pool);
            p.dyns = some_dyns(r, 5, 20, dropping);
            p.max_dyn = 20;
            p.max_tag = r.range(60, 150);
            p.ops = r.range(400, 700);
            p.max_live = 220;
            p.max_set = r.range(40, 260);
            p.full = 100;
            p.w.newtag = 60;
            p.w.newdyn = 15;
        }
        12 => {
            // thousands of combinations
            p.kinds = some_kinds(r, 13, 16, pool);
            p.kinds.retain(|&k| KINDS[k as usize].size < 200);
            p.dyns = vec![];
            p.ops = r.range(5000, 13000);
            p.max_live = 11000;
            p.max_set = 12;
            p.full = 5000;
            p.w = Weights { spawn: 150, add: 20, remove: 10, despawn: 4, tquery: 1, dquery: 1, cols: 1, write: 2, reject: 0, arch: 0, ..p.w };
        }
        _ => {
            // what Miri can afford
            p.kinds = some_kinds(r, 2, 4, pool);
            p.dyns = some_dyns(r, 0, 2, dropping);
            p.ops = r.range(12, 24);
            p.max_live = 6;
            p.full = 50;
            // validating large values is what costs most there
            if r.pct(90) {
                p.kinds.retain(|&k| KINDS[k as usize].size < 200);
                p.dyns.retain(|&d| DYN[d as usize].size < 200);
                if p.kinds.is_empty() {
                    p.kinds.push(15);
                }
            }
        }
    }
    p
}

pub fn profile(prop: u32, r: &mut Rng, tiny: bool) -> Profile {
    let all: Vec<u16> = (0..NK as u16).collect();
    let dropping: Vec<u16> = all.iter().copied().filter(|&k| KINDS[k as usize].drops).collect();
    let odd: Vec<u16> = all.iter().copied().filter(|&k| KINDS[k as usize].drops || KINDS[k as usize].align > 8 || KINDS[k as usize].size == 0).collect();
    let few_vals: Vec<u16> = all.iter().copied().filter(|&k| KINDS[k as usize].mask == u64::MAX).collect();
    //                 small med wide big tag hot recy focus storm tiny
    let mut sw: [u32; 10] = [30, 22, 8, 1, 8, 14, 14, 12, 2, 0];
    let mut pool: &[u16] = &all;
    let mut drop_dyn = false;
    match prop {
        1 => sw = [40, 10, 2, 1, 14, 2, 30, 0, 0, 0],
        3 => sw = [20, 14, 10, 2, 8, 6, 8, 40, 3, 0],
        4 => {
            pool = if r.pct(70) { &few_vals } else { &all };
        }
        5 => {
            pool = if r.pct(75) { &dropping } else { &all };
            drop_dyn = r.pct(70);
        }
        6 => {
            pool = if r.pct(60) { &odd } else { &all };
        }
        8 => {
            pool = if r.pct(60) { &dropping } else { &all };
            drop_dyn = r.pct(50);
            sw[2] = 1;
            sw[3] = 0;
            sw[8] = 0;
        }
        10 => sw = [50, 12, 1, 0, 8, 4, 30, 0, 0, 0],
        14 => sw = [25, 18, 12, 1, 10, 30, 14, 2, 4, 0],
        15 => sw = [40, 14, 3, 1, 10, 4, 20, 0, 1, 0],
        _ => {}
    }
    let s = match r.below(4000) {
        _ if tiny => 9,
        0..=15 => 10,
        16..=159 => 11,
        160..=165 => 12,
        _ => r.weighted(&sw),
    };
    let mut p = shape(s, r, pool, drop_dyn);
    let w = &mut p.w;
    match prop {
        1 => {
            w.despawn = 25;
            w.stale = 15;
            w.churn = 8;
            w.reg = 6;
            w.newtag += 6;
            w.abandon = 6;
        }
        3 => {
            w.tquery += 20;
            w.dquery += 15;
            w.cols += 10;
            w.get += 8;
        }
        4 => {
            w.write += 30;
            w.get += 6;
        }
        5 => {
            w.abandon += 3;
            w.despawn += 4;
            w.write += 4;
        }
        8 => {
            w.reject += 25;
            w.bomb += 12;
        }
        9 => {
            if p.dyns.len() < 4 && s != 9 {
                p.dyns = some_dyns(r, 4, 10, false);
                p.max_dyn = p.max_dyn.max(8);
            }
            p.kinds.truncate(4);
            p.max_tag = p.max_tag.max(4);
            w.newdyn += 12;
            w.newtag += 6;
            w.dquery += 8;
        }
        10 => {
            w.despawn_comp = 30;
            w.despawn_used = 6;
            w.newdyn += 5;
        }
        13 => {
            w.spawn += 40;
            w.twice += 12;
            w.abandon += 12;
            w.reject += 4;
            p.max_set += 4;
        }
        14 => w.arch += 15,
        15 => {
            w.despawn += 12;
            w.abandon += 6;
            w.churn += 4;
        }
        _ => {}
    }
    p
}
