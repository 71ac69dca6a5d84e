#!/usr/bin/env python3
"""Writes harness/src/layouts.rs: the table of run-time described layouts."""
import os

BASIC = [(1, 1, 0), (2, 2, 0), (4, 4, 0), (8, 8, 0), (16, 16, 0), (24, 8, 0), (40, 8, 0), (64, 64, 0), (48, 16, 0), (1000, 8, 0),
         (4096, 4096, 0), (12, 4, 0), (7, 1, 0), (0, 1, 0), (0, 64, 0), (0, 32, 1), (16, 8, 1), (32, 32, 1), (1024, 16, 1), (256, 128, 1)]
LARGE = [(160, 32, 0), (192, 64, 0), (512, 512, 0), (513, 1, 0), (2052, 4, 0), (6144, 2048, 0), (16384, 16, 0), (129, 1, 1), (192, 64, 1),
         (260, 4, 1), (1536, 512, 1), (4104, 8, 1), (1031, 1, 0), (65536, 8, 0), (255, 1, 0), (256, 1, 0), (257, 1, 1)]
rows, seen = list(BASIC), set(BASIC)


def add(x):
    if x not in seen:
        seen.add(x)
        rows.append(x)


# every size up to 128 bytes with every alignment up to 64 that divides it; a destructor needs 8 bytes for its token
for a in (1, 2, 4, 8, 16, 32, 64):
    for n in range(1, 128 // a + 1):
        s = n * a
        drops = s >= 8 and (s % 8 == 0 or n % 3 == 0)
        if not drops or s % 16 == 0 or s <= 16:
            add((s, a, 0))
        if drops:
            add((s, a, 1))
for a in (1, 2, 4, 8, 16, 128):
    add((0, a, 0))
    add((0, a, 1))
for x in LARGE:
    add(x)
out = ["//! Run-time described layouts. Written by tools/gen_layouts.py.", "use crate::kinds::{dyn_drop, DynClass, DK};", "",
       "macro_rules! dc {", "    ($s:literal, $a:literal, $k:literal) => {", "        DynClass { size: $s, align: $a, drop: None, key: DK + $k }", "    };",
       "    ($s:literal, $a:literal, $k:literal, drop) => {",
       "        DynClass { size: $s, align: $a, drop: Some(dyn_drop::<$s, $a, { DK + $k }>), key: DK + $k }", "    };", "}",
       "/// the first ones are the basic choice, the others a grid of all small sizes and alignments, and some large ones", f"pub const BASIC_DYN: usize = {len(BASIC)};",
       f"pub static DYN: [DynClass; {len(rows)}] = ["]
out += [f"    dc!({s}, {a}, {k}{', drop' if d else ''})," for k, (s, a, d) in enumerate(rows)] + ["];", ""]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "layouts.rs"), "w") as f:
    f.write("\n".join(out))
print(len(rows), sum(d for _, _, d in rows))
