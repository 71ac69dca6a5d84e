//! Refused memory (C06, C12): each history runs in a process of its own, once undisturbed and once with
//! the allocator refusing one of the library's requests, or all from one on. Rust code then stops (abort
//! or panic) or copes; it never goes on with memory it does not have.
use crate::drive::Out;
use crate::engine::{c, Vio};
use crate::rng::{mix, Rng};
use crate::{alloc, vecs};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

const DONE: i32 = 0;
const NOTHING: i32 = 70;
const BAD_ALONE: i32 = 71;
const VIO: i32 = 72;
/// a panic after the refusal
pub const PANIC: i32 = 78;
/// undefined behaviour after the refusal: noticed by the allocator or by a check compiled into std
pub const ALLOC: i32 = 79;

/// The child: does not return.
pub fn child(prop: u32, seed: u64, idx: u64, of_vecs: bool) -> ! {
    let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut r = Rng::new(mix(seed ^ mix(idx ^ 0xfa17)));
        let tiny = r.pct(60);
        let run = |_pass: u32| -> Option<Vio> {
            if of_vecs {
                vecs::run(seed ^ 0xfa17, idx, tiny, false, None, &mut vecs::VStat::default()).err()
            } else {
                crate::run_hist(prop, seed ^ 0xfa17, idx, 0, tiny, false, None).vio
            }
        };
        if run(0).is_some() {
            return BAD_ALONE;
        }
        let n = alloc::requests();
        let kinds: Vec<usize> = (0..4).filter(|&k| n[k] > 0).collect();
        if kinds.is_empty() {
            return NOTHING;
        }
        let kind = *r.pick(&kinds);
        let n = n[kind];
        let k = if r.pct(25) { n - r.below(n.min(20) as usize) as u64 } else { 1 + r.below(n as usize) as u64 };
        alloc::refuse(k, kind, r.pct(50));
        let v = run(1);
        let fired = alloc::fired();
        alloc::refuse(0, 0, false);
        println!("request {k} of {n} of kind {kind}, fired {fired}");
        match v {
            Some(v) => {
                println!("OOM-VIO {}", v.what);
                VIO
            }
            None if fired => DONE,
            None => NOTHING,
        }
    });
    let rc = r.unwrap().join().unwrap_or(PANIC);
    std::process::exit(rc)
}

/// The parent: runs one child and judges how it ended.
pub fn refused(prop: u32, seed: u64, idx: u64, of_vecs: bool) -> Out {
    let mut out = Out { shape: if of_vecs { "vecs" } else { "world" }.into(), steps: 1, ..Out::default() };
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["oomchild", &format!("C{prop:02}"), "--seed", &seed.to_string(), "--idx", &idx.to_string()])
        .args(of_vecs.then_some("--vecs"))
        .stdin(Stdio::null())
        .output()
        .expect("child process");
    let err = String::from_utf8_lossy(&o.stderr);
    let text = String::from_utf8_lossy(&o.stdout);
    let aborted = err.contains("memory allocation of");
    out.trace = mix(err.lines().chain(text.lines()).fold(mix(o.status.into_raw() as u64), |a, l| l.bytes().fold(a, |a, b| mix(a ^ b as u64))));
    let bad = match (o.status.code(), o.status.signal()) {
        (Some(DONE), _) => {
            out.add("coped", 1);
            None
        }
        (Some(NOTHING), _) => {
            out.add("no_request", 1);
            None
        }
        (Some(BAD_ALONE), _) => {
            out.add("violation_without_refusal", 1);
            None
        }
        (Some(PANIC), _) => {
            out.add("panicked", 1);
            None
        }
        (Some(3), _) => {
            eprintln!("MON-HARNESS child {idx}: {err}");
            std::process::exit(3)
        }
        (Some(VIO), _) => Some(format!("it goes on, and then {}", text.lines().find_map(|l| l.strip_prefix("OOM-VIO ")).unwrap_or(""))),
        (Some(ALLOC), _) => Some(format!("undefined behaviour: {}", err.lines().last().unwrap_or(""))),
        (_, Some(6)) if aborted => {
            out.add("aborted", 1);
            None
        }
        // killed from outside
        (_, Some(9)) => {
            out.add("killed", 1);
            None
        }
        (code, sig) => Some(match sig {
            Some(s) => format!("the process dies of signal {s}: {}", err.lines().last().unwrap_or("")),
            None => format!("the process ends with {code:?}: {}", err.lines().last().unwrap_or("")),
        }),
    };
    match bad {
        None => out,
        Some(w) => out.with(prop, Vio { tags: c(6) | c(12), sus: 0, what: format!("the allocator refuses a request of the library, {w}"), step: 0 }),
    }
}
