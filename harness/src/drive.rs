//! Runs many independent tasks (histories) on threads: statistics, violations, hangs, progress record.
use crate::engine::{c, Vio};
use crate::vecs::VStat;
use crate::{Args, Stat};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Beat {
    pub idx: AtomicU64,
    pub step: AtomicU64,
    pub tid: AtomicU64,
}
impl Beat {
    pub fn new() -> Beat {
        Beat { idx: AtomicU64::new(u64::MAX), step: AtomicU64::new(0), tid: AtomicU64::new(0) }
    }
    pub fn tick(&self) {
        self.step.fetch_add(1, Ordering::Relaxed);
    }
}

#[derive(Default)]
pub struct Out {
    pub vio: Option<Vio>,
    /// the violation is of the property being checked
    pub mine: bool,
    pub st: Option<Stat>,
    pub vs: Option<VStat>,
    /// further counters; names starting with `max_` are maxima, the rest sums
    pub extra: BTreeMap<&'static str, u64>,
    pub trace: u64,
    pub known: Vec<String>,
    pub shape: String,
    pub steps: u64,
}
impl Out {
    pub fn add(&mut self, k: &'static str, n: u64) {
        let e = self.extra.entry(k).or_default();
        if k.starts_with("max_") {
            *e = (*e).max(n)
        } else {
            *e += n
        }
    }
    /// gives up with a violation
    pub fn with(mut self, prop: u32, v: Vio) -> Out {
        self.mine = v.tags & c(prop) != 0;
        self.vio = Some(v);
        self
    }
}

#[derive(Default)]
struct Total {
    st: Option<Stat>,
    vs: Option<VStat>,
    extra: BTreeMap<&'static str, u64>,
    shapes: BTreeMap<String, u64>,
    hist: u64,
    steps: u64,
    traces: HashSet<u64>,
    /// order independent digest of all (index, trace)
    digest: u64,
    known: BTreeSet<String>,
    foreign: Vec<(u64, String, u32)>,
    foreign_n: u64,
    found: Vec<(u64, String, String, u32)>,
    samples: Vec<String>,
}
impl Total {
    fn take(&mut self, i: u64, o: Out) {
        if let Some(s) = &o.st {
            self.st.get_or_insert_with(Stat::default).merge(s)
        }
        if let Some(s) = &o.vs {
            self.vs.get_or_insert_with(VStat::default).merge(s)
        }
        for (k, v) in &o.extra {
            let e = self.extra.entry(k).or_default();
            if k.starts_with("max_") {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        if i < 3 {
            self.samples.push(format!("index {i}: shape {}, {} steps, trace {:016x}", o.shape, o.steps, o.trace));
        }
        *self.shapes.entry(o.shape.clone()).or_default() += 1;
        self.hist += 1;
        self.steps += o.steps;
        self.traces.insert(o.trace);
        self.digest = self.digest.wrapping_add(crate::rng::mix(o.trace ^ crate::rng::mix(i)));
        self.known.extend(o.known);
        if let Some(v) = o.vio {
            if o.mine {
                self.found.push((i, o.shape, v.what, v.tags));
            } else {
                self.foreign_n += 1;
                if self.foreign.len() < 50 {
                    self.foreign.push((i, v.what, v.tags));
                }
            }
        }
    }
    /// prints the results; true if a violation was found
    fn print(mut self, secs: f64) -> bool {
        let shapes: Vec<String> = self.shapes.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        let extra: Vec<String> = self.extra.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        let samples: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", crate::esc(s))).collect();
        println!(
            "MON-STATS {{\"histories\":{},\"steps\":{},\"distinct_traces\":{},\"digest\":\"{:016x}\",\"foreign\":{},\"secs\":{secs:.1},\"shapes\":{{{}}},\"extra\":{{{}}},\"samples\":[{}],\"stat\":{},\"vec\":{}}}",
            self.hist,
            self.steps,
            self.traces.len(),
            self.digest,
            self.foreign_n,
            shapes.join(","),
            extra.join(","),
            samples.join(","),
            self.st.map_or("null".into(), |s| s.json()),
            self.vs.map_or("null".into(), |s| s.json()),
        );
        for k in &self.known {
            println!("MON-KNOWN {k}");
        }
        for (i, w, t) in self.foreign.iter().take(3) {
            println!("MON-FOREIGN {{\"idx\":{i},\"tags\":{t},\"what\":\"{}\"}}", crate::esc(w));
        }
        self.found.sort();
        if let Some((i, shape, what, tags)) = self.found.first() {
            println!("MON-VIOLATION {{\"idx\":{i},\"shape\":\"{shape}\",\"tags\":{tags},\"what\":\"{}\"}}", crate::esc(what));
            return true;
        }
        false
    }
}

/// Runs `task` for indices start.. on threads until the count or the time is used up, or a violation is
/// found. With `--only I` runs just that index, on this thread.
pub fn drive(a: &Args, task: &(dyn Fn(u64, &Beat) -> Out + Sync)) {
    let t0 = Instant::now();
    if let Some(i) = a.text("--only") {
        let i: u64 = i.parse().unwrap();
        let beats = [Beat::new()];
        let alive = AtomicUsize::new(1);
        let mut total = Total::default();
        std::thread::scope(|s| {
            let h = {
                let (beats, alive) = (&beats, &alive);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        beats[0].tid.store(gettid(), Ordering::Relaxed);
                        beats[0].idx.store(i, Ordering::Relaxed);
                        let o = task(i, &beats[0]);
                        alive.store(0, Ordering::Relaxed);
                        o
                    })
                    .unwrap()
            };
            watch(&beats, &alive);
            total.take(i, h.join().unwrap());
        });
        if total.print(t0.elapsed().as_secs_f64()) {
            std::process::exit(10);
        }
        return;
    }
    let start = a.num("--start", 0);
    let n = a.num("--hist", 100);
    let secs = a.num("--secs", 100_000);
    let threads = a.num("--threads", 8) as usize;
    let next = AtomicU64::new(start);
    let stop = AtomicBool::new(false);
    let beats: Vec<Beat> = (0..threads).map(|_| Beat::new()).collect();
    let total = Mutex::new(Total::default());
    let alive = AtomicUsize::new(threads);
    let prog = a.text("--progress").map(|p| std::fs::File::create(p).unwrap());
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, beats, total, alive, prog) = (&next, &stop, &beats, &total, &alive, &prog);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let beat = &beats[t];
                    beat.tid.store(gettid(), Ordering::Relaxed);
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs() >= secs {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= start + n {
                            break;
                        }
                        beat.idx.store(i, Ordering::Relaxed);
                        if let Some(f) = prog {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_all_at(&i.to_le_bytes(), t as u64 * 8);
                        }
                        let o = task(i, beat);
                        if o.mine {
                            stop.store(true, Ordering::Relaxed);
                        }
                        total.lock().unwrap().take(i, o);
                    }
                    if let Some(f) = prog {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(&u64::MAX.to_le_bytes(), t as u64 * 8);
                    }
                    beat.idx.store(u64::MAX, Ordering::Relaxed);
                    alive.fetch_sub(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        watch(&beats, &alive);
    });
    if total.into_inner().unwrap().print(t0.elapsed().as_secs_f64()) {
        std::process::exit(10);
    }
}

pub fn gettid() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok()))).unwrap_or(0)
}
/// (state, user+system time in ticks) of a thread of this process
pub fn thread_stat(tid: u64) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = s.rsplit(')').next()?;
    let f: Vec<&str> = s.split_whitespace().collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}
/// Waits for the workers; a history that makes no progress although its thread has the processor, or
/// sleeps for good, is reported as hanging.
fn watch(beats: &[Beat], alive: &AtomicUsize) {
    if cfg!(miri) {
        return;
    }
    let limit = std::env::var("MON_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60u64);
    struct L {
        at: (u64, u64),
        since: Instant,
        ticks: u64,
        samples: u32,
        asleep: u32,
    }
    let mut last: Vec<L> = beats.iter().map(|_| L { at: (0, 0), since: Instant::now(), ticks: 0, samples: 0, asleep: 0 }).collect();
    while alive.load(Ordering::Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        for (b, l) in beats.iter().zip(last.iter_mut()) {
            let at = (b.idx.load(Ordering::Relaxed), b.step.load(Ordering::Relaxed));
            if at.0 == u64::MAX {
                continue;
            }
            let ticks = || thread_stat(b.tid.load(Ordering::Relaxed)).map_or(0, |t| t.1);
            if at != l.at {
                *l = L { at, since: Instant::now(), ticks: u64::MAX, samples: 0, asleep: 0 };
                continue;
            }
            if l.since.elapsed() < Duration::from_secs(1) {
                continue;
            }
            if l.ticks == u64::MAX {
                l.ticks = ticks();
            }
            if l.since.elapsed().as_secs() < limit / 2 {
                continue;
            }
            // sampled over the second half of the limit
            if let Some((state, now)) = thread_stat(b.tid.load(Ordering::Relaxed)) {
                l.samples += 1;
                l.asleep += (state == 'S') as u32;
                if l.since.elapsed().as_secs() >= limit && (now.saturating_sub(l.ticks) > limit * 50 || l.samples == l.asleep) {
                    println!("MON-HANG {{\"idx\":{},\"step\":{},\"asleep\":{}}}", at.0, at.1, l.samples == l.asleep);
                    std::process::exit(11);
                }
            }
        }
    }
}
