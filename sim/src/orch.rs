//! Running many seeds over worker processes, attributing crashes and stalls to seeds, minimising,
//! replaying, and writing the evidence.

use crate::props::{self, Prop};
use crate::rng::{hash_str, mix};
use crate::sim::{Finished, Sim, TapeData, Violation, LANES, LANE_NAMES};
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File, OpenOptions};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const STALL_EXIT: i32 = 97;
const HARNESS_EXIT: i32 = 98;

static RUN_COUNTER: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, ts: *mut Timespec) -> i32;
}
fn cpu_seconds() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: plain C call with a valid out pointer; CLOCK_PROCESS_CPUTIME_ID = 2
    unsafe { clock_gettime(2, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

/// Ends the process when one run burns too much CPU or makes no progress for very long. Both
/// bounds are far beyond what any run needs (milliseconds), so they only separate "never ends"
/// from "ends".
fn start_watchdog() {
    let cpu_limit: f64 = std::env::var("GIFSIM_CPU").ok().and_then(|v| v.parse().ok()).unwrap_or(20.0);
    let tick_limit = (cpu_limit * 40.0) as u32; // 100 ms ticks
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut cpu0 = 0.0;
        let mut ticks = 0;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = RUN_COUNTER.load(SeqCst);
            if now != last {
                last = now;
                cpu0 = cpu_seconds();
                ticks = 0;
                continue;
            }
            ticks += 1;
            if now % 2 == 1 && (cpu_seconds() - cpu0 > cpu_limit || ticks > tick_limit) {
                eprintln!("gifsim: run does not end");
                std::process::exit(STALL_EXIT);
            }
        }
    });
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

pub fn run_seed(prop: &Prop, base: u64, index: u64) -> u64 {
    mix(mix(base ^ 0x6769_6673_696d) ^ hash_str(prop.id) ^ mix(index))
}

pub struct RunResult {
    pub fin: Finished,
    pub violation: Option<Violation>,
}

/// One run of a property: a pure function of the tape (or seed) and the code under test.
pub fn run_one(prop: &Prop, sim: &Sim) -> RunResult {
    RUN_COUNTER.fetch_add(1, SeqCst);
    crate::alloc::begin_run();
    crate::rec::option_style(sim.c(64));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(sim)));
    RUN_COUNTER.fetch_add(1, SeqCst);
    let _ = crate::alloc::disarm();
    let violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let text = crate::panics::take();
            if crate::panics::is_harness(&text) {
                eprintln!("gifsim: harness panic in {}: {text}", prop.id);
                std::process::exit(HARNESS_EXIT);
            }
            Some(Violation { class: "panic".into(), detail: format!("the code under test panicked at {text}") })
        }
    };
    RunResult { fin: sim.finish(), violation }
}

// ---------------------------------------------------------------- replay files

pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub index: u64,
    pub tape: TapeData,
    pub digest: Option<u64>,
    /// (base seed, worker, stride): run the whole history of that worker up to `index`
    pub history: Option<(u64, u64, u64)>,
    pub trace: Vec<String>,
    /// which build of the crate it happened in
    pub build: String,
}

/// The two builds of the code under test: with its assertions and overflow checks, and as it is shipped.
const BUILDS: [&str; 2] = ["release", "shipped"];

fn own_build() -> String {
    let exe = std::env::current_exe().ok();
    let dir = exe.as_deref().and_then(Path::parent).and_then(Path::file_name).map(|n| n.to_string_lossy().into_owned());
    dir.filter(|d| BUILDS.contains(&d.as_str())).unwrap_or_else(|| BUILDS[0].into())
}

/// The simulator with that build of the code under test (this one where there is no other).
fn exe_of(build: &str) -> Option<PathBuf> {
    let me = std::env::current_exe().ok()?;
    if build == own_build() {
        return Some(me);
    }
    let other = me.parent()?.parent()?.join(build).join(me.file_name()?);
    Some(if other.is_file() { other } else { me })
}

impl Replay {
    pub fn save(&self, path: &Path) -> std::io::Result<()> {
        let mut s = String::from("gifsim-replay 1\n");
        s += &format!("property {}\nclass {}\n", self.property, self.class);
        s += &format!("detail {}\n", self.detail.replace('\n', " "));
        s += &format!("seed {} index {}\n", self.seed, self.index);
        s += &format!("build {}\n", self.build);
        if let Some((b, w, n)) = self.history {
            s += &format!("history {b} {w} {n}\n");
        } else {
            for l in 0..LANES {
                s += &format!("lane {}", LANE_NAMES[l]);
                for v in &self.tape.lanes[l] {
                    s += &format!(" {v}");
                }
                s.push('\n');
            }
        }
        if let Some(d) = self.digest {
            s += &format!("digest {d:016x}\n");
        }
        for t in &self.trace {
            s += &format!("# {t}\n");
        }
        fs::write(path, s)
    }

    pub fn load(path: &Path) -> Option<Replay> {
        let text = fs::read_to_string(path).ok()?;
        let mut r = Replay {
            property: String::new(),
            class: String::new(),
            detail: String::new(),
            seed: 0,
            index: 0,
            tape: TapeData::default(),
            digest: None,
            history: None,
            trace: Vec::new(),
            build: BUILDS[0].into(),
        };
        for line in text.lines() {
            let (k, v) = line.split_once(' ').unwrap_or((line, ""));
            match k {
                "property" => r.property = v.into(),
                "class" => r.class = v.into(),
                "detail" => r.detail = v.into(),
                "build" => r.build = v.into(),
                "seed" => {
                    let p: Vec<&str> = v.split(' ').collect();
                    r.seed = p.first()?.parse().ok()?;
                    r.index = p.get(2)?.parse().ok()?;
                }
                "history" => {
                    let p: Vec<u64> = v.split(' ').filter_map(|x| x.parse().ok()).collect();
                    r.history = Some((*p.first()?, *p.get(1)?, *p.get(2)?));
                }
                "lane" => {
                    let mut it = v.split(' ');
                    let name = it.next()?;
                    let l = LANE_NAMES.iter().position(|n| *n == name)?;
                    r.tape.lanes[l] = it.filter_map(|x| x.parse().ok()).collect();
                }
                "digest" => r.digest = u64::from_str_radix(v, 16).ok(),
                _ => {}
            }
        }
        Some(r)
    }
}

/// `gifsim replay FILE`: exit 1 when the recorded violation happens again, 0 when it does not.
pub fn replay(path: &str, verbose: bool) -> i32 {
    let Some(r) = Replay::load(Path::new(path)) else {
        eprintln!("cannot read replay file {path}");
        return 2;
    };
    let Some(prop) = props::find(&r.property) else {
        eprintln!("unknown property {}", r.property);
        return 2;
    };
    if r.build != own_build() {
        if let Some(exe) = exe_of(&r.build).filter(|e| Some(e) != std::env::current_exe().ok().as_ref()) {
            let e = Command::new(exe).arg(if verbose { "replay" } else { "try" }).arg(path).exec();
            eprintln!("cannot start the other build: {e}");
            return 2;
        }
    }
    start_watchdog();
    let res = if let Some((base, w, n)) = r.history {
        let mut i = w;
        loop {
            let res = run_one(prop, &Sim::generate(run_seed(prop, base, i), false));
            if i >= r.index || res.violation.is_some() {
                break res;
            }
            i += n;
        }
    } else {
        run_one(prop, &Sim::replay(r.tape.clone(), verbose))
    };
    match res.violation {
        Some(v) => {
            if verbose {
                for t in &res.fin.trace {
                    println!("{t}");
                }
                println!("class {} digest {:016x}", v.class, res.fin.digest);
                println!("{}", v.detail);
                if r.digest.is_some_and(|d| d != res.fin.digest) {
                    println!("note: event log differs from the recorded one (the code changed since)");
                }
            }
            if v.class == r.class {
                if verbose {
                    println!("VIOLATION property={} replay={path}", r.property);
                }
                1
            } else {
                if verbose {
                    println!("a different violation than the recorded class {}", r.class);
                }
                3
            }
        }
        None => {
            if verbose {
                println!("no violation");
            }
            0
        }
    }
}

/// Runs one seed writing every draw to a file at once (used when the run kills its process).
pub fn spool(id: &str, seed: u64, file: &str) -> i32 {
    let Some(prop) = props::find(id) else { return 2 };
    start_watchdog();
    let sim = Sim::generate(seed, false);
    if let Ok(f) = File::create(file) {
        sim.spool_to(f);
    }
    let r = run_one(prop, &sim);
    i32::from(r.violation.is_some())
}

fn load_spool(file: &Path) -> TapeData {
    let mut t = TapeData::default();
    for line in fs::read_to_string(file).unwrap_or_default().lines() {
        let mut it = line.split(' ').filter_map(|x| x.parse::<u64>().ok());
        if let (Some(l), Some(v)) = (it.next(), it.next()) {
            if (l as usize) < LANES {
                t.lanes[l as usize].push(v);
            }
        }
    }
    t
}

/// `gifsim minimise IN OUT`, in one process (for violations that do not kill it).
pub fn minimise_file(input: &str, output: &str) -> i32 {
    let Some(mut r) = Replay::load(Path::new(input)) else { return 2 };
    let Some(prop) = props::find(&r.property) else { return 2 };
    start_watchdog();
    let class = r.class.clone();
    let t0 = Instant::now();
    let (best, _) = crate::minimise::minimise(r.tape.clone(), 6000, |t| {
        t0.elapsed() < Duration::from_secs(40)
            && run_one(prop, &Sim::replay(t.clone(), false)).violation.is_some_and(|v| v.class == class)
    });
    let res = run_one(prop, &Sim::replay(best.clone(), true));
    if let Some(v) = res.violation {
        if v.class == class {
            r.tape = best;
            r.detail = v.detail;
            r.digest = Some(res.fin.digest);
            r.trace = res.fin.trace;
            return i32::from(r.save(Path::new(output)).is_err()) * 2;
        }
    }
    2
}

/// `gifsim digests ID BASE FROM TO`: one line per run, for the determinism self-test.
pub fn digests(id: &str, base: u64, from: u64, to: u64) -> i32 {
    let Some(prop) = props::find(id) else { return 2 };
    for i in from..to {
        let r = run_one(prop, &Sim::generate(run_seed(prop, base, i), false));
        println!("{i} {:016x} {} {}", r.fin.digest, r.fin.ticks, r.violation.map_or(String::from("ok"), |v| v.class));
    }
    0
}

// ---------------------------------------------------------------- worker

/// worker ID BASE WORKER STRIDE COUNT WALL_S DIR
pub fn worker(a: &[&str]) -> i32 {
    let Some(prop) = props::find(a[0]) else { return 2 };
    let num = |i: usize| a[i].parse::<u64>().unwrap_or(0);
    let (base, me, stride, count, wall) = (num(1), num(2), num(3), num(4), num(5));
    let dir = PathBuf::from(a[6]);
    start_watchdog();
    let known = known_findings();
    let t0 = Instant::now();
    let Ok(status) = OpenOptions::new().create(true).truncate(false).write(true).open(dir.join(format!("{me}.status"))) else { return 2 };
    let Ok(stop) = OpenOptions::new().read(true).write(true).open(dir.join("stop")) else { return 2 };
    let mut i = me;
    let (mut runs, mut nontrivial, mut ticks) = (0u64, 0u64, 0u64);
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: Option<(u64, Violation, TapeData, u64)> = None;
    let mut capped = false;
    while i < count {
        let mut b = [0u8; 8];
        let limit = if stop.read_exact_at(&mut b, 0).is_ok() { u64::from_le_bytes(b) } else { u64::MAX };
        if i > limit {
            break;
        }
        if t0.elapsed().as_secs() >= wall {
            capped = true;
            break;
        }
        let _ = status.write_all_at(&i.to_le_bytes(), 0);
        let sim = Sim::generate(run_seed(prop, base, i), false);
        let r = run_one(prop, &sim);
        runs += 1;
        ticks += r.fin.ticks;
        for (k, v) in &r.fin.counters {
            *counters.entry(k).or_default() += v;
        }
        if r.fin.nontrivial {
            nontrivial += 1;
            seen.insert(r.fin.digest);
        }
        if let Some(v) = r.violation {
            if let Some(k) = known.iter().find(|k| k.matches(prop.id, &v)) {
                *known_hits.entry(k.what.clone()).or_default() += 1;
            } else {
                if i < limit {
                    let _ = stop.write_all_at(&i.to_le_bytes(), 0);
                }
                found = Some((i, v, r.fin.tape, r.fin.digest));
                break;
            }
        }
        i += stride;
    }
    let _ = status.write_all_at(&u64::MAX.to_le_bytes(), 0);
    let mut out = format!("runs {runs}\nnontrivial {nontrivial}\nticks {ticks}\ncapped {}\n", u8::from(capped));
    for (k, v) in &counters {
        out += &format!("counter {v} {k}\n");
    }
    for (k, v) in &known_hits {
        out += &format!("known {v} {k}\n");
    }
    let mut dg = Vec::with_capacity(seen.len() * 8);
    for d in &seen {
        dg.extend_from_slice(&d.to_le_bytes());
    }
    let _ = fs::write(dir.join(format!("{me}.digests")), dg);
    if let Some((idx, v, tape, digest)) = found {
        let r = Replay {
            property: prop.id.into(),
            class: v.class,
            detail: v.detail,
            seed: run_seed(prop, base, idx),
            index: idx,
            tape,
            digest: Some(digest),
            history: None,
            trace: vec![],
            build: own_build(),
        };
        let _ = r.save(&dir.join(format!("{me}.violation")));
    }
    let _ = fs::write(dir.join(format!("{me}.result")), out);
    0
}

// ---------------------------------------------------------------- known findings

struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}

impl Known {
    fn matches(&self, id: &str, v: &Violation) -> bool {
        self.property == id && self.class == v.class && v.detail.contains(&self.contains)
    }
}

fn verif_root() -> PathBuf {
    std::env::var_os("GIFSIM_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// Lines `known: property=<id> class=<class> contains=<text> :: <what fails>` of
/// known-findings.txt. Lines starting `fixed:` suppress nothing.
fn known_findings() -> Vec<Known> {
    let text = fs::read_to_string(verif_root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (head, what) = rest.split_once(" :: ")?;
            let (property, rest) = head.split_once(" class=")?;
            let (class, contains) = rest.split_once(" contains=")?;
            Some(Known { property: property.into(), class: class.into(), contains: contains.into(), what: what.into() })
        })
        .collect()
}

// ---------------------------------------------------------------- parent

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The run a worker was in when it ended, unless it was through.
fn status_of(dir: &Path, w: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("{w}.status"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?)).filter(|i| *i != u64::MAX)
}

/// `gifsim check ID`
pub fn check(id: &str) -> i32 {
    let Some(prop) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let base = base_seed();
    let workers = std::env::var("GIFSIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16)
    });
    let scale: f64 = std::env::var("GIFSIM_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let count = ((prop.quick_runs as f64) * if thorough { 25.0 } else { 1.0 } * scale) as u64;
    let wall: u64 = if thorough { 700 } else { 150 };
    let root = verif_root();
    let dir = root.join("sim/target/runs").join(format!("{id}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    if fs::create_dir_all(&dir).is_err() || fs::write(dir.join("stop"), u64::MAX.to_le_bytes()).is_err() {
        eprintln!("cannot create {}", dir.display());
        return 2;
    }
    // every other batch runs the code as it is shipped
    let shipped = exe_of(BUILDS[1]).is_some_and(|e| e.parent().is_some_and(|d| d.ends_with(BUILDS[1])));
    let (Some(checked_exe), Some(shipped_exe)) = (exe_of(BUILDS[0]), exe_of(BUILDS[1])) else { return 2 };
    let exe_for = |build: &str| if shipped && build == BUILDS[1] { &shipped_exe } else { &checked_exe };
    // Each batch of runs has a process of its own, so that there are many first runs of a process,
    // and the history of a run is short.
    let batch = (count / (workers * 16)).clamp(100, 4000);
    let batches = count.div_ceil(batch);
    let build_of = |w: u64| BUILDS[usize::from(shipped && (w / batch) % 2 == 1)];
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let not_started = AtomicU64::new(0);
    let limit = || fs::read(dir.join("stop")).ok().and_then(|b| b.try_into().ok()).map_or(u64::MAX, u64::from_le_bytes);
    let slot = || -> Option<Vec<(u64, std::process::ExitStatus)>> {
        let mut ended = Vec::new();
        loop {
            let w = next.fetch_add(1, SeqCst) * batch;
            if w >= count || w > limit() {
                return Some(ended);
            }
            let left = wall.saturating_sub(t0.elapsed().as_secs());
            if left == 0 {
                not_started.fetch_add(1, SeqCst);
                continue;
            }
            let st = Command::new(exe_for(build_of(w)))
                .args(["worker", id, &base.to_string(), &w.to_string(), "1", &(w + batch).min(count).to_string(), &left.to_string()])
                .arg(&dir)
                .stdin(Stdio::null())
                .status()
                .ok()?;
            ended.push((w, st));
            // stop the others beyond a run that killed its process
            if !st.success() {
                if let Some(idx) = status_of(&dir, w).filter(|i| *i < limit()) {
                    if let Ok(f) = OpenOptions::new().write(true).open(dir.join("stop")) {
                        let _ = f.write_all_at(&idx.to_le_bytes(), 0);
                    }
                }
            }
        }
    };
    let all: Vec<Option<Vec<_>>> = std::thread::scope(|s| {
        let threads: Vec<_> = (0..workers.min(batches)).map(|_| s.spawn(slot)).collect();
        threads.into_iter().map(|t| t.join().ok().flatten()).collect()
    });
    let mut ended = Vec::new();
    for e in all {
        let Some(e) = e else {
            eprintln!("cannot start a worker");
            return 2;
        };
        ended.extend(e);
    }
    ended.sort_by_key(|e| e.0);
    // (index, replay, died)
    let mut worst: Option<(u64, Replay, Option<String>, u64)> = None;
    let mut harness_error = false;
    for &(w, st) in &ended {
        if let Some(r) = Replay::load(&dir.join(format!("{w}.violation"))) {
            if worst.as_ref().map_or(true, |x| r.index < x.0) {
                worst = Some((r.index, r, None, w));
            }
        } else if !st.success() {
            if st.code() == Some(HARNESS_EXIT) || st.code() == Some(2) {
                harness_error = true;
                continue;
            }
            let why = if st.code() == Some(STALL_EXIT) {
                "stall".to_string()
            } else {
                format!("abort (signal {:?}, exit {:?})", st.signal(), st.code())
            };
            let Some(idx) = status_of(&dir, w) else {
                harness_error = true;
                continue;
            };
            if st.signal() == Some(9) {
                eprintln!("gifsim: worker {w} was killed from outside during run {idx}");
                harness_error = true;
                continue;
            }
            if worst.as_ref().map_or(true, |x| idx < x.0) {
                let r = Replay {
                    property: id.into(),
                    class: if why == "stall" { "stall".into() } else { "abort".into() },
                    detail: if why == "stall" { "the run does not end (no progress)".into() } else { format!("the process died: {why}") },
                    seed: run_seed(prop, base, idx),
                    index: idx,
                    tape: TapeData::default(),
                    digest: None,
                    history: None,
                    trace: vec![],
                    build: build_of(w).into(),
                };
                worst = Some((idx, r, Some(why), w));
            }
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    // aggregate
    let (mut runs, mut nontrivial, mut ticks, mut capped) = (0u64, 0u64, 0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    for &(w, _) in &ended {
        for line in fs::read_to_string(dir.join(format!("{w}.result"))).unwrap_or_default().lines() {
            let mut p = line.splitn(3, ' ');
            match (p.next(), p.next().and_then(|v| v.parse::<u64>().ok())) {
                (Some("runs"), Some(v)) => runs += v,
                (Some("nontrivial"), Some(v)) => nontrivial += v,
                (Some("ticks"), Some(v)) => ticks += v,
                (Some("capped"), Some(v)) => capped += v,
                (Some("counter"), Some(v)) => *counters.entry(p.next().unwrap_or("").into()).or_default() += v,
                (Some("known"), Some(v)) => *known_hits.entry(p.next().unwrap_or("").into()).or_default() += v,
                _ => {}
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("{w}.digests"))) {
            for c in b.chunks_exact(8) {
                let mut a = [0; 8];
                a.copy_from_slice(c);
                distinct.insert(u64::from_le_bytes(a));
            }
        }
    }
    capped += not_started.load(SeqCst);
    let violated = worst.is_some();
    let mut exit = 0;
    let mut vline = String::new();
    if let Some((idx, mut r, died, w)) = worst {
        let exe = exe_for(&r.build).clone();
        let rdir = root.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-seed{base}-run{idx}.replay"));
        let keep_as_is = std::env::var_os("GIFSIM_NOMIN").is_some();
        if keep_as_is {
            let _ = r.save(&path);
        } else if died.is_some() {
            minimise_dead(&exe, prop, &mut r, &dir);
            let _ = r.save(&path);
        } else {
            let _ = r.save(&path);
            let min = dir.join("min.replay");
            // GIFSIM_NOMIN is for mass experiments, where nobody looks at the replay file
            let st = Command::new(&exe).arg("minimise").arg(&path).arg(&min).stdin(Stdio::null()).status();
            if st.map_or(false, |s| s.success()) && replays(&exe, &min) {
                let _ = fs::copy(&min, &path);
                if let Some(m) = Replay::load(&min) {
                    r.detail = m.detail;
                }
            }
        }
        if !keep_as_is && !replays(&exe, &path) {
            // The run depends on what ran before it in the same process: replay that history.
            r.history = Some((base, w, 1));
            let _ = r.save(&path);
            if !replays(&exe, &path) {
                println!("note: the violation was not reproduced by replaying its seed alone nor its worker's history");
            } else {
                println!("note: the violation needs the runs before it; the replay file replays that history");
            }
        }
        println!("property {id}: run {idx} (seed {}) class {}", r.seed, r.class);
        println!("{}", r.detail);
        vline = format!("VIOLATION property={id} replay={}", path.display());
        exit = 1;
    } else if harness_error {
        exit = 2;
    }
    for (k, _) in &known_hits {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    // samples
    let mut samples = Vec::new();
    if exit == 0 {
        for i in 0..40u64 {
            let r = run_one(prop, &Sim::generate(run_seed(prop, base, i), true));
            if r.fin.nontrivial && r.violation.is_none() {
                let n = r.fin.trace.len();
                let mut t: Vec<String> = r.fin.trace.iter().take(14).map(|l| l.trim().chars().take(400).collect()).collect();
                if n > 14 {
                    t.push(format!("... {} more events", n - 14));
                }
                samples.push(format!("run {i} seed {}: {}", run_seed(prop, base, i), t.join(" | ")));
                if samples.len() >= 3 {
                    break;
                }
            }
        }
    }
    let faults: Vec<String> = counters
        .iter()
        .filter(|(k, _)| k.contains("fault:") || k.starts_with("delivery:"))
        .map(|(k, v)| format!("{}: {v}", json_str(k)))
        .collect();
    let probes: Vec<String> = counters
        .iter()
        .filter(|(k, _)| !(k.contains("fault:") || k.starts_with("delivery:")))
        .map(|(k, v)| format!("{}: {v}", json_str(k)))
        .collect();
    let per_hour = |n: u64| (n as f64 / wall_s.max(0.001) * 3600.0) as u64;
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_runs\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs_per_hour\": {},\n  \"simulated_time\": {{\"io_and_api_events\": {}, \"note\": \"the code has no clock; simulated time is counted in environment events (reads, writes, faults, switches, API results)\"}},\n  \"faults_and_schedules_injected\": {{{}}},\n  \"probes\": {{{}}},\n  \"distinct_measure\": \"64-bit digest over the ordered log of all simulated reads, writes, faults, context switches and API results of a run\",\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"workers\": {},\n  \"stopped_by_wall_cap\": {},\n  \"planned_runs\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(if thorough { "thorough" } else { "quick" }),
        base,
        json_str(prop.level),
        runs,
        distinct.len(),
        nontrivial,
        json_str(prop.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        per_hour(runs),
        ticks,
        faults.join(", "),
        probes.join(", "),
        json_str(if shipped {
            "gif crate built from /repo's working tree (in every other batch of runs with debug assertions and overflow checks, in the others without, as shipped), weezl, color_quant, std::io::BufReader"
        } else {
            "gif crate built from /repo's working tree (debug assertions and overflow checks on), weezl, color_quant, std::io::BufReader"
        }),
        json_str(prop.stubs),
        workers,
        capped > 0,
        count,
        format!("[{}]", prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", ")),
        wall_s,
        u64::from(violated)
    );
    let evdir = root.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if fs::write(evdir.join(format!("{id}.json")), ev).is_err() {
        eprintln!("cannot write evidence");
        exit = exit.max(2);
    }
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{id} {tier}: {runs} runs ({nontrivial} non-trivial, {} distinct), {ticks} events, {wall_s:.1} s{}",
        distinct.len(),
        if capped > 0 { " [wall cap]" } else { "" }
    );
    if !vline.is_empty() {
        println!("{vline}");
    }
    exit
}

/// Does the replay file fail in its recorded class in a fresh process?
fn replays(exe: &Path, file: &Path) -> bool {
    let class = Replay::load(file).map(|r| r.class).unwrap_or_default();
    let st = Command::new(exe).arg("try").arg(file).env("GIFSIM_CPU", "8").stdin(Stdio::null()).stderr(Stdio::null()).status();
    match st {
        Ok(s) => match class.as_str() {
            "stall" => s.code() == Some(STALL_EXIT),
            "abort" => s.signal().is_some() && s.signal() != Some(9),
            _ => s.code() == Some(1),
        },
        Err(_) => false,
    }
}

/// Minimises a run that kills its process or never ends: each candidate runs in its own process.
fn minimise_dead(exe: &Path, prop: &Prop, r: &mut Replay, dir: &Path) {
    let spool = dir.join("spool");
    let _ = Command::new(exe)
        .args(["spool", prop.id, &r.seed.to_string()])
        .arg(&spool)
        .env("GIFSIM_CPU", "8")
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .status();
    r.tape = load_spool(&spool);
    let cand = dir.join("cand.replay");
    let class = r.class.clone();
    let t0 = Instant::now();
    let stall = class == "stall";
    let template = |t: &TapeData| Replay {
        property: prop.id.into(),
        class: class.clone(),
        detail: String::new(),
        seed: r.seed,
        index: r.index,
        tape: t.clone(),
        digest: None,
        history: None,
        trace: vec![],
        build: r.build.clone(),
    };
    let (best, _) = crate::minimise::minimise(r.tape.clone(), if stall { 60 } else { 600 }, |t| {
        if t0.elapsed() > Duration::from_secs(90) || template(t).save(&cand).is_err() {
            return false;
        }
        let st = Command::new(exe)
            .arg("try")
            .arg(&cand)
            .env("GIFSIM_CPU", "2")
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .status();
        match st {
            Ok(s) if stall => s.code() == Some(STALL_EXIT),
            Ok(s) => s.signal().is_some() && s.signal() != Some(9),
            Err(_) => false,
        }
    });
    r.tape = best;
}
