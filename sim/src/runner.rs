//! Runs simulations: a parent with worker processes, the minimiser and the replay of files.

use crate::choice::{mix, Src};
use crate::env::*;
use crate::findings;
use crate::props::{self, Spec};
use crate::report::*;
use crate::shim;
use crate::sim::COUNTERS;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const RECHECK: u64 = 64;
const MAX_WORKERS: usize = 64;
const HANG: Duration = Duration::from_secs(90);

pub fn home() -> PathBuf {
    std::env::var_os("GPTSIM_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn known() -> BTreeSet<String> {
    let f = std::env::var("GPTSIM_FINDINGS").unwrap_or_else(|_| home().join("known_findings.txt").display().to_string());
    findings::listed(&f)
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let p = prop.bytes().fold(0xcbf2_9ce4u64, |h, b| mix(h, b as u64));
    mix(mix(seed ^ 0x5EED, p), run)
}

// ---------------------------------------------------------------- one run

pub struct Outcome {
    pub ctx: Ctx,
    pub harness_panic: Option<String>,
    pub nontrivial: bool,
}

/// Runs on this thread, or on a fresh one once hash tables were seen in use: their keys are drawn
/// once per thread and would depend on earlier runs.
pub fn execute(spec: &Spec, src: Src, verbose: bool, live: bool, known: &BTreeSet<String>) -> Outcome {
    if !shim::hashed() {
        return execute_here(spec, src, verbose, live, known);
    }
    struct Sent<T>(T);
    // SAFETY: this thread waits meanwhile
    unsafe impl<T> Send for Sent<T> {}
    impl<T> Sent<T> {
        fn take(self) -> T {
            self.0
        }
    }
    let src = Sent(src);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, move || Sent(execute_here(spec, src.take(), verbose, live, known)))
            .expect("a thread")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
            .take()
    })
}

fn execute_here(spec: &Spec, src: Src, verbose: bool, live: bool, known: &BTreeSet<String>) -> Outcome {
    shim::unmount_all();
    let mut ctx = Ctx::new(src, spec.id, verbose);
    ctx.live = live;
    ctx.known = known.clone();
    // the library's randomness
    let rng = ctx.src.bits();
    getrandom::sim_seed(rng);
    seed_cfg(rng);
    shim::hash_seed(Some(rng));
    let r = catch_unwind(AssertUnwindSafe(|| {
        quiet(true);
        (spec.run)(&mut ctx);
    }));
    quiet(false);
    let harness_panic = r.err().map(|_| last_panic());
    ctx.finish();
    shim::hash_seed(None);
    shim::unmount_all();
    let nontrivial = if spec.marks.is_empty() {
        ctx.nontrivial
    } else {
        spec.marks.iter().any(|m| ctx.probes.get(m).copied().unwrap_or(0) > 0)
    };
    Outcome { ctx, harness_panic, nontrivial }
}

impl Outcome {
    fn focus(&self) -> Option<&Violation> {
        self.ctx.viol.iter().find(|v| v.prop == self.ctx.focus)
    }
    fn digest(&self) -> u64 {
        let mut h = self.ctx.hash;
        for v in &self.ctx.viol {
            for b in v.prop.bytes().chain(v.class.bytes()).chain(v.msg.bytes()) {
                h = mix(h, b as u64);
            }
        }
        for (p, n) in &self.ctx.probes {
            h = mix(h, p.len() as u64 ^ *n);
        }
        for v in &self.ctx.src.rec {
            h = (h ^ v).wrapping_mul(0x0000_0100_0000_01B3);
            h ^= h >> 31;
        }
        h
    }
}

// ---------------------------------------------------------------- shared memory

/// An array of counters shared with the parent.
struct Shm(*mut u64, usize);
unsafe impl Sync for Shm {}

impl Shm {
    fn map(path: &Path, words: usize) -> std::io::Result<Shm> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        f.set_len(words as u64 * 8)?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Shm(p as *mut u64, words))
    }
    fn anonymous(words: usize) -> Shm {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                words * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm(p as *mut u64, words)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        assert!(i < self.1);
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
}

// ---------------------------------------------------------------- worker

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// worker PROP SEED WORKER STRIDE COUNT DIR SECONDS
fn worker(a: &[String]) -> i32 {
    limit_memory();
    let spec = props::spec(&a[0]).unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let me: usize = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    let secs: u64 = a[6].parse().unwrap();
    let from: u64 = a[7].parse().unwrap();
    let shm = Shm::map(&dir.join("shm"), 1 + MAX_WORKERS).unwrap();
    let known = known();
    let start = Instant::now();
    let mut out = String::new();
    let (mut runs, mut nontrivial, mut rechecked, mut mismatches) = (0u64, 0u64, 0u64, 0u64);
    let mut steps = 0u64;
    let mut n = [0u64; COUNTERS.len()];
    let mut fired_runs = [0u64; COUNTERS.len()];
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut khit: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut others: BTreeMap<(String, String), (u64, u64)> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut all = 0u64;
    let mut i = from;
    while i < count {
        if i > shm.at(0).load(Ordering::Relaxed) || start.elapsed().as_secs() > secs {
            break;
        }
        shm.at(1 + me).store(i + 1, Ordering::Relaxed);
        let o = execute(spec, Src::random(run_seed(seed, spec.id, i)), false, false, &known);
        runs += 1;
        steps += o.ctx.src.rec.len() as u64;
        if let Some(p) = &o.harness_panic {
            let _ = writeln!(out, "harness {i} {}", esc(p));
        }
        if o.nontrivial {
            nontrivial += 1;
            hashes.insert(o.ctx.hash);
        }
        all ^= mix(o.digest(), i);
        for (k, v) in o.ctx.stats.n.iter().enumerate() {
            n[k] += v;
            fired_runs[k] += (*v > 0) as u64;
        }
        for (p, v) in &o.ctx.probes {
            *probes.entry(p).or_insert(0) += v;
        }
        for (p, v) in &o.ctx.known_hit {
            *khit.entry(p).or_insert(0) += v;
        }
        for v in &o.ctx.viol {
            if v.prop != spec.id {
                let e = others.entry((v.prop.to_string(), v.class.clone())).or_insert((0, i));
                e.0 += 1;
            }
        }
        if (i / stride) % RECHECK == 0 {
            rechecked += 1;
            let again = execute(spec, Src::random(run_seed(seed, spec.id, i)), false, false, &known);
            if again.digest() != o.digest() {
                mismatches += 1;
            }
        }
        if let Some(v) = o.focus() {
            let _ = writeln!(out, "viol {i} {} {}", esc(&v.class), esc(&v.msg));
            shm.at(0).fetch_min(i, Ordering::Relaxed);
            break;
        }
        i += stride;
    }
    let timed_out = i < count && start.elapsed().as_secs() > secs;
    let _ = writeln!(out, "n {runs} {nontrivial} {rechecked} {mismatches} {steps} {} {all}", timed_out as u8);
    for (k, v) in n.iter().enumerate() {
        let _ = writeln!(out, "stat {k} {v} {}", fired_runs[k]);
    }
    for (p, v) in &probes {
        let _ = writeln!(out, "probe {v} {p}");
    }
    for (p, v) in &khit {
        let _ = writeln!(out, "known {v} {p}");
    }
    for ((p, c), (k, i)) in &others {
        let _ = writeln!(out, "other {k} {i} {p} {}", esc(c));
    }
    let mut bin = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hashes{me}")), bin).unwrap();
    std::fs::write(dir.join(format!("result{me}")), out).unwrap();
    0
}

// ---------------------------------------------------------------- minimiser

const RING: usize = 1 << 20;

/// What a forked child reports: (matched, draws, spans)
struct Probe {
    shm: Shm,
}

struct Tried {
    class: Option<String>,
    rec: Vec<u64>,
    spans: Vec<(usize, usize)>,
}

impl Probe {
    fn new() -> Probe {
        Probe { shm: Shm::anonymous(3 * RING) }
    }

    /// Executes in a child of its own. The class is the one of the violation of the property.
    fn try_it(&self, spec: &Spec, src: Src, known: &BTreeSet<String>, seconds: u32) -> Tried {
        let s = &self.shm;
        s.at(0).store(0, Ordering::SeqCst); // draws
        s.at(1).store(0, Ordering::SeqCst); // spans
        s.at(2).store(0, Ordering::SeqCst); // length of the class
        let mut src = src;
        src.spill = Some(crate::choice::Spill { count: s.0, data: unsafe { s.0.add(16) }, cap: RING as u64 });
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            limit_memory();
            unsafe {
                libc::alarm(seconds);
                let null = libc::open64(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(null, 2);
            }
            let o = execute(spec, src, false, false, known);
            let mut code = 0;
            if let Some(v) = o.focus() {
                let c = v.class.as_bytes();
                let n = c.len().min(4096);
                unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), s.0.add(16 + RING) as *mut u8, n) };
                s.at(2).store(n as u64, Ordering::SeqCst);
                code = 1;
            }
            let spans = &o.ctx.src.spans;
            let k = spans.len().min(RING / 4);
            for (i, (a, b)) in spans.iter().take(k).enumerate() {
                s.at(16 + RING + 1024 + 2 * i).store(*a as u64, Ordering::Relaxed);
                s.at(16 + RING + 1025 + 2 * i).store(*b as u64, Ordering::Relaxed);
            }
            s.at(1).store(k as u64, Ordering::SeqCst);
            unsafe { libc::_exit(code) };
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let class = if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                0 => None,
                1 => {
                    let n = s.at(2).load(Ordering::SeqCst) as usize;
                    let b = unsafe { std::slice::from_raw_parts(s.0.add(16 + RING) as *const u8, n) };
                    Some(String::from_utf8_lossy(b).into_owned())
                }
                EXIT_MEMORY => Some("memory limit exceeded".into()),
                o => Some(format!("process exited with {o}")),
            }
        } else if libc::WTERMSIG(st) == libc::SIGALRM {
            Some("no progress".into())
        } else {
            Some(format!("process ended by signal {}", libc::WTERMSIG(st)))
        };
        let n = (s.at(0).load(Ordering::SeqCst) as usize).min(RING);
        let rec = (0..n).map(|i| s.at(16 + i).load(Ordering::Relaxed)).collect();
        let k = s.at(1).load(Ordering::SeqCst) as usize;
        let spans = (0..k)
            .map(|i| {
                let a = s.at(16 + RING + 1024 + 2 * i).load(Ordering::Relaxed) as usize;
                let b = s.at(16 + RING + 1025 + 2 * i).load(Ordering::Relaxed) as usize;
                (a, b)
            })
            .collect();
        Tried { class, rec, spans }
    }
}

fn trim(v: &mut Vec<u64>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

/// Smaller is better: fewer non-zero draws, fewer draws, then smaller ones.
fn weight(v: &[u64]) -> (usize, usize, u128) {
    (v.len(), v.iter().filter(|x| **x != 0).count(), v.iter().map(|x| *x as u128).sum())
}

/// shrink PROP SEED RUN SECONDS OUT
fn shrink(a: &[String]) -> i32 {
    let spec = props::spec(&a[0]).unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let run: u64 = a[2].parse().unwrap();
    let secs: u64 = a[3].parse().unwrap();
    let out = PathBuf::from(&a[4]);
    let known = known();
    let start = Instant::now();
    let p = Probe::new();
    let first = p.try_it(spec, Src::random(run_seed(seed, spec.id, run)), &known, 60);
    let Some(class) = first.class.clone() else {
        eprintln!("the violation did not show again");
        return 2;
    };
    let slow = class == "no progress";
    let original = first.rec.len();
    let save = |rec: &[u64]| {
        let v: Vec<String> = rec.iter().map(|x| x.to_string()).collect();
        let t = format!("{{\"class\": {}, \"original_draws\": {original}, \"choices\": [{}]}}\n", esc(&class), v.join(","));
        let tmp = out.with_extension("tmp");
        if std::fs::write(&tmp, t).is_ok() {
            let _ = std::fs::rename(&tmp, &out);
        }
    };
    let mut best = first.rec.clone();
    let mut spans = first.spans;
    save(&best);
    let over = || start.elapsed().as_secs() >= secs;
    let mut attempts = 0u64;
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, spans: &mut Vec<(usize, usize)>| -> bool {
        let mut c = cand;
        trim(&mut c);
        if weight(&c) >= weight(best) {
            return false;
        }
        let h = c.iter().fold(c.len() as u64, |h, x| mix(h, *x));
        if !seen.insert(h) {
            return false;
        }
        attempts += 1;
        let t = p.try_it(spec, Src::replay(c.clone()), &known, if slow { 4 } else { 20 });
        if t.class.as_deref() == Some(class.as_str()) {
            // what was drawn is the normal form of it
            let mut r = t.rec;
            trim(&mut r);
            *best = if weight(&r) <= weight(&c) && r.len() <= c.len() { r } else { c };
            *spans = t.spans;
            save(best);
            true
        } else {
            false
        }
    };
    let mut b2 = best.clone();
    trim(&mut b2);
    if weight(&b2) < weight(&best) {
        attempt(b2, &mut best, &mut spans);
    }
    loop {
        let w0 = weight(&best);
        // steps
        let mut k = 0;
        loop {
            let mut s = spans.clone();
            s.sort_by_key(|x| std::cmp::Reverse(x.1 - x.0));
            if k >= s.len() || over() {
                break;
            }
            let (x, y) = s[k];
            let ok = y <= best.len().max(x) && x < best.len() && {
                let mut c = best.clone();
                c.drain(x..y.min(c.len()));
                attempt(c, &mut best, &mut spans)
            };
            if !ok {
                k += 1;
            }
        }
        // chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over() {
            let mut at = 0;
            while at < best.len() && !over() {
                let end = (at + size).min(best.len());
                let mut c = best.clone();
                c.drain(at..end);
                if attempt(c, &mut best, &mut spans) {
                    continue;
                }
                let mut c = best.clone();
                c[at..end].fill(0);
                attempt(c, &mut best, &mut spans);
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // values
        let mut at = 0;
        while at < best.len() && !over() {
            let v = best[at];
            if v != 0 {
                for n in [0, 1, v >> 32, v >> 16, v >> 8, v / 2, v - 1] {
                    if at >= best.len() || n >= best[at] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[at] = n;
                    if attempt(c, &mut best, &mut spans) {
                        break;
                    }
                }
                if at < best.len() && best[at] != v && best[at] != 0 {
                    continue;
                }
            }
            at += 1;
        }
        if over() || weight(&best) >= w0 {
            break;
        }
    }
    println!("{attempts} attempts, {original} draws became {}", best.len());
    0
}

// ---------------------------------------------------------------- replay

/// replay FILE
fn replay(a: &[String]) -> i32 {
    let Ok(text) = std::fs::read_to_string(&a[0]) else {
        eprintln!("cannot read {}", a[0]);
        return 2;
    };
    let (Some(prop), Some(choices)) = (member(&text, "property"), numbers(&text, "choices")) else {
        eprintln!("not a replay file");
        return 2;
    };
    let Some(spec) = props::spec(&prop) else { return 2 };
    let want = member(&text, "class").unwrap_or_default();
    let digest = member(&text, "execution").unwrap_or_default();
    let known = known();
    let path = a[0].clone();
    std::io::stdout().flush().ok();
    let slow = want == "no progress";
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        limit_memory();
        unsafe { libc::alarm(if slow { 20 } else { 120 }) };
        let o = execute(spec, Src::replay(choices), true, true, &known);
        let got = format!("{:016x}", o.ctx.hash);
        println!("execution {got}{}", if digest.is_empty() { "" } else if digest == got { " (identical)" } else { " (DIFFERENT)" });
        let mut code = 0;
        if let Some(v) = o.focus() {
            println!("{}: {}: {}", v.prop, v.class, v.msg);
            code = if v.class == want || want.is_empty() { 1 } else { 3 };
        }
        std::io::stdout().flush().ok();
        unsafe { libc::_exit(code) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 100 };
    match code {
        0 => {
            println!("not reproduced: the property held in this execution");
            0
        }
        _ => {
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}

// ---------------------------------------------------------------- parent

struct Found {
    run: u64,
    class: String,
    msg: String,
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    rechecked: u64,
    mismatches: u64,
    draws: u64,
    timed_out: bool,
    all: u64,
    stat: Vec<(u64, u64)>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    others: BTreeMap<(String, String), (u64, u64)>,
    harness: Vec<String>,
    hashes: BTreeSet<u64>,
}

fn spawn_worker(spec: &Spec, seed: u64, me: usize, stride: u64, count: u64, dir: &Path, secs: u64, from: u64) -> std::io::Result<Child> {
    Command::new(std::env::current_exe()?)
        .args([
            "worker".to_string(),
            spec.id.to_string(),
            seed.to_string(),
            me.to_string(),
            stride.to_string(),
            count.to_string(),
            dir.display().to_string(),
            secs.to_string(),
            from.to_string(),
        ])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
}

/// check PROP TIER
fn check(a: &[String]) -> i32 {
    let Some(spec) = props::spec(&a[0]) else {
        eprintln!("unknown property {}", a[0]);
        return 2;
    };
    let tier = a.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let begin = Instant::now();
    println!("property {} seed {seed} tier {tier}", spec.id);
    if let Err(e) = shim::self_test() {
        eprintln!("self test of the simulated files failed: {e}");
        return 2;
    }
    let count = std::env::var("GPTSIM_RUNS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { spec.thorough } else { spec.quick });
    let secs: u64 = std::env::var("GPTSIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 480 } else { 120 });
    let workers = std::env::var("GPTSIM_WORKERS")
        .ok()
        .and_then(|s| s.parse::<usize>().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8))
        .clamp(1, MAX_WORKERS);
    let dir = std::env::temp_dir().join(format!("gptsim-{}-{}", spec.id, std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("{}: {e}", dir.display());
        return 2;
    }
    let r = check_in(spec, &tier, seed, count, secs, workers, &dir, begin);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

#[allow(clippy::too_many_arguments)]
fn check_in(spec: &Spec, tier: &str, seed: u64, count: u64, secs: u64, workers: usize, dir: &Path, begin: Instant) -> i32 {
    // findings that are listed
    let known = known();
    let mut shown = vec![];
    let mut gone = vec![];
    for f in findings::FINDINGS.iter().filter(|f| f.prop == spec.id) {
        if known.contains(f.id) {
            match (f.witness)() {
                Some(t) => {
                    println!("KNOWN-FINDING: property={} {} ({t})", f.prop, f.id);
                    shown.push(format!("{}: {t}", f.id));
                }
                None => gone.push(f.id.to_string()),
            }
        }
    }
    shim::unmount_all();
    let shm = match Shm::map(&dir.join("shm"), 1 + MAX_WORKERS) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("shared memory: {e}");
            return 2;
        }
    };
    shm.at(0).store(u64::MAX, Ordering::SeqCst);
    let sim_start = Instant::now();
    let mut kids: Vec<Option<(Child, u64, Instant)>> = vec![];
    for k in 0..workers {
        match spawn_worker(spec, seed, k, workers as u64, count, dir, secs, k as u64) {
            Ok(c) => kids.push(Some((c, 0, Instant::now()))),
            Err(e) => {
                eprintln!("worker: {e}");
                return 2;
            }
        }
    }
    let mut found: Vec<Found> = vec![];
    let mut broken: Option<String> = None;
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(15));
        for (k, slot) in kids.iter_mut().enumerate() {
            let Some((c, last, since)) = slot else { continue };
            let now = shm.at(1 + k).load(Ordering::SeqCst);
            if now != *last {
                *last = now;
                *since = Instant::now();
            }
            let run = now.saturating_sub(1);
            match c.try_wait() {
                Ok(Some(st)) => {
                    if !st.success() {
                        use std::os::unix::process::ExitStatusExt;
                        let class = match (st.code(), st.signal()) {
                            (Some(EXIT_MEMORY), _) => "memory limit exceeded".to_string(),
                            (Some(c), _) => format!("process exited with {c}"),
                            (_, Some(s)) => format!("process ended by signal {s}"),
                            _ => "process ended".into(),
                        };
                        if now == 0 {
                            broken = Some(format!("worker {k}: {class} before its first run"));
                        } else {
                            shm.at(0).fetch_min(run, Ordering::SeqCst);
                            found.push(Found { run, class, msg: "the library ended the process".into() });
                        }
                    }
                    *slot = None;
                }
                Ok(None) => {
                    if since.elapsed() > HANG && now > 0 {
                        let _ = c.kill();
                        let _ = c.wait();
                        shm.at(0).fetch_min(run, Ordering::SeqCst);
                        found.push(Found { run, class: "no progress".into(), msg: format!("nothing happened for {} s", HANG.as_secs()) });
                        *slot = None;
                    }
                }
                Err(e) => {
                    broken = Some(format!("worker {k}: {e}"));
                    *slot = None;
                }
            }
        }
    }
    let sim_wall = sim_start.elapsed().as_secs_f64();
    let mut t = Totals { stat: vec![(0, 0); COUNTERS.len()], ..Totals::default() };
    for k in 0..workers {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("result{k}"))) {
            for l in s.lines() {
                parse_line(&mut t, &mut found, l);
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hashes{k}"))) {
            t.hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    if let Some(b) = broken {
        eprintln!("{b}");
        return 2;
    }
    found.sort_by_key(|f| f.run);
    if !t.harness.is_empty() {
        println!("note: {} runs ended by an error of the harness, first: {}", t.harness.len(), t.harness[0]);
    }
    if t.mismatches > 0 {
        println!("note: {} of {} repeated runs differed", t.mismatches, t.rechecked);
    }
    let mut code = 0;
    let mut vtext = String::new();
    if let Some(f) = found.first() {
        let file = report_violation(spec, tier, seed, f, dir);
        vtext = format!("{}: {} (run {}, {})", f.class, f.msg, f.run, file.display());
        println!("{}: {}", f.class, f.msg);
        println!("VIOLATION property={} replay={}", spec.id, file.display());
        code = 1;
    }
    let ev = evidence(spec, tier, seed, count, workers, sim_wall, begin, &t, &shown, &gone, &known, if code == 1 { 1 } else { 0 }, &vtext);
    let ed = home().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(e) = std::fs::write(ed.join(format!("{}.json", spec.id)), ev) {
        eprintln!("evidence: {e}");
        if code == 0 {
            return 2;
        }
    }
    println!(
        "{} runs, {} distinct non-trivial, {} device operations, {:.1} s",
        t.runs,
        t.hashes.len(),
        t.stat[..4].iter().map(|s| s.0).sum::<u64>(),
        begin.elapsed().as_secs_f64()
    );
    code
}

fn parse_line(t: &mut Totals, found: &mut Vec<Found>, l: &str) {
    let mut w = l.splitn(2, ' ');
    let (k, r) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
    let mut f = r.split(' ');
    let mut num = || f.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    match k {
        "n" => {
            t.runs += num();
            t.nontrivial += num();
            t.rechecked += num();
            t.mismatches += num();
            t.draws += num();
            t.timed_out |= num() > 0;
            t.all ^= num();
        }
        "stat" => {
            let i = num() as usize;
            if i < t.stat.len() {
                t.stat[i].0 += num();
                t.stat[i].1 += num();
            }
        }
        "probe" | "known" => {
            let mut x = r.splitn(2, ' ');
            let v: u64 = x.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let name = x.next().unwrap_or("").to_string();
            *if k == "probe" { &mut t.probes } else { &mut t.known }.entry(name).or_insert(0) += v;
        }
        "other" => {
            let mut x = r.splitn(4, ' ');
            let n: u64 = x.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let i: u64 = x.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let p = x.next().unwrap_or("").to_string();
            let c = member(&format!("\"c\":{}", x.next().unwrap_or("")), "c").unwrap_or_default();
            let e = t.others.entry((p, c)).or_insert((0, i));
            e.0 += n;
            e.1 = e.1.min(i);
        }
        "harness" => t.harness.push(r.to_string()),
        "viol" => {
            let mut x = r.splitn(2, ' ');
            let run: u64 = x.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let rest = x.next().unwrap_or("");
            let class = member(&format!("\"c\":{rest}"), "c").unwrap_or_default();
            let skip = esc(&class).len() + 1;
            let msg = rest.get(skip..).and_then(|m| member(&format!("\"c\":{m}"), "c")).unwrap_or_default();
            found.push(Found { run, class, msg });
        }
        _ => {}
    }
}

/// Minimises the violation and writes the replay file.
fn report_violation(spec: &Spec, tier: &str, seed: u64, f: &Found, dir: &Path) -> PathBuf {
    let rdir = home().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let file = rdir.join(format!("{}-{seed}-{}.json", spec.id, f.run));
    let small = dir.join("shrunk.json");
    let limit: u64 = std::env::var("GPTSIM_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 90 } else { 40 });
    let exe = std::env::current_exe().unwrap_or_default();
    if let Ok(mut c) = Command::new(&exe)
        .args(["shrink", spec.id, &seed.to_string(), &f.run.to_string(), &limit.to_string(), &small.display().to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        let t0 = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(_)) | Err(_) => break,
                Ok(None) if t0.elapsed().as_secs() > limit + 70 => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break;
                }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        }
    }
    let text = std::fs::read_to_string(&small).unwrap_or_default();
    let class = member(&text, "class").unwrap_or_else(|| f.class.clone());
    let original = member(&text, "original_draws").unwrap_or_default();
    let choices = numbers(&text, "choices");
    let body = |trace: &[String], digest: &str, reproduced: bool| {
        let ch: Vec<String> = choices.iter().flatten().map(|x| x.to_string()).collect();
        format!(
            "{{\n  \"property\": {},\n  \"class\": {},\n  \"message\": {},\n  \"seed\": {seed},\n  \"run\": {},\n  \"tier\": {},\n  \"original_draws\": {},\n  \"minimised_draws\": {},\n  \"execution\": {},\n  \"reproduced_in_a_fresh_process\": {reproduced},\n  \"choices\": [{}],\n  \"how\": {},\n  \"trace\": {}\n}}\n",
            esc(spec.id),
            esc(&class),
            esc(&f.msg),
            f.run,
            esc(tier),
            if original.is_empty() { "0" } else { &original },
            ch.len(),
            esc(digest),
            ch.join(","),
            esc(&format!("/verif/check.sh replay {}", file.display())),
            lines(trace, "  ")
        )
    };
    let _ = std::fs::write(&file, body(&[], "", false));
    if choices.is_some() {
        if let Ok(o) = Command::new(&exe).args(["replay", &file.display().to_string()]).stdin(Stdio::null()).stderr(Stdio::null()).output() {
            let s = String::from_utf8_lossy(&o.stdout);
            let digest = s.lines().find_map(|l| l.strip_prefix("execution ")).unwrap_or("").split(' ').next().unwrap_or("").to_string();
            let mut trace: Vec<String> = s.lines().filter(|l| !l.starts_with("VIOLATION") && !l.starts_with("execution ")).map(|l| l.to_string()).collect();
            if trace.len() > 600 {
                let n = trace.len();
                trace = trace[..200].iter().cloned().chain([format!("... {} lines ...", n - 600)]).chain(trace[n - 400..].iter().cloned()).collect();
            }
            let _ = std::fs::write(&file, body(&trace, &digest, o.status.code() == Some(1)));
            for l in trace.iter().rev().take(40).rev() {
                println!("  | {l}");
            }
        }
    }
    file
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    spec: &Spec,
    tier: &str,
    seed: u64,
    count: u64,
    workers: usize,
    sim_wall: f64,
    begin: Instant,
    t: &Totals,
    shown: &[String],
    gone: &[String],
    known: &BTreeSet<String>,
    violations: u64,
    vtext: &str,
) -> String {
    // two of the runs, written out
    let mut samples = vec![];
    let mut i = 0;
    while samples.len() < 2 && i < 40.min(count) {
        let o = execute(spec, Src::random(run_seed(seed, spec.id, i)), true, false, known);
        if o.nontrivial && o.harness_panic.is_none() {
            let mut tr = o.ctx.trace.unwrap_or_default();
            let n = tr.len();
            if n > 45 {
                tr.truncate(45);
                tr.push(format!("... {} more lines", n - 45));
            }
            let tr: Vec<String> = tr.into_iter().map(|l| l.chars().take(260).collect()).collect();
            samples.push(format!("      {{\"run\": {i}, \"trace\": {}}}", lines(&tr, "      ")));
        }
        i += 1;
    }
    let ops: u64 = t.stat[..4].iter().map(|s| s.0).sum();
    let mut faults = vec![];
    for (k, name) in COUNTERS.iter().enumerate().skip(5) {
        faults.push(format!("      {}: {{\"injected\": {}, \"runs\": {}}}", esc(name), t.stat[k].0, t.stat[k].1));
    }
    let mut oper = vec![];
    for (k, name) in COUNTERS.iter().enumerate().take(5) {
        oper.push(format!("{}: {}", esc(name), t.stat[k].0));
    }
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let others: Vec<String> = t.others.iter().map(|((p, c), (n, i))| format!("{p}: {c}: {n} times, first in run {i}")).collect();
    let rule = format!(
        "Run i of property {p} is a pure function of (VERIF_SEED, {p}, i): one PRNG draws the disk (size, block size, fill, path or device), its first table, the configuration, every operation with its arguments and every fault (kind, place, extent). A run is non-trivial if {n}. Distinct means that the hash over all device operations with their positions, lengths, data and injected faults and over the tables after every edit differs from that of every other non-trivial run.",
        p = spec.id,
        n = spec.nontrivial
    );
    let hours = sim_wall / 3600.0;
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n{}\n    ],\n",
        esc(spec.id),
        esc(tier),
        t.runs,
        t.hashes.len(),
        esc(&rule),
        samples.join(",\n")
    );
    let _ = write!(
        s,
        "    \"runs_planned\": {count},\n    \"stopped_by_time_limit\": {},\n    \"nontrivial_runs\": {},\n    \"random_decisions\": {},\n    \"runs_per_hour\": {:.0},\n    \"seeds_per_hour\": {:.0},\n    \"worker_processes\": {workers},\n",
        t.timed_out,
        t.nontrivial,
        t.draws,
        t.runs as f64 / hours.max(1e-9),
        t.runs as f64 / hours.max(1e-9),
    );
    let _ = write!(
        s,
        "    \"simulated_time\": {{\"unit\": \"device operations, the code under test has no clock\", \"covered\": {ops}, \"by_kind\": {{{}}}}},\n    \"faults\": {{\n{}\n    }},\n    \"probes\": {},\n",
        oper.join(", "),
        faults.join(",\n"),
        map(&t.probes)
    );
    let _ = write!(
        s,
        "    \"determinism\": {{\"runs_executed_twice\": {}, \"differences\": {}, \"digest_of_all_runs\": \"{:016x}\"}},\n    \"harness_errors\": {},\n    \"known_findings_shown\": {},\n    \"known_findings_not_reproduced\": {},\n    \"known_finding_instances_in_runs\": {},\n    \"violations_of_other_properties_seen\": {},\n    \"violation\": {},\n",
        t.rechecked,
        t.mismatches,
        t.all,
        lines(&t.harness.iter().take(5).collect::<Vec<_>>(), "    "),
        list(shown),
        list(gone),
        map(&t.known),
        list(&others),
        esc(vtext)
    );
    let _ = write!(
        s,
        "    \"real_code\": {},\n    \"simulated\": {}\n  }},\n",
        list(&[
            "the gpt crate as it is in /repo's working tree, all modules, unmodified and without hooks, compiled with overflow checks and debug assertions",
            "the crates crc, bitflags and uuid (Q01: log and tracing as well)",
            "std::fs::File and std::io of the Rust standard library down to the libc calls (path-based runs)",
        ]),
        list(&[
            "the block device: a cache, barriers, power loss with lost, reordered, torn and stale sectors, errors, short and interrupted transfers, bit flips",
            "the libc file calls open, read, write, lseek, fsync, fstat, ftruncate and relatives for paths below /gptsim/",
            "getrandom (seeded stream)",
            "the thread scheduler (baton passing at every device operation)",
        ])
    );
    let _ = write!(
        s,
        "  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {violations}\n}}\n",
        list(&[
            "sectors of 512 bytes are the unit of reordering, tearing happens inside of them",
            "a successful flush (device) or fsync (path) makes everything written before it durable",
            "sampling, not enumeration: schedules and faults that were not drawn are not covered",
        ]),
        begin.elapsed().as_secs_f64()
    );
    s
}

// ---------------------------------------------------------------- development

/// run PROP SEED FROM COUNT [v]: in this process
fn run(a: &[String]) -> i32 {
    let Some(spec) = props::spec(&a[0]) else { return 2 };
    let seed: u64 = a[1].parse().unwrap();
    let from: u64 = a[2].parse().unwrap();
    let n: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
    let v = a.get(4).is_some();
    let known = known();
    let mut classes: BTreeMap<(String, String), (u64, u64, String)> = BTreeMap::new();
    let t0 = Instant::now();
    for i in from..from + n {
        let o = execute(spec, Src::random(run_seed(seed, spec.id, i)), v, v, &known);
        if let Some(p) = &o.harness_panic {
            println!("run {i}: harness: {p}");
        }
        for x in &o.ctx.viol {
            let e = classes.entry((x.prop.into(), x.class.clone())).or_insert((0, i, x.msg.clone()));
            e.0 += 1;
        }
        if v {
            println!("run {i}: digest {:016x} nontrivial {} {:?} {:?}", o.digest(), o.nontrivial, o.ctx.probes, o.ctx.known_hit);
        }
    }
    for ((p, c), (k, i, m)) in &classes {
        println!("{p}: {c}: {k} times, first in run {i}: {}", m.chars().take(300).collect::<String>());
    }
    println!("{n} runs in {:.2} s", t0.elapsed().as_secs_f64());
    0
}

/// digest PROP SEED COUNT: one line per run, to compare processes
fn digest(a: &[String]) -> i32 {
    let Some(spec) = props::spec(&a[0]) else { return 2 };
    let seed: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let known = known();
    for i in 0..n {
        let o = execute(spec, Src::random(run_seed(seed, spec.id, i)), false, false, &known);
        println!("{} {seed} {i} {:016x}", spec.id, o.digest());
    }
    0
}

pub fn main(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => check(&args[1..]),
        Some("worker") => worker(&args[1..]),
        Some("serve") => crate::variants::serve(),
        Some("shrink") => shrink(&args[1..]),
        Some("replay") if args.len() == 2 => replay(&args[1..]),
        Some("run") if args.len() >= 4 => run(&args[1..]),
        Some("digest") if args.len() == 4 => digest(&args[1..]),
        Some("selftest") => match shim::self_test() {
            Ok(()) => {
                println!("ok");
                0
            }
            Err(e) => {
                eprintln!("{e}");
                2
            }
        },
        Some("list") => {
            for s in props::SPECS {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("gptsim check PROPERTY [quick|thorough] | replay FILE | run PROPERTY SEED FROM [COUNT [v]] | digest PROPERTY SEED COUNT | list | selftest");
            2
        }
    }
}
