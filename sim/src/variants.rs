//! Q01: the same run in differently built copies of this program. The library has two optional
//! features for logs (`log`, `tracing`), and its users build it without debug assertions and
//! overflow checks. Every copy gets the numbers that were drawn here, so its run is the same one
//! as long as the library behaves the same.

use crate::choice::{mix, Src};
use crate::env::*;
use crate::hist::{self, Profile, Weights};
use crate::model::CfgWeights;
use crate::sim::lock;
use crate::{hostile, manual, props, runner, scen, twin};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, PoisonError};

/// This process answers another one.
static SERVING: AtomicBool = AtomicBool::new(false);

/// Name of a build and whether its logs are on.
const WAYS: &[(&str, bool, &str)] = &[
    ("log", false, "feature log, logs off"),
    ("log", true, "feature log, all logs on"),
    ("tracing", false, "feature tracing, logs off"),
    ("tracing", true, "feature tracing, all logs on"),
    ("shipped", false, "without debug assertions and overflow checks"),
];

struct Peer {
    pid: u32,
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Drop for Peer {
    fn drop(&mut self) {
        if self.pid == std::process::id() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
}

static PEERS: Mutex<Vec<Option<Peer>>> = Mutex::new(vec![]);
static ANSWER: Mutex<Option<Answer>> = Mutex::new(None);

#[derive(Clone, PartialEq, Eq, Default)]
struct Answer {
    hash: u64,
    draws: u64,
    tables: u64,
    text: String,
}

fn path(name: &str) -> Option<String> {
    let d = std::env::var("GPTSIM_BUILDS").ok()?;
    let p = format!("{d}/{name}");
    std::path::Path::new(&p).is_file().then_some(p)
}

fn spawn(name: &str) -> Option<Peer> {
    let mut child = Command::new(path(name)?)
        .arg("serve")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let to = child.stdin.take()?;
    let from = child.stdout.take()?;
    Some(Peer {
        pid: std::process::id(),
        child,
        to,
        from,
    })
}

fn put(w: &mut impl Write, v: &[u64]) -> std::io::Result<()> {
    let mut b = Vec::with_capacity(v.len() * 8);
    for x in v {
        b.extend_from_slice(&x.to_le_bytes());
    }
    w.write_all(&b)?;
    w.flush()
}

fn get(r: &mut impl Read) -> std::io::Result<u64> {
    let mut b = [0; 8];
    r.read_exact(&mut b)?;
    Ok(u64::from_le_bytes(b))
}

fn ask(slot: usize, name: &str, logs: bool, verbose: bool, rec: &[u64]) -> Option<std::io::Result<Answer>> {
    {
        let mut p = PEERS.lock().unwrap_or_else(PoisonError::into_inner);
        p.resize_with(WAYS.len(), || None);
        // a fork shares its pipes with another process
        if p[slot].as_ref().is_some_and(|x| x.pid != std::process::id()) {
            std::mem::forget(p[slot].take());
        }
        if p[slot].is_none() {
            p[slot] = Some(spawn(name)?);
        }
        let x = p[slot].as_mut().unwrap();
        let r = (|| {
            let mut m = vec![logs as u64 | (verbose as u64) << 1, rec.len() as u64];
            m.extend_from_slice(rec);
            put(&mut x.to, &m)?;
            let hash = get(&mut x.from)?;
            let draws = get(&mut x.from)?;
            let tables = get(&mut x.from)?;
            let mut t = vec![0; get(&mut x.from)? as usize];
            x.from.read_exact(&mut t)?;
            Ok(Answer {
                hash,
                draws,
                tables,
                text: String::from_utf8_lossy(&t).into_owned(),
            })
        })();
        if r.is_err() {
            p[slot] = None;
        }
        Some(r)
    }
}

/// serve: runs what is read from the standard input
pub fn serve() -> i32 {
    SERVING.store(true, Ordering::SeqCst);
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let known = runner::known();
    let Some(spec) = props::spec("Q01") else { return 2 };
    loop {
        let Ok(flags) = get(&mut i) else { return 0 };
        let Ok(n) = get(&mut i) else { return 0 };
        let mut b = vec![0; n as usize * 8];
        if i.read_exact(&mut b).is_err() {
            return 0;
        }
        let rec = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        logs::switch(flags & 1 != 0);
        *ANSWER.lock().unwrap_or_else(PoisonError::into_inner) = None;
        let out = runner::execute(spec, Src::replay(rec), flags & 2 != 0, false, &known);
        logs::switch(false);
        let mut a = ANSWER.lock().unwrap_or_else(PoisonError::into_inner).take().unwrap_or_default();
        if flags & 2 != 0 {
            a.text = out.ctx.trace.unwrap_or_default().join("\n");
        }
        let t = a.text.as_bytes();
        if put(&mut o, &[a.hash, a.draws, a.tables, t.len() as u64]).is_err() || o.write_all(t).is_err() || o.flush().is_err() {
            return 0;
        }
    }
}

fn answer(ctx: &Ctx) -> Answer {
    let mut h = ctx.hash;
    for d in &ctx.disks {
        h = mix(h, lock(d).hash);
    }
    let tables = h;
    for (p, n) in &ctx.probes {
        h = mix(h, p.len() as u64 ^ *n);
    }
    for v in &ctx.viol {
        for b in v.prop.bytes().chain(v.class.bytes()) {
            h = mix(h, b as u64);
        }
    }
    for v in &ctx.src.rec {
        h = mix(h, *v);
    }
    let text = ctx.viol.first().map(|v| format!("{}: {}", v.prop, v.class)).unwrap_or_default();
    Answer {
        hash: h,
        draws: ctx.src.rec.len() as u64,
        tables,
        text,
    }
}

fn inner(ctx: &mut Ctx) {
    let b = Profile::default();
    let w = b.w.clone();
    match ctx.src.choose_weighted(&[12, 3, 2, 2, 2, 1, 2]) {
        0 => {
            hist::history(
                ctx,
                &Profile {
                    foreign: 50,
                    file: 30,
                    steps: 24,
                    max_parts: 16,
                    cfg: CfgWeights {
                        readonly: 8,
                        strict: 8,
                        ro_backup: 10,
                        consent: 25,
                    },
                    w: Weights {
                        write: 9,
                        replace: 6,
                        reopen: 4,
                        grow: 3,
                        damage: 3,
                        guid: 3,
                        ..w
                    },
                    edit_faults: [5, 1, 2],
                    write_faults: [6, 2, 4, 2],
                    tight: 20,
                    ..b
                },
            );
        }
        1 => hostile::o01(ctx),
        2 => twin::p01(ctx),
        3 => twin::k01(ctx),
        4 => manual::g01(ctx),
        5 => scen::m01(ctx),
        _ => scen::f01(ctx),
    }
}

pub fn q01(ctx: &mut Ctx) {
    inner(ctx);
    let mine = answer(ctx);
    if SERVING.load(Ordering::SeqCst) {
        *ANSWER.lock().unwrap_or_else(PoisonError::into_inner) = Some(mine);
        return;
    }
    ctx.nontrivial = false;
    // the disks of the copies are their own
    let rec = ctx.src.rec.clone();
    for slot in 0..WAYS.len() {
        if ctx.src.chance(1, 2) {
            continue;
        }
        let (name, logs, what) = WAYS[slot];
        match ask(slot, name, logs, false, &rec) {
            None => ctx.probe(
                [
                    "no build with log",
                    "no build with log",
                    "no build with tracing",
                    "no build with tracing",
                    "no shipped build",
                ][slot],
            ),
            Some(Err(e)) => ctx.fail("Q01", &format!("{what}: the process ended"), || format!("{e}")),
            Some(Ok(a)) if a.hash == mine.hash && a.draws == mine.draws => {
                ctx.nontrivial = true;
                ctx.probe(what);
            }
            Some(Ok(a)) => {
                ctx.nontrivial = true;
                let class = format!("{what}: behaves in another way");
                let msg = if a.text != mine.text {
                    format!("judged {:?}, the plain build {:?}", a.text, mine.text)
                } else if a.tables != mine.tables {
                    "results or device operations differ".to_string()
                } else {
                    format!("{} decisions instead of {}", a.draws, mine.draws)
                };
                difference(ctx, slot, &rec);
                ctx.fail("Q01", &class, || msg);
                return;
            }
        }
    }
}

/// Shows where the runs part.
fn difference(ctx: &mut Ctx, slot: usize, rec: &[u64]) {
    if ctx.trace.is_none() {
        return;
    }
    let (name, logs, what) = WAYS[slot];
    let texts: Vec<Option<String>> = [("plain", false, WAYS.len()), (name, logs, slot)]
        .into_iter()
        .map(|(n, l, s)| {
            if s == slot {
                ask(s, n, l, true, rec)?.ok().map(|a| a.text)
            } else {
                plain(rec)
            }
        })
        .collect();
    let (Some(Some(a)), Some(Some(b))) = (texts.first(), texts.get(1)) else {
        return;
    };
    let (a, b): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let n = a.len().max(b.len());
    for i in 0..n {
        let (x, y) = (a.get(i).copied().unwrap_or("(end)"), b.get(i).copied().unwrap_or("(end)"));
        if x != y {
            let (x, y) = (x.to_string(), y.to_string());
            ctx.log(|| format!("   plain build: {x}\n   {what}: {y}"));
            return;
        }
    }
    ctx.log(|| "   the traces are the same".to_string());
}

/// The trace of the plain build.
fn plain(rec: &[u64]) -> Option<String> {
    let exe = std::env::current_exe().ok()?;
    let mut child = Command::new(exe)
        .arg("serve")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut m = vec![2, rec.len() as u64];
    m.extend_from_slice(rec);
    put(&mut child.stdin.take()?, &m).ok()?;
    let mut b = vec![];
    child.stdout.take()?.read_to_end(&mut b).ok()?;
    let _ = child.wait();
    Some(String::from_utf8_lossy(b.get(32..)?).into_owned())
}

// ---------------------------------------------------------------- logs

/// Takes what is formatted.
#[cfg(any(feature = "log", feature = "tracing"))]
struct Null;
#[cfg(any(feature = "log", feature = "tracing"))]
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}

#[cfg(feature = "log")]
mod logs {
    use std::fmt::Write;
    struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let _ = write!(super::Null, "{}", r.args());
        }
        fn flush(&self) {}
    }
    pub fn switch(on: bool) {
        let _ = log::set_logger(&Sink);
        log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
    }
}

#[cfg(all(feature = "tracing", not(feature = "log")))]
mod logs {
    use std::fmt::Write;
    use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, PoisonError};
    use tracing::field::{Field, Visit};
    use tracing::span::{Attributes, Id, Record};
    static ON: AtomicBool = AtomicBool::new(false);
    struct Sink;
    struct Show;
    impl Visit for Show {
        fn record_debug(&mut self, _: &Field, v: &dyn std::fmt::Debug) {
            let _ = write!(super::Null, "{v:?}");
        }
    }
    impl tracing::Subscriber for Sink {
        fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
            tracing::subscriber::Interest::sometimes()
        }
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            ON.load(Ordering::Relaxed)
        }
        fn new_span(&self, _: &Attributes<'_>) -> Id {
            Id::from_u64(1)
        }
        fn record(&self, _: &Id, _: &Record<'_>) {}
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            e.record(&mut Show);
        }
        fn enter(&self, _: &Id) {}
        fn exit(&self, _: &Id) {}
    }
    pub fn switch(on: bool) {
        ON.store(on, Ordering::Relaxed);
        let _ = tracing::subscriber::set_global_default(Sink);
    }
}

#[cfg(not(any(feature = "log", feature = "tracing")))]
mod logs {
    pub fn switch(_: bool) {}
}
