//! Context of one simulated run: choices, recorded violations, statistics and the guarded calls
//! into the library.

use crate::choice::Src;
use crate::ondisk::{Ent, Hdr, Table};
use crate::sim::{lock, Dev, Disk, Shared, Stats};
use gpt::disk::LogicalBlockSize;
use gpt::header::{Header, HeaderError};
use gpt::mbr::MBRError;
use gpt::partition::Partition;
use gpt::{GptConfig, GptDisk, GptError};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs::File;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- memory

/// Counts what is allocated during guarded calls and refuses what would endanger the machine.
pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
}

/// A single request above this ends the process, which the parent reports.
const HARD_LIMIT: usize = 1 << 31;
pub const EXIT_MEMORY: i32 = 77;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = TRACK.try_with(|t| {
            if t.get() {
                let _ = LIVE.try_with(|v| v.set(v.get() - l.size() as i64));
            }
        });
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            account(n - l.size());
        } else {
            let _ = TRACK.try_with(|t| {
                if t.get() {
                    let _ = LIVE.try_with(|v| v.set(v.get() - (l.size() - n) as i64));
                }
            });
        }
        System.realloc(p, l, n)
    }
}

fn account(n: usize) {
    let _ = TRACK.try_with(|t| {
        if t.get() {
            if n > HARD_LIMIT {
                unsafe { libc::_exit(EXIT_MEMORY) }
            }
            let _ = LIVE.try_with(|v| {
                v.set(v.get() + n as i64);
                let _ = PEAK.try_with(|p| {
                    if v.get() > p.get() {
                        p.set(v.get())
                    }
                });
            });
        }
    });
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let at = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit_once("/src/").map_or(f, |x| x.1);
                    format!("{f}:{}", l.line())
                })
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
        } else {
            old(info);
        }
    }));
}

pub fn quiet_panics() {
    QUIET.with(|q| q.set(true));
}

pub fn quiet(on: bool) {
    QUIET.with(|q| q.set(on));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

// ---------------------------------------------------------------- results

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    Io(std::io::ErrorKind, Option<i32>, String),
    Signature,
    Crc,
    Header(String),
    Overflow,
    NoSpace,
    ReadOnly,
    OverflowCount,
    CountWouldChange,
    IdUsed,
    Mbr(String),
    Other(String),
    Panic(String),
    /// more device operations than could be needed
    Endless,
}

pub type Res<T> = Result<T, E>;

impl E {
    pub fn is_io(&self) -> bool {
        matches!(self, E::Io(..))
    }
    pub fn fatal(&self) -> bool {
        matches!(self, E::Panic(_) | E::Endless)
    }
    pub fn class(&self) -> String {
        match self {
            E::Io(k, ..) => format!("Io({k:?})"),
            E::Panic(m) => format!("panic: {}", m.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()),
            o => format!("{o:?}"),
        }
    }
}

pub fn io_err(e: &std::io::Error) -> E {
    E::Io(e.kind(), e.raw_os_error(), e.to_string())
}

pub fn hdr_err(e: &HeaderError) -> E {
    match e {
        HeaderError::Io(e) => io_err(e),
        HeaderError::InvalidGptSignature => E::Signature,
        HeaderError::InvalidCRC32Checksum => E::Crc,
        o => E::Header(format!("{o:?}")),
    }
}

pub fn gpt_err(e: &GptError) -> E {
    match e {
        GptError::Io(e) => io_err(e),
        GptError::Header(h) => hdr_err(h),
        GptError::Overflow(_) => E::Overflow,
        GptError::NotEnoughSpace => E::NoSpace,
        GptError::ReadOnly => E::ReadOnly,
        GptError::OverflowPartitionCount => E::OverflowCount,
        GptError::PartitionCountWouldChange => E::CountWouldChange,
        GptError::PartitionIdAlreadyUsed => E::IdUsed,
        o => E::Other(format!("{o:?}")),
    }
}

pub fn mbr_err(e: &MBRError) -> E {
    match e {
        MBRError::Io(e) => io_err(e),
        o => E::Mbr(format!("{o:?}")),
    }
}

// ---------------------------------------------------------------- context

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub class: String,
    pub msg: String,
}

pub struct Ctx {
    pub src: Src,
    pub focus: String,
    pub viol: Vec<Violation>,
    pub trace: Option<Vec<String>>,
    /// the trace is printed as it grows
    pub live: bool,
    pub stats: Stats,
    pub hash: u64,
    pub probes: BTreeMap<&'static str, u64>,
    /// listed findings of which an instance was met
    pub known_hit: BTreeMap<&'static str, u64>,
    /// findings that are listed in the committed file
    pub known: std::collections::BTreeSet<String>,
    pub disks: Vec<Shared>,
    /// the run did something that the property is about
    pub nontrivial: bool,
    /// nothing after this point would be meaningful
    pub stop: bool,
    pub steps: u64,
}

impl Ctx {
    pub fn new(src: Src, focus: &str, verbose: bool) -> Self {
        Ctx {
            src,
            focus: focus.to_string(),
            viol: vec![],
            trace: if verbose { Some(vec![]) } else { None },
            live: false,
            stats: Stats::default(),
            hash: 0x1234_5678_9abc_def1,
            probes: BTreeMap::new(),
            known_hit: BTreeMap::new(),
            known: Default::default(),
            disks: vec![],
            nontrivial: false,
            stop: false,
            steps: 0,
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        self.drain_logs();
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
        self.print();
    }

    fn print(&mut self) {
        if self.live {
            if let Some(t) = &mut self.trace {
                for l in t.drain(..) {
                    println!("{l}");
                }
            }
        }
    }

    /// Moves what the disks logged to the trace.
    pub fn drain_logs(&mut self) {
        if let Some(t) = &mut self.trace {
            for d in &self.disks {
                if let Some(l) = &mut lock(d).log {
                    t.append(l);
                }
            }
        }
    }

    pub fn probe(&mut self, p: &'static str) {
        *self.probes.entry(p).or_insert(0) += 1;
    }

    pub fn fail(&mut self, prop: &'static str, class: &str, msg: impl FnOnce() -> String) {
        if self.viol.len() > 40 {
            return;
        }
        let msg = msg();
        if self.trace.is_some() {
            let m = format!("!! {prop}: {class}: {msg}");
            self.log(|| m);
        }
        self.viol.push(Violation { prop, class: class.to_string(), msg });
    }

    /// The property of this check was violated, no need to go on.
    pub fn done(&self) -> bool {
        self.stop || self.viol.iter().any(|v| v.prop == self.focus)
    }

    /// Registers a disk so that its log and statistics are collected.
    pub fn adopt(&mut self, d: Disk) -> Shared {
        let sh = d.shared();
        self.adopt_shared(&sh);
        sh
    }

    pub fn adopt_shared(&mut self, sh: &Shared) {
        let n = self.disks.len();
        {
            let mut d = lock(sh);
            d.label = format!("disk{n}");
            if self.trace.is_some() {
                d.log = Some(vec![]);
            }
        }
        self.disks.push(sh.clone());
    }

    pub fn note(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        self.hash ^= self.hash >> 31;
    }

    pub fn finish(&mut self) {
        self.drain_logs();
        self.print();
        let disks = std::mem::take(&mut self.disks);
        for d in &disks {
            let d = lock(d);
            self.stats.add(&d.stats);
            let h = d.hash;
            self.note(h);
        }
    }

    /// Calls into the library. Panics and too many operations become errors.
    pub fn call<T>(&mut self, disk: &Shared, f: impl FnOnce() -> Res<T>) -> Res<T> {
        {
            let mut d = lock(disk);
            d.op_budget = op_budget(d.size);
            d.over_budget = false;
        }
        let r = guarded(f);
        let mut d = lock(disk);
        d.op_budget = u64::MAX;
        if d.over_budget {
            d.over_budget = false;
            return Err(E::Endless);
        }
        r
    }
}

/// Device operations that one call may need before it counts as endless: enough to go through
/// the device in small steps (an entry at a time, or less).
pub fn op_budget(size: u64) -> u64 {
    60_000 + size.min(1 << 28) / 16
}

pub fn guarded<T>(f: impl FnOnce() -> Res<T>) -> Res<T> {
    let was = QUIET.with(|q| q.replace(true));
    let tracked = TRACK.with(|t| t.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    TRACK.with(|t| t.set(tracked));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(r) => r,
        Err(_) => Err(E::Panic(LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

/// Peak of additional memory that was in use during `f`.
pub fn peak_memory<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as u64)
}

// ---------------------------------------------------------------- the library's objects

pub fn lbs(lb: u64) -> LogicalBlockSize {
    if lb == 4096 {
        LogicalBlockSize::Lb4096
    } else {
        LogicalBlockSize::Lb512
    }
}

thread_local! {
    static CFG: Cell<u64> = const { Cell::new(0) };
}

/// Decides how configurations are put together.
pub fn seed_cfg(x: u64) {
    CFG.with(|c| c.set(x ^ 0xC0F1));
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub lb: u64,
    pub writable: bool,
    pub strict: bool,
    pub ro_backup: bool,
    pub consent: bool,
}

impl Cfg {
    pub fn plain(lb: u64) -> Cfg {
        Cfg { lb, writable: true, strict: false, ro_backup: false, consent: false }
    }
    pub fn gpt(&self) -> GptConfig {
        // setters in any order, without those of documented defaults or with another value before
        let x = CFG.with(|c| {
            let mut s = c.get();
            let x = crate::choice::splitmix(&mut s);
            c.set(s);
            x
        });
        let mut g = if x & 1 == 0 { GptConfig::new() } else { GptConfig::default() };
        for i in 0..5 {
            let k = (i + (x >> 8)) % 5;
            let (skip, twice) = (x >> (16 + k) & 1 == 1, x >> (24 + 2 * k) & 3 == 3);
            g = match k {
                0 if skip && !self.writable => g,
                0 => if twice { g.writable(!self.writable) } else { g }.writable(self.writable),
                1 if skip && self.lb == 512 => g,
                1 => if twice { g.logical_block_size(lbs(4608 - self.lb)) } else { g }.logical_block_size(lbs(self.lb)),
                2 if skip && !self.strict => g,
                2 => if twice { g.only_valid_headers(!self.strict) } else { g }.only_valid_headers(self.strict),
                3 if skip && !self.ro_backup => g,
                3 => if twice { g.readonly_backup(!self.ro_backup) } else { g }.readonly_backup(self.ro_backup),
                4 if skip && !self.consent => g,
                _ => if twice { g.change_partition_count(!self.consent) } else { g }.change_partition_count(self.consent),
            };
        }
        g
    }
}

pub fn ent(p: &Partition) -> Ent {
    Ent {
        ty: p.part_type_guid.guid,
        guid: p.part_guid,
        first: p.first_lba,
        last: p.last_lba,
        flags: p.flags,
        name: p.name.clone(),
    }
}

pub fn part(e: &Ent) -> Partition {
    Partition {
        part_type_guid: e.ty.into(),
        part_guid: e.guid,
        first_lba: e.first,
        last_lba: e.last,
        flags: e.flags,
        name: e.name.clone(),
    }
}

pub fn ents(m: &BTreeMap<u32, Partition>) -> BTreeMap<u32, Ent> {
    m.iter().map(|(i, p)| (*i, ent(p))).collect()
}

pub fn hdr(h: &Header) -> Hdr {
    Hdr {
        revision: (h.revision.0 as u32) << 16 | h.revision.1 as u32,
        header_size: h.header_size_le,
        crc: h.crc32,
        reserved: h.reserved,
        my_lba: h.current_lba,
        alt_lba: h.backup_lba,
        first_usable: h.first_usable,
        last_usable: h.last_usable,
        guid: h.disk_guid,
        part_start: h.part_start,
        num_parts: h.num_parts,
        part_size: h.part_size,
        crc_parts: h.crc32_parts,
    }
}

pub enum AnyDisk {
    F(GptDisk<File>),
    D(GptDisk<Dev>),
}

#[macro_export]
macro_rules! on {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            $crate::env::AnyDisk::F($x) => $e,
            $crate::env::AnyDisk::D($x) => $e,
        }
    };
}

/// Everything that can be seen of an object without touching the device.
#[derive(Clone, Debug, PartialEq)]
pub struct Mem {
    pub table: Table,
    pub primary: Result<Hdr, E>,
    pub backup: Result<Hdr, E>,
}

impl Mem {
    pub fn diff(&self, o: &Mem) -> String {
        let mut s = vec![];
        if self.table.guid != o.table.guid {
            s.push(format!("disk guid {} -> {}", self.table.guid, o.table.guid));
        }
        if self.table.ents != o.table.ents {
            s.push(format!("entries {} -> {}", self.table.brief(), o.table.brief()));
        }
        if self.primary != o.primary {
            s.push(format!("primary header {:?} -> {:?}", self.primary, o.primary));
        }
        if self.backup != o.backup {
            s.push(format!("backup header {:?} -> {:?}", self.backup, o.backup));
        }
        s.join("; ")
    }
}

impl AnyDisk {
    pub fn table(&self) -> Table {
        on!(self, d => Table { guid: *d.guid(), ents: ents(d.partitions()) })
    }
    pub fn header(&self) -> Res<Hdr> {
        guarded(|| Ok(on!(self, d => hdr(d.header()))))
    }
    pub fn mem(&self) -> Mem {
        on!(self, d => Mem {
            table: Table { guid: *d.guid(), ents: ents(d.partitions()) },
            primary: d.primary_header().map(hdr).map_err(|e| hdr_err(&e)),
            backup: d.backup_header().map(hdr).map_err(|e| hdr_err(&e)),
        })
    }
    /// The same object on a device of its own, used to look ahead.
    pub fn on_device(&self, dev: Dev, writable: bool) -> GptDisk<Dev> {
        on!(self, d => d.with_disk_device(dev, writable))
    }
}

pub fn open_dev(cfg: &Cfg, dev: Dev) -> Res<AnyDisk> {
    let c = cfg.gpt();
    guarded(|| c.open_from_device(dev).map(AnyDisk::D).map_err(|e| gpt_err(&e)))
}

/// Opens the content of a disk copy, without faults.
pub fn open_fork(cfg: &Cfg, d: Disk) -> Res<AnyDisk> {
    let sh = d.shared();
    {
        let mut d = lock(&sh);
        d.op_budget = op_budget(d.size);
    }
    let r = open_dev(cfg, Dev::new(&sh));
    if lock(&sh).over_budget {
        return Err(E::Endless);
    }
    r
}
