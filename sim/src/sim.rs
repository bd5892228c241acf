//! The simulated storage: a disk with a volatile cache, barriers, power loss and faults, reachable
//! as a `Read + Write + Seek` device and, through interposed system calls, as a file path.

use crate::choice::{mix, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex, MutexGuard};

pub const SEC: u64 = 512;
pub type Sector = [u8; 512];

/// Names of the counters in `Stats::n`.
pub const COUNTERS: &[&str] = &[
    "op_read", "op_write", "op_seek", "op_flush", "op_open", // operations of the library
    "eintr_read", "eintr_write", "short_read", "short_write", // noise
    "err_read_eio", "err_read_eof", "err_read_timeout", "err_write_eio", "err_write_partial_eio",
    "err_write_enospc", "err_write_zero", "err_seek", "err_flush_dirty_kept",
    "err_flush_dirty_dropped", "err_flush_after_store", "err_open", // errors
    "bad_sector_read", "read_bit_flip", "stored_corruption", // media
    "power_loss", "power_loss_in_call", "lost_sector_writes", "torn_sectors", "stale_sector_versions",
    "context_switches", "end_of_device",
];

macro_rules! counters {
    ($($i:ident = $n:expr;)*) => { $(pub const $i: usize = $n;)* };
}
counters! {
    OP_READ = 0; OP_WRITE = 1; OP_SEEK = 2; OP_FLUSH = 3; OP_OPEN = 4;
    EINTR_READ = 5; EINTR_WRITE = 6; SHORT_READ = 7; SHORT_WRITE = 8;
    ERR_READ_EIO = 9; ERR_READ_EOF = 10; ERR_READ_TIMEOUT = 11; ERR_WRITE_EIO = 12;
    ERR_WRITE_PARTIAL = 13; ERR_WRITE_ENOSPC = 14; ERR_WRITE_ZERO = 15; ERR_SEEK = 16;
    ERR_FLUSH_KEPT = 17; ERR_FLUSH_DROPPED = 18; ERR_FLUSH_STORED = 19; ERR_OPEN = 20;
    BAD_SECTOR = 21; BIT_FLIP = 22; CORRUPTION = 23;
    POWER_LOSS = 24; POWER_LOSS_IN_CALL = 25; LOST_WRITES = 26; TORN = 27; STALE = 28;
    SWITCHES = 29; END_OF_DEVICE = 30;
}

#[derive(Clone)]
pub struct Stats {
    pub n: [u64; 31],
}
impl Default for Stats {
    fn default() -> Self {
        Stats { n: [0; 31] }
    }
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        for (a, b) in self.n.iter_mut().zip(&o.n) {
            *a += b;
        }
    }
}

/// An error that starts at operation `at` (counted from the moment the plan was installed) and
/// lasts for `dur` operations.
#[derive(Clone, Debug)]
pub struct ErrFault {
    pub at: u64,
    pub dur: u64,
    pub variant: u64,
}

/// What goes wrong during the next operations.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub errs: Vec<ErrFault>,
    /// out of 256 operations how many are interrupted or cut short
    pub noise_rate: u64,
    pub noise_seed: u64,
    /// power is lost instead of executing this operation
    pub crash_at: Option<u64>,
    /// the write during which power is lost has reached the cache
    pub crash_after_store: bool,
    /// bits of data that are wrong in transit: (operation, bit)
    pub flips: Vec<(u64, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
}

#[derive(Clone)]
pub struct Disk {
    pub size: u64,
    durable: BTreeMap<u64, Arc<Sector>>,
    dirty: BTreeMap<u64, Arc<Sector>>,
    pending: Vec<(u64, Arc<Sector>)>,
    /// readable, but lost by a failed flush
    ghost: BTreeMap<u64, Arc<Sector>>,
    /// content of sectors that were never written, 0 are zeros
    pub fill: u64,
    pub plan: Plan,
    pub ops: u64,
    /// error faults (not noise) that hit the library since the plan was installed
    pub errs_fired: u64,
    pub flips_fired: u64,
    /// like `errs_fired` but also counts operations after the loss of power
    pub failed_ops: u64,
    pub write_ops: u64,
    pub flush_ops: u64,
    pub bytes_read: u64,
    pub crashed: bool,
    pub bad: BTreeSet<u64>,
    /// a file that grows when written past its end, instead of a block device
    pub growable: bool,
    /// previous content of everything that was changed
    journal: Option<BTreeMap<u64, Arc<Sector>>>,
    pub resized: bool,
    pub op_budget: u64,
    pub over_budget: bool,
    pub stats: Stats,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    pub label: String,
}

pub type Shared = Arc<Mutex<Disk>>;

pub fn lock(d: &Shared) -> MutexGuard<'_, Disk> {
    d.lock().unwrap_or_else(|e| e.into_inner())
}

fn eio() -> io::Error {
    io::Error::from_raw_os_error(libc::EIO)
}

/// The error of a failed operation, of every kind that devices and files are known to return.
fn any_error(v: u64) -> io::Error {
    use io::ErrorKind::*;
    let errno = match v / 12 {
        0 | 1 => libc::EIO,
        2 => libc::EINVAL,
        3 => libc::EAGAIN,
        4 => libc::ENXIO,
        5 => libc::EROFS,
        6 => libc::EBADF,
        7 => libc::EOPNOTSUPP,
        8 => libc::EACCES,
        9 => libc::EPERM,
        10 => libc::ENOSPC,
        11 => libc::EDQUOT,
        12 => libc::ENOSYS,
        13 => libc::ESTALE,
        14 => libc::EFBIG,
        15 => libc::ENOMEM,
        16 => libc::ENOENT,
        // what devices that are no files return
        17 => return io::Error::new(Other, "injected"),
        18 => return UnexpectedEof.into(),
        19 => return InvalidData.into(),
        20 => return io::Error::new(WriteZero, "injected"),
        21 => return Unsupported.into(),
        22 => return NotFound.into(),
        _ => return io::Error::new(InvalidInput, "injected"),
    };
    io::Error::from_raw_os_error(errno)
}

pub const ERROR_VARIANTS: u64 = 12 * 24;

impl Disk {
    pub fn new(size: u64, fill: u64) -> Self {
        Disk {
            size,
            durable: BTreeMap::new(),
            dirty: BTreeMap::new(),
            pending: vec![],
            ghost: BTreeMap::new(),
            fill,
            plan: Plan::default(),
            ops: 0,
            errs_fired: 0,
            flips_fired: 0,
            failed_ops: 0,
            write_ops: 0,
            flush_ops: 0,
            bytes_read: 0,
            crashed: false,
            bad: BTreeSet::new(),
            growable: false,
            journal: None,
            resized: false,
            op_budget: u64::MAX,
            over_budget: false,
            stats: Stats::default(),
            hash: 0xcbf2_9ce4_8422_2325,
            log: None,
            label: String::new(),
        }
    }

    pub fn shared(self) -> Shared {
        Arc::new(Mutex::new(self))
    }

    /// A copy with the same visible content and no faults, log and statistics.
    pub fn fork(&self) -> Disk {
        let mut d = self.clone();
        d.plan = Plan::default();
        d.ops = 0;
        d.errs_fired = 0;
        d.flips_fired = 0;
        d.failed_ops = 0;
        d.write_ops = 0;
        d.flush_ops = 0;
        d.crashed = false;
        d.log = None;
        d.journal = None;
        d.resized = false;
        d.op_budget = u64::MAX;
        d.over_budget = false;
        d.stats = Stats::default();
        d
    }

    /// A copy of what would be found after a loss of power that loses everything not yet stored.
    pub fn fork_durable(&self) -> Disk {
        let mut d = self.fork();
        d.dirty.clear();
        d.pending.clear();
        d.ghost.clear();
        d
    }

    fn filler(&self, s: u64) -> Sector {
        let mut b = [0u8; 512];
        if self.fill != 0 {
            for (i, c) in b.chunks_mut(8).enumerate() {
                c.copy_from_slice(&mix(self.fill, s * 64 + i as u64).to_le_bytes());
            }
        }
        b
    }

    fn view(&self, s: u64) -> Option<&Arc<Sector>> {
        self.dirty
            .get(&s)
            .or_else(|| self.ghost.get(&s))
            .or_else(|| self.durable.get(&s))
    }

    pub fn sector(&self, s: u64) -> Sector {
        match self.view(s) {
            Some(a) => **a,
            None => self.filler(s),
        }
    }

    fn durable_sector(&self, s: u64) -> Sector {
        match self.durable.get(&s) {
            Some(a) => **a,
            None => self.filler(s),
        }
    }

    /// Reads the visible content, without faults.
    pub fn peek(&self, off: u64, len: usize) -> Vec<u8> {
        let mut out = vec![0u8; len];
        self.copy_out(off, &mut out);
        out
    }

    fn copy_out(&self, off: u64, buf: &mut [u8]) {
        let mut done = 0usize;
        while done < buf.len() {
            let pos = off + done as u64;
            let s = pos / SEC;
            let o = (pos % SEC) as usize;
            let n = (512 - o).min(buf.len() - done);
            match self.view(s) {
                Some(a) => buf[done..done + n].copy_from_slice(&a[o..o + n]),
                None => {
                    if self.fill == 0 {
                        buf[done..done + n].fill(0);
                    } else {
                        let f = self.filler(s);
                        buf[done..done + n].copy_from_slice(&f[o..o + n]);
                    }
                }
            }
            done += n;
        }
    }

    fn journal_old(&mut self, s: u64) {
        if self.journal.as_ref().map_or(false, |j| !j.contains_key(&s)) {
            let old = Arc::new(self.sector(s));
            self.journal.as_mut().unwrap().insert(s, old);
        }
    }

    fn store(&mut self, off: u64, data: &[u8]) {
        let mut done = 0usize;
        while done < data.len() {
            let pos = off + done as u64;
            let s = pos / SEC;
            let o = (pos % SEC) as usize;
            let n = (512 - o).min(data.len() - done);
            self.journal_old(s);
            let mut c = self.sector(s);
            c[o..o + n].copy_from_slice(&data[done..done + n]);
            let c = Arc::new(c);
            self.ghost.remove(&s);
            self.dirty.insert(s, c.clone());
            self.pending.push((s, c));
            done += n;
        }
    }

    /// Changes stored bytes behind the back of the library.
    pub fn poke(&mut self, off: u64, data: &[u8]) {
        let mut done = 0usize;
        while done < data.len() {
            let pos = off + done as u64;
            let s = pos / SEC;
            let o = (pos % SEC) as usize;
            let n = (512 - o).min(data.len() - done);
            let mut c = self.sector(s);
            c[o..o + n].copy_from_slice(&data[done..done + n]);
            self.dirty.remove(&s);
            self.ghost.remove(&s);
            self.pending.retain(|(p, _)| *p != s);
            self.durable.insert(s, Arc::new(c));
            done += n;
        }
    }

    pub fn unsynced(&self) -> usize {
        self.dirty.len() + self.ghost.len()
    }

    /// Sectors whose stored content is not the visible one.
    pub fn not_durable(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.dirty.keys().chain(self.ghost.keys()).copied().collect();
        v.sort_unstable();
        v.dedup();
        v.retain(|s| self.sector(*s) != self.durable_sector(*s));
        v
    }

    pub fn sync_everything(&mut self) {
        let d = std::mem::take(&mut self.dirty);
        self.durable.extend(d);
        let g = std::mem::take(&mut self.ghost);
        for (s, c) in g {
            self.durable.insert(s, c);
        }
        self.pending.clear();
    }

    /// The readable remains of a failed flush leave the cache.
    pub fn drop_ghost(&mut self) {
        self.ghost.clear();
    }

    /// Every sector that was ever written.
    pub fn touched(&self) -> impl Iterator<Item = u64> + '_ {
        self.durable.keys().chain(self.dirty.keys()).chain(self.ghost.keys()).copied()
    }

    pub fn start_journal(&mut self) {
        self.journal = Some(BTreeMap::new());
        self.resized = false;
    }

    /// (sector, old, new) of everything that differs since `start_journal`
    pub fn changes(&self) -> Vec<(u64, Sector, Sector)> {
        let mut v = vec![];
        if let Some(j) = &self.journal {
            for (s, old) in j {
                let new = self.sector(*s);
                if **old != new {
                    v.push((*s, **old, new));
                }
            }
        }
        v
    }

    pub fn stop_journal(&mut self) {
        self.journal = None;
    }

    pub fn set_plan(&mut self, p: Plan) {
        if let Some(l) = &mut self.log {
            if !p.errs.is_empty() || p.crash_at.is_some() || p.noise_rate > 0 || !p.flips.is_empty() {
                l.push(format!("    fault plan: {p:?}"));
            }
        }
        self.plan = p;
        self.ops = 0;
        self.errs_fired = 0;
        self.flips_fired = 0;
        self.failed_ops = 0;
        self.write_ops = 0;
        self.flush_ops = 0;
        self.bytes_read = 0;
    }

    pub fn calm(&mut self) {
        self.plan = Plan::default();
    }

    fn note(&mut self, kind: u64, a: u64, b: u64, c: u64) {
        let mut h = self.hash;
        for v in [kind, a, b, c] {
            h = (h ^ v).wrapping_mul(0x0000_0100_0000_01B3);
            h ^= h >> 29;
        }
        self.hash = h;
    }

    fn logf(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            let s = format!("    {} {}", self.label, f());
            l.push(s);
        }
    }

    /// Loss of power and restart. Decides what of the unsynced data reached the medium.
    pub fn power_loss(&mut self, src: &mut Src) {
        self.stats.n[POWER_LOSS] += 1;
        if self.crashed {
            self.stats.n[POWER_LOSS_IN_CALL] += 1;
        }
        let pending = std::mem::take(&mut self.pending);
        // sectors whose dirty state isn't in pending can't exist
        self.dirty.clear();
        self.ghost.clear();
        let n = pending.len() as u64;
        let mode = src.choose_weighted(&[2, 3, 4, 3, 4, 3, 3, 3, 3]);
        let (mut lost, mut torn, mut stale) = (0, 0, 0);
        let k = if matches!(mode, 2 | 3 | 8) { src.choose(n + 1) } else { 0 };
        let seed = if matches!(mode, 3..=7) { src.bits() } else { 0 };
        let mut by_sector: BTreeMap<u64, Vec<Arc<Sector>>> = BTreeMap::new();
        match mode {
            // an ordered prefix, possibly with the next one torn
            0 | 1 | 2 | 3 => {
                let k = match mode {
                    0 => n,
                    1 => 0,
                    _ => k,
                };
                for (i, (s, c)) in pending.iter().enumerate() {
                    if (i as u64) < k {
                        self.durable.insert(*s, c.clone());
                    } else if i as u64 == k && mode == 3 {
                        let t = tear(&self.durable_sector(*s), c, mix(seed, 1));
                        self.durable.insert(*s, Arc::new(t));
                        torn += 1;
                    } else {
                        lost += 1;
                    }
                }
            }
            // everything from some point on, reordered writes
            8 => {
                for (s, c) in pending.iter().skip(k as usize) {
                    self.durable.insert(*s, c.clone());
                }
                lost += k;
            }
            _ => {
                for (s, c) in pending {
                    by_sector.entry(s).or_default().push(c);
                }
                for (s, vers) in by_sector {
                    let r = mix(seed, s);
                    let keep_new = match mode {
                        4 | 7 => r % 2 == 0,
                        5 => r % 8 != 0,
                        _ => r % 8 == 0,
                    };
                    let r2 = mix(r, 2);
                    let old = self.durable_sector(s);
                    if mode == 7 && r2 % 4 == 0 {
                        let t = tear(&old, vers.last().unwrap(), mix(r2, 3));
                        self.durable.insert(s, Arc::new(t));
                        torn += 1;
                    } else if keep_new {
                        self.durable.insert(s, vers.last().unwrap().clone());
                    } else if r2 % 3 == 0 && vers.len() > 1 {
                        let v = (mix(r2, 4) % (vers.len() as u64 - 1)) as usize;
                        self.durable.insert(s, vers[v].clone());
                        stale += 1;
                    } else {
                        lost += 1;
                    }
                }
            }
        }
        self.stats.n[LOST_WRITES] += lost;
        self.stats.n[TORN] += torn;
        self.stats.n[STALE] += stale;
        self.note(90, mode as u64, k, seed);
        self.logf(|| {
            format!(
                "POWER LOSS mode {mode} (k {k}, seed {seed:#x}): {n} unsynced sector writes, lost {lost}, torn {torn}, older version kept {stale}"
            )
        });
        self.crashed = false;
        self.plan = Plan::default();
        self.ops = 0;
    }

    /// Called for every operation: decides whether a fault hits it.
    fn gate(&mut self, op: Op) -> Result<Gate, io::Error> {
        let i = self.ops;
        self.ops += 1;
        self.stats.n[match op {
            Op::Read => OP_READ,
            Op::Write => OP_WRITE,
            Op::Seek => OP_SEEK,
            Op::Flush => OP_FLUSH,
        }] += 1;
        if op == Op::Write {
            self.write_ops += 1;
        }
        if op == Op::Flush {
            self.flush_ops += 1;
        }
        if self.op_budget == 0 {
            self.over_budget = true;
            return Err(eio());
        }
        self.op_budget -= 1;
        if self.crashed {
            self.failed_ops += 1;
            return Err(eio());
        }
        if self.plan.crash_at == Some(i) {
            self.logf(|| format!("#{i} {op:?}: power is lost here"));
            self.crashed = true;
            self.failed_ops += 1;
            self.note(80, i, op as u64, 0);
            return if op == Op::Write && self.plan.crash_after_store {
                Ok(Gate::StoreThenFail)
            } else {
                Err(eio())
            };
        }
        for e in &self.plan.errs {
            if i >= e.at && i - e.at < e.dur {
                let v = e.variant;
                return Ok(Gate::Error(v));
            }
        }
        if self.plan.noise_rate > 0 && matches!(op, Op::Read | Op::Write) {
            let r = mix(self.plan.noise_seed, i);
            if r % 256 < self.plan.noise_rate {
                return Ok(if (r >> 8) % 3 == 0 {
                    Gate::Interrupt
                } else {
                    Gate::Short(r >> 16)
                });
            }
        }
        let flip = self.plan.flips.iter().find(|f| f.0 == i).map(|f| f.1);
        Ok(Gate::Pass(flip))
    }

    fn err_fired(&mut self, c: usize) {
        self.errs_fired += 1;
        self.failed_ops += 1;
        self.stats.n[c] += 1;
        let i = self.ops - 1;
        self.note(81, i, c as u64, 0);
        self.logf(|| format!("#{i} injected {}", COUNTERS[c]));
    }

    pub fn do_read(&mut self, pos: u64, buf: &mut [u8]) -> io::Result<usize> {
        let gate = self.gate(Op::Read)?;
        let i = self.ops - 1;
        let avail = self.size.saturating_sub(pos);
        let mut n = (buf.len() as u64).min(avail) as usize;
        let mut flip = None;
        match gate {
            Gate::Error(v) => {
                return match v % 4 {
                    1 => {
                        self.err_fired(ERR_READ_EOF);
                        Ok(0)
                    }
                    2 => {
                        self.err_fired(ERR_READ_TIMEOUT);
                        Err(io::Error::from_raw_os_error(libc::ETIMEDOUT))
                    }
                    _ => {
                        self.err_fired(ERR_READ_EIO);
                        Err(any_error(v))
                    }
                }
            }
            Gate::Interrupt if n > 0 => {
                self.stats.n[EINTR_READ] += 1;
                self.note(82, i, 0, 0);
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            Gate::Short(r) if n > 1 => {
                n = 1 + (r % (n as u64 - 1)) as usize;
                self.stats.n[SHORT_READ] += 1;
            }
            Gate::Pass(f) => flip = f,
            _ => {}
        }
        if n > 0 && !self.bad.is_empty() {
            let first = pos / SEC;
            let last = (pos + n as u64 - 1) / SEC;
            if let Some(b) = self.bad.range(first..=last).next().copied() {
                if b == first {
                    self.err_fired(BAD_SECTOR);
                    return Err(eio());
                }
                n = (b * SEC - pos) as usize;
            }
        }
        self.copy_out(pos, &mut buf[..n]);
        if let Some(bit) = flip {
            if n > 0 {
                let b = (bit / 8) as usize % n;
                buf[b] ^= 1 << (bit % 8);
                self.flips_fired += 1;
                self.stats.n[BIT_FLIP] += 1;
                self.note(83, i, bit, 0);
                self.logf(|| format!("#{i} bit {} of byte {b} is wrong in transit", bit % 8));
            }
        }
        self.bytes_read += n as u64;
        let len = buf.len();
        self.note(1, pos, n as u64, 0);
        self.logf(|| format!("#{i} read {len} at {pos} (block {}) -> {n}", pos / SEC));
        Ok(n)
    }

    pub fn do_write(&mut self, pos: u64, data: &[u8]) -> io::Result<usize> {
        let gate = self.gate(Op::Write)?;
        let i = self.ops - 1;
        let avail = if self.growable { u64::MAX - pos } else { self.size.saturating_sub(pos) };
        let mut n = (data.len() as u64).min(avail) as usize;
        match gate {
            Gate::StoreThenFail => {
                let m = n;
                self.put(pos, &data[..m]);
                return Err(eio());
            }
            Gate::Error(v) => {
                return match v % 4 {
                    1 => {
                        let m = if n > 0 { (mix(v, i) % n as u64) as usize } else { 0 };
                        self.put(pos, &data[..m]);
                        self.err_fired(ERR_WRITE_PARTIAL);
                        Err(any_error(v))
                    }
                    2 => {
                        self.err_fired(ERR_WRITE_ENOSPC);
                        Err(io::Error::from_raw_os_error(libc::ENOSPC))
                    }
                    3 if !data.is_empty() => {
                        self.err_fired(ERR_WRITE_ZERO);
                        Ok(0)
                    }
                    _ => {
                        self.err_fired(ERR_WRITE_EIO);
                        Err(any_error(v))
                    }
                }
            }
            Gate::Interrupt if n > 0 => {
                self.stats.n[EINTR_WRITE] += 1;
                self.note(84, i, 0, 0);
                return Err(io::Error::from_raw_os_error(libc::EINTR));
            }
            Gate::Short(r) if n > 1 => {
                n = 1 + (r % (n as u64 - 1)) as usize;
                self.stats.n[SHORT_WRITE] += 1;
            }
            _ => {}
        }
        if n == 0 && !data.is_empty() {
            self.stats.n[END_OF_DEVICE] += 1;
            self.failed_ops += 1;
            self.logf(|| format!("#{i} write at {pos}: end of device"));
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        self.put(pos, &data[..n]);
        let len = data.len();
        let h = data.iter().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64));
        self.note(2, pos, n as u64, h);
        self.logf(|| format!("#{i} write {len} at {pos} (block {}) -> {n}", pos / SEC));
        Ok(n)
    }

    fn put(&mut self, pos: u64, data: &[u8]) {
        self.store(pos, data);
        let end = pos + data.len() as u64;
        if end > self.size && !data.is_empty() {
            self.size = end;
            self.resized = true;
        }
    }

    pub fn do_flush(&mut self) -> io::Result<()> {
        let gate = self.gate(Op::Flush)?;
        let i = self.ops - 1;
        if let Gate::Error(v) = gate {
            return match v % 3 {
                1 => {
                    // the failed flush lost some of the data, although it stays readable
                    let d = std::mem::take(&mut self.dirty);
                    self.pending.clear();
                    for (s, c) in d {
                        if mix(v, s) % 2 == 0 {
                            self.ghost.insert(s, c);
                        } else {
                            self.durable.insert(s, c);
                        }
                    }
                    self.err_fired(ERR_FLUSH_DROPPED);
                    Err(any_error(v))
                }
                2 => {
                    let d = std::mem::take(&mut self.dirty);
                    self.durable.extend(d);
                    self.pending.clear();
                    self.err_fired(ERR_FLUSH_STORED);
                    Err(any_error(v))
                }
                _ => {
                    self.err_fired(ERR_FLUSH_KEPT);
                    Err(any_error(v))
                }
            };
        }
        let d = std::mem::take(&mut self.dirty);
        let n = d.len();
        self.durable.extend(d);
        self.pending.clear();
        self.note(3, n as u64, 0, 0);
        self.logf(|| format!("#{i} barrier, {n} sectors stored"));
        Ok(())
    }

    pub fn do_seek(&mut self, cur: u64, to: SeekFrom) -> io::Result<u64> {
        let gate = self.gate(Op::Seek)?;
        if let Gate::Error(v) = gate {
            self.err_fired(ERR_SEEK);
            return Err(any_error(v));
        }
        let new = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.size.checked_add_signed(d),
            SeekFrom::Current(d) => cur.checked_add_signed(d),
        };
        // offsets are signed for the operating system
        match new {
            Some(p) if p <= i64::MAX as u64 => {
                self.note(4, p, 0, 0);
                Ok(p)
            }
            _ => Err(io::Error::from_raw_os_error(libc::EINVAL)),
        }
    }

    pub fn truncate(&mut self, len: u64) {
        let keep = len.div_ceil(SEC);
        let gone: Vec<u64> = self
            .durable
            .range(keep..)
            .chain(self.dirty.range(keep..))
            .chain(self.ghost.range(keep..))
            .map(|(s, _)| *s)
            .collect();
        for s in gone {
            self.journal_old(s);
            self.durable.remove(&s);
            self.dirty.remove(&s);
            self.ghost.remove(&s);
        }
        self.pending.retain(|(s, _)| *s < keep);
        if len != self.size {
            self.resized = true;
        }
        self.size = len;
        self.logf(|| format!("TRUNCATED to {len}"));
    }
}

fn tear(old: &Sector, new: &Sector, r: u64) -> Sector {
    let k = (r % 511 + 1) as usize;
    let mut t = *old;
    if (r >> 16) % 3 == 0 {
        t[k..].copy_from_slice(&new[k..]);
    } else {
        t[..k].copy_from_slice(&new[..k]);
    }
    t
}

enum Gate {
    Pass(Option<u64>),
    Interrupt,
    Short(u64),
    Error(u64),
    StoreThenFail,
}

/// A handle that the library uses as its device. Clones share the disk, not the position.
#[derive(Clone)]
pub struct Dev {
    pub disk: Shared,
    pub pos: u64,
}

impl Dev {
    pub fn new(disk: &Shared) -> Self {
        Dev { disk: disk.clone(), pos: 0 }
    }
    pub fn at(disk: &Shared, pos: u64) -> Self {
        Dev { disk: disk.clone(), pos }
    }
}

impl fmt::Debug for Dev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Dev")
    }
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::sched::point();
        let n = lock(&self.disk).do_read(self.pos, buf)?;
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        crate::sched::point();
        let n = lock(&self.disk).do_write(self.pos, buf)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        crate::sched::point();
        lock(&self.disk).do_flush()
    }
}

impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        crate::sched::point();
        let p = lock(&self.disk).do_seek(self.pos, to)?;
        self.pos = p;
        Ok(p)
    }
}
