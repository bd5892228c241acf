//! A small world of simulated disks and of objects of the library working on them, with the
//! reference model beside. The functions here perform one step each and check what they can.

use crate::choice::mix;
use crate::env::*;
use crate::model::*;
use crate::ondisk::{self, Ent, Layout, Table};
use crate::shim::{self, FileNode};
use crate::sim::*;
use crate::types;
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub struct DiskRec {
    pub sh: Shared,
    pub lb: u64,
    pub path: Option<String>,
    /// every table that somebody put or tried to put on the disk
    pub history: Vec<Table>,
    /// what a default open has to find, None if nothing valid is known to be there
    pub acked: Option<Table>,
    /// what it may find instead
    pub maybe: Vec<Table>,
    /// both copies are valid and equal
    pub in_step: bool,
    /// somebody else decided about the geometry in a way the library doesn't keep
    pub ro_used: bool,
}

pub struct Obj {
    pub d: AnyDisk,
    pub cfg: Cfg,
    pub m: Table,
    pub geo: Geo,
    pub disk: usize,
    /// the device was opened by path
    pub file: bool,
    pub last: Option<Mem>,
    /// an entry was not inside of the usable area when it was given to the library
    pub stray: bool,
    /// the table on the disk already gave away blocks of its backup when it was opened
    pub over_backup: bool,
}

pub struct World {
    pub disks: Vec<DiskRec>,
    pub objs: Vec<Obj>,
    pub seen: BTreeSet<Uuid>,
    pub long_names: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Faults {
    None,
    Noise,
    Errors,
    Crash,
    /// between two eighths of the operation
    CrashIn(u64, u64),
}

/// A build without overflow checks would have gone on with the wrong number.
fn overflowed(e: &E) -> bool {
    matches!(e, E::Panic(m) if m.contains("with overflow"))
}

fn has_stray(t: &Table, g: &Geo) -> bool {
    t.ents.values().any(|e| e.used() && (e.last > g.lu || e.first > e.last))
}

pub fn is_fresh(u: &Uuid) -> bool {
    !u.is_nil() && u.get_version_num() == 4 && u.as_bytes()[8] & 0xC0 == 0x80
}

/// The parts of the disk a write of this geometry may change, as ranges of bytes.
pub fn table_regions(geo: &Geo, lb: u64, with_backup: bool) -> Vec<(u64, u64)> {
    let a = geo.blocks(lb);
    let mut v = vec![(lb, 2 * lb), (geo.ps * lb, (geo.ps + a) * lb)];
    if with_backup {
        v.push(((geo.bak.saturating_sub(a)) * lb, (geo.bak + 1) * lb));
    }
    v
}

/// First change outside of the given byte ranges.
pub fn stray(changes: &[(u64, Sector, Sector)], allowed: &[(u64, u64)]) -> Option<u64> {
    for (s, old, new) in changes {
        for i in 0..512usize {
            if old[i] != new[i] {
                let at = s * SEC + i as u64;
                if !allowed.iter().any(|(a, b)| at >= *a && at < *b) {
                    return Some(at);
                }
            }
        }
    }
    None
}

pub fn gen_noise(ctx: &mut Ctx) -> Plan {
    let rate = *ctx.src.pick(&[0u64, 8, 40, 120, 230]);
    let seed = if rate > 0 { ctx.src.bits() } else { 0 };
    Plan { noise_rate: rate, noise_seed: seed, ..Plan::default() }
}

pub fn gen_err(ctx: &mut Ctx, ops: u64) -> ErrFault {
    let at = ctx.src.choose(ops.max(1) + 1);
    let dur = match ctx.src.choose_weighted(&[6, 2, 1]) {
        0 => 1,
        1 => 1 + ctx.src.choose(6),
        _ => u64::MAX,
    };
    ErrFault { at, dur, variant: if ctx.src.chance(1, 2) { ctx.src.choose(ERROR_VARIANTS) } else { ctx.src.choose(12) } }
}

impl World {
    pub fn new() -> World {
        World { disks: vec![], objs: vec![], seen: BTreeSet::new(), long_names: true }
    }

    pub fn add_disk(&mut self, ctx: &mut Ctx, d: Disk, lb: u64, file: bool) -> usize {
        let n = self.disks.len();
        let sh = ctx.adopt(d);
        let path = if file {
            Some(shim::mount(
                &format!("d{n}"),
                FileNode { disk: sh.clone(), writable: true, readable: true, open_error: None },
            ))
        } else {
            None
        };
        self.disks.push(DiskRec {
            sh,
            lb,
            path,
            history: vec![],
            acked: None,
            maybe: vec![],
            in_step: false,
            ro_used: false,
        });
        n
    }

    pub fn with_disk<R>(&self, i: usize, f: impl FnOnce(&mut Disk) -> R) -> R {
        f(&mut lock(&self.disks[i].sh))
    }

    pub fn last_lba(&self, i: usize) -> u64 {
        ondisk::last_lba(&lock(&self.disks[i].sh), self.disks[i].lb)
    }

    /// Puts a table on a disk the way another program would have done.
    pub fn put_foreign(&mut self, ctx: &mut Ctx, di: usize, max: u64) {
        let lb = self.disks[di].lb;
        let bak = self.last_lba(di);
        let blocks = bak + 1;
        let fits = |n: u32| {
            let a = Layout::array_blocks(n, lb);
            2 * a + 4 < blocks && bak > a + 1 && 2 + a <= bak - a - 1
        };
        let n = match ctx.src.choose_weighted(&[8, 2, 2, 1]) {
            0 => 128,
            1 => *ctx.src.pick(&[128, 132, 144, 160, 129, 256]),
            2 => 128 + ctx.src.choose(200) as u32,
            _ => *ctx.src.pick(&[128, 4, 1, 16, 56, 127]),
        };
        let n = if fits(n) { n } else { 128 };
        // tables with more entries than a byte can count
        let crowd = ctx.src.chance(1, 30);
        let n = if crowd { *ctx.src.pick(&[256u32, 257, 300, 512, 1000, 1024, 2048, 128]) } else { n };
        let n = if fits(n) { n } else { 128 };
        let mut l = Layout::standard(n, lb, bak);
        // space in front of the first partition, as partitioning tools leave it
        if ctx.src.chance(1, 4) {
            let room = l.last_usable - l.first_usable;
            let d = match ctx.src.choose(3) {
                0 => room.min(2048 - l.first_usable.min(2048)),
                1 => ctx.src.choose(room.min(64) + 1),
                _ => ctx.src.choose(room.min(5000) + 1),
            };
            l.first_usable += d;
        }
        // an array that does not follow the header, as on boards that boot from the blocks there
        let a = Layout::array_blocks(n, lb);
        if ctx.src.chance(1, 6) {
            let room = l.last_usable - l.first_usable;
            l.first_usable += ctx.src.choose(room.min(3000) + 1);
        }
        if l.first_usable > 2 + a && ctx.src.chance(1, 4) {
            let room = l.first_usable - 2 - a;
            l.primary_start = if ctx.src.chance(1, 2) { 2 + room } else { 2 + ctx.src.choose(room + 1) };
        }
        // blocks between the usable area and the backup header that nothing uses
        if ctx.src.chance(1, 6) {
            let room = l.last_usable - l.first_usable;
            let d = match ctx.src.choose(3) {
                0 => room.min((l.last_usable + 1) % 8),
                1 => ctx.src.choose(room.min(64) + 1),
                _ => ctx.src.choose(room.min(5000) + 1),
            };
            l.last_usable -= d;
            l.backup_start -= match ctx.src.choose(3) {
                0 => 0,
                1 => d,
                _ => ctx.src.choose(d + 1),
            };
        }
        let geo = Geo { num_parts: n, fu: l.first_usable, lu: l.last_usable, bak, ps: l.primary_start };
        let mut t = if crowd { gen_crowd(&mut ctx.src, &geo) } else { gen_table(&mut ctx.src, &geo, max) };
        // slots that are not in use but were not cleared either
        if ctx.src.chance(1, 8) {
            let id = 1 + ctx.src.choose(n as u64) as u32;
            t.ents.entry(id).or_insert_with(|| Ent {
                ty: Uuid::nil(),
                guid: Uuid::from_u128(7),
                first: 0,
                last: 0,
                flags: 0,
                name: "old".into(),
            });
        }
        self.seen.insert(t.guid);
        self.seen.extend(t.ents.values().map(|e| e.guid));
        self.with_disk(di, |d| l.put(d, &t, lb));
        ctx.log(|| {
            format!(
                "disk{di}: foreign table, {n} entries in {}, usable {}-{}, backup in {} and {bak}: {}",
                l.primary_start, l.first_usable, l.last_usable, l.backup_start, t.brief()
            )
        });
        let r = &mut self.disks[di];
        r.history.push(t.clone());
        r.acked = Some(t);
        r.maybe.clear();
        r.in_step = true;
    }

    /// Creates a new empty object. Returns its index.
    pub fn create(&mut self, ctx: &mut Ctx, di: usize, cfg: &Cfg) -> Option<usize> {
        let given = if ctx.src.chance(1, 3) { Some(rand_uuid(&mut ctx.src)) } else { None };
        let sh = self.disks[di].sh.clone();
        let c = cfg.gpt();
        let pos = if ctx.src.chance(1, 6) { ctx.src.choose(100_000) } else { 0 };
        let path = self.disks[di].path.clone();
        self.with_disk(di, |d| d.start_journal());
        let file = path.is_some();
        let given = if file { None } else { given };
        let r = match &path {
            Some(p) => ctx.call(&sh, || c.create(p).map(AnyDisk::F).map_err(|e| gpt_err(&e))),
            None => {
                let dev = Dev::at(&sh, pos);
                ctx.call(&sh, || c.create_from_device(dev, given).map(AnyDisk::D).map_err(|e| gpt_err(&e)))
            }
        };
        let changed = self.with_disk(di, |d| {
            let c = !d.changes().is_empty() || d.resized;
            d.stop_journal();
            c
        });
        if changed {
            ctx.fail("W02", "create modified the device", || "the device changed before any write".into());
        }
        let bak = self.last_lba(di);
        let d = match r {
            Ok(d) => d,
            Err(e) => {
                ctx.log(|| format!("create on disk{di}: {e:?}"));
                let a = Layout::array_blocks(128, cfg.lb);
                if e.fatal() || bak >= 2 * a + 3 {
                    ctx.fail("O01", "create failed", || format!("creating a table on {} blocks: {e:?}", bak + 1));
                }
                ctx.stop = true;
                return None;
            }
        };
        let m = d.table();
        // a new table does not look for the only copy that is left of an earlier one
        if !self.with_disk(di, |x| ondisk::primary(x, cfg.lb).map_or(false, |c| c.array_ok)) {
            self.disks[di].acked = None;
            self.disks[di].maybe.clear();
        }
        ctx.log(|| format!("create on disk{di} ({}): {} cfg {cfg:?}", if file { "path" } else { "device" }, m.brief()));
        match given {
            Some(g) if m.guid != g => {
                ctx.fail("U01", "given guid not used", || format!("{g} was given, {} is used", m.guid));
            }
            None => self.check_fresh(ctx, &m.guid, "generated disk guid"),
            _ => {}
        }
        self.seen.insert(m.guid);
        if !m.ents.is_empty() {
            ctx.fail("T01", "created table not empty", || m.brief());
        }
        let geo = match d.header() {
            Ok(h) => Geo::of(&h),
            Err(e) => {
                ctx.fail("O01", "no header after create", || format!("{e:?}"));
                ctx.stop = true;
                return None;
            }
        };
        let last = Some(d.mem());
        let over_backup = self.over_backup(di, cfg, &geo);
        self.objs.push(Obj { d, cfg: cfg.clone(), m, geo, disk: di, file, last, stray: false, over_backup });
        Some(self.objs.len() - 1)
    }

    fn over_backup(&mut self, di: usize, cfg: &Cfg, geo: &Geo) -> bool {
        let b = self.with_disk(di, |d| ondisk::backup(d, cfg.lb));
        b.map_or(false, |b| b.hdr.part_start.min(b.hdr.my_lba) <= geo.lu)
    }

    pub fn check_fresh(&mut self, ctx: &mut Ctx, g: &Uuid, what: &str) {
        ctx.probe("identifier generated");
        if !is_fresh(g) {
            ctx.fail("U01", "identifier not random", || format!("{what} {g} is not a version 4 identifier"));
        } else if self.seen.contains(g) {
            ctx.fail("U01", "identifier not new", || format!("{what} {g} was used before"));
        }
        self.seen.insert(*g);
    }

    /// Opens the disk through its path or a device.
    pub fn raw_open(&mut self, ctx: &mut Ctx, di: usize, cfg: &Cfg) -> Res<AnyDisk> {
        let sh = self.disks[di].sh.clone();
        let c = cfg.gpt();
        match self.disks[di].path.clone() {
            Some(p) => ctx.call(&sh, || c.open(p).map(AnyDisk::F).map_err(|e| gpt_err(&e))),
            None => {
                let pos = if ctx.src.chance(1, 6) { ctx.src.choose(100_000) } else { 0 };
                let dev = Dev::at(&sh, pos);
                ctx.call(&sh, || c.open_from_device(dev).map(AnyDisk::D).map_err(|e| gpt_err(&e)))
            }
        }
    }

    /// Takes a freshly opened object into the world.
    pub fn adopt_obj(&mut self, ctx: &mut Ctx, d: AnyDisk, di: usize, cfg: &Cfg) -> Option<usize> {
        let m = d.table();
        let h = match d.header() {
            Ok(h) => h,
            Err(e) => {
                ctx.fail("O01", "no header after open", || format!("{e:?}"));
                ctx.stop = true;
                return None;
            }
        };
        self.seen.insert(m.guid);
        self.seen.extend(m.ents.values().map(|e| e.guid));
        let file = matches!(d, AnyDisk::F(_));
        let last = Some(d.mem());
        let geo = Geo::of(&h);
        let stray = has_stray(&m, &geo);
        let over_backup = self.over_backup(di, cfg, &geo);
        self.objs.push(Obj { d, cfg: cfg.clone(), m, geo, disk: di, file, last, stray, over_backup });
        Some(self.objs.len() - 1)
    }

    /// Opens a disk on which nothing is known to be damaged and checks what is found.
    pub fn open(&mut self, ctx: &mut Ctx, di: usize, cfg: &Cfg) -> Option<usize> {
        self.with_disk(di, |d| d.start_journal());
        let r = self.raw_open(ctx, di, cfg);
        let changed = self.with_disk(di, |d| {
            let c = !d.changes().is_empty() || d.resized;
            d.stop_journal();
            c
        });
        if changed {
            ctx.fail("W02", "open modified the device", || "bytes changed while opening".into());
        }
        let rec = &self.disks[di];
        let expected = rec.acked.clone();
        match r {
            Ok(d) => {
                let t = d.table();
                ctx.log(|| format!("open disk{di} cfg {cfg:?}: {}", t.brief()));
                match &expected {
                    Some(x) if rec.maybe.is_empty() => check_reopened(ctx, x, &t, "T01"),
                    Some(x) => {
                        if !t.same_content(x) && !rec.maybe.iter().any(|m| m.same_content(&t)) {
                            ctx.fail("C01", "neither old nor new table", || {
                                format!("found {} instead of {}", t.brief(), x.brief())
                            });
                        }
                    }
                    None => {}
                }
                check_types(ctx, &d);
                check_numbers(ctx, &d);
                let n = self.adopt_obj(ctx, d, di, cfg)?;
                Some(n)
            }
            Err(e) => {
                ctx.log(|| format!("open disk{di} cfg {cfg:?}: {e:?}"));
                if expected.is_some() && (!cfg.strict || rec.in_step) {
                    let p = if rec.maybe.is_empty() { "T01" } else { "C01" };
                    ctx.fail(p, "open failed", || format!("{e:?}"));
                    if cfg.strict {
                        ctx.fail("C02", "strict open failed", || format!("{e:?}"));
                    }
                } else if e.fatal() {
                    ctx.fail("O01", "open failed", || format!("{e:?}"));
                }
                None
            }
        }
    }

    // ------------------------------------------------------------ edits

    pub fn gaps(&self, oi: usize) -> Vec<(u64, u64)> {
        gaps(&self.objs[oi].m, &self.objs[oi].geo)
    }

    pub fn plan_for(&mut self, ctx: &mut Ctx, di: usize, f: Faults, ops: u64) {
        let p = match f {
            Faults::None => Plan::default(),
            Faults::Noise => gen_noise(ctx),
            Faults::Errors => {
                let mut p = if ctx.src.chance(1, 4) { gen_noise(ctx) } else { Plan::default() };
                p.errs.push(gen_err(ctx, ops));
                p
            }
            Faults::Crash | Faults::CrashIn(..) => {
                let mut p = Plan::default();
                let n = ops.max(1) + 1;
                let (from, to) = if let Faults::CrashIn(a, b) = f { (n * a / 8, (n * b / 8).max(n * a / 8 + 1)) } else { (0, n) };
                p.crash_at = Some(from + ctx.src.choose(to - from));
                p.crash_after_store = ctx.src.chance(1, 2);
                p
            }
        };
        self.with_disk(di, |d| d.set_plan(p));
    }

    fn begin_edit(&mut self, ctx: &mut Ctx, oi: usize, f: Faults) -> Mem {
        let di = self.objs[oi].disk;
        let mem = self.objs[oi].d.mem();
        self.plan_for(ctx, di, f, 6);
        self.with_disk(di, |d| d.start_journal());
        mem
    }

    /// Checks that apply to every edit, returns whether a fault hit it.
    fn end_edit(&mut self, ctx: &mut Ctx, oi: usize, what: &str, before: &Mem, ok: bool) -> bool {
        let di = self.objs[oi].disk;
        let (changed, fired) = self.with_disk(di, |d| {
            let c = !d.changes().is_empty() || d.resized;
            d.stop_journal();
            let f = d.errs_fired > 0 || d.crashed;
            d.calm();
            d.set_plan(Plan::default());
            (c, f)
        });
        if changed {
            ctx.fail("W02", "edit modified the device", || format!("{what} changed bytes of the device"));
        }
        let after = self.objs[oi].d.mem();
        ctx.probe(if ok { "edit done" } else { "edit refused or failed" });
        if fired {
            ctx.probe("edit hit by an injected failure");
        }
        let mut h = ok as u64;
        for (id, e) in &after.table.ents {
            h = mix(h ^ *id as u64, e.first ^ e.last.rotate_left(20) ^ e.flags);
        }
        ctx.note(h);
        if !ok && after != *before {
            ctx.fail("A01", "failed edit changed the object", || format!("{what}: {}", before.diff(&after)));
        }
        self.common_checks(ctx, oi, what, before);
        fired
    }

    /// The disk GUID, the entry count and the other objects.
    pub fn common_checks(&mut self, ctx: &mut Ctx, oi: usize, what: &str, before: &Mem) {
        check_numbers(ctx, &self.objs[oi].d);
        let o = &self.objs[oi];
        let after = o.d.mem();
        if !o.cfg.consent {
            // the copies may disagree, what counts is the header that is in use
            let used = |m: &Mem| m.primary.as_ref().or(m.backup.as_ref()).ok().map(|h| h.num_parts);
            let (a, b) = (used(before), used(&after));
            if a != b {
                ctx.fail("N01", "entry count changed without consent", || format!("{what}: {a:?} -> {b:?}"));
            }
        }
        for i in 0..self.objs.len() {
            if i != oi {
                let now = self.objs[i].d.mem();
                if let Some(l) = &self.objs[i].last {
                    if *l != now {
                        let d = l.diff(&now);
                        ctx.fail("K01", "edit shows in another object", || format!("{what}: {d}"));
                    }
                }
            }
        }
        self.objs[oi].last = Some(after);
    }

    /// The free list and next number agree with the model.
    pub fn check_free(&mut self, ctx: &mut Ctx, oi: usize) {
        let o = &self.objs[oi];
        let want = gaps(&o.m, &o.geo);
        match guarded(|| Ok(on!(&o.d, d => d.find_free_sectors()))) {
            Ok(got) if got != want => {
                let short = |v: &Vec<(u64, u64)>| format!("{:?}", &v[..v.len().min(8)]);
                let m = format!("{} instead of {} for {}", short(&got), short(&want), o.m.brief());
                // a block that is in use or reserved is the worse mistake
                let free = |p: &(u64, u64)| want.iter().any(|w| p.0 >= w.0 && p.0 as u128 + p.1 as u128 <= w.0 as u128 + w.1 as u128);
                if got.iter().any(|p| !free(p)) {
                    ctx.fail("L01", "used blocks listed as free", || m.clone());
                }
                ctx.fail("L02", "wrong free list", || m);
            }
            Err(e) => ctx.fail("L02", "free list failed", || format!("{e:?}")),
            _ => {}
        }
        let want = lowest_free(&o.m, &o.geo);
        match guarded(|| Ok(on!(&o.d, d => d.find_next_partition_id()))) {
            Ok(got) if got != want => {
                let m = format!("{got:?} instead of {want:?}");
                ctx.fail("L02", "wrong next number", || m);
            }
            Err(e) => ctx.fail("L02", "next number failed", || format!("{e:?}")),
            _ => {}
        }
    }

    /// Adopts the geometry after an operation that is allowed to lay out the table anew.
    fn resync(&mut self, ctx: &mut Ctx, oi: usize, may_change: bool, what: &str) {
        let o = &mut self.objs[oi];
        o.m = o.d.table();
        if let Ok(h) = o.d.header() {
            let g = Geo::of(&h);
            if g != o.geo {
                if !may_change {
                    let m = format!("{what}: {:?} -> {g:?}", o.geo);
                    if g.num_parts != o.geo.num_parts {
                        ctx.fail("N01", "entry count changed by an unrelated edit", || m.clone());
                    }
                    ctx.fail("T01", "usable area changed by an unrelated edit", || m);
                }
                o.geo = g;
            }
        }
    }

    fn unaffected(&self, ctx: &mut Ctx, what: &str, before: &Table, after: &Table, except: Option<u32>) {
        for (id, e) in &before.ents {
            if Some(*id) == except {
                continue;
            }
            match after.ents.get(id) {
                Some(n) if n == e => {}
                Some(n) => {
                    let m = format!("{what}: entry {id} was {e:?} and is {n:?}");
                    if n.guid != e.guid {
                        ctx.fail("U01", "identifier of another entry changed", || m.clone());
                    }
                    ctx.fail("T01", "another entry changed", || m);
                }
                None => ctx.fail("T01", "another entry vanished", || format!("{what}: entry {id} {e:?}")),
            }
        }
        for (id, e) in &after.ents {
            if Some(*id) != except && !before.ents.contains_key(id) {
                ctx.fail("T01", "an entry appeared", || format!("{what}: entry {id} {e:?}"));
            }
        }
    }

    /// Checks of an entry that was added.
    #[allow(clippy::too_many_arguments)]
    fn check_added(
        &mut self,
        ctx: &mut Ctx,
        oi: usize,
        what: &str,
        before: &Mem,
        id: u32,
        blocks: u128,
        at: Option<u64>,
        align: u64,
        name: &str,
        ty: Uuid,
        flags: u64,
    ) {
        let after = self.objs[oi].d.table();
        self.unaffected(ctx, what, &before.table, &after, Some(id));
        if after.guid != before.table.guid {
            ctx.fail("U01", "disk guid changed by an edit", || what.to_string());
        }
        if before.table.ents.get(&id).map_or(false, |e| e.used()) {
            ctx.fail("L02", "number was not free", || format!("{what}: {id}"));
            ctx.fail("T01", "a used entry was replaced", || format!("{what}: {id}"));
        }
        let Some(e) = after.ents.get(&id).cloned() else {
            ctx.fail("L02", "returned number does not exist", || format!("{what}: {id}"));
            ctx.fail("T01", "added entry is missing", || format!("{what}: {id}"));
            return;
        };
        if e.ty != ty || e.flags != flags || e.name != name {
            ctx.fail("T01", "attributes not as requested", || {
                format!("{what}: type {ty} flags {flags:#x} name {name:?} became {e:?}")
            });
        }
        let new_guid = e.guid;
        self.check_fresh(ctx, &new_guid, "partition guid");
        // allocation
        let len = (e.last as u128 + 1).checked_sub(e.first as u128).unwrap_or(0);
        if len != blocks {
            ctx.fail("L01", "wrong length", || format!("{what}: {blocks} blocks requested, got {}-{}", e.first, e.last));
        }
        let geo_before = self.objs[oi].geo.clone();
        if e.first < geo_before.fu || e.last > geo_before.lu || e.first > e.last {
            ctx.fail("L01", "outside of the usable area", || {
                format!("{what}: got {}-{}, usable {}-{}", e.first, e.last, geo_before.fu, geo_before.lu)
            });
        }
        if align > 1 && e.first % align != 0 {
            ctx.fail("L01", "not aligned", || format!("{what}: starts at {}, alignment {align}", e.first));
        }
        if let Some(p) = at {
            if e.first != p {
                ctx.fail("L01", "not at the requested position", || format!("{what}: starts at {} instead of {p}", e.first));
            }
        }
        // a backup that belongs to this table and stays where it is
        let (di, lb) = (self.objs[oi].disk, self.objs[oi].cfg.lb);
        if self.objs[oi].cfg.ro_backup && !self.objs[oi].over_backup {
            let known = before.backup.as_ref().ok().map(|h| (h.my_lba, h.part_start));
            if let Some(b) = self.with_disk(di, |d| ondisk::backup(d, lb)) {
                let from = b.hdr.part_start.min(b.hdr.my_lba);
                if e.last >= from && known == Some((b.hdr.my_lba, b.hdr.part_start)) {
                    ctx.fail("L01", "overlaps the read-only backup", || {
                        format!("{what}: {}-{} in front of {from}", e.first, e.last)
                    });
                }
            }
        }
        for (oid, o) in &before.table.ents {
            if *oid != id && o.used() && o.first <= e.last && e.first <= o.last {
                let (a, b, c, d) = (e.first, e.last, o.first, o.last);
                ctx.fail("L01", "overlaps another partition", || format!("{what}: {a}-{b} overlaps {oid} at {c}-{d}"));
            }
        }
    }

    /// The entry count suffices and grew only with consent.
    fn check_count(&mut self, ctx: &mut Ctx, oi: usize, what: &str) {
        let o = &self.objs[oi];
        if let Ok(h) = o.d.header() {
            let used = o.d.table().ents.values().filter(|e| e.used()).count();
            if used > h.num_parts as usize {
                ctx.fail("N01", "more entries than the table provides", || {
                    format!("{what}: {used} used entries, room for {}", h.num_parts)
                });
            }
        }
    }

    /// A growing table ran into blocks that are in use. The library accepts that, see the known
    /// findings, nothing after it is meaningful.
    fn overgrown(&self, oi: usize) -> bool {
        let o = &self.objs[oi];
        let lb = o.cfg.lb;
        let a = o.geo.blocks(lb);
        o.cfg.consent
            && o.m.ents.values().filter(|e| e.used()).any(|e| e.first < o.geo.ps + a || e.last.saturating_add(a + 1) > o.geo.bak)
    }

    /// What the known findings say about a table that grew into blocks in use: the array of the
    /// primary overwrites partitions, that of the backup runs into the header of the backup. The
    /// blocks of partitions behind the array of the primary stay as they are.
    fn grown_write(&mut self, ctx: &mut Ctx, oi: usize) {
        let o = &self.objs[oi];
        let lb = o.cfg.lb;
        let front = o.geo.ps + o.geo.blocks(lb);
        // the caller may put entries anywhere, those outside of the usable area are his fault
        if o.stray {
            return;
        }
        let used: Vec<(u64, u64)> =
            o.m.ents.values().filter(|e| e.used() && e.first <= e.last).map(|e| (e.first.max(front), e.last)).collect();
        let state = getrandom::sim_state();
        let fork = self.with_disk(o.disk, |d| d.fork()).shared();
        {
            let mut d = lock(&fork);
            d.op_budget = op_budget(d.size);
            d.start_journal();
        }
        let mut twin = o.d.on_device(Dev::new(&fork), true);
        let _ = guarded(|| twin.write_inplace().map_err(|e| gpt_err(&e)));
        getrandom::sim_seed(state);
        let changes = lock(&fork).changes();
        let bad = changes.iter().map(|c| c.0 * 512 / lb).find(|b| *b == 0 || used.iter().any(|(f, l)| f <= b && b <= l));
        if let Some(b) = bad {
            ctx.fail("W01", "a grown table was written over blocks behind its array", || format!("block {b}"));
        }
    }

    pub fn add_by_size(&mut self, ctx: &mut Ctx, oi: usize, f: Faults) {
        let lb = self.objs[oi].cfg.lb;
        let g = self.gaps(oi);
        let src = &mut ctx.src;
        let biggest = g.iter().map(|x| x.1).max().unwrap_or(1);
        let some = if g.is_empty() { 1 } else { src.pick(&g).1 };
        let size = match src.choose_weighted(&[5, 3, 2, 2, 2, 1, 1, 1, 1]) {
            0 => lb * (1 + src.choose(16)),
            1 => 1 + src.choose(lb + 2),
            2 => some.saturating_mul(lb),
            3 => some.saturating_mul(lb).saturating_sub(src.choose(lb + 1)).max(1),
            4 => some.saturating_mul(lb).saturating_add(1 + src.choose(lb)),
            5 => biggest.saturating_mul(lb),
            6 => 1 + src.choose(biggest.saturating_mul(lb)),
            7 => u64::MAX - src.choose(2 * lb),
            _ => src.bits().max(1),
        };
        let align = match src.choose_weighted(&[6, 1, 2, 2, 2, 2, 1, 1]) {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            3 => Some(1 << src.choose(12)),
            4 => Some(1 + src.choose(40)),
            5 => Some(1 + src.choose(self.objs[oi].geo.lu.max(1))),
            6 => Some(u64::MAX - src.choose(3)),
            _ => Some(src.bits()),
        };
        let name = gen_name(src, self.long_names);
        let ty = types::request(ctx);
        let flags = gen_flags(&mut ctx.src);
        let what = format!("add_partition({name:?}, {size}, align {align:?})");
        let before = self.begin_edit(ctx, oi, f);
        let sh = self.disks[self.objs[oi].disk].sh.clone();
        let o = &mut self.objs[oi];
        let (n2, t2) = (name.clone(), ty.clone());
        let r = ctx.call(&sh, || {
            on!(&mut o.d, d => d.add_partition(&n2, size, t2, flags, align)).map_err(|e| gpt_err(&e))
        });
        ctx.log(|| format!("{what} -> {r:?}"));
        let fired = self.end_edit(ctx, oi, &what, &before, r.is_ok());
        let o = &self.objs[oi];
        let blocks = (size as u128).div_ceil(lb as u128);
        let at = if blocks > u64::MAX as u128 { None } else { first_fit(&g, blocks as u64, align.unwrap_or(0)) };
        let count = o.m.ents.len();
        let want_id = lowest_free(&o.m, &o.geo).unwrap_or(o.geo.num_parts.saturating_add(1));
        let new_count = count + !o.m.ents.contains_key(&want_id) as usize;
        let grows = would_change(&o.geo, want_id, new_count);
        match &r {
            Ok(id) => {
                let id = *id;
                let a = align.unwrap_or(0);
                self.check_added(ctx, oi, &what, &before, id, blocks, None, a, &name, ty.guid, flags);
                match at {
                    None => ctx.fail("L01", "impossible request granted", || what.clone()),
                    Some(p) => {
                        let got = self.objs[oi].d.table().ents.get(&id).map(|e| e.first);
                        if got != Some(p) {
                            ctx.fail("L02", "not the lowest position", || format!("{what}: {got:?} instead of {p}"));
                        }
                        if id != want_id {
                            ctx.fail("L02", "not the lowest number", || format!("{what}: {id} instead of {want_id}"));
                        }
                    }
                }
                let cfg = &self.objs[oi].cfg;
                if grows && !cfg.consent {
                    ctx.fail("N01", "edit beyond the entry count accepted", || what.clone());
                }
                self.resync(ctx, oi, grows, &what);
                self.check_count(ctx, oi, &what);
            }
            Err(e) => {
                let o = &self.objs[oi];
                let lu = o.m.ents.values().filter(|e| e.used()).map(|e| e.last).max().unwrap_or(0);
                if e.fatal() && !fired {
                    ctx.fail("L02", "request by size crashed", || format!("{what}: {e:?}"));
                    if overflowed(e) {
                        ctx.fail("L01", "placement is computed beyond 64 bits", || format!("{what}: {e:?}"));
                    }
                    ctx.fail("O01", "edit crashed", || format!("{what}: {e:?}"));
                    if e.fatal() {
                        ctx.stop = true;
                    }
                } else if *e == E::NoSpace && at.is_some() {
                    let p = at.unwrap();
                    ctx.fail("L02", "free space not found", || format!("{what}: {blocks} blocks fit at {p}"));
                } else if let Some(p) = at {
                    if !grows && !fired {
                        ctx.fail("L02", "possible request refused", || format!("{what}: {e:?}, {blocks} blocks fit at {p}"));
                    } else if grows && o.cfg.consent && !fired {
                        let lu = lu.max(p + blocks as u64 - 1);
                        if !no_room(&o.geo, new_count, true, lu, self.last_lba(o.disk), lb) {
                            ctx.fail("N01", "allowed growth refused", || format!("{what}: {e:?}"));
                        }
                    } else if grows && !o.cfg.consent && !matches!(e, E::CountWouldChange) && !fired {
                        ctx.fail("N01", "refused for the wrong reason", || format!("{what}: {e:?}"));
                    }
                }
            }
        }
        if self.overgrown(oi) {
            self.grown_write(ctx, oi);
            ctx.probe("growth over used blocks");
            ctx.stop = true;
        }
    }

    pub fn add_at(&mut self, ctx: &mut Ctx, oi: usize, f: Faults) {
        let g = self.gaps(oi);
        let o = &self.objs[oi];
        let (fu, lu) = (o.geo.fu, o.geo.lu);
        let used: Vec<(u32, Ent)> = o.m.ents.iter().map(|(i, e)| (*i, e.clone())).collect();
        let lb = o.cfg.lb;
        let num = o.geo.num_parts;
        let free_id = lowest_free(&o.m, &o.geo);
        let src = &mut ctx.src;
        let gap = if g.is_empty() { (fu, 1) } else { *src.pick(&g) };
        let end = gap.0 + gap.1;
        let first = match src.choose_weighted(&[6, 3, 2, 2, 1, 1, 1, 2]) {
            0 => gap.0,
            1 => gap.0 + src.choose(gap.1),
            2 => end - 1,
            3 => end,
            4 => gap.0.saturating_sub(1),
            5 => *src.pick(&[0u64, 1, 2, u64::MAX, u64::MAX - 1]),
            6 => src.bits(),
            _ => match used.is_empty() {
                true => fu,
                false => {
                    let e = &src.pick(&used).1;
                    *src.pick(&[e.first, e.last, e.last.wrapping_add(1), e.first.wrapping_sub(1)])
                }
            },
        };
        let rest = end.saturating_sub(first);
        let len = match src.choose_weighted(&[5, 3, 2, 2, 1, 1, 1]) {
            0 => 1,
            1 => 1 + src.choose(rest.max(1)),
            2 => rest.max(1),
            3 => rest.saturating_add(1),
            4 => (lu - fu).saturating_add(2),
            5 => u64::MAX - src.choose(3),
            _ => src.bits().max(1),
        };
        let id = match src.choose_weighted(&[5, 3, 2, 1, 1, 1, 1]) {
            0 => free_id.unwrap_or(num + 1),
            1 => 1 + src.choose(num as u64) as u32,
            2 => match used.is_empty() {
                true => 1,
                false => src.pick(&used).0,
            },
            3 => num,
            4 => num + 1,
            5 => num + 1 + src.choose(300) as u32,
            _ => u32::MAX - src.choose(2) as u32,
        };
        let name = gen_name(src, self.long_names);
        let ty = types::request(ctx);
        let flags = gen_flags(&mut ctx.src);
        let what = format!("add_partition_at({name:?}, id {id}, first {first}, length {len})");
        let before = self.begin_edit(ctx, oi, f);
        let sh = self.disks[self.objs[oi].disk].sh.clone();
        let o = &mut self.objs[oi];
        let (n2, t2) = (name.clone(), ty.clone());
        let r = ctx.call(&sh, || {
            on!(&mut o.d, d => d.add_partition_at(&n2, id, first, len, t2, flags)).map_err(|e| gpt_err(&e))
        });
        ctx.log(|| format!("{what} -> {r:?}"));
        let fired = self.end_edit(ctx, oi, &what, &before, r.is_ok());
        let o = &self.objs[oi];
        let is_used = o.m.ents.get(&id).map_or(false, |e| e.used());
        let fits = g.iter().any(|x| {
            first >= x.0 && first as u128 + len as u128 <= x.0 as u128 + x.1 as u128
        });
        let new_count = o.m.ents.len() + !o.m.ents.contains_key(&id) as usize;
        let grows = would_change(&o.geo, id, new_count);
        match &r {
            Ok(rid) => {
                if *rid != id {
                    ctx.fail("L02", "not the requested number", || format!("{what}: {rid}"));
                }
                self.check_added(ctx, oi, &what, &before, id, len as u128, Some(first), 0, &name, ty.guid, flags);
                if !fits {
                    ctx.fail("L01", "impossible request granted", || what.clone());
                }
                if grows && !self.objs[oi].cfg.consent {
                    ctx.fail("N01", "edit beyond the entry count accepted", || what.clone());
                }
                self.resync(ctx, oi, grows, &what);
                self.check_count(ctx, oi, &what);
            }
            Err(e) => {
                let lu = o.m.ents.values().filter(|e| e.used()).map(|e| e.last).max().unwrap_or(0);
                if e.fatal() && !fired {
                    ctx.fail("L02", "request at a position crashed", || format!("{what}: {e:?}"));
                    if overflowed(e) {
                        ctx.fail("L01", "placement is computed beyond 64 bits", || format!("{what}: {e:?}"));
                    }
                    ctx.fail("O01", "edit crashed", || format!("{what}: {e:?}"));
                    ctx.stop = true;
                } else if !is_used && fits && !fired {
                    if !grows {
                        ctx.fail("L02", "possible request refused", || format!("{what}: {e:?}"));
                    } else if o.cfg.consent {
                        let lu = lu.max(first + len - 1);
                        if !no_room(&o.geo, new_count, true, lu, self.last_lba(o.disk), lb) {
                            ctx.fail("N01", "allowed growth refused", || format!("{what}: {e:?}"));
                        }
                    } else if !matches!(e, E::CountWouldChange) {
                        ctx.fail("N01", "refused for the wrong reason", || format!("{what}: {e:?}"));
                    }
                }
            }
        }
        if self.overgrown(oi) {
            self.grown_write(ctx, oi);
            ctx.probe("growth over used blocks");
            ctx.stop = true;
        }
    }

    pub fn remove(&mut self, ctx: &mut Ctx, oi: usize) {
        let o = &self.objs[oi];
        let ids: Vec<u32> = o.m.ents.keys().copied().collect();
        let by_guid = ctx.src.chance(1, 3);
        let hit = !ids.is_empty() && !ctx.src.chance(1, 6);
        let before = self.begin_edit(ctx, oi, Faults::None);
        let o = &mut self.objs[oi];
        let (what, want, r) = if by_guid {
            let g = if hit {
                let id = *ctx.src.pick(&ids);
                o.m.ents[&id].guid
            } else {
                rand_uuid(&mut ctx.src)
            };
            let want = o.m.ents.iter().find(|(_, e)| e.guid == g).map(|x| *x.0);
            let r = guarded(|| Ok(on!(&mut o.d, d => d.remove_partition_by_guid(g))));
            (format!("remove_partition_by_guid({g})"), want, r)
        } else {
            let id = if hit { *ctx.src.pick(&ids) } else { ctx.src.choose(400) as u32 };
            let want = o.m.ents.contains_key(&id).then_some(id);
            let r = guarded(|| Ok(on!(&mut o.d, d => d.remove_partition(id))));
            (format!("remove_partition({id})"), want, r)
        };
        ctx.log(|| format!("{what} -> {r:?}"));
        self.end_edit(ctx, oi, &what, &before, true);
        let after = self.objs[oi].d.table();
        let mut expect = before.table.clone();
        if let Some(id) = want {
            expect.ents.remove(&id);
        }
        if after != expect {
            ctx.fail("T01", "removal changed something else", || {
                format!("{what}: {} instead of {}", after.brief(), expect.brief())
            });
            self.unaffected_guid(ctx, &what, &before.table, &after);
            if want.is_none() {
                ctx.fail("A01", "removal of nothing changed the table", || what.clone());
            }
        }
        match r {
            Ok(x) if x == want => {}
            o => ctx.fail("T01", "wrong result of a removal", || format!("{what}: {o:?} instead of {want:?}")),
        }
        self.resync(ctx, oi, false, &what);
    }

    fn unaffected_guid(&self, ctx: &mut Ctx, what: &str, before: &Table, after: &Table) {
        for (id, e) in &after.ents {
            if before.ents.get(id).map_or(false, |b| b.guid != e.guid) {
                ctx.fail("U01", "identifier of another entry changed", || format!("{what}: {id}"));
            }
        }
        if before.guid != after.guid {
            ctx.fail("U01", "disk guid changed by an edit", || what.to_string());
        }
    }

    pub fn update_guid(&mut self, ctx: &mut Ctx, oi: usize) {
        let given = if ctx.src.chance(1, 2) { Some(rand_uuid(&mut ctx.src)) } else { None };
        let before = self.begin_edit(ctx, oi, Faults::None);
        let o = &mut self.objs[oi];
        let r = guarded(|| {
            on!(&mut o.d, d => d.update_guid(given));
            Ok(())
        });
        let what = format!("update_guid({given:?})");
        self.end_edit(ctx, oi, &what, &before, true);
        let after = self.objs[oi].d.table();
        ctx.log(|| format!("{what} -> {r:?}, {}", after.guid));
        match given {
            Some(g) => {
                if after.guid != g {
                    ctx.fail("U01", "given guid not used", || format!("{what}: {}", after.guid));
                }
                self.seen.insert(g);
            }
            None => self.check_fresh(ctx, &after.guid, "generated disk guid"),
        }
        if after.ents != before.table.ents {
            ctx.fail("T01", "another entry changed", || what.clone());
            let mut b = before.table.clone();
            b.guid = after.guid;
            self.unaffected_guid(ctx, &what, &b, &after);
        }
        self.resync(ctx, oi, false, &what);
    }

    pub fn take(&mut self, ctx: &mut Ctx, oi: usize) {
        let before = self.begin_edit(ctx, oi, Faults::None);
        let o = &mut self.objs[oi];
        let got = on!(&mut o.d, d => d.take_partitions());
        ctx.log(|| "take_partitions".to_string());
        self.end_edit(ctx, oi, "take_partitions", &before, true);
        let after = self.objs[oi].d.table();
        if ents(&got) != before.table.ents || !after.ents.is_empty() {
            ctx.fail("T01", "take_partitions did not hand over the entries", || after.brief());
        }
        if after.guid != before.table.guid {
            ctx.fail("U01", "disk guid changed by an edit", || "take_partitions".into());
        }
        self.resync(ctx, oi, false, "take_partitions");
    }

    pub fn replace(&mut self, ctx: &mut Ctx, oi: usize, f: Faults) {
        let o = &self.objs[oi];
        let geo = o.geo.clone();
        let mut new = o.m.ents.clone();
        let past = &self.disks[o.disk].history;
        let src = &mut ctx.src;
        match src.choose_weighted(&[6, 6, 4, 6, 6, 2, 4, 2, 1, 8]) {
            0 => {}
            9 => {
                // what the disk held before or was meant to hold, maybe with a change
                if !past.is_empty() {
                    let back = src.small(past.len() as u64 - 1) as usize;
                    let now = std::mem::replace(&mut new, past[past.len() - 1 - back].ents.clone());
                    let ids: Vec<u32> = new.keys().copied().collect();
                    match src.choose(4) {
                        0 | 1 => {}
                        2 => {
                            // and others behind them
                            let mut id = ids.last().copied().unwrap_or(0);
                            for e in now.into_values() {
                                if new.len() < 500 && new.values().all(|x| x.guid != e.guid) {
                                    id += 1;
                                    new.insert(id, e);
                                }
                            }
                        }
                        _ if !ids.is_empty() => {
                            new.remove(src.pick(&ids));
                        }
                        _ => {}
                    }
                }
            }
            8 => {
                // slots that are not in use
                let n = 1 + src.choose(geo.num_parts.min(1000) as u64 + 40) as u32;
                let old = src.chance(1, 4);
                for id in 1..=n {
                    new.entry(id).or_insert_with(|| Ent {
                        ty: Uuid::nil(),
                        guid: if old { Uuid::from_u128(id as u128) } else { Uuid::nil() },
                        first: 0,
                        last: 0,
                        flags: 0,
                        name: String::new(),
                    });
                }
            }
            1 => {
                // remove some
                let seed = src.bits();
                new.retain(|id, _| mix(seed, *id as u64) % 3 != 0);
            }
            2 => new = new.into_values().enumerate().map(|(i, e)| (i as u32 + 1, e)).collect(),
            3 => {
                // new numbers, in the same or in another order
                let spread = *src.pick(&[1u64, 2, 5]);
                let mut id = 0u32;
                let mut v: Vec<Ent> = new.into_values().collect();
                if src.chance(1, 3) {
                    v.reverse();
                }
                new = BTreeMap::new();
                for e in v {
                    id += 1 + src.choose(spread) as u32;
                    new.insert(id, e);
                }
            }
            4 => {
                // attributes
                let ids: Vec<u32> = new.keys().copied().collect();
                if !ids.is_empty() {
                    let id = *src.pick(&ids);
                    let e = new.get_mut(&id).unwrap();
                    match src.choose(5) {
                        0 => e.flags = gen_flags(src),
                        1 => e.name = gen_name(src, self.long_names),
                        2 => e.ty = gen_type(src).guid,
                        3 => e.guid = rand_uuid(src),
                        _ => e.last = e.last.saturating_sub(1).max(e.first),
                    }
                }
            }
            5 => {
                let ids: Vec<u32> = new.keys().copied().collect();
                if !ids.is_empty() {
                    let id = *src.pick(&ids);
                    new.get_mut(&id).unwrap().ty = Uuid::nil();
                }
            }
            6 => {
                // entries from nowhere, overlapping or outside of the usable area
                for _ in 0..1 + src.choose(3) {
                    let id = 1 + src.choose(geo.num_parts as u64 + 2) as u32;
                    let first = match src.choose_weighted(&[4, 1, 1]) {
                        0 => src.range(geo.fu, geo.lu),
                        1 => src.choose(geo.bak + 2),
                        _ => u64::MAX - src.choose(100),
                    };
                    let len = 1 + src.small(2000);
                    new.insert(
                        id,
                        Ent {
                            ty: gen_type(src).guid,
                            guid: rand_uuid(src),
                            first,
                            last: first.saturating_add(len - 1),
                            flags: gen_flags(src),
                            name: gen_name(src, self.long_names),
                        },
                    );
                }
            }
            _ => {
                // fill up
                let n = geo.num_parts as u64 + src.choose(4);
                let n = n.saturating_sub(src.choose(2)).min(400);
                let area = geo.lu - geo.fu + 1;
                new.clear();
                for i in 0..n {
                    let first = geo.fu + i % area;
                    new.insert(
                        i as u32 + 1,
                        Ent {
                            ty: Uuid::from_u128(types::KNOWN[1 + i as usize % (types::KNOWN.len() - 1)].1),
                            guid: Uuid::from_u64_pair(mix(geo.bak, i), i + 1),
                            first,
                            last: first,
                            flags: i,
                            name: format!("p{i}"),
                        },
                    );
                }
            }
        }
        self.replace_with(ctx, oi, new, f);
    }

    pub fn replace_with(&mut self, ctx: &mut Ctx, oi: usize, new: BTreeMap<u32, Ent>, f: Faults) {
        let what = format!("update_partitions({} entries)", new.len());
        let geo = self.objs[oi].geo.clone();
        let pp: BTreeMap<u32, gpt::partition::Partition> = new.iter().map(|(i, e)| (*i, part(e))).collect();
        let before = self.begin_edit(ctx, oi, f);
        let sh = self.disks[self.objs[oi].disk].sh.clone();
        let o = &mut self.objs[oi];
        let r = ctx.call(&sh, || on!(&mut o.d, d => d.update_partitions(pp)).map_err(|e| gpt_err(&e)));
        ctx.log(|| {
            let t = Table { guid: Uuid::nil(), ents: new.clone() };
            format!("{what} {} -> {r:?}", t.brief())
        });
        let fired = self.end_edit(ctx, oi, &what, &before, r.is_ok());
        let o = &self.objs[oi];
        let used = new.values().filter(|e| e.used()).count();
        let last_used = new.values().filter(|e| e.used()).map(|e| e.last).max().unwrap_or(0);
        let grows = would_change(&o.geo, 0, new.len());
        match &r {
            Ok(()) => {
                let after = o.d.table();
                let expect = Table { guid: before.table.guid, ents: new.clone() };
                if after != expect {
                    ctx.fail("T01", "entries not replaced as requested", || {
                        format!("{what}: {} instead of {}", after.brief(), expect.brief())
                    });
                }
                if after.guid != before.table.guid {
                    ctx.fail("U01", "disk guid changed by an edit", || what.clone());
                }
                for (id, e) in &after.ents {
                    if new.get(id).map_or(false, |n| n.guid != e.guid) {
                        ctx.fail("U01", "identifier not used verbatim", || format!("{what}: {id}"));
                    }
                }
                self.seen.extend(new.values().map(|e| e.guid));
                if used > geo.num_parts as usize && !o.cfg.consent {
                    ctx.fail("N01", "edit beyond the entry count accepted", || what.clone());
                }
                self.objs[oi].stray |= has_stray(&expect, &geo);
                self.resync(ctx, oi, true, &what);
                self.check_count(ctx, oi, &what);
            }
            Err(e) => {
                if e.fatal() && !fired {
                    ctx.fail("O01", "edit crashed", || format!("{what}: {e:?}"));
                    ctx.fail("N01", "replacing the entries crashed", || format!("{what}: {e:?}"));
                    ctx.stop = true;
                } else if !fired && grows && o.cfg.consent {
                    if !no_room(&o.geo, new.len(), true, last_used, self.last_lba(o.disk), o.cfg.lb) {
                        ctx.fail("N01", "allowed growth refused", || format!("{what}: {e:?}"));
                    }
                } else if !fired && !grows && matches!(e, E::CountWouldChange) {
                    ctx.fail("N01", "refused although the entries suffice", || format!("{what}: {e:?}"));
                }
            }
        }
        if self.overgrown(oi) {
            self.grown_write(ctx, oi);
            ctx.probe("growth over used blocks");
            ctx.stop = true;
        }
    }

    // ------------------------------------------------------------ writes

    /// Number of device operations of a write of this object in its current state.
    pub fn count_write_ops(&mut self, oi: usize) -> u64 {
        let o = &self.objs[oi];
        let state = getrandom::sim_state();
        let fork = self.with_disk(o.disk, |d| d.fork()).shared();
        {
            let mut d = lock(&fork);
            d.op_budget = op_budget(d.size);
        }
        let mut twin = o.d.on_device(Dev::new(&fork), o.cfg.writable);
        let _ = guarded(|| twin.write_inplace().map_err(|e| gpt_err(&e)));
        getrandom::sim_seed(state);
        let n = lock(&fork).ops;
        n
    }

    /// Writes the table. Returns whether the object still exists (it does not if the write was
    /// consuming) and whether the power was lost.
    pub fn write(&mut self, ctx: &mut Ctx, oi: usize, f: Faults, consuming: bool) -> WriteEnd {
        let ops = if matches!(f, Faults::Errors | Faults::Crash | Faults::CrashIn(..)) { self.count_write_ops(oi) } else { 0 };
        let di = self.objs[oi].disk;
        self.plan_for(ctx, di, f, ops);
        self.write_planned(ctx, oi, consuming)
    }

    pub fn write_planned(&mut self, ctx: &mut Ctx, oi: usize, consuming: bool) -> WriteEnd {
        let di = self.objs[oi].disk;
        let lb = self.disks[di].lb;
        let sh = self.disks[di].sh.clone();
        let before = self.objs[oi].d.mem();
        let last_lba = self.last_lba(di);
        let size_before = self.with_disk(di, |d| d.size);
        self.with_disk(di, |d| d.start_journal());
        let writable = self.objs[oi].cfg.writable;
        let ro = self.objs[oi].cfg.ro_backup;
        let m = self.objs[oi].m.clone();
        let mut gone = false;
        let r: Res<()> = if consuming {
            gone = true;
            let o = self.objs.remove(oi);
            let AnyDisk::D(_) = &o.d else {
                let AnyDisk::F(d) = o.d else { unreachable!() };
                let r = ctx.call(&sh, || d.write().map(|_| ()).map_err(|e| gpt_err(&e)));
                return self.write_result(ctx, WriteArgs { di, lb, before, last_lba, size_before, writable, ro, m, geo: o.geo, cfg: o.cfg, gone, oi: None }, r);
            };
            let AnyDisk::D(d) = o.d else { unreachable!() };
            let r = ctx.call(&sh, || d.write().map(|_| ()).map_err(|e| gpt_err(&e)));
            return self.write_result(ctx, WriteArgs { di, lb, before, last_lba, size_before, writable, ro, m, geo: o.geo, cfg: o.cfg, gone, oi: None }, r);
        } else {
            let o = &mut self.objs[oi];
            ctx.call(&sh, || on!(&mut o.d, d => d.write_inplace()).map_err(|e| gpt_err(&e)))
        };
        let (geo, cfg) = (self.objs[oi].geo.clone(), self.objs[oi].cfg.clone());
        self.write_result(ctx, WriteArgs { di, lb, before, last_lba, size_before, writable, ro, m, geo, cfg, gone, oi: Some(oi) }, r)
    }

    fn write_result(&mut self, ctx: &mut Ctx, a: WriteArgs, r: Res<()>) -> WriteEnd {
        let WriteArgs { di, lb, before, last_lba, size_before, writable, ro, m, geo, cfg, gone, oi } = a;
        let (errs, failed, crashed, changes, resized) = self.with_disk(di, |d| {
            let x = (d.errs_fired, d.failed_ops, d.crashed, d.changes(), d.resized || d.size != size_before);
            d.stop_journal();
            let crashed = d.crashed;
            let p = d.plan.clone();
            d.calm();
            if crashed {
                d.plan = p;
            }
            x
        });
        ctx.log(|| format!("write disk{di} {} -> {r:?}", if gone { "(consuming)" } else { "" }));
        ctx.steps += 1;
        // the geometry that is written: the usable area can only grow into a bigger device
        let mut wgeo = geo.clone();
        if !ro {
            wgeo.bak = wgeo.bak.max(last_lba);
        }
        // what may have changed
        let mut allowed = vec![];
        if writable {
            allowed = table_regions(&wgeo, lb, !ro);
        }
        if let Some(at) = stray(&changes, &allowed) {
            if !writable {
                ctx.fail("W02", "write on a disk that is not writable", || format!("byte {at} changed"));
            }
            let blk = at / lb;
            let m = format!("byte {at} (block {blk}) changed, allowed {allowed:?} with {wgeo:?}");
            if ro && writable {
                let reg = table_regions(&wgeo, lb, true);
                if at >= reg[2].0 && at < reg[2].1 {
                    ctx.fail("W03", "read-only backup changed", || m.clone());
                }
            }
            ctx.fail("W01", "bytes outside of the table changed", || m);
        }
        // the backup of a read-only configuration wherever it is on the disk
        if ro && writable {
            let a = geo.blocks(lb);
            let reg = [
                ((last_lba.saturating_sub(a)) * lb, (last_lba + 1) * lb),
                ((geo.bak.saturating_sub(a)) * lb, (geo.bak + 1) * lb),
            ];
            for (s, old, new) in &changes {
                for i in 0..512usize {
                    let at = s * SEC + i as u64;
                    if old[i] != new[i] && reg.iter().any(|r| at >= r.0 && at < r.1) {
                        ctx.fail("W03", "read-only backup changed", || format!("byte {at} changed"));
                    }
                }
                if ctx.viol.len() > 20 {
                    break;
                }
            }
        }
        if resized {
            ctx.fail("H01", "table reaches past the device", || "the size of the device changed".into());
            ctx.fail("W01", "device resized by a write", || "the size of the device changed".into());
            ctx.fail("P01", "file resized", || "the size of the file changed during a table write".into());
        }
        if writable {
            self.disks[di].history.push(m.clone());
            if ro {
                self.disks[di].ro_used = true;
            }
        }
        let after = oi.map(|i| self.objs[i].d.mem());
        if let (Some(af), Some(i)) = (&after, oi) {
            if af.table != before.table {
                let d = before.diff(af);
                ctx.fail(if r.is_ok() { "T01" } else { "E03" }, "write changed the table in memory", || d.clone());
                if r.is_ok() {
                    ctx.fail("E03", "write changed the table in memory", || d.clone());
                }
                if af.table.guid != before.table.guid {
                    ctx.fail("U01", "disk guid changed by a write", || d);
                }
            }
            if writable {
                self.common_checks(ctx, i, "write", &before);
            } else if *af != before {
                ctx.fail("W02", "refused write changed the object", || before.diff(af));
            }
            let i2 = i;
            self.objs[i2].last = Some(af.clone());
        }
        match &r {
            Ok(()) => {
                if !writable {
                    ctx.fail("W02", "write reported success on a disk that is not writable", || String::new());
                }
                if failed > 0 {
                    ctx.fail("E01", "success although an operation failed", || {
                        format!("{errs} injected errors, {failed} failed operations")
                    });
                }
                if writable {
                    let rec = &mut self.disks[di];
                    rec.acked = Some(m.clone());
                    rec.maybe.clear();
                    rec.in_step = !ro;
                    if let Some(i) = oi {
                        self.objs[i].geo = match self.objs[i].d.header() {
                            Ok(h) => Geo::of(&h),
                            Err(_) => wgeo.clone(),
                        };
                    }
                    self.after_success(ctx, di, &m, &wgeo, &cfg, after.as_ref());
                    if ctx.focus == "T03" {
                        self.rewrite(ctx, oi, di, &cfg);
                    }
                }
            }
            Err(e) => {
                if !writable {
                    if *e != E::ReadOnly {
                        ctx.fail("W02", "refused for the wrong reason", || format!("{e:?}"));
                    }
                } else {
                    let rec = &mut self.disks[di];
                    rec.maybe.push(m.clone());
                    rec.in_step = false;
                    if ro {
                        // the only copy that may be written might be damaged now
                        rec.acked = None;
                        rec.maybe.clear();
                    }
                    // the layout may already be the new one
                    if let Some(i) = oi {
                        if let Ok(h) = self.objs[i].d.header() {
                            let g = Geo::of(&h);
                            let a = geo.blocks(lb);
                            let mut new = geo.clone();
                            new.bak = wgeo.bak;
                            new.lu = new.lu.max(wgeo.bak.saturating_sub(a + 1));
                            new.fu = new.fu.max(new.ps + a);
                            // not over a backup that stays where it is
                            let mut kept = new.clone();
                            if ro {
                                kept.lu = kept.lu.min(geo.lu);
                            }
                            if g != geo && g != new && g != kept {
                                ctx.fail("E03", "layout in memory changed by a failed write", || {
                                    format!("{geo:?} -> {g:?}")
                                });
                            }
                            self.objs[i].geo = g;
                        }
                    }
                    if failed == 0 {
                        ctx.fail("E01", "write failed without a cause", || format!("{e:?}"));
                        ctx.fail("N01", "accepted table can not be written", || format!("{e:?}"));
                    } else if errs == 0 && !crashed && wgeo.bak <= last_lba {
                        // nothing was injected, so the library asked for what the device does not have
                        ctx.fail("E01", "write failed on a working device", || format!("{e:?}"));
                        ctx.fail("N01", "accepted table can not be written", || format!("{e:?}"));
                        ctx.fail("H01", "table reaches past the device", || format!("{e:?}"));
                    } else if e.fatal() {
                        ctx.fail("E01", "write crashed instead of reporting an error", || format!("{e:?}"));
                        ctx.fail("E03", "object not usable after an error", || format!("{e:?}"));
                    }
                }
            }
        }
        WriteEnd { ok: r.is_ok(), crashed, gone, fatal: matches!(&r, Err(e) if e.fatal()) }
    }

    /// Writing a table again without a change, by the same object or by one that was opened since.
    fn rewrite(&mut self, ctx: &mut Ctx, oi: Option<usize>, di: usize, cfg: &Cfg) {
        let fork = self.with_disk(di, |d| d.fork());
        // a name that ends inside of a surrogate pair or has a NUL in it is not read as it was stored
        let plain = |e: &[u8]| {
            let u: Vec<u16> = e[56..128].chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            let end = u.iter().position(|c| *c == 0).unwrap_or(36);
            String::from_utf16(&u[..end]).is_ok() && u[end..].iter().all(|c| *c == 0)
        };
        let lossless = ondisk::primary(&fork, cfg.lb).map_or(false, |c| c.array.chunks_exact(128).all(plain));
        let state = getrandom::sim_state();
        let sh = fork.shared();
        {
            let mut d = lock(&sh);
            d.op_budget = op_budget(d.size).saturating_mul(8);
            d.start_journal();
        }
        let again = ctx.src.choose(3);
        let mut objs: Vec<(&str, gpt::GptDisk<Dev>)> = vec![];
        if let (Some(i), true) = (oi, again != 1) {
            objs.push(("the same object", self.objs[i].d.on_device(Dev::new(&sh), true)));
        }
        if again > 0 && lossless {
            let c = Cfg { strict: cfg.strict && !cfg.ro_backup, ..cfg.clone() };
            match open_dev(&c, Dev::new(&sh)) {
                Ok(AnyDisk::D(d)) => objs.push(("a reopened object", d)),
                Ok(_) => {}
                Err(e) => ctx.fail("T03", "could not be opened", || format!("{e:?}")),
            }
        }
        for (who, d) in &mut objs {
            for _ in 0..1 + again {
                let r = guarded(|| d.write_inplace().map_err(|e| gpt_err(&e)));
                if let Err(e) = &r {
                    ctx.fail("T03", "an unchanged table could not be written again", || format!("{who}: {e:?}"));
                }
                let changes = lock(&sh).changes();
                if let Some(c) = changes.first() {
                    ctx.fail("T03", "writing an unchanged table changed the disk", || {
                        let at = c.1.iter().zip(&c.2).position(|(a, b)| a != b).unwrap_or(0);
                        format!("{who}: {} sectors, first {} (of {}) from byte {at}", changes.len(), c.0, lock(&sh).size / 512)
                    });
                }
                if lock(&sh).resized {
                    ctx.fail("T03", "writing an unchanged table changed the size of the disk", || who.to_string());
                }
            }
            ctx.probe("written again without a change");
        }
        getrandom::sim_seed(state);
    }

    /// What has to be on the disk after a successful write.
    pub fn after_success(&mut self, ctx: &mut Ctx, di: usize, m: &Table, geo: &Geo, cfg: &Cfg, mem: Option<&Mem>) {
        let lb = cfg.lb;
        let fork = self.with_disk(di, |d| d.fork());
        ctx.probe(if cfg.ro_backup { "written with a read-only backup" } else { "written" });
        let grown_ro = cfg.ro_backup && geo.bak != ondisk::last_lba(&fork, lb);
        // the specification
        if !cfg.ro_backup {
            if let Err(e) = ondisk::conformant(&fork, lb) {
                ctx.fail("H01", "written table does not conform", || e);
            }
        } else if !grown_ro {
            if let Err(e) = ondisk::conformance(&fork, lb, true) {
                ctx.fail("H01", "written table does not conform", || e);
            }
        }
        // both copies, by the independent reader
        let p = ondisk::primary(&fork, lb);
        let b = ondisk::backup(&fork, lb);
        let on_disk = p.as_ref().filter(|c| c.array_ok).map(|c| c.table());
        let stored = as_stored(ctx, m, on_disk.as_ref());
        self.disks[di].acked = Some(stored.clone());
        let mut copies = vec![("primary", &p)];
        if !cfg.ro_backup {
            copies.push(("backup", &b));
        }
        for (which, c) in copies {
            match c {
                Some(c) if c.array_ok => {
                    let t = c.table();
                    if !t.same_content(m) {
                        let msg = format!("{which}: {} instead of {}", t.brief(), m.brief());
                        ctx.fail("C02", "a copy holds another table", || msg.clone());
                        ctx.fail("T01", "a copy holds another table", || msg.clone());
                        if t.guid != m.guid {
                            ctx.fail("U01", "wrong disk guid stored", || msg.clone());
                        }
                        if t.used().iter().zip(m.used()).any(|(a, b)| a.guid != b.guid) {
                            ctx.fail("U01", "wrong partition guid stored", || msg.clone());
                        }
                        ctx.fail("E01", "success although not everything was stored", || msg);
                    }
                    if c.hdr.num_parts != geo.num_parts {
                        ctx.fail("N01", "stored entry count differs", || {
                            format!("{which}: {} instead of {}", c.hdr.num_parts, geo.num_parts)
                        });
                    }
                }
                _ => {
                    let v = if c.is_some() { "entry array" } else { "header" };
                    ctx.fail("C02", "a copy is not valid after a write", || format!("{which} {v}"));
                    ctx.fail("E01", "success although not everything was stored", || format!("{which} {v}"));
                    if which == "primary" {
                        ctx.fail("W03", "primary not written completely", || v.into());
                    }
                }
            }
        }
        // the usable area is the one of before, it may only reach up to the backup where it ended earlier
        if let Some(c) = p.as_ref().filter(|c| c.array_ok) {
            let a = geo.blocks(lb);
            let far = geo.lu.max(geo.bak.saturating_sub(a + 1));
            let h = &c.hdr;
            if h.first_usable != geo.fu || (h.last_usable != geo.lu && (cfg.ro_backup || h.last_usable != far)) {
                ctx.fail("T01", "usable area changed by a write", || {
                    format!("{}-{} became {}-{}", geo.fu, geo.lu, h.first_usable, h.last_usable)
                });
            }
        }
        // stable storage
        let mut lost = self.with_disk(di, |d| d.not_durable());
        // what an earlier failed attempt left elsewhere is not part of the table
        let mut parts = vec![];
        for c in [&p, &b].into_iter().flatten() {
            let h = &c.hdr;
            let len = (h.num_parts as u64).saturating_mul(h.part_size as u64).div_ceil(512);
            parts.push((h.my_lba * lb / 512, lb / 512));
            parts.push((h.part_start.saturating_mul(lb) / 512, len));
        }
        lost.retain(|s| parts.iter().any(|(a, n)| s >= a && *s < a.saturating_add(*n)));
        if let Some(s) = lost.first() {
            let s = *s;
            ctx.fail("D01", "success before the data was stored", || {
                format!("{} sectors not on stable storage, first {s}", lost.len())
            });
            let durable = self.with_disk(di, |d| d.fork_durable());
            if let Ok(x) = open_fork(&Cfg::plain(lb), durable) {
                let t = x.table();
                if !t.same_content(m) {
                    ctx.fail("C01", "acknowledged table can be lost", || t.brief());
                }
            }
        }
        // the library's own view
        let strict = !cfg.ro_backup && ctx.src.chance(1, 2);
        let mut c = Cfg::plain(lb);
        c.strict = strict;
        match open_fork(&c, fork.clone()) {
            Ok(d) => {
                let t = d.table();
                check_reopened(ctx, &stored, &t, "T01");
                check_types(ctx, &d);
                check_numbers(ctx, &d);
                if let (Ok(h), Some(mem)) = (d.header(), mem) {
                    let w = mem.primary.as_ref().or(mem.backup.as_ref());
                    if let Ok(w) = w {
                        if (h.first_usable, h.last_usable, h.num_parts) != (w.first_usable, w.last_usable, w.num_parts) {
                            let msg = format!(
                                "{}-{} with {} entries became {}-{} with {}",
                                w.first_usable, w.last_usable, w.num_parts, h.first_usable, h.last_usable, h.num_parts
                            );
                            if h.num_parts != w.num_parts {
                                ctx.fail("N01", "entry count changed by write and reopen", || msg.clone());
                            }
                            ctx.fail("T01", "usable area changed by write and reopen", || msg);
                        }
                    }
                    // the headers the object holds are the ones that were stored
                    let now = d.mem();
                    let mut pairs = vec![("primary", &mem.primary, &now.primary)];
                    if !cfg.ro_backup {
                        pairs.push(("backup", &mem.backup, &now.backup));
                    }
                    for (which, w, f) in pairs {
                        if w.is_err() || f.as_ref().ok() != w.as_ref().ok() {
                            ctx.fail("T01", "the header in memory is not the one that was stored", || {
                                format!("{which}: {f:?} instead of {w:?}")
                            });
                        }
                    }
                }
            }
            Err(e) => {
                if strict {
                    ctx.fail("C02", "strict open failed after a write", || format!("{e:?}"));
                }
                ctx.fail("T01", "open failed after a write", || format!("{e:?}"));
                if cfg.ro_backup {
                    ctx.fail("W03", "primary not written completely", || format!("{e:?}"));
                }
            }
        }
        // each copy alone
        if !cfg.ro_backup && ctx.src.chance(1, 3) {
            let kill_primary = ctx.src.chance(1, 2);
            let mut f2 = fork;
            let at = if kill_primary { 1 } else { ondisk::last_lba(&f2, lb) };
            f2.poke(at * lb, &[0u8; 92]);
            match open_fork(&Cfg::plain(lb), f2) {
                Ok(d) => {
                    let t = d.table();
                    if !t.same_content(m) {
                        ctx.fail("C02", "one copy alone gives another table", || t.brief());
                    }
                }
                Err(e) => ctx.fail("C02", "one copy alone does not suffice", || {
                    format!("{} destroyed: {e:?}", if kill_primary { "primary" } else { "backup" })
                }),
            }
        }
    }

    /// Loss of power on a disk, objects on it are gone.
    pub fn power_loss(&mut self, ctx: &mut Ctx, di: usize) {
        self.objs.retain(|o| o.disk != di);
        let sh = self.disks[di].sh.clone();
        lock(&sh).power_loss(&mut ctx.src);
        ctx.drain_logs();
    }

    /// Opens after a loss of power and checks that the old or a new table is found. The found
    /// table becomes the known one.
    pub fn reopen_after_crash(&mut self, ctx: &mut Ctx, di: usize, prop: &'static str) -> Option<Table> {
        let cfg = Cfg::plain(self.disks[di].lb);
        let r = self.raw_open(ctx, di, &cfg);
        let rec = &mut self.disks[di];
        match r {
            Ok(d) => {
                let t = d.table();
                drop(d);
                ctx.log(|| format!("reopened disk{di}: {}", t.brief()));
                if let Some(a) = &rec.acked {
                    if !t.same_content(a) && !rec.maybe.iter().any(|m| m.same_content(&t)) {
                        let msg = format!(
                            "found {} instead of {} or {}",
                            t.brief(),
                            a.brief(),
                            rec.maybe.last().map(|m| m.brief()).unwrap_or_default()
                        );
                        ctx.fail(prop, "neither the old nor a new table", || msg);
                    }
                    // the first one that was found stays
                    rec.acked = Some(t.clone());
                    rec.maybe.clear();
                }
                Some(t)
            }
            Err(e) => {
                if rec.acked.is_some() {
                    let m = format!("{e:?}; expected {}", rec.acked.as_ref().unwrap().brief());
                    ctx.fail(prop, "no table found", || m);
                } else if e.fatal() {
                    ctx.fail("O01", "open failed", || format!("{e:?}"));
                }
                None
            }
        }
    }
}

struct WriteArgs {
    di: usize,
    lb: u64,
    before: Mem,
    last_lba: u64,
    size_before: u64,
    writable: bool,
    ro: bool,
    m: Table,
    geo: Geo,
    cfg: Cfg,
    gone: bool,
    oi: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct WriteEnd {
    pub ok: bool,
    pub crashed: bool,
    pub gone: bool,
    pub fatal: bool,
}

pub const F_RENUMBER: &str = "T02-compaction";

/// Compares a table in memory with what a reopen found.
pub fn check_reopened(ctx: &mut Ctx, m: &Table, t: &Table, prop: &'static str) {
    if !t.same_content(m) {
        let msg = format!("found {} instead of {}", t.brief(), m.brief());
        ctx.fail(prop, "another table was found", || msg.clone());
        if t.guid != m.guid {
            ctx.fail("U01", "disk guid changed by write and reopen", || msg.clone());
        }
        if t.used().iter().zip(m.used()).any(|(a, b)| a.guid != b.guid) {
            ctx.fail("U01", "partition guid changed by write and reopen", || msg);
        }
    }
    // numbers
    check_order(ctx, m, t);
    if ids(t) != ids(m) {
        let (a, b) = (ids(m), ids(t));
        ctx.fail("T02", "numbers changed", || format!("{:?} became {:?}", &a[..a.len().min(12)], &b[..b.len().min(12)]));
    } else if t.same_content(m) {
        // the entries have to be under the same numbers, not only the same set of numbers
        for id in ids(m) {
            if t.ents[&id].guid != m.ents[&id].guid {
                ctx.fail("T02", "entries swapped numbers", || format!("{id}"));
            }
        }
    }
}

/// The same entries, but not in the order of their numbers: they exchanged their numbers.
fn check_order(ctx: &mut Ctx, m: &Table, t: &Table) {
    let (mut a, mut b) = (m.used(), t.used());
    if a == b || a.len() != b.len() {
        return;
    }
    let key = |e: &Ent| (e.guid, e.first, e.last, e.flags, e.ty, e.name.clone());
    a.sort_by_key(key);
    b.sort_by_key(key);
    if a == b {
        ctx.fail("T02", "entries swapped numbers", || format!("found {} instead of {}", t.brief(), m.brief()));
    }
}

fn ids(t: &Table) -> Vec<u32> {
    t.ents.iter().filter(|e| e.1.used()).map(|e| *e.0).collect()
}

/// Entries numbered by rank, the form in which the library stores them (a listed finding).
pub fn compacted(m: &Table) -> Table {
    let ents = m.ents.values().filter(|e| e.used()).enumerate().map(|(i, e)| (i as u32 + 1, e.normal())).collect();
    Table { guid: m.guid, ents }
}

/// What a written table has to be found as, given what is on the disk. Numbers that were
/// compacted are the listed finding, anything else is not.
pub fn as_stored(ctx: &mut Ctx, m: &Table, disk: Option<&Table>) -> Table {
    let keep = || Table {
        guid: m.guid,
        ents: m.ents.iter().filter(|e| e.1.used()).map(|(i, e)| (*i, e.normal())).collect(),
    };
    let Some(d) = disk else { return keep() };
    check_order(ctx, m, d);
    if ids(d) == ids(m) {
        return keep();
    }
    let c = compacted(m);
    if ctx.known.contains(F_RENUMBER) && ids(d) == ids(&c) {
        *ctx.known_hit.entry(F_RENUMBER).or_insert(0) += 1;
        return c;
    }
    let (a, b) = (ids(m), ids(d));
    ctx.fail("T02", "numbers changed", || format!("{:?} were stored as {:?}", &a[..a.len().min(12)], &b[..b.len().min(12)]));
    keep()
}

/// Known type GUIDs come back as the known type.
pub fn check_types(ctx: &mut Ctx, d: &AnyDisk) {
    let bad = on!(d, d => d.partitions().iter().find_map(|(id, p)| {
        let want = types::system(&p.part_type_guid.guid);
        if p.part_type_guid.os != want { Some((*id, want, p.part_type_guid.clone())) } else { None }
    }));
    if let Some((id, want, got)) = bad {
        ctx.fail("T01", "type changed", || format!("entry {id}: {got:?} belongs to {want:?}"));
        ctx.fail("X01", "type not resolved", || format!("entry {id}: {got:?} belongs to {want:?}"));
    }
}

/// The lengths of the entries and the alignment, for whatever is in them.
pub fn check_numbers(ctx: &mut Ctx, d: &AnyDisk) {
    ctx.probe("numbers reported");
    let got = guarded(|| {
        Ok(on!(d, d => {
            let mut bad = None;
            for (id, p) in d.partitions() {
                let len = (p.last_lba as u128 + 1).checked_sub(p.first_lba as u128).filter(|_| p.last_lba >= p.first_lba);
                let fits = |x: Option<u128>| x.and_then(|x| u64::try_from(x).ok());
                let lens = (fits(len), p.sectors_len().ok());
                if lens.0 != lens.1 {
                    bad = Some(format!("{}-{} of entry {id} has {:?} blocks", p.first_lba, p.last_lba, lens.1));
                }
                for lb in [512u128, 4096] {
                    let l = lbs(lb as u64);
                    let bytes = (fits(fits(len).map(|x| x as u128 * lb)), p.bytes_len(l).ok());
                    let start = (fits(Some(p.first_lba as u128 * lb)), p.bytes_start(l).ok());
                    if bytes.0 != bytes.1 || start.0 != start.1 {
                        bad = Some(format!(
                            "{}-{} of entry {id}, blocks of {lb}: {:?} bytes from {:?}", p.first_lba, p.last_lba, bytes.1, start.1
                        ));
                    }
                }
            }
            let starts: Vec<u64> = d.partitions().values().filter(|p| p.is_used()).map(|p| p.first_lba).collect();
            (bad, d.calculate_alignment(), starts, d.partitions().is_empty())
        }))
    });
    match got {
        Ok((bad, align, starts, empty)) => {
            if let Some(m) = bad {
                ctx.fail("X02", "wrong length or position", || m);
            }
            let zeros = starts.iter().map(|s| if *s == 0 { 64 } else { s.trailing_zeros() }).min();
            // a table that lists only unused entries is as good as empty
            let ok = match zeros {
                Some(z) => align == 1u64 << z.min(11),
                None => align == 0 || (!empty && align == 2048),
            };
            if !ok {
                ctx.fail("X03", "wrong alignment", || format!("{align} for partitions that start at {:?}", &starts[..starts.len().min(8)]));
            }
        }
        Err(e) => {
            for p in ["X02", "X03", "O01"] {
                ctx.fail(p, "reporting numbers failed", || format!("{e:?}"));
            }
        }
    }
}
