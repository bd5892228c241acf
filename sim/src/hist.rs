//! Random histories over one disk: edits, writes, reopens, crashes, damage, growth and boot-sector
//! operations, with the weights of the property that is checked.

use crate::choice::mix;
use crate::env::*;
use crate::model::*;
use crate::ondisk;
use crate::scen;
use crate::sim::*;
use crate::world::*;
use std::io::{Seek, SeekFrom};

#[derive(Clone)]
pub struct Profile {
    /// percent of the runs on a file path
    pub file: u64,
    /// percent of the runs that start from a table of another program
    pub foreign: u64,
    pub cfg: CfgWeights,
    pub steps: u64,
    pub max_parts: u64,
    pub w: Weights,
    /// none, noise, errors
    pub edit_faults: [u64; 3],
    /// none, noise, errors, crash
    pub write_faults: [u64; 4],
    /// percent of the successful writes after which power is lost
    pub loss_after_write: u64,
    /// percent: only small sizes of disks
    pub tight: u64,
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub add_size: u64,
    pub add_at: u64,
    pub remove: u64,
    pub guid: u64,
    pub take: u64,
    pub replace: u64,
    pub write: u64,
    pub consume: u64,
    pub reopen: u64,
    pub power: u64,
    pub grow: u64,
    pub damage: u64,
    pub mbr: u64,
    pub seek: u64,
    pub recreate: u64,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            file: 25,
            foreign: 45,
            cfg: CfgWeights::default(),
            steps: 14,
            max_parts: 8,
            w: Weights {
                add_size: 6,
                add_at: 4,
                remove: 3,
                guid: 1,
                take: 1,
                replace: 2,
                write: 6,
                consume: 1,
                reopen: 2,
                power: 1,
                grow: 1,
                damage: 1,
                mbr: 1,
                seek: 1,
                recreate: 0,
            },
            edit_faults: [6, 2, 1],
            write_faults: [6, 2, 1, 1],
            loss_after_write: 10,
            tight: 0,
        }
    }
}

pub fn gen_cfg2(ctx: &mut Ctx, lb: u64, p: &Profile) -> Cfg {
    gen_cfg(&mut ctx.src, lb, &p.cfg)
}

/// A disk with a block size, maybe behind a path.
pub fn new_disk(ctx: &mut Ctx, w: &mut World, p: &Profile) -> usize {
    let lb = if ctx.src.chance(1, 3) { 4096 } else { 512 };
    let arr = ondisk::Layout::array_blocks(128, lb);
    let size = if ctx.src.chance(p.tight, 100) {
        (3 + 2 * arr + 1 + ctx.src.choose(30)) * lb
    } else {
        gen_size(&mut ctx.src, lb, arr)
    };
    let fill = if ctx.src.chance(1, 2) { ctx.src.bits() | 1 } else { 0 };
    let file = ctx.src.chance(p.file, 100);
    let mut d = Disk::new(size, fill);
    d.growable = file;
    ctx.log(|| format!("disk of {size} bytes, {lb} byte blocks, {}", if file { "image file" } else { "device" }));
    w.add_disk(ctx, d, lb, file)
}

/// A disk object on a new disk, either created or opened from a table of somebody else.
pub fn origin(ctx: &mut Ctx, w: &mut World, di: usize, p: &Profile) {
    let lb = w.disks[di].lb;
    let cfg = gen_cfg2(ctx, lb, p);
    if ctx.src.chance(p.foreign, 100) {
        w.put_foreign(ctx, di, p.max_parts);
        w.open(ctx, di, &cfg);
    } else {
        let mut c = cfg;
        if !ctx.src.chance(1, 8) {
            c.writable = true;
        }
        w.create(ctx, di, &c);
    }
}

pub fn history(ctx: &mut Ctx, p: &Profile) -> World {
    let mut w = World::new();
    let di = new_disk(ctx, &mut w, p);
    origin(ctx, &mut w, di, p);
    let steps = 2 + ctx.src.small(p.steps);
    for _ in 0..steps {
        if ctx.done() {
            break;
        }
        ctx.src.begin();
        step(ctx, &mut w, di, p);
        ctx.src.end();
    }
    w
}

/// A change that is interrupted and taken back, in part or with another one, until that is
/// interrupted as well. What the disk holds then resembles the table of the beginning.
pub fn undo(ctx: &mut Ctx, p: &Profile) -> World {
    let mut w = World::new();
    let di = new_disk(ctx, &mut w, p);
    let p = Profile { foreign: 0, ..p.clone() };
    origin(ctx, &mut w, di, &p);
    for k in 0..1 + ctx.src.choose(6) {
        let Some(oi) = w.objs.iter().position(|o| o.disk == di) else { break };
        ctx.src.begin();
        if k % 3 == 2 {
            w.add_at(ctx, oi, Faults::None);
        } else {
            w.add_by_size(ctx, oi, Faults::None);
        }
        ctx.src.end();
    }
    let Some(oi) = w.objs.iter().position(|o| o.disk == di) else { return w };
    if ctx.done() {
        return w;
    }
    write_step(ctx, &mut w, di, oi, Faults::None, false, &p);
    for _ in 0..1 + ctx.src.choose(3) {
        let Some(first) = w.disks[di].history.last().map(|t| t.ents.clone()) else { break };
        for back in [false, true] {
            let Some(oi) = w.objs.iter().position(|o| o.disk == di) else { return w };
            if ctx.done() {
                return w;
            }
            ctx.src.begin();
            let mut new = if back { first.clone() } else { w.objs[oi].m.ents.clone() };
            let ids: Vec<u32> = new.keys().copied().collect();
            let what = if ids.is_empty() { 3 } else { ctx.src.choose(5) };
            match what {
                0 => {
                    new.remove(ctx.src.pick(&ids));
                }
                1 => {
                    new.remove(ids.last().unwrap());
                }
                2 => {
                    let id = *ctx.src.pick(&ids);
                    new.get_mut(&id).unwrap().flags ^= 1 << ctx.src.choose(64);
                }
                _ => {}
            }
            w.replace_with(ctx, oi, new, Faults::None);
            if ctx.done() {
                return w;
            }
            match what {
                3 => w.add_by_size(ctx, oi, Faults::None),
                4 => w.update_guid(ctx, oi),
                _ => {}
            }
            if ctx.done() {
                return w;
            }
            let f = if back { Faults::CrashIn(0, 5) } else { Faults::CrashIn(4, 8) };
            write_step(ctx, &mut w, di, oi, f, false, &p);
            ctx.src.end();
        }
    }
    w
}

/// What becomes of data that a failed write left behind when nobody works with the disk.
pub fn settle(ctx: &mut Ctx, w: &mut World, di: usize) {
    let dirty = w.with_disk(di, |d| d.unsynced());
    if dirty == 0 {
        return;
    }
    if ctx.src.chance(1, 2) {
        w.power_loss(ctx, di);
    } else {
        w.with_disk(di, |d| {
            d.drop_ghost();
            d.sync_everything();
        });
    }
}

/// Drops the objects and opens the disk again.
pub fn reopen(ctx: &mut Ctx, w: &mut World, di: usize, p: &Profile) {
    w.objs.retain(|o| o.disk != di);
    settle(ctx, w, di);
    let lb = w.disks[di].lb;
    let mut cfg = gen_cfg2(ctx, lb, p);
    if w.open(ctx, di, &cfg).is_none() && cfg.strict && !ctx.done() {
        cfg.strict = false;
        w.open(ctx, di, &cfg);
    }
    if w.objs.iter().all(|o| o.disk != di) {
        // nothing that could be opened is left
        ctx.stop = true;
    }
}

pub fn edit_faults(ctx: &mut Ctx, p: &Profile) -> Faults {
    [Faults::None, Faults::Noise, Faults::Errors][ctx.src.choose_weighted(&p.edit_faults)]
}

pub fn write_faults(ctx: &mut Ctx, p: &Profile) -> Faults {
    [Faults::None, Faults::Noise, Faults::Errors, Faults::Crash][ctx.src.choose_weighted(&p.write_faults)]
}

pub fn step(ctx: &mut Ctx, w: &mut World, di: usize, p: &Profile) {
    let Some(oi) = w.objs.iter().position(|o| o.disk == di) else {
        return reopen(ctx, w, di, p);
    };
    let x = &p.w;
    let a = ctx.src.choose_weighted(&[
        x.add_size, x.add_at, x.remove, x.guid, x.take, x.replace, x.write, x.consume, x.reopen, x.power, x.grow,
        x.damage, x.mbr, x.seek, x.recreate,
    ]);
    match a {
        0 | 1 => {
            let f = edit_faults(ctx, p);
            if a == 0 {
                w.add_by_size(ctx, oi, f);
            } else {
                w.add_at(ctx, oi, f);
            }
            if !ctx.done() && ctx.src.chance(1, 2) {
                w.check_free(ctx, oi);
            }
        }
        2 => {
            w.remove(ctx, oi);
            w.check_free(ctx, oi);
        }
        3 => w.update_guid(ctx, oi),
        4 => w.take(ctx, oi),
        5 => {
            let f = edit_faults(ctx, p);
            w.replace(ctx, oi, f);
            if !ctx.done() {
                w.check_free(ctx, oi);
            }
        }
        6 | 7 => {
            let f = write_faults(ctx, p);
            write_step(ctx, w, di, oi, f, a == 7, p);
        }
        8 => reopen(ctx, w, di, p),
        9 => {
            ctx.log(|| "power loss between operations".into());
            let ghost = w.with_disk(di, |d| d.unsynced()) > 0;
            w.power_loss(ctx, di);
            if !ghost || w.disks[di].acked.is_some() {
                w.reopen_after_crash(ctx, di, "D01");
            }
            if !ctx.done() {
                reopen(ctx, w, di, p);
            }
        }
        10 => grow(ctx, w, di),
        11 => damage(ctx, w, di, p),
        12 => mbr_step(ctx, w, di, oi),
        13 if ctx.src.chance(1, 3) => new_handle(ctx, w, di, oi),
        13 => {
            let to = ctx.src.choose(1 << 20);
            on!(&mut w.objs[oi].d, d => {
                let _ = d.device_mut().seek(SeekFrom::Start(to));
            });
        }
        _ => {
            // start over, as installers do
            w.objs.retain(|o| o.disk != di);
            settle(ctx, w, di);
            let lb = w.disks[di].lb;
            let mut c = gen_cfg2(ctx, lb, p);
            c.writable = true;
            if w.create(ctx, di, &c).is_none() {
                ctx.stop = true;
            }
        }
    }
}

/// A write and what follows from its end.
pub fn write_step(ctx: &mut Ctx, w: &mut World, di: usize, oi: usize, f: Faults, consuming: bool, p: &Profile) {
    let ro = w.objs[oi].cfg.ro_backup;
    let e = w.write(ctx, oi, f, consuming);
    if e.fatal {
        ctx.stop = true;
        return;
    }
    if ctx.done() {
        return;
    }
    if e.crashed {
        // the machine is off, the object is gone
        w.power_loss(ctx, di);
        if !ro {
            ctx.probe("power lost during a write");
            let found = w.reopen_after_crash(ctx, di, "C01");
            if found.is_some() {
                ctx.probe("recovered after a crash in a write");
            }
        }
        if !ctx.done() {
            reopen(ctx, w, di, p);
        }
    } else if e.ok && ctx.src.chance(p.loss_after_write, 100) {
        let writable = w.disks[di].acked.is_some();
        ctx.log(|| "power loss after an acknowledged write".into());
        w.power_loss(ctx, di);
        if writable {
            w.reopen_after_crash(ctx, di, "D01");
        }
        if !ctx.done() {
            reopen(ctx, w, di, p);
        }
    } else if e.gone {
        reopen(ctx, w, di, p);
    }
}

pub fn grow(ctx: &mut Ctx, w: &mut World, di: usize) {
    let lb = w.disks[di].lb;
    // nobody finds the backup of a disk that grew, so the primary has to be there
    let safe = w.with_disk(di, |d| d.unsynced() == 0 && ondisk::primary(d, lb).map_or(false, |c| c.array_ok));
    if !safe {
        return;
    }
    let blocks = match ctx.src.choose(3) {
        0 => 1 + ctx.src.choose(3),
        1 => 1 + ctx.src.choose(200),
        _ => 1 + ctx.src.choose(100_000),
    };
    w.with_disk(di, |d| d.size += blocks * lb);
    w.disks[di].in_step = false;
    ctx.log(|| format!("disk{di} grew by {blocks} blocks"));
    ctx.probe("device grew");
}

/// Damages one copy of a disk on which both are intact, then opens it again.
pub fn damage(ctx: &mut Ctx, w: &mut World, di: usize, p: &Profile) {
    if !w.disks[di].in_step || w.with_disk(di, |d| d.unsynced()) > 0 {
        return;
    }
    let Some(dm) = scen::damage_copy(ctx, w, di, false) else { return };
    w.disks[di].in_step = false;
    ctx.probe("one copy damaged");
    w.objs.retain(|o| o.disk != di);
    let lb = w.disks[di].lb;
    let mut cfg = gen_cfg2(ctx, lb, p);
    cfg.strict = false;
    let _ = dm;
    w.open(ctx, di, &cfg);
    if w.objs.iter().all(|o| o.disk != di) {
        ctx.stop = true;
    }
}

/// The object gets another handle of the same disk.
fn new_handle(ctx: &mut Ctx, w: &mut World, di: usize, oi: usize) {
    let sh = w.disks[di].sh.clone();
    let path = w.disks[di].path.clone();
    // maybe with other rights than the one before
    let flip = ctx.src.chance(1, 3);
    let o = &mut w.objs[oi];
    let wr = o.cfg.writable != flip;
    let before = o.d.mem();
    match (&mut o.d, path) {
        (AnyDisk::D(d), _) => {
            d.update_disk_device(Dev::new(&sh), wr);
        }
        (AnyDisk::F(d), Some(path)) => {
            let f = ctx.call(&sh, || {
                std::fs::OpenOptions::new().read(true).write(wr).open(path).map_err(|e| io_err(&e))
            });
            let Ok(f) = f else { return };
            d.update_disk_device(f, wr);
        }
        _ => return,
    }
    o.cfg.writable = wr;
    ctx.log(|| format!("disk{di} is used through another handle, writable {wr}"));
    ctx.probe("another handle");
    if o.d.mem() != before {
        let m = before.diff(&o.d.mem());
        ctx.fail("K01", "changing the device changed the table", || m);
    }
}

/// A boot-sector operation in the middle of a history.
fn mbr_step(ctx: &mut Ctx, w: &mut World, di: usize, oi: usize) {
    let writable = w.objs[oi].cfg.writable || !w.objs[oi].file;
    if !writable {
        return;
    }
    let seed = ctx.src.bits();
    let which = ctx.src.choose(4);
    w.with_disk(di, |d| d.start_journal());
    let sh = w.disks[di].sh.clone();
    let o = &mut w.objs[oi];
    let r: Res<()> = ctx.call(&sh, || {
        on!(&mut o.d, d => scen::mbr_write(d.device_mut(), which, seed).map(|_| ()))
    });
    ctx.log(|| format!("boot sector operation {which} -> {r:?}"));
    let changes = w.with_disk(di, |d| {
        let c = d.changes();
        d.stop_journal();
        c
    });
    let (a, b) = scen::mbr_range(which);
    if let Some(at) = stray(&changes, &[(a, b)]) {
        ctx.fail("M01", "bytes outside of the range changed", || format!("byte {at}, operation {which}"));
    }
    if let Err(e) = r {
        ctx.fail("M01", "failed without a cause", || format!("{e:?}"));
    } else if w.objs[oi].file {
        // flushing a file does not reach the medium
        w.with_disk(di, |d| d.sync_everything());
    }
    let _ = mix(seed, 1);
}
