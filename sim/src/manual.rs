//! Headers and entries written one by one, without a disk object.

use crate::env::*;
use crate::hist;
use crate::model::*;
use crate::ondisk::{self, Ent, Hdr, Layout};
use crate::sim::*;
use crate::world::*;
use gpt::header::{Header, HeaderBuilder};
use gpt::partition::Partition;
use uuid::Uuid;

enum Step {
    /// a header, whether `write_primary` is the right function for it, and whether it is used
    Head(Header, bool),
    /// `write_header` with a path
    PathHead(Option<Uuid>),
    /// entry, index, start, size of an entry, by path
    Entry(Ent, u64, u64, u32, bool),
    /// first index, number, start, size of an entry
    Zero(u64, u64, u64, u32),
}

fn gen_ent(src: &mut crate::choice::Src) -> Ent {
    let first = if src.chance(1, 8) { src.bits() } else { src.choose(5000) };
    Ent {
        ty: if src.chance(1, 10) { Uuid::nil() } else { gen_type(src).guid },
        guid: rand_uuid(src),
        first,
        last: first.saturating_add(src.choose(1000)),
        flags: gen_flags(src),
        name: gen_name(src, true),
    }
}

/// Where something goes: mostly to a place that exists.
fn gen_place(src: &mut crate::choice::Src, lb: u64, size: u64, growable: bool) -> (u64, u64, u32) {
    let blocks = (size / lb).max(1);
    let esize = *src.pick(&[128u32, 128, 128, 256, 512]);
    let start = match src.choose_weighted(&[6, 3, 1]) {
        0 => 2,
        1 => src.choose(blocks),
        _ if growable => 1,
        _ => match src.choose(4) {
            0 => blocks - 1 + src.choose(3),
            1 => u64::MAX / lb - src.choose(3),
            2 => src.bits(),
            _ => src.bits() >> 8,
        },
    };
    let index = match src.choose_weighted(&[6, 2, 1]) {
        0 => src.choose(130),
        1 => src.choose(6),
        _ if growable => 0,
        _ => match src.choose(4) {
            0 => u64::MAX / esize as u64 - src.choose(3),
            1 => (u64::MAX - start.wrapping_mul(lb)) / esize as u64 + src.choose(4),
            2 => src.bits(),
            _ => src.bits() >> 8,
        },
    };
    if growable {
        // a file would become longer
        let room = size.saturating_sub(start * lb) / esize as u64;
        (start, if room == 0 { 0 } else { index % room }, esize)
    } else {
        (start, index, esize)
    }
}

/// What a builder makes of its arguments, None if nothing sensible is possible.
fn judge_geometry(ctx: &mut Ctx, h: &Hdr, primary: bool, lb: u64) {
    let a = (h.num_parts as u64 * h.part_size as u64).div_ceil(lb);
    let (own, other) = if primary { (1, h.alt_lba) } else { (h.my_lba, 1) };
    let ok = if primary {
        h.my_lba == own
            && h.part_start >= 2
            && h.part_start + a <= h.first_usable
            && h.first_usable <= h.last_usable
            && h.last_usable < other
    } else {
        h.alt_lba == other
            && h.part_start > h.last_usable
            && h.part_start + a <= own
            && h.first_usable <= h.last_usable
            && h.first_usable >= 2 + a
    };
    if !ok {
        ctx.fail("G01", "built header is not sensible", || format!("{h:?}"));
    }
}

fn gen_header(ctx: &mut Ctx, lb: u64, size: u64) -> Option<(Header, bool)> {
    let src = &mut ctx.src;
    let last = size / lb - 1;
    let bak = match src.choose_weighted(&[8, 2, 1]) {
        0 => last,
        1 => src.choose(last + 1),
        _ => match src.choose(3) {
            0 => 0,
            1 => u64::MAX - src.choose(3),
            _ => src.bits(),
        },
    };
    let n = *src.pick(&[0u32, 128, 4, 132, 129, 256, 1000]);
    let guid = src.chance(2, 3).then(|| rand_uuid(src));
    let primary = src.chance(1, 2);
    let fu = src.chance(1, 4).then(|| if src.chance(1, 6) { src.bits() } else { src.choose(last + 2) });
    // a last block that leaves the array no room is the mistake of the caller
    let room = bak.saturating_sub(Layout::array_blocks(n.max(128), lb) + 1);
    let lu = src.chance(1, 3).then(|| match src.choose(5) {
        0 => bak.saturating_add(src.choose(3)),
        1 => (u64::MAX - src.choose(2)).max(bak),
        2 => src.choose(2).min(room),
        3 => room.saturating_sub(src.choose(3)),
        _ => src.choose(last + 1).min(room),
    });
    let l = lbs(lb);
    let r = guarded(|| {
        let mut b = HeaderBuilder::new();
        b.backup_lba(bak).primary(primary);
        if n > 0 {
            b.num_parts(n);
        }
        if let Some(g) = guid {
            b.disk_guid(g);
        }
        if let Some(x) = fu {
            b.first_usable(x);
        }
        if let Some(x) = lu {
            b.last_usable(x);
        }
        b.build(l).map_err(|e| hdr_err(&e))
    });
    let count = n.max(128) as u64;
    let a = Layout::array_blocks(count as u32, lb);
    // the usable area begins at `first` and ends in front of the array of the backup
    let first = (2 + a).max(fu.unwrap_or(0));
    let possible = bak.checked_sub(a + 1).map_or(false, |l| first <= l) && lu.map_or(true, |l| l < bak);
    match r {
        Ok(h) => {
            let x = hdr(&h);
            if !possible {
                ctx.fail("G01", "header for a device that has no room for it", || format!("{x:?}"));
            }
            if x.num_parts as u64 != count || guid.map_or(false, |g| g != x.guid) || x.part_size != 128 {
                ctx.fail("G01", "header is not as requested", || format!("{n} entries, {guid:?}: {x:?}"));
            }
            if x.first_usable != first || x.last_usable != bak - a - 1 {
                ctx.fail("G01", "header is not as requested", || format!("usable area from {fu:?} of {bak}: {x:?}"));
            }
            judge_geometry(ctx, &x, primary, lb);
            Some((h, primary))
        }
        Err(e) => {
            if possible || e.fatal() {
                ctx.fail("G01", "header can not be built", || format!("backup {bak}, {n} entries, first {fu:?}, last {lu:?}: {e:?}"));
            }
            None
        }
    }
}

/// The fields of a header are public.
fn bend_header(ctx: &mut Ctx, h: &mut Header, lb: u64, size: u64, growable: bool) {
    let blocks = size / lb;
    let any = |src: &mut crate::choice::Src| match src.choose(4) {
        0 => src.bits(),
        1 => u64::MAX / lb - src.choose(3),
        2 => blocks + src.choose(3) - 1,
        _ => src.choose(blocks),
    };
    let src = &mut ctx.src;
    match src.choose(8) {
        0 => h.backup_lba = h.current_lba,
        1 => h.backup_lba = any(src),
        2 => {
            h.current_lba = any(src);
            if growable {
                h.current_lba %= blocks;
            }
        }
        3 => h.part_start = any(src),
        4 => h.num_parts = src.choose(300) as u32,
        5 => h.part_size = src.choose(300) as u32,
        6 => {
            h.revision = (src.choose(3) as u16, src.choose(3) as u16);
            h.header_size_le = 92 + src.choose(100) as u32;
        }
        _ => {
            h.first_usable = any(src);
            h.last_usable = any(src);
            h.disk_guid = Uuid::nil();
        }
    }
    // checksums in memory mean nothing
    h.crc32 = src.bits() as u32;
    h.crc32_parts = src.bits() as u32;
}

/// The header block as it has to be written for the array on the device.
fn sealed(d: &Disk, h: &Hdr, lb: u64) -> Option<(Hdr, Vec<u8>)> {
    let len = h.num_parts as u64 * h.part_size as u64;
    let from = h.part_start.checked_mul(lb)?;
    if from.checked_add(len)? > d.size {
        return None;
    }
    let mut h = h.clone();
    h.crc_parts = ondisk::crc32(&d.peek(from, len as usize));
    h.seal();
    let mut b = h.encode().to_vec();
    b.resize(lb as usize, 0);
    Some((h, b))
}

pub fn g01(ctx: &mut Ctx) {
    let mut w = World::new();
    let lb = if ctx.src.chance(1, 3) { 4096u64 } else { 512 };
    let arr = Layout::array_blocks(128, lb);
    let size = match ctx.src.choose_weighted(&[6, 2, 1]) {
        0 => (3 + 2 * arr + 1 + ctx.src.choose(300)) * lb,
        1 => (3 + ctx.src.choose(2 * arr + 4)) * lb + ctx.src.choose(lb),
        _ => gen_size(&mut ctx.src, lb, arr),
    };
    let fill = if ctx.src.chance(1, 2) { ctx.src.bits() | 1 } else { 0 };
    let file = ctx.src.chance(1, 3);
    let mut d = Disk::new(size, fill);
    d.growable = file;
    ctx.log(|| format!("disk of {size} bytes, {lb} byte blocks, {}", if file { "image file" } else { "device" }));
    let di = w.add_disk(ctx, d, lb, file);
    if ctx.src.chance(1, 3) {
        assemble(ctx, &mut w, di);
    }
    for _ in 0..1 + ctx.src.small(8) {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        step(ctx, &mut w, di);
        ctx.src.end();
    }
}

fn gen_plan(ctx: &mut Ctx, ops: u64) -> Plan {
    match ctx.src.choose_weighted(&[3, 3, 3, 2]) {
        0 => Plan::default(),
        1 => gen_noise(ctx),
        2 => {
            let mut p = if ctx.src.chance(1, 3) { gen_noise(ctx) } else { Plan::default() };
            let e = gen_err(ctx, ops);
            p.errs.push(e);
            p
        }
        _ => Plan { crash_at: Some(ctx.src.choose(ops)), crash_after_store: ctx.src.chance(1, 2), ..Plan::default() },
    }
}

fn step(ctx: &mut Ctx, w: &mut World, di: usize) {
    let lb = w.disks[di].lb;
    let l = lbs(lb);
    let sh = w.disks[di].sh.clone();
    let path = w.disks[di].path.clone();
    let (size, growable) = w.with_disk(di, |d| (d.size, d.growable));
    let op = match ctx.src.choose_weighted(&[4, if path.is_some() { 2 } else { 0 }, 4, 2]) {
        0 => match gen_header(ctx, lb, size) {
            // a header outside of a file would make it longer
            Some((h, _)) if growable && h.current_lba > size / lb - 1 => return,
            Some((mut h, p)) => {
                if ctx.src.chance(1, 4) {
                    bend_header(ctx, &mut h, lb, size, growable);
                }
                // the wrong function is refused
                let p = if ctx.src.chance(1, 8) { !p } else { p };
                Step::Head(h, p)
            }
            None => return,
        },
        1 => Step::PathHead(ctx.src.chance(1, 2).then(|| rand_uuid(&mut ctx.src))),
        2 => {
            let e = gen_ent(&mut ctx.src);
            let (start, index, esize) = gen_place(&mut ctx.src, lb, size, growable);
            if path.is_some() && ctx.src.chance(1, 2) {
                if growable && start * lb + index * 128 + 128 > size {
                    return;
                }
                Step::Entry(e, index, start, 128, true)
            } else {
                if growable && start * lb + (index + 1) * esize as u64 > size {
                    return;
                }
                Step::Entry(e, index, start, esize, false)
            }
        }
        _ => {
            let (start, index, esize) = gen_place(&mut ctx.src, lb, size, growable);
            let mut n = match ctx.src.choose_weighted(&[6, 1]) {
                0 => ctx.src.choose(130),
                _ => u64::MAX / esize as u64 + 1 + ctx.src.choose(1 << 20),
            };
            if growable {
                n = n.min(130).min(size.saturating_sub(start * lb + index * esize as u64) / esize as u64);
            }
            Step::Zero(index, n, start, esize)
        }
    };
    let plan = gen_plan(ctx, 7);
    let harmless = plan.errs.is_empty() && plan.crash_at.is_none();
    // nothing is left from the step before
    let old = w.with_disk(di, |d| {
        d.sync_everything();
        d.fork()
    });
    let mut dev = Dev::at(&sh, if ctx.src.chance(1, 3) { ctx.src.choose(size + 100) } else { 0 });
    w.with_disk(di, |d| {
        d.set_plan(plan);
        d.start_journal();
    });
    // bytes to be written and where, None if the arguments can not be met
    let mut goal: Option<(u64, Vec<u8>)>;
    let place = |start: u64, index: u64, esize: u32| -> Option<u64> {
        start.checked_mul(lb)?.checked_add(index.checked_mul(esize as u64)?)
    };
    let what;
    let mut in_memory = None;
    let r: Res<()> = match op {
        Step::Head(mut h, primary) => {
            let x = hdr(&h);
            goal = sealed(&old, &x, lb).and_then(|(_, b)| Some((x.my_lba.checked_mul(lb)?, b)));
            let right = if primary { x.my_lba < x.alt_lba } else { x.my_lba > x.alt_lba };
            if !right {
                goal = None;
            }
            what = format!("{} of {x:?}", if primary { "write_primary" } else { "write_backup" });
            let r = ctx.call(&sh, || {
                if primary { h.write_primary(&mut dev, l) } else { h.write_backup(&mut dev, l) }
                    .map_err(|e| hdr_err(&e))
            });
            if let Ok(n) = r {
                if n as u64 != lb {
                    ctx.fail("G01", "wrong number of bytes reported", || format!("{what}: {n}"));
                }
                in_memory = Some(hdr(&h));
            }
            r.map(|_| ())
        }
        Step::PathHead(g) => {
            let p = path.clone().unwrap();
            what = format!("write_header({g:?})");
            let r = ctx.call(&sh, || gpt::header::write_header(p, g, l).map_err(|e| hdr_err(&e)));
            let a = Layout::array_blocks(128, lb);
            let last = (size / lb).checked_sub(1);
            goal = None;
            let id = r.as_ref().ok().copied().or(g);
            if let (Some(last), Some(id)) = (last.filter(|l| *l >= 2 * a + 3), id) {
                let h = Hdr {
                    revision: 0x10000,
                    header_size: 92,
                    crc: 0,
                    reserved: 0,
                    my_lba: 1,
                    alt_lba: last,
                    first_usable: 2 + a,
                    last_usable: last - a - 1,
                    guid: id,
                    part_start: 2,
                    num_parts: 128,
                    part_size: 128,
                    crc_parts: 0,
                };
                goal = sealed(&old, &h, lb).map(|(_, b)| (lb, b));
            }
            if let (Ok(id), None) = (&r, g) {
                if !is_fresh(id) {
                    ctx.fail("U01", "identifier not random", || format!("{what}: {id}"));
                }
            }
            if let (Ok(id), Some(g)) = (&r, g) {
                if *id != g {
                    ctx.fail("G01", "header is not as requested", || format!("{what}: {id}"));
                }
            }
            // with an identifier that nobody knows only the place can be judged
            if g.is_none() && r.is_err() && last.map_or(false, |l| l >= 2 * a + 3) {
                goal = Some((lb, vec![]));
            }
            r.map(|_| ())
        }
        Step::Entry(e, index, start, esize, by_path) => {
            goal = place(start, index, esize).map(|at| (at, e.encode(esize as usize)));
            what = format!("entry {index} of {esize} bytes from block {start}{}", if by_path { " by path" } else { "" });
            let p = part(&e);
            ctx.call(&sh, || {
                match (&path, by_path) {
                    (Some(f), true) => p.write(std::path::Path::new(f), index, start, l),
                    _ => p.write_to_device(&mut dev, index, start, l, esize),
                }
                .map_err(|e| io_err(&e))
            })
        }
        Step::Zero(index, n, start, esize) => {
            goal = place(start, index, esize)
                .filter(|_| n.checked_mul(esize as u64).is_some())
                .map(|at| (at, vec![0; (n * esize as u64) as usize]));
            what = format!("{n} unused entries of {esize} bytes, {index} from block {start}");
            ctx.call(&sh, || {
                Partition::write_zero_entries_to_device(&mut dev, index, n, start, l, esize).map_err(|e| io_err(&e))
            })
        }
    };
    ctx.log(|| format!("{what} -> {r:?}"));
    let (failed, crashed) = w.with_disk(di, |d| {
        let x = (d.failed_ops, d.crashed);
        d.calm();
        x
    });
    if crashed {
        w.power_loss(ctx, di);
        w.with_disk(di, |d| d.calm());
    } else if r.is_err() && ctx.src.chance(1, 2) {
        w.power_loss(ctx, di);
    } else {
        w.with_disk(di, |d| {
            d.drop_ghost();
            d.sync_everything();
        });
    }
    let (changes, resized) = w.with_disk(di, |d| {
        let c = (d.changes(), d.resized || d.size != size);
        d.stop_journal();
        c
    });
    if let Err(e) = &r {
        if e.fatal() {
            ctx.fail("G01", "crashed", || format!("{what}: {e:?}"));
            ctx.stop = true;
            return;
        }
    }
    if resized {
        ctx.fail("G01", "device resized", || what.clone());
    }
    let Some((at, bytes)) = goal else {
        if !changes.is_empty() {
            ctx.fail("G01", "refused but changed something", || format!("{what}: sector {}", changes[0].0));
        }
        if r.is_ok() {
            ctx.fail("G01", "impossible request reported as done", || what.clone());
        }
        return;
    };
    ctx.nontrivial = true;
    ctx.probe("step by step");
    let len = if bytes.is_empty() && matches!(r, Err(_)) && what.starts_with("write_header") { lb } else { bytes.len() as u64 };
    if let Some(x) = stray(&changes, &[(at, at.saturating_add(len))]) {
        ctx.fail("G01", "bytes outside of the place changed", || format!("{what}: byte {x}, the place is {at} to {}", at.saturating_add(len)));
    }
    let fits = bytes.is_empty() || at.checked_add(bytes.len() as u64).map_or(false, |e| e <= size);
    match &r {
        Ok(()) => {
            if failed > 0 {
                ctx.fail("G01", "success although an operation failed", || what.clone());
            }
            if !fits {
                ctx.fail("G01", "impossible request reported as done", || what.clone());
            } else if w.with_disk(di, |d| d.peek(at, bytes.len())) != bytes {
                ctx.fail("G01", "not the prescribed bytes", || what.clone());
            }
            if let Some(h) = in_memory {
                if h.encode()[..] != bytes[..92] {
                    ctx.fail("G01", "header in memory is not the one written", || format!("{what}: {h:?}"));
                }
            }
        }
        Err(e) => {
            if failed == 0 && harmless && fits && at <= size {
                ctx.fail("G01", "failed without a cause", || format!("{what}: {e:?}"));
            }
            if !bytes.is_empty() {
                let n = bytes.len().min(size.saturating_sub(at) as usize);
                let (was, now) = (old.peek(at, n), w.with_disk(di, |d| d.peek(at, n)));
                if let Some(i) = (0..n).find(|i| now[*i] != was[*i] && now[*i] != bytes[*i]) {
                    ctx.fail("G01", "byte is neither old nor new", || format!("{what}: byte {}", at + i as u64));
                }
            }
        }
    }
}

/// A whole table from single steps; it has to open as what was written.
fn assemble(ctx: &mut Ctx, w: &mut World, di: usize) {
    let lb = w.disks[di].lb;
    let l = lbs(lb);
    let sh = w.disks[di].sh.clone();
    let size = w.with_disk(di, |d| d.size);
    let bak = size / lb - 1;
    let n = *ctx.src.pick(&[128u32, 128, 128, 132, 200, 256]);
    let a = Layout::array_blocks(n, lb);
    if bak < 2 * a + 3 {
        return;
    }
    let geo = Geo { num_parts: n, fu: 2 + a, lu: bak - a - 1, bak, ps: 2 };
    let t = gen_table(&mut ctx.src, &geo, 8);
    let starts = [2, bak - a];
    let mut order: Vec<(usize, Option<u32>)> = vec![];
    for c in 0..2 {
        order.push((c, None));
        order.extend(t.ents.keys().map(|id| (c, Some(*id))));
    }
    let plan = gen_noise(ctx);
    w.with_disk(di, |d| d.set_plan(plan));
    let mut dev = Dev::new(&sh);
    let whole = ctx.src.chance(1, 2);
    for (c, what) in order {
        let r: Res<()> = match what {
            None => {
                let k = if whole { n as u64 } else { n as u64 / 2 };
                ctx.call(&sh, || {
                    Partition::write_zero_entries_to_device(&mut dev, 0, k, starts[c], l, 128)
                        .and_then(|_| Partition::write_zero_entries_to_device(&mut dev, k, n as u64 - k, starts[c], l, 128))
                        .map_err(|e| io_err(&e))
                })
            }
            Some(id) => {
                let p = part(&t.ents[&id]);
                ctx.call(&sh, || p.write_to_device(&mut dev, id as u64 - 1, starts[c], l, 128).map_err(|e| io_err(&e)))
            }
        };
        if let Err(e) = r {
            ctx.fail("G01", "failed without a cause", || format!("entries of copy {c}: {e:?}"));
            return;
        }
    }
    let backup_first = ctx.src.chance(1, 3);
    let mut changed = None;
    let r: Res<()> = ctx.call(&sh, || {
        let mut a = HeaderBuilder::new();
        a.disk_guid(t.guid).num_parts(n).backup_lba(bak).primary(!backup_first);
        let a = a.build(l).map_err(|e| hdr_err(&e))?;
        let mut b = HeaderBuilder::from_header(&a);
        let b = b.primary(backup_first).build(l).map_err(|e| hdr_err(&e))?;
        // one that is built from a header is that header
        for h in [&a, &b] {
            let again = HeaderBuilder::from_header(h).build(l).map_err(|e| hdr_err(&e))?;
            if again != *h {
                changed = Some(format!("{h:?} became {again:?}"));
            }
        }
        let (mut p, mut b) = if backup_first { (b, a) } else { (a, b) };
        p.write_primary(&mut dev, l).map_err(|e| hdr_err(&e))?;
        b.write_backup(&mut dev, l).map_err(|e| hdr_err(&e))?;
        Ok(())
    });
    w.with_disk(di, |d| {
        d.calm();
        d.sync_everything();
    });
    ctx.log(|| format!("assembled {} -> {r:?}", t.brief()));
    ctx.nontrivial = true;
    ctx.probe("assembled");
    if let Err(e) = r {
        ctx.fail("G01", "failed without a cause", || format!("headers: {e:?}"));
        return;
    }
    if let Some(m) = changed {
        ctx.fail("G01", "a header built from another one differs", || m);
    }
    if let Err(e) = w.with_disk(di, |d| ondisk::conformant(d, lb)) {
        ctx.fail("G01", "assembled table does not conform", || e);
    }
    let cfg = Cfg { strict: true, ..Cfg::plain(lb) };
    match w.raw_open(ctx, di, &cfg) {
        Ok(d) => {
            let got = d.table();
            let want = t.ents.values().filter(|e| e.used()).count();
            if got.guid != t.guid || got.ents.len() != want || !got.ents.iter().all(|(id, e)| t.ents.get(id).map(|x| x.normal()) == Some(e.clone())) {
                ctx.fail("G01", "assembled table opens as another one", || format!("{} became {}", t.brief(), got.brief()));
            }
        }
        Err(e) => ctx.fail("G01", "assembled table does not open", || format!("{e:?}")),
    }
    let _ = hist::settle;
}
