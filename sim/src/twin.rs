//! Two executions side by side that have to agree: on a disturbed and an undisturbed device (E02),
//! through a path and through a device (P01), by an object and by its copy (K01).

use crate::env::*;
use crate::hist::{self, Profile};
use crate::model::*;
use crate::ondisk::{self, Ent, Hdr, Table};
use crate::scen::{first_difference, mbr_write};
use crate::shim::{self, FileNode};
use crate::sim::*;
use crate::world::*;
use gpt::header::HeaderBuilder;
use gpt::mbr::{self, ProtectiveMBR};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Seek, SeekFrom};
use uuid::Uuid;

#[derive(Clone, Debug)]
pub enum Op {
    Open(Cfg),
    ReadDisk,
    Create(Cfg, Option<Uuid>),
    AddSize(String, u64, gpt::partition_types::Type, u64, Option<u64>),
    AddAt(String, u32, u64, u64, gpt::partition_types::Type, u64),
    Remove(u32),
    RemoveGuid(Uuid),
    Guid(Option<Uuid>),
    Take,
    Replace(BTreeMap<u32, Ent>),
    Inspect,
    Write,
    WriteConsume,
    SeekTo(u64),
    Mbr(u64, u64),
    ReadMbr(u64),
    ReadHeader,
    ReadParts,
    WriteHeader(Option<Uuid>),
    PartWrite(Ent, u64, u64),
}

/// One of the executions.
pub struct Side {
    pub sh: Shared,
    pub lb: u64,
    pub path: Option<String>,
    pub d: Option<AnyDisk>,
    /// position of the device that is used for direct operations
    pub pos: u64,
}

impl Side {
    pub fn new(sh: &Shared, lb: u64, path: Option<String>) -> Side {
        Side { sh: sh.clone(), lb, path, d: None, pos: 0 }
    }

    fn shot(&self) -> String {
        match &self.d {
            None => "-".into(),
            Some(d) => {
                let mut m = d.mem();
                // the text of an I/O error may name what the device said
                for h in [&mut m.primary, &mut m.backup] {
                    if let Err(e) = h {
                        *h = Err(coarse(e));
                    }
                }
                format!("{m:?}")
            }
        }
    }
}

fn coarse(e: &E) -> E {
    match e {
        E::Io(k, _, _) => E::Io(*k, None, String::new()),
        o => o.clone(),
    }
}

fn res<T: std::fmt::Debug>(r: &Res<T>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("{:?}", coarse(e)),
    }
}

type Parts = BTreeMap<u32, Ent>;

/// Performs an operation, the text has to be the same on both sides.
pub fn apply(ctx: &mut Ctx, s: &mut Side, op: &Op, budget: bool) -> String {
    let l = lbs(s.lb);
    let sh = s.sh.clone();
    let _ = budget;
    let path = s.path.clone();
    let mut dev = Dev::at(&sh, s.pos);
    let own = |ctx: &mut Ctx, s: &mut Side, r: Res<AnyDisk>| -> String {
        let _ = &ctx;
        match r {
            Ok(d) => {
                s.d = Some(d);
                "Ok".to_string()
            }
            Err(e) => {
                s.d = None;
                format!("{:?}", coarse(&e))
            }
        }
    };
    let head = match op {
        Op::Open(c) => {
            let g = c.gpt();
            s.d = None;
            let r = match &path {
                Some(p) => ctx.call(&sh, || g.open(p).map(AnyDisk::F).map_err(|e| gpt_err(&e))),
                None => ctx.call(&sh, || g.open_from_device(dev).map(AnyDisk::D).map_err(|e| gpt_err(&e))),
            };
            own(ctx, s, r)
        }
        Op::ReadDisk => {
            s.d = None;
            let r = match &path {
                Some(p) => ctx.call(&sh, || gpt::disk::read_disk(p).map(AnyDisk::F).map_err(|e| gpt_err(&e))),
                None => ctx.call(&sh, || {
                    gpt::GptConfig::new().open_from_device(dev).map(AnyDisk::D).map_err(|e| gpt_err(&e))
                }),
            };
            own(ctx, s, r)
        }
        Op::Create(c, g) => {
            let cfg = c.gpt();
            s.d = None;
            let r = match &path {
                Some(p) => ctx.call(&sh, || cfg.create(p).map(AnyDisk::F).map_err(|e| gpt_err(&e))),
                None => {
                    let g = *g;
                    ctx.call(&sh, || cfg.create_from_device(dev, g).map(AnyDisk::D).map_err(|e| gpt_err(&e)))
                }
            };
            own(ctx, s, r)
        }
        Op::Mbr(which, seed) => match &mut s.d {
            Some(AnyDisk::D(d)) => res(&ctx.call(&sh, || mbr_write(d.device_mut(), *which, *seed))),
            Some(AnyDisk::F(d)) => res(&ctx.call(&sh, || mbr_write(d.device_mut(), *which, *seed))),
            None => {
                let r = ctx.call(&sh, || mbr_write(&mut dev, *which, *seed));
                s.pos = dev.pos;
                res(&r)
            }
        },
        Op::ReadMbr(which) => {
            let r: Res<Vec<u8>> = ctx.call(&sh, || match which {
                0 => ProtectiveMBR::from_disk(&mut dev, l).map(|m| m.to_bytes().to_vec()).map_err(|e| mbr_err(&e)),
                1 => mbr::read_bootcode(&mut dev).map(|b| b.to_vec()).map_err(|e| io_err(&e)),
                _ => mbr::read_disk_signature(&mut dev).map(|b| b.to_vec()).map_err(|e| io_err(&e)),
            });
            if r.is_ok() {
                s.pos = dev.pos;
            }
            res(&r)
        }
        Op::ReadHeader => {
            let r: Res<Hdr> = match &path {
                Some(p) => ctx.call(&sh, || gpt::header::read_header(p, l).map(|h| hdr(&h)).map_err(|e| hdr_err(&e))),
                None => ctx.call(&sh, || {
                    gpt::header::read_header_from_arbitrary_device(&mut dev, l).map(|h| hdr(&h)).map_err(|e| hdr_err(&e))
                }),
            };
            res(&r)
        }
        Op::ReadParts => {
            let h = {
                let f = lock(&sh).fork().shared();
                gpt::header::read_header_from_arbitrary_device(&mut Dev::new(&f), l)
            };
            match h {
                Err(_) => "no header".into(),
                Ok(h) => {
                    let r: Res<Parts> = match &path {
                        Some(p) => ctx.call(&sh, || {
                            gpt::partition::read_partitions(p, &h, l).map(|p| ents(&p)).map_err(|e| io_err(&e))
                        }),
                        None => ctx.call(&sh, || {
                            gpt::partition::file_read_partitions(&mut dev, &h, l).map(|p| ents(&p)).map_err(|e| io_err(&e))
                        }),
                    };
                    res(&r)
                }
            }
        }
        Op::WriteHeader(g) => {
            let r: Res<Uuid> = match &path {
                Some(p) => ctx.call(&sh, || gpt::header::write_header(p, *g, l).map_err(|e| hdr_err(&e))),
                None => {
                    let last = {
                        let d = lock(&sh);
                        (d.size >= 3 * s.lb).then(|| ondisk::last_lba(&d, s.lb))
                    };
                    ctx.call(&sh, || {
                        let Some(last) = last else {
                            return Err(E::Header("ToSmallForBackup".into()));
                        };
                        let mut b = HeaderBuilder::new();
                        if let Some(g) = g {
                            b.disk_guid(*g);
                        }
                        let mut h = b.backup_lba(last).build(l).map_err(|e| hdr_err(&e))?;
                        h.write_primary(&mut dev, l).map_err(|e| hdr_err(&e))?;
                        Ok(h.disk_guid)
                    })
                }
            };
            res(&r)
        }
        Op::PartWrite(e, index, start) => {
            let p = part(e);
            let r: Res<()> = match &path {
                Some(f) => ctx.call(&sh, || p.write(std::path::Path::new(f), *index, *start, l).map_err(|e| io_err(&e))),
                None => ctx.call(&sh, || p.write_to_device(&mut dev, *index, *start, l, 128).map_err(|e| io_err(&e))),
            };
            res(&r)
        }
        Op::WriteConsume => match s.d.take() {
            None => "no disk".into(),
            Some(AnyDisk::F(d)) => res(&ctx.call(&sh, || d.write().map(|_| ()).map_err(|e| gpt_err(&e)))),
            Some(AnyDisk::D(d)) => res(&ctx.call(&sh, || d.write().map(|_| ()).map_err(|e| gpt_err(&e)))),
        },
        other => match &mut s.d {
            None => "no disk".into(),
            Some(a) => ctx_disk_op(ctx, &sh, a, other),
        },
    };
    format!("{head} | {}", s.shot())
}

fn ctx_disk_op(ctx: &mut Ctx, sh: &Shared, a: &mut AnyDisk, op: &Op) -> String {
    on!(a, d => match op {
        Op::AddSize(n, size, t, f, al) => {
            let t = t.clone();
            res(&ctx.call(sh, || d.add_partition(n, *size, t, *f, *al).map_err(|e| gpt_err(&e))))
        }
        Op::AddAt(n, id, first, len, t, f) => {
            let t = t.clone();
            res(&ctx.call(sh, || d.add_partition_at(n, *id, *first, *len, t, *f).map_err(|e| gpt_err(&e))))
        }
        Op::Remove(id) => res(&ctx.call(sh, || Ok(d.remove_partition(*id)))),
        Op::RemoveGuid(g) => res(&ctx.call(sh, || Ok(d.remove_partition_by_guid(*g)))),
        Op::Guid(g) => res(&ctx.call(sh, || {
            d.update_guid(*g);
            Ok(*d.guid())
        })),
        Op::Take => res(&ctx.call(sh, || Ok(ents(&d.take_partitions())))),
        Op::Replace(m) => {
            let pp = m.iter().map(|(i, e)| (*i, part(e))).collect();
            res(&ctx.call(sh, || d.update_partitions(pp).map_err(|e| gpt_err(&e))))
        }
        Op::Inspect => res(&ctx.call(sh, || {
            Ok((d.find_free_sectors(), d.find_next_partition_id(), d.calculate_alignment(), *d.logical_block_size(), hdr(d.header())))
        })),
        Op::Write => res(&ctx.call(sh, || d.write_inplace().map_err(|e| gpt_err(&e)))),
        Op::SeekTo(p) => {
            let p = *p;
            res(&ctx.call(sh, || d.device_mut().seek(SeekFrom::Start(p)).map_err(|e| io_err(&e))))
        }
        _ => String::new(),
    })
}

/// An operation that makes sense for what is there.
pub fn gen_op(ctx: &mut Ctx, s: &Side, paths: bool) -> Op {
    let lb = s.lb;
    let cfgw = CfgWeights { readonly: 12, strict: 15, ro_backup: 12, consent: 15 };
    let Some(d) = &s.d else {
        let src = &mut ctx.src;
        return match src.choose_weighted(&[8, 3, 1, 1, 2, if paths { 3 } else { 1 }, 1, if paths { 2 } else { 0 }, if paths { 2 } else { 0 }]) {
            0 => Op::Open(gen_cfg(src, lb, &cfgw)),
            1 => {
                let mut c = gen_cfg(src, lb, &cfgw);
                c.writable |= src.chance(2, 3);
                let g = if paths { None } else { Some(rand_uuid(src)) };
                Op::Create(c, g)
            }
            2 => Op::Mbr(src.choose(4), src.bits()),
            3 => Op::ReadMbr(src.choose(3)),
            4 => Op::ReadHeader,
            5 => Op::ReadParts,
            6 => Op::ReadDisk,
            7 => Op::WriteHeader(if src.chance(1, 2) { Some(rand_uuid(src)) } else { None }),
            _ => {
                let t = gen_table(src, &Geo { num_parts: 4, fu: 34, lu: 60, bak: 100, ps: 2 }, 3);
                let e = t.ents.values().next().cloned().unwrap_or(Ent {
                    ty: Uuid::nil(),
                    guid: Uuid::nil(),
                    first: 0,
                    last: 0,
                    flags: 0,
                    name: String::new(),
                });
                let idx = src.choose(130);
                let start = if src.chance(1, 6) { src.bits() >> 20 } else { 2 };
                Op::PartWrite(e, idx, start)
            }
        };
    };
    let t = d.table();
    let h = d.header().ok();
    let (fu, lu, num) = h.map(|h| (h.first_usable, h.last_usable, h.num_parts)).unwrap_or((34, 60, 128));
    let geo = Geo { num_parts: num, fu, lu, bak: lu, ps: 2 };
    let g = gaps(&t, &geo);
    let src = &mut ctx.src;
    let gap = if g.is_empty() { (fu, 1) } else { *src.pick(&g) };
    match src.choose_weighted(&[6, 4, 3, 1, 2, 1, 2, 2, 7, 2, 1, 2, 1, 1, 1, 2]) {
        0 => {
            let size = match src.choose(4) {
                0 => lb * (1 + src.choose(8)),
                1 => gap.1.saturating_mul(lb),
                2 => 1 + src.choose(gap.1.saturating_mul(lb).saturating_add(2)),
                _ => gap.1.saturating_mul(lb).saturating_add(1),
            };
            let al = *src.pick(&[None, None, Some(1u64), Some(8), Some(3), Some(2048)]);
            Op::AddSize(gen_name(src, true), size, gen_type(src), gen_flags(src), al)
        }
        1 => {
            let id = match src.choose(4) {
                0 | 1 => 1 + src.choose(num as u64) as u32,
                2 => 1 + src.choose(t.ents.len() as u64 + 2) as u32,
                _ => num + 1 + src.choose(3) as u32,
            };
            let first = gap.0 + if src.chance(1, 3) { src.choose(gap.1) } else { 0 };
            let len = if src.chance(1, 4) { gap.1 + 1 } else { 1 + src.choose((gap.0 + gap.1 - first).max(1)) };
            Op::AddAt(gen_name(src, true), id, first, len, gen_type(src), gen_flags(src))
        }
        2 => match t.ents.is_empty() {
            true => Op::Remove(1),
            false => {
                let ids: Vec<u32> = t.ents.keys().copied().collect();
                Op::Remove(*src.pick(&ids))
            }
        },
        3 => {
            let gs: Vec<Uuid> = t.ents.values().map(|e| e.guid).collect();
            if gs.is_empty() || src.chance(1, 3) {
                Op::RemoveGuid(rand_uuid(src))
            } else {
                Op::RemoveGuid(*src.pick(&gs))
            }
        }
        4 => Op::Guid(if src.chance(1, 2) { Some(rand_uuid(src)) } else { None }),
        5 => Op::Take,
        6 => {
            let n = gen_table(src, &geo, 9);
            Op::Replace(n.ents)
        }
        7 => Op::Inspect,
        8 => Op::Write,
        9 => Op::WriteConsume,
        10 => Op::SeekTo(src.choose(1 << 20)),
        11 => Op::Open(gen_cfg(src, lb, &cfgw)),
        12 => Op::Mbr(src.choose(4), src.bits()),
        13 => Op::ReadHeader,
        14 => Op::ReadParts,
        _ => {
            let mut m = t.ents.clone();
            m.retain(|i, _| i % 2 == 0);
            Op::Replace(m)
        }
    }
}

fn compare(ctx: &mut Ctx, prop: &'static str, op: &Op, a: &str, b: &str, da: &Shared, db: &Shared) {
    if a != b {
        let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let lo = at.saturating_sub(120);
        let cut = |s: &str| s.chars().skip(s.char_indices().take_while(|c| c.0 < lo).count()).take(260).collect::<String>();
        let (x, y) = (cut(a), cut(b));
        ctx.fail(prop, &format!("results differ: {}", short(op)), || format!("{op:?}: ...{x} versus ...{y}"));
    }
    let diff = first_difference(&lock(da), &lock(db));
    if let Some(s) = diff {
        ctx.fail(prop, &format!("bytes differ: {}", short(op)), || format!("{op:?}: sector {s}"));
    }
}

fn short(op: &Op) -> String {
    format!("{op:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string()
}

/// A disk that several executions start from.
fn start(ctx: &mut Ctx) -> (Disk, u64) {
    let p = Profile { file: 0, steps: 5, loss_after_write: 0, ..Profile::default() };
    let w = hist::history(ctx, &p);
    let mut f = w.with_disk(0, |d| d.fork());
    f.sync_everything();
    let lb = w.disks[0].lb;
    if ctx.src.chance(1, 6) && w.disks[0].in_step {
        crate::scen::damage_disk(ctx, &mut f, lb, false);
    }
    // a history that ended in an accepted overlap is no place to go on from
    (f, lb)
}

pub fn e02(ctx: &mut Ctx) {
    let (f, lb) = start(ctx);
    if ctx.done() {
        return;
    }
    ctx.stop = false;
    let da = ctx.adopt(f.fork());
    let db = ctx.adopt(f);
    let by_path = ctx.src.chance(1, 4);
    let (mut pa, mut pb) = (None, None);
    if by_path {
        for (n, d, p) in [("e02a", &da, &mut pa), ("e02b", &db, &mut pb)] {
            lock(d).growable = true;
            *p = Some(shim::mount(n, FileNode { disk: d.clone(), writable: true, readable: true, open_error: None }));
        }
    }
    let mut a = Side::new(&da, lb, pa);
    let mut b = Side::new(&db, lb, pb);
    let steps = 3 + ctx.src.small(16);
    for _ in 0..steps {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        let op = gen_op(ctx, &b, by_path);
        let mut plan = gen_noise(ctx);
        if plan.noise_rate == 0 {
            plan.noise_rate = 100;
            plan.noise_seed = 1;
        }
        let rng = getrandom::sim_state();
        let rb = apply(ctx, &mut b, &op, true);
        getrandom::sim_seed(rng);
        let n0 = noise(&da);
        lock(&da).set_plan(plan);
        let ra = apply(ctx, &mut a, &op, true);
        lock(&da).calm();
        if noise(&da) > n0 {
            ctx.nontrivial = true;
        }
        ctx.log(|| format!("{op:?} -> {}", rb.chars().take(160).collect::<String>()));
        compare(ctx, "E02", &op, &ra, &rb, &da, &db);
        let (x, y) = (lock(&da).not_durable(), lock(&db).not_durable());
        if x != y {
            ctx.fail("E02", "unsynced data differs", || format!("{op:?}: {} versus {} sectors", x.len(), y.len()));
        }
        ctx.src.end();
    }
}

fn noise(d: &Shared) -> u64 {
    let d = lock(d);
    [EINTR_READ, EINTR_WRITE, SHORT_READ, SHORT_WRITE].iter().map(|i| d.stats.n[*i]).sum()
}

pub fn p01(ctx: &mut Ctx) {
    let (f, lb) = start(ctx);
    if ctx.done() {
        return;
    }
    ctx.stop = false;
    let mut fa = f.fork();
    fa.growable = true;
    let da = ctx.adopt(fa);
    let db = ctx.adopt(f);
    let path = shim::mount("p01", FileNode { disk: da.clone(), writable: true, readable: true, open_error: None });
    let mut a = Side::new(&da, lb, Some(path.clone()));
    let mut b = Side::new(&db, lb, None);
    let size = lock(&da).size;
    let steps = 3 + ctx.src.small(16);
    let mut writable = true;
    for _ in 0..steps {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        ctx.nontrivial = true;
        if ctx.src.chance(1, 8) {
            permissions(ctx, &path, &da, lb);
            ctx.src.end();
            continue;
        }
        let op = gen_op(ctx, &b, true);
        // an entry written past the end extends a file, that is what was asked for
        if let Op::PartWrite(_, i, s) = &op {
            if s.saturating_mul(lb).saturating_add((i + 1) * 128) > size {
                ctx.src.end();
                continue;
            }
        }
        // a table that ran into blocks in use (see the known findings) can reach past the end
        if let (Op::Write | Op::WriteConsume, Some(d)) = (&op, &b.d) {
            if let Ok(h) = d.header() {
                let a = (h.num_parts as u64 * 128).div_ceil(lb);
                if h.last_usable.saturating_add(a + 1) > size / lb - 1 {
                    ctx.probe("growth over used blocks");
                    ctx.src.end();
                    return;
                }
            }
        }
        // a file that was opened for reading can't be written, other devices don't know
        match &op {
            Op::Open(c) | Op::Create(c, _) => writable = c.writable,
            Op::ReadDisk => writable = false,
            Op::Mbr(..) if b.d.is_some() && !writable => {
                ctx.src.end();
                continue;
            }
            _ => {}
        }
        let noisy = ctx.src.chance(1, 5);
        if noisy {
            let plan = gen_noise(ctx);
            lock(&da).set_plan(plan);
        }
        let rng = getrandom::sim_state();
        let rb = apply(ctx, &mut b, &op, true);
        getrandom::sim_seed(rng);
        let opens = shim::opens().len();
        let ra = apply(ctx, &mut a, &op, true);
        lock(&da).calm();
        ctx.log(|| format!("{op:?} -> {}", rb.chars().take(160).collect::<String>()));
        compare(ctx, "P01", &op, &ra, &rb, &da, &db);
        // access modes
        let write_needed = match &op {
            Op::Open(c) | Op::Create(c, _) => Some(c.writable),
            Op::ReadDisk | Op::ReadHeader | Op::ReadParts => Some(false),
            Op::WriteHeader(_) | Op::PartWrite(..) => Some(true),
            _ => None,
        };
        for (p, fl) in &shim::opens()[opens..] {
            if fl & (libc::O_TRUNC | libc::O_CREAT) != 0 {
                ctx.fail("P01", "opened with a flag that creates or truncates", || format!("{op:?} {p} {fl:#x}"));
                ctx.fail("W02", "opened with a flag that creates or truncates", || format!("{op:?} {p} {fl:#x}"));
            }
            if write_needed == Some(false) && fl & libc::O_ACCMODE != libc::O_RDONLY {
                ctx.fail("P01", "write permission requested for reading", || format!("{op:?} {fl:#x}"));
                ctx.fail("W02", "write permission requested for reading", || format!("{op:?} {fl:#x}"));
            }
        }
        if lock(&da).size != size || lock(&da).resized {
            ctx.fail("P01", "file resized", || format!("{op:?}: {size} -> {}", lock(&da).size));
        }
        let c = shim::created();
        if !c.is_empty() {
            ctx.fail("P01", "a file was created", || format!("{op:?}: {c:?}"));
        }
        ctx.src.end();
    }
}

/// Files that are missing, not readable or not writable.
fn permissions(ctx: &mut Ctx, path: &str, da: &Shared, lb: u64) {
    let kind = ctx.src.choose(4);
    let missing = format!("{}missing", shim::ROOT);
    let p = if kind == 0 { missing.clone() } else { path.to_string() };
    let errno = *ctx.src.pick(&[libc::EACCES, libc::ENOENT, libc::EIO, libc::EBUSY, libc::EMFILE, libc::EISDIR]);
    shim::node_mut(path, |n| match kind {
        1 => n.open_error = Some(errno),
        2 => n.writable = false,
        3 => n.readable = false,
        _ => {}
    });
    let l = lbs(lb);
    let mut c = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 50, strict: 10, ro_backup: 10, consent: 10 });
    let op = ctx.src.choose(7);
    let before = lock(da).fork();
    lock(da).start_journal();
    if op == 1 {
        c.writable = true;
    }
    let g = c.gpt();
    let zero = gpt::partition::Partition::zero();
    let writes = matches!(op, 0 | 1) && c.writable || matches!(op, 5 | 6);
    let r: Res<String> = ctx.call(da, || match op {
        0 => g.open(&p).map(|d| format!("{:?}", d.guid())).map_err(|e| gpt_err(&e)),
        1 => g.create(&p).map(|_| String::new()).map_err(|e| gpt_err(&e)),
        2 => gpt::disk::read_disk(&p).map(|d| format!("{:?}", d.guid())).map_err(|e| gpt_err(&e)),
        3 => gpt::header::read_header(&p, l).map(|h| format!("{h:?}")).map_err(|e| hdr_err(&e)),
        4 => {
            let f = before.fork().shared();
            match gpt::header::read_header_from_arbitrary_device(&mut Dev::new(&f), l) {
                Ok(h) => gpt::partition::read_partitions(&p, &h, l).map(|t| format!("{:?}", ents(&t))).map_err(|e| io_err(&e)),
                Err(_) => Err(E::Other("skip".into())),
            }
        }
        5 => zero.write(std::path::Path::new(&p), 0, u64::MAX / 2, l).map(|_| String::new()).map_err(|e| io_err(&e)),
        _ => gpt::header::write_header(&p, None, l).map(|g| g.to_string()).map_err(|e| hdr_err(&e)),
    });
    let changed = !lock(da).changes().is_empty();
    lock(da).stop_journal();
    shim::node_mut(path, |n| {
        n.open_error = None;
        n.writable = true;
        n.readable = true;
    });
    ctx.log(|| format!("permission case {kind}, operation {op} (writable {}) -> {r:?}", c.writable));
    let m = format!("case {kind} operation {op}: {r:?}");
    if let Err(e) = &r {
        if e.fatal() {
            ctx.fail("P01", "crashed", || m.clone());
        }
        if *e == E::Other("skip".into()) {
            return;
        }
    }
    let refused = match kind {
        0 | 1 | 3 => true,
        _ => writes,
    };
    if refused {
        match &r {
            Err(e) if e.is_io() => {}
            _ => ctx.fail("P01", "an unopenable file was not reported as an I/O error", || m.clone()),
        }
        if changed {
            ctx.fail("P01", "a refused operation changed the file", || m.clone());
        }
    } else {
        // read-only media: the same result as from a device with the content
        let f = before.fork().shared();
        let dev = Dev::new(&f);
        let want: Res<String> = guarded(|| match op {
            0 => c.gpt().open_from_device(dev).map(|d| format!("{:?}", d.guid())).map_err(|e| gpt_err(&e)),
            1 => c.gpt().create_from_device(dev, None).map(|_| String::new()).map_err(|e| gpt_err(&e)),
            2 => gpt::GptConfig::new().open_from_device(dev).map(|d| format!("{:?}", d.guid())).map_err(|e| gpt_err(&e)),
            3 => {
                let mut dev = dev;
                gpt::header::read_header_from_arbitrary_device(&mut dev, l).map(|h| format!("{h:?}")).map_err(|e| hdr_err(&e))
            }
            _ => {
                let mut dev = dev;
                match gpt::header::read_header_from_arbitrary_device(&mut dev, l) {
                    Ok(h) => gpt::partition::file_read_partitions(&mut dev, &h, l)
                        .map(|t| format!("{:?}", ents(&t)))
                        .map_err(|e| io_err(&e)),
                    Err(_) => Err(E::Other("skip".into())),
                }
            }
        });
        if res(&r) != res(&want) {
            ctx.fail("P01", "reading needs write permission", || format!("{m}, from a device {want:?}"));
            ctx.fail("W02", "cannot be opened from read-only media", || format!("{m}, from a device {want:?}"));
        }
    }
    let cr = shim::created();
    if !cr.is_empty() {
        ctx.fail("P01", "a file was created", || format!("{m}: {cr:?}"));
        ctx.fail("W02", "a file was created", || format!("{m}: {cr:?}"));
    }
}

// ---------------------------------------------------------------- copies (K01)

struct K {
    d: gpt::GptDisk<Dev>,
    disk: usize,
    writable: bool,
    last: Mem,
    name: String,
    /// read-only backup, consent to another number of entries
    ro: bool,
    consent: bool,
}

fn kmem(d: &gpt::GptDisk<Dev>) -> Mem {
    Mem {
        table: Table { guid: *d.guid(), ents: ents(d.partitions()) },
        primary: d.primary_header().map(hdr).map_err(|e| coarse(&hdr_err(&e))),
        backup: d.backup_header().map(hdr).map_err(|e| coarse(&hdr_err(&e))),
    }
}

pub fn k01(ctx: &mut Ctx) {
    let (f, lb) = start(ctx);
    if ctx.done() {
        return;
    }
    ctx.stop = false;
    // several disks: same content, other content, blank, bigger
    let mut disks: Vec<Shared> = vec![];
    disks.push(ctx.adopt(f.fork()));
    disks.push(ctx.adopt(f.fork()));
    let mut blank = Disk::new(f.size, if ctx.src.chance(1, 2) { 77 } else { 0 });
    if ctx.src.chance(1, 2) {
        blank.size += lb * (1 + ctx.src.choose(500));
    }
    disks.push(ctx.adopt(blank));
    let cfg = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 15, strict: 5, ro_backup: 20, consent: 25 });
    let first = match open_dev(&cfg, Dev::new(&disks[0])) {
        Ok(AnyDisk::D(d)) => d,
        _ => {
            let r = cfg.gpt().create_from_device(Dev::new(&disks[0]), Some(rand_uuid(&mut ctx.src)));
            match r {
                Ok(d) => d,
                Err(_) => return,
            }
        }
    };
    let last = kmem(&first);
    let mut objs = vec![K { d: first, disk: 0, writable: cfg.writable, last, name: "a".into(), ro: cfg.ro_backup, consent: cfg.consent }];
    let steps = 4 + ctx.src.small(16);
    let mut names = 0;
    for _ in 0..steps {
        if ctx.done() || objs.is_empty() {
            return;
        }
        ctx.src.begin();
        let oi = ctx.src.choose(objs.len() as u64) as usize;
        let act = ctx.src.choose_weighted(&[6, 3, 3, 3, 3, 1, 2]);
        for d in &disks {
            lock(d).start_journal();
        }
        // the object that may change and the disk that may change
        let mut may_obj = None;
        let mut may_disk = None;
        let what: String;
        match act {
            0 => {
                // an edit
                let op = loop {
                    let side = Side { sh: disks[objs[oi].disk].clone(), lb, path: None, d: None, pos: 0 };
                    let mut side = side;
                    let tmp = objs[oi].d.with_disk_device(Dev::new(&side.sh), true);
                    side.d = Some(AnyDisk::D(tmp));
                    let op = gen_op(ctx, &side, false);
                    if matches!(
                        op,
                        Op::AddSize(..) | Op::AddAt(..) | Op::Remove(_) | Op::RemoveGuid(_) | Op::Guid(_) | Op::Take | Op::Replace(_)
                    ) {
                        break Some(op);
                    }
                    if ctx.src.chance(1, 3) || ctx.src.rec.len() > 20_000 {
                        break None;
                    }
                };
                let Some(op) = op else {
                    ctx.src.end();
                    continue;
                };
                // the same edit on a copy gives the same
                let sh = disks[objs[oi].disk].clone();
                let k = &mut objs[oi];
                let rng = getrandom::sim_state();
                let copy = if ctx.src.chance(1, 2) {
                    k.d.clone()
                } else {
                    k.d.with_disk_device(Dev::new(&sh), k.writable)
                };
                if kmem(&copy) != k.last {
                    let m = k.last.diff(&kmem(&copy));
                    ctx.fail("K01", "copy differs from the original", || m);
                }
                let mut copy = AnyDisk::D(copy);
                let rc = ctx_disk_op(ctx, &sh, &mut copy, &op);
                getrandom::sim_seed(rng);
                // move the object through AnyDisk without copying it
                let dummy = k.d.with_disk_device(Dev::new(&sh), false);
                let mut own = AnyDisk::D(std::mem::replace(&mut k.d, dummy));
                let ro = ctx_disk_op(ctx, &sh, &mut own, &op);
                let AnyDisk::D(own) = own else { return };
                k.d = own;
                let AnyDisk::D(copy) = copy else { return };
                what = format!("{} edits {op:?} -> {}", k.name, ro.chars().take(80).collect::<String>());
                if rc != ro || kmem(&copy) != kmem(&k.d) {
                    let m = kmem(&k.d).diff(&kmem(&copy));
                    ctx.fail("K01", "a copy behaves differently", || format!("{op:?}: {ro} versus {rc}; {m}"));
                }
                may_obj = Some(oi);
                ctx.nontrivial = true;
            }
            1 => {
                if objs.len() >= 5 {
                    ctx.src.end();
                    continue;
                }
                let c = objs[oi].d.clone();
                names += 1;
                let name = format!("clone{names}");
                what = format!("{name} = {}.clone()", objs[oi].name);
                let last = kmem(&c);
                if last != objs[oi].last || c.logical_block_size() != objs[oi].d.logical_block_size() {
                    let m = objs[oi].last.diff(&last);
                    ctx.fail("K01", "copy differs from the original", || format!("{what}: {m}"));
                }
                if !std::sync::Arc::ptr_eq(&c.device_ref().disk, &disks[objs[oi].disk]) {
                    ctx.fail("K01", "wrong device", || what.clone());
                }
                let K { disk, writable, ro, consent, .. } = objs[oi];
                objs.push(K { d: c, disk, writable, last, name, ro, consent });
            }
            2 => {
                if objs.len() >= 5 {
                    ctx.src.end();
                    continue;
                }
                let to = ctx.src.choose(3) as usize;
                let wr = ctx.src.chance(2, 3);
                let c = objs[oi].d.with_disk_device(Dev::new(&disks[to]), wr);
                names += 1;
                let name = format!("moved{names}");
                what = format!("{name} = {}.with_disk_device(disk{to}, {wr})", objs[oi].name);
                let last = kmem(&c);
                if last != objs[oi].last || c.logical_block_size() != objs[oi].d.logical_block_size() {
                    let m = objs[oi].last.diff(&last);
                    ctx.fail("K01", "copy differs from the original", || format!("{what}: {m}"));
                }
                let K { ro, consent, .. } = objs[oi];
                objs.push(K { d: c, disk: to, writable: wr, last, name, ro, consent });
            }
            3 => {
                let to = ctx.src.choose(3) as usize;
                let wr = ctx.src.chance(2, 3);
                let k = &mut objs[oi];
                let at = ctx.src.choose(4096);
                k.d.device_mut().pos = at;
                let old = k.d.update_disk_device(Dev::new(&disks[to]), wr);
                what = format!("{}.update_disk_device(disk{to}, {wr})", k.name);
                if !std::sync::Arc::ptr_eq(&old.disk, &disks[k.disk]) || old.pos != at {
                    ctx.fail("K01", "wrong device handed back", || what.clone());
                }
                if kmem(&k.d) != k.last {
                    let m = k.last.diff(&kmem(&k.d));
                    ctx.fail("K01", "changing the device changed the table", || format!("{what}: {m}"));
                }
                if !std::sync::Arc::ptr_eq(&k.d.device_ref().disk, &disks[to]) {
                    ctx.fail("K01", "wrong device", || what.clone());
                }
                k.disk = to;
                k.writable = wr;
            }
            4 => {
                // writing, compared with a copy that writes to a copy of the disk
                let k = &objs[oi];
                let plain = disks[k.disk].clone();
                let f2 = lock(&plain).fork();
                let sh2 = ctx.adopt(f2);
                let mut twin = if ctx.src.chance(1, 2) {
                    let mut t = k.d.clone();
                    t.update_disk_device(Dev::new(&sh2), k.writable);
                    t
                } else {
                    k.d.with_disk_device(Dev::new(&sh2), k.writable)
                };
                let k = &mut objs[oi];
                let pos = if ctx.src.chance(1, 3) { ctx.src.choose(10_000) } else { 0 };
                k.d.device_mut().pos = pos;
                let r = ctx.call(&plain, || k.d.write_inplace().map_err(|e| gpt_err(&e)));
                let r2 = ctx.call(&sh2, || twin.write_inplace().map_err(|e| gpt_err(&e)));
                what = format!("{}.write_inplace() -> {r:?}", k.name);
                let d = first_difference(&lock(&plain), &lock(&sh2));
                if res(&r) != res(&r2) || kmem(&k.d) != kmem(&twin) || d.is_some() {
                    let m = kmem(&k.d).diff(&kmem(&twin));
                    ctx.fail("K01", "a copy writes differently", || format!("{what} versus {r2:?}; sector {d:?}; {m}"));
                }
                if !k.writable && r != Err(E::ReadOnly) {
                    ctx.fail("K01", "written although not writable", || what.clone());
                    ctx.fail("W02", "written although not writable", || what.clone());
                }
                if k.writable && r == Err(E::ReadOnly) {
                    ctx.fail("K01", "refused although writable", || what.clone());
                }
                // whatever others have written there since, it is now the table of this object
                if r.is_ok() {
                    let t = Table { guid: *k.d.guid(), ents: ents(k.d.partitions()) };
                    let d = lock(&plain);
                    let copies = [(ondisk::primary(&d, lb), true), (ondisk::backup(&d, lb), !k.ro && !k.consent)];
                    for (i, (c, need)) in copies.into_iter().enumerate() {
                        let which = ["primary", "backup"][i];
                        match c.filter(|c| c.array_ok) {
                            Some(c) if !c.table().same_content(&t) && (i == 0 || !k.ro) => {
                                ctx.fail("K01", "another table was written", || format!("{what}: {which} {} for {}", c.table().brief(), t.brief()));
                            }
                            None if need => ctx.fail("K01", "not written completely", || format!("{what}: {which}")),
                            _ => {}
                        }
                    }
                    let last = ondisk::last_lba(&d, lb) * lb;
                    if k.ro {
                        if let Some(x) = d.changes().iter().find(|c| c.0 * SEC >= last) {
                            let x = x.0;
                            ctx.fail("K01", "read-only backup written", || format!("{what}: sector {x}"));
                        }
                    }
                }
                if k.writable {
                    may_disk = Some(k.disk);
                    may_obj = Some(oi);
                }
                ctx.nontrivial = true;
            }
            5 => {
                let k = objs.remove(oi);
                what = format!("{}.take_device()", k.name);
                let dev = k.d.take_device();
                if !std::sync::Arc::ptr_eq(&dev.disk, &disks[k.disk]) {
                    ctx.fail("K01", "wrong device handed back", || what.clone());
                }
            }
            _ => {
                // reopen what was written
                let to = ctx.src.choose(3) as usize;
                what = format!("open disk{to}");
                let c = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 15, strict: 0, ro_backup: 20, consent: 25 });
                if objs.len() < 5 {
                    if let Ok(AnyDisk::D(d)) = open_dev(&c, Dev::new(&disks[to])) {
                        names += 1;
                        let last = kmem(&d);
                        objs.push(K {
                            d,
                            disk: to,
                            writable: c.writable,
                            last,
                            name: format!("opened{names}"),
                            ro: c.ro_backup,
                            consent: c.consent,
                        });
                    }
                }
            }
        }
        ctx.log(|| what.clone());
        for (i, k) in objs.iter_mut().enumerate() {
            let now = kmem(&k.d);
            if now != k.last {
                if may_obj != Some(i) {
                    let m = k.last.diff(&now);
                    let n = k.name.clone();
                    ctx.fail("K01", "an object changed by an operation on another", || format!("{what}: {n}: {m}"));
                }
                k.last = now;
            }
        }
        for (i, d) in disks.iter().enumerate() {
            let mut d = lock(d);
            let c = !d.changes().is_empty() || d.resized;
            d.stop_journal();
            drop(d);
            if c && may_disk != Some(i) {
                ctx.fail("K01", "a disk changed that was not written", || format!("{what}: disk{i}"));
            }
        }
        ctx.src.end();
    }
}

#[allow(unused)]
fn _unused(_: Option<Faults>, _: Option<File>) {}
