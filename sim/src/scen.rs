//! Dedicated scenarios for the properties that a plain history does not reach.

use crate::choice::{mix, Src};
use crate::env::*;
use crate::hist::{self, Profile};
use crate::model::*;
use crate::ondisk::{self, Hdr, Table};
use crate::sched::{self, Sched};
use crate::sim::*;
use crate::world::*;
use gpt::mbr::{self, PartRecord, ProtectiveMBR};
use gpt::DiskDevice;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- damage

#[derive(Clone, Debug)]
pub struct Damage {
    pub primary: bool,
    pub header_valid: bool,
}

/// Offset and length of the fields of a header.
const FIELDS: [(usize, usize); 14] = [
    (0, 8), (8, 4), (12, 4), (16, 4), (20, 4), (24, 8), (32, 8), (40, 8), (48, 8), (56, 16), (72, 8), (80, 4), (84, 4), (88, 4),
];

/// Damages single fields of a header in the ways that lenient parsers fall for. The checksum is
/// only corrected again if what the header says is still refuted by the array or its location,
/// so no result is a header that could count as written by somebody.
pub fn damage_header(src: &mut Src, h: &mut [u8]) -> String {
    let mut what = String::new();
    let seal = |h: &mut [u8]| {
        h[16..20].fill(0);
        let c = ondisk::crc32(&h[..92]);
        h[16..20].copy_from_slice(&c.to_le_bytes());
    };
    // never turn a header that was damaged before into a valid one
    let valid = if Hdr::check(h).is_some() { 1 } else { 0 };
    match src.choose_weighted(&[4, 4, 2 * valid, valid, valid]) {
        // single fields
        0 | 1 => {
            for _ in 0..1 + src.small(2) {
                let (o, n) = *src.pick(&FIELDS);
                let f = &mut h[o..o + n];
                let k = src.choose(7);
                what.push_str(&format!("field {o} kind {k} "));
                match k {
                    0 => f.fill(0),
                    1 => f.fill(0xff),
                    2 => f[0] = f[0].wrapping_add(1),
                    3 => f[0] = f[0].wrapping_sub(1),
                    4 => f.reverse(),
                    5 => f.iter_mut().for_each(|b| *b = !*b),
                    _ => {
                        let r = src.bits();
                        f.iter_mut().enumerate().for_each(|(i, b)| *b = mix(r, i as u64) as u8);
                    }
                }
            }
            // and a checksum that is not one
            let k = src.choose(9);
            let c = match k {
                0 => Some(0u32),
                1 => Some(!0),
                2 => Some(ondisk::crc32(&h[..92])),
                3 => {
                    h[16..20].fill(0);
                    Some(!ondisk::crc32(&h[..92]))
                }
                4 => {
                    h[16..20].fill(0);
                    Some(ondisk::crc32(&h[..92]).swap_bytes())
                }
                5 if h.len() >= 512 => {
                    h[16..20].fill(0);
                    Some(ondisk::crc32(&h[..512]))
                }
                6 => Some(u32::from_le_bytes(h[88..92].try_into().unwrap())),
                _ => None,
            };
            if let Some(c) = c {
                h[16..20].copy_from_slice(&c.to_le_bytes());
                what.push_str(&format!("checksum kind {k}"));
            }
            if Hdr::check(h).is_some() {
                h[16] ^= 1;
            }
        }
        // the checksum of the array is a wrong one
        2 => {
            let old = u32::from_le_bytes(h[88..92].try_into().unwrap());
            let c = match src.choose(5) {
                0 => 0,
                1 => !0,
                2 => !old,
                3 => old.swap_bytes(),
                _ => old ^ (1 << src.choose(32)),
            };
            let c = if c == old { !old } else { c };
            h[88..92].copy_from_slice(&c.to_le_bytes());
            seal(h);
            what.push_str("array checksum, resealed");
        }
        // the header belongs to another block
        3 => {
            let l = match src.choose(4) {
                0 => 0u64,
                1 => 2,
                2 => u64::from_le_bytes(h[32..40].try_into().unwrap()),
                _ => !0,
            };
            h[24..32].copy_from_slice(&l.to_le_bytes());
            seal(h);
            what.push_str("own lba, resealed");
        }
        // not a table at all
        _ => {
            h[..8].copy_from_slice(*src.pick(&[b"EFI PARt", b"efi part", b"EFI PAR\0", b"\0FI PART", b"TRAP IFE", b"EFI  ART"]));
            seal(h);
            what.push_str("signature, resealed");
        }
    }
    what
}

/// Damages one of two intact copies.
pub fn damage_disk(ctx: &mut Ctx, d: &mut Disk, lb: u64, unreadable: bool) -> Option<Damage> {
    let prim = ctx.src.chance(1, 2);
    let last = ondisk::last_lba(d, lb);
    let at = if prim { 1 } else { last };
    let other = if prim { last } else { 1 };
    let c = ondisk::read_copy(d, lb, at)?;
    let o = ondisk::read_copy(d, lb, other)?;
    if !c.array_ok || !o.array_ok {
        return None;
    }
    let (hoff, aoff, alen) = (at * lb, c.hdr.part_start * lb, c.array.len() as u64);
    let src = &mut ctx.src;
    let kind = src.choose_weighted(&[3, 4, 3, 3, 4, 3, 3, 2, 2, if unreadable { 3 } else { 0 }, if unreadable { 3 } else { 0 }, 2, 1, 5]);
    let mut what = String::new();
    let rnd = |src: &mut crate::choice::Src, n: usize| -> Vec<u8> {
        let s = src.bits();
        (0..n).map(|i| mix(s, i as u64 / 8).to_le_bytes()[i % 8]).collect()
    };
    let flip = |d: &mut Disk, off: u64, bit: u64| {
        let mut b = d.peek(off + bit / 8, 1);
        b[0] ^= 1 << (bit % 8);
        d.poke(off + bit / 8, &b);
    };
    match kind {
        0 => {
            d.poke(hoff, &vec![0; lb as usize]);
            what.push_str("header zeroed");
        }
        1 => {
            let b = src.choose(92 * 8);
            flip(d, hoff, b);
            what = format!("header bit {b}");
        }
        2 => {
            let r = rnd(src, 512);
            d.poke(hoff, &r);
            what.push_str("header garbage");
        }
        3 => {
            d.poke(aoff, &vec![0; alen as usize]);
            what.push_str("array zeroed");
        }
        4 => {
            // the used part is hit more often
            let n = if src.chance(1, 2) { alen.min(4 * 128) } else { alen };
            let b = src.choose(n * 8);
            flip(d, aoff, b);
            what = format!("array bit {b}");
        }
        5 => {
            let s = src.choose(alen.div_ceil(512));
            let r = rnd(src, 512.min((alen - s * 512) as usize));
            d.poke(aoff + s * 512, &r);
            what = format!("array sector {s} garbage");
        }
        6 => {
            let r = rnd(src, 512);
            d.poke(hoff, &r);
            let r = rnd(src, alen as usize);
            d.poke(aoff, &r);
            what.push_str("header and array garbage");
        }
        7 => {
            // some bytes of the header
            let a = src.choose(92);
            let n = 1 + src.choose(92 - a);
            let r = rnd(src, n as usize);
            d.poke(hoff + a, &r);
            what = format!("header bytes {a}+{n}");
        }
        8 => {
            let a = src.choose(alen);
            let n = 1 + src.choose((alen - a).min(300));
            let r = rnd(src, n as usize);
            d.poke(aoff + a, &r);
            what = format!("array bytes {a}+{n}");
        }
        9 => {
            d.bad.insert(hoff / SEC);
            what.push_str("header unreadable");
        }
        10 => {
            let s = src.choose(alen.div_ceil(512));
            d.bad.insert(aoff / SEC + s);
            what = format!("array sector {s} unreadable");
        }
        13 => {
            let mut b = d.peek(hoff, lb as usize);
            what = damage_header(src, &mut b);
            d.poke(hoff, &b);
        }
        11 => {
            // a misdirected write: the header of the other copy
            let b = o.block.clone();
            d.poke(hoff, &b);
            what.push_str("header of the other copy");
        }
        _ => {
            // the whole copy is overwritten with zeros
            d.poke(hoff, &vec![0; lb as usize]);
            d.poke(aoff, &vec![0; alen as usize]);
            what.push_str("copy zeroed");
        }
    }
    d.stats.n[CORRUPTION] += 1;
    let readable = !d.bad.contains(&(hoff / SEC));
    let header_valid = readable && Hdr::check(&d.peek(hoff, 92)).is_some_and(|h| h.my_lba == at);
    ctx.log(|| format!("DAMAGE {}: {what}", if prim { "primary" } else { "backup" }));
    Some(Damage { primary: prim, header_valid })
}

pub fn damage_copy(ctx: &mut Ctx, w: &mut World, di: usize, unreadable: bool) -> Option<Damage> {
    let sh = w.disks[di].sh.clone();
    let lb = w.disks[di].lb;
    let mut d = lock(&sh);
    let log = d.log.take();
    // the trace is collected from the disk, which is locked here
    d.log = None;
    drop(d);
    let mut copy = lock(&sh).clone();
    let r = damage_disk(ctx, &mut copy, lb, unreadable);
    let mut d = lock(&sh);
    *d = copy;
    d.log = log;
    r
}

/// Damage to one copy is survived (R01).
pub fn r01(ctx: &mut Ctx) {
    let p = Profile { steps: 8, loss_after_write: 0, ..Profile::default() };
    let w = hist::history(ctx, &p);
    let rounds = 1 + ctx.src.small(6);
    for di in 0..w.disks.len() {
        let rec = &w.disks[di];
        let (Some(t), true) = (rec.acked.clone(), rec.in_step && rec.maybe.is_empty()) else { continue };
        let lb = rec.lb;
        for _ in 0..rounds {
            if ctx.viol.iter().any(|v| v.prop == "R01") {
                return;
            }
            ctx.src.begin();
            let mut f = w.with_disk(di, |d| d.fork());
            let Some(dm) = damage_disk(ctx, &mut f, lb, true) else {
                ctx.src.end();
                continue;
            };
            let mut cfg = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 50, ro_backup: 20, consent: 20, strict: 35 });
            let plan = hist_noise(ctx);
            f.set_plan(plan);
            let sh = ctx.adopt(f);
            ctx.nontrivial = true;
            ctx.probe(if dm.primary { "primary damaged" } else { "backup damaged" });
            if cfg.strict {
                let r = open_at(ctx, &cfg, &sh);
                ctx.log(|| format!("strict open -> {}", brief(&r)));
                match r {
                    Ok(_) if !dm.header_valid => {
                        ctx.fail("R01", "strict open accepted a damaged header", || format!("{dm:?}"));
                        ctx.fail("I01", "invalid header accepted", || format!("{dm:?}"));
                    }
                    Ok(d) => {
                        let got = d.table();
                        if !got.same_content(&t) {
                            let m = format!("{} instead of {}", got.brief(), t.brief());
                            ctx.fail("R01", "another table was found", || m.clone());
                            ctx.fail("I01", "a table that nobody wrote", || m);
                        }
                    }
                    Err(e) if e.fatal() => ctx.fail("O01", "open crashed", || format!("{e:?}")),
                    Err(_) => {}
                }
                cfg.strict = false;
            }
            let r = open_at(ctx, &cfg, &sh);
            ctx.log(|| format!("open -> {}", brief(&r)));
            match r {
                Ok(d) => {
                    let got = d.table();
                    if got != t {
                        let m = format!("{dm:?}: {} instead of {}", got.brief(), t.brief());
                        ctx.fail("R01", "another table was found", || m.clone());
                        if !got.same_content(&t) {
                            ctx.fail("I01", "a table that nobody wrote", || m);
                        }
                    }
                }
                Err(e) => ctx.fail("R01", "damage to one copy not survived", || format!("{dm:?}: {e:?}")),
            }
            // the path independent entry points: what they accept is intact
            ctx.src.end();
        }
    }
}

pub fn hist_noise(ctx: &mut Ctx) -> Plan {
    if ctx.src.chance(1, 3) {
        gen_noise(ctx)
    } else {
        Plan::default()
    }
}

pub fn open_at(ctx: &mut Ctx, cfg: &Cfg, sh: &Shared) -> Res<AnyDisk> {
    let c = cfg.gpt();
    let dev = Dev::new(sh);
    ctx.call(sh, || c.open_from_device(dev).map(AnyDisk::D).map_err(|e| gpt_err(&e)))
}

pub fn brief(r: &Res<AnyDisk>) -> String {
    match r {
        Ok(d) => format!("Ok {}", d.table().brief()),
        Err(e) => format!("{e:?}"),
    }
}

// ---------------------------------------------------------------- corruption of both copies (I01)

pub fn i01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 10,
        foreign: 60,
        cfg: CfgWeights { readonly: 0, strict: 0, ro_backup: 10, consent: 10 },
        write_faults: [6, 0, 1, 2],
        ..Profile::default()
    };
    let mut w = World::new();
    let di = hist::new_disk(ctx, &mut w, &p);
    hist::origin(ctx, &mut w, di, &p);
    let lb = w.disks[di].lb;
    let mut snaps: Vec<Disk> = vec![w.with_disk(di, |d| d.fork())];
    let steps = 3 + ctx.src.small(p.steps);
    for _ in 0..steps {
        if ctx.done() {
            break;
        }
        ctx.src.begin();
        let n = w.disks[di].history.len();
        hist::step(ctx, &mut w, di, &p);
        if w.disks[di].history.len() != n && snaps.len() < 8 {
            snaps.push(w.with_disk(di, |d| d.fork()));
        }
        ctx.src.end();
    }
    if ctx.viol.iter().any(|v| v.prop == "I01") {
        return;
    }
    let tables = w.disks[di].history.clone();
    if tables.is_empty() {
        return;
    }
    snaps.push(w.with_disk(di, |d| d.fork()));
    let trials = 2 + ctx.src.small(12);
    for _ in 0..trials {
        if ctx.viol.iter().any(|v| v.prop == "I01") {
            return;
        }
        ctx.src.begin();
        let base = ctx.src.choose(snaps.len() as u64) as usize;
        let mut f = snaps[snaps.len() - 1 - base].clone();
        // where tables are stored
        let mut places: Vec<u64> = vec![];
        for s in &snaps {
            for c in [ondisk::primary(s, lb), ondisk::backup(s, lb)].into_iter().flatten() {
                let h = &c.hdr;
                places.extend((0..lb / SEC).map(|i| h.my_lba.saturating_mul(lb) / SEC + i));
                let n = (h.num_parts as u64 * 128).div_ceil(SEC).min(64);
                places.extend((0..n).map(|i| h.part_start.saturating_mul(lb) / SEC + i));
            }
        }
        places.retain(|s| (s + 1) * SEC <= f.size);
        places.sort_unstable();
        places.dedup();
        if places.is_empty() {
            ctx.src.end();
            return;
        }
        let heads: Vec<u64> = [lb / SEC, ondisk::last_lba(&f, lb) * lb / SEC].to_vec();
        let firsts: Vec<u64> = places.iter().copied().filter(|s| snaps.iter().any(|d| d.sector(*s) != [0u8; 512])).take(64).collect();
        let k = ctx.src.small(6);
        for _ in 0..k {
            let src = &mut ctx.src;
            let s = match src.choose_weighted(&[4, 3, 3]) {
                0 => *src.pick(&heads),
                1 if !firsts.is_empty() => *src.pick(&firsts),
                _ => *src.pick(&places),
            };
            let mut b = f.sector(s);
            let mut ctx_log: Vec<String> = vec![];
            match src.choose_weighted(&[5, 3, 4, 2, 3, 2, if heads.contains(&s) && b.starts_with(b"EFI PART") { 10 } else { 0 }]) {
                0 => {
                    let bit = src.choose(if src.rec.len() % 2 == 0 { 92 * 8 } else { 4096 });
                    b[bit as usize / 8] ^= 1 << (bit % 8);
                }
                1 => b.fill(0),
                2 => b = snaps[src.choose(snaps.len() as u64) as usize].sector(s),
                3 => {
                    let r = src.bits();
                    for (i, c) in b.chunks_mut(8).enumerate() {
                        c.copy_from_slice(&mix(r, i as u64).to_le_bytes());
                    }
                }
                4 => {
                    let from = *src.pick(&places);
                    b = f.sector(from);
                }
                6 => {
                    let what = damage_header(src, &mut b);
                    ctx_log.push(what);
                }
                _ => {
                    let cut = 1 + src.choose(511) as usize;
                    let o = snaps[src.choose(snaps.len() as u64) as usize].sector(s);
                    b[cut..].copy_from_slice(&o[cut..]);
                }
            }
            f.poke(s * SEC, &b);
            f.stats.n[CORRUPTION] += 1;
            ctx.log(|| format!("CORRUPT sector {s} {}", ctx_log.join(" ")));
        }
        let mut plan = hist_noise(ctx);
        let flips = if ctx.src.chance(1, 2) { 1 + ctx.src.small(4) } else { 0 };
        for _ in 0..flips {
            let f = (ctx.src.choose(40), ctx.src.choose(92 * 8 * 30));
            plan.flips.push(f);
        }
        if ctx.src.chance(1, 12) {
            let cut = ctx.src.choose(f.size / lb + 1) * lb;
            f.size -= cut.min(f.size);
        }
        // nothing is known about the block size either
        let lb = if ctx.src.chance(1, 20) { if lb == 512 { 4096 } else { 512 } } else { lb };
        let cfg = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 50, ro_backup: 10, consent: 10, strict: 25 });
        let before_open = f.fork();
        f.set_plan(plan);
        let sh = ctx.adopt(f);
        let r = open_at(ctx, &cfg, &sh);
        ctx.log(|| format!("open {cfg:?} -> {}", brief(&r)));
        ctx.nontrivial |= k + flips > 0;
        match r {
            Ok(d) => {
                ctx.probe("opened in spite of corruption");
                let t = d.table();
                if !tables.iter().any(|x| x.same_content(&t)) {
                    ctx.fail("I01", "a table that nobody wrote", || t.brief());
                }
                let m = d.mem();
                for h in [&m.primary, &m.backup].into_iter().flatten() {
                    if Hdr::check(&h.encode()).is_none() {
                        ctx.fail("I01", "header with a wrong checksum was used", || format!("{h:?}"));
                    }
                }
            }
            Err(e) if e.fatal() => ctx.fail("O01", "open crashed", || format!("{e:?}")),
            Err(_) => ctx.probe("corruption refused"),
        }
        // the lower entry points
        let mut dev = Dev::new(&sh);
        lock(&sh).calm();
        let l = lbs(lb);
        let h = ctx.call(&sh, || gpt::header::read_header_from_arbitrary_device(&mut dev, l).map_err(|e| hdr_err(&e)));
        let truth = ondisk::primary(&before_open, lb);
        match (&h, &truth) {
            (Ok(h), Some(c)) if hdr(h) == c.hdr => {
                let r = ctx.call(&sh, || {
                    gpt::partition::file_read_partitions(&mut dev, h, l).map(|p| ents(&p)).map_err(|e| io_err(&e))
                });
                if let Ok(e) = &r {
                    let mut t = Table { guid: c.hdr.guid, ents: e.clone() };
                    if !c.array_ok {
                        ctx.fail("I01", "entries with a wrong checksum were used", || t.brief());
                    } else {
                        t.ents = e.clone();
                        if !t.same_content(&c.table()) {
                            ctx.fail("I01", "entries differ from the stored ones", || t.brief());
                        }
                    }
                }
            }
            (Ok(h), _) => ctx.fail("I01", "an invalid header was accepted", || format!("{h:?}")),
            (Err(e), _) if e.fatal() => ctx.fail("O01", "reading a header crashed", || format!("{e:?}")),
            _ => {}
        }
        ctx.src.end();
    }
}

// ---------------------------------------------------------------- boot sector

/// The byte range of a boot sector operation.
pub fn mbr_range(which: u64) -> (u64, u64) {
    match which {
        0 => (0, 512),
        1 => (446, 512),
        2 => (0, 440),
        _ => (440, 444),
    }
}

fn fill_bytes<const N: usize>(seed: u64) -> [u8; N] {
    let mut b = [0u8; N];
    for (i, x) in b.iter_mut().enumerate() {
        *x = mix(seed, i as u64 / 8).to_le_bytes()[i % 8];
    }
    b
}

/// A boot sector as its bytes, decoded and encoded without the library.
#[derive(Clone)]
pub struct Boot(pub [u8; 512]);

impl Boot {
    /// What the library starts with.
    fn protective(blocks: u32) -> Boot {
        let mut b = [0u8; 512];
        b[446..462].copy_from_slice(&[0, 0, 2, 0, 0xEE, 0xFF, 0xFF, 0xFF, 1, 0, 0, 0, 0, 0, 0, 0]);
        b[458..462].copy_from_slice(&blocks.to_le_bytes());
        b[510..].copy_from_slice(&[0x55, 0xAA]);
        Boot(b)
    }

    fn record(&self, i: usize) -> PartRecord {
        let r = &self.0[446 + 16 * i..462 + 16 * i];
        let le = |b: &[u8]| b.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32);
        PartRecord {
            boot_indicator: r[0],
            start_head: r[1],
            start_sector: r[2],
            start_track: r[3],
            os_type: r[4],
            end_head: r[5],
            end_sector: r[6],
            end_track: r[7],
            lb_start: le(&r[8..12]),
            lb_size: le(&r[12..16]),
        }
    }

    /// The first part of an object of the library that is not as it should be.
    pub fn differs(&self, m: &ProtectiveMBR) -> Option<String> {
        if m.bootcode()[..] != self.0[..440] {
            return Some("boot code".into());
        }
        if m.disk_signature()[..] != self.0[440..444] {
            return Some(format!("disk signature {:?}", m.disk_signature()));
        }
        for i in 0..4 {
            if m.partition(i) != Some(self.record(i)) {
                return Some(format!("record {i}: {:?} instead of {:?}", m.partition(i), self.record(i)));
            }
        }
        if m.partition(4).is_some() {
            return Some("a fifth record".into());
        }
        let b = m.to_bytes();
        b.iter().zip(&self.0).position(|(x, y)| x != y).map(|i| format!("byte {i}"))
    }

    /// Changes one part of both.
    fn change(&mut self, m: &mut ProtectiveMBR, what: u64, seed: u64) -> Option<String> {
        match what {
            0 => {
                let b: [u8; 440] = fill_bytes(seed);
                m.set_bootcode(b);
                self.0[..440].copy_from_slice(&b);
            }
            1 => {
                let b: [u8; 4] = fill_bytes(seed);
                m.set_disk_signature(b);
                self.0[440..444].copy_from_slice(&b);
            }
            _ => {
                let i = (what - 2) as usize % 5;
                let old = if i < 4 { Some(self.record(i)) } else { None };
                let b: [u8; 16] = if seed % 5 == 0 { [0; 16] } else { fill_bytes(seed) };
                let mut t = self.clone();
                t.0[446..462].copy_from_slice(&b);
                let r = match seed % 5 {
                    0 => PartRecord::zero(),
                    1 => match PartRecord::from_bytes(&b) {
                        Ok(r) => r,
                        Err(_) => return Some("a record was refused".into()),
                    },
                    _ => t.record(0),
                };
                if r.to_bytes() != b {
                    return Some(format!("record {r:?} encoded as {:?} instead of {b:?}", r.to_bytes()));
                }
                if m.set_partition(i, r) != old {
                    return Some(format!("replacing record {i} did not return {old:?}"));
                }
                if i < 4 {
                    self.0[446 + 16 * i..462 + 16 * i].copy_from_slice(&b);
                }
            }
        }
        None
    }
}

fn gen_boot(seed: u64) -> (ProtectiveMBR, Boot) {
    let blocks = mix(seed, 3) as u32;
    let (mut m, mut b) = match seed % 3 {
        0 => (ProtectiveMBR::new(), Boot::protective(u32::MAX)),
        _ => (ProtectiveMBR::with_lb_size(blocks), Boot::protective(blocks)),
    };
    if seed & 4 != 0 {
        b.change(&mut m, 0, mix(seed, 4));
    }
    if seed & 8 != 0 {
        b.change(&mut m, 1, mix(seed, 5));
    }
    for i in 0..4u64 {
        if seed >> (4 + i) & 1 != 0 {
            b.change(&mut m, 2 + i, mix(seed, 6 + i));
        }
    }
    (m, b)
}

pub fn gen_mbr(seed: u64) -> ProtectiveMBR {
    gen_boot(seed).0
}

/// The bytes such an operation has to store.
pub fn mbr_bytes(which: u64, seed: u64) -> Vec<u8> {
    let b = gen_boot(seed).1 .0;
    match which {
        0 => b.to_vec(),
        1 => b[446..].to_vec(),
        2 => fill_bytes::<440>(seed).to_vec(),
        _ => fill_bytes::<4>(seed).to_vec(),
    }
}

pub fn mbr_write<D: DiskDevice>(dev: &mut D, which: u64, seed: u64) -> Res<Option<usize>> {
    match which {
        0 => gen_mbr(seed).overwrite_lba0(dev).map(Some).map_err(|e| mbr_err(&e)),
        1 => gen_mbr(seed).update_conservative(dev).map(Some).map_err(|e| mbr_err(&e)),
        2 => mbr::write_bootcode(dev, &fill_bytes(seed)).map(|_| None).map_err(|e| io_err(&e)),
        _ => mbr::write_disk_signature(dev, &fill_bytes(seed)).map(|_| None).map_err(|e| io_err(&e)),
    }
}

pub fn m01(ctx: &mut Ctx) {
    let lb = if ctx.src.chance(1, 3) { 4096u64 } else { 512 };
    let size = match ctx.src.choose_weighted(&[6, 2, 1, 1]) {
        0 => lb * (1 + ctx.src.choose(200)),
        1 => 512 + ctx.src.choose(8192),
        2 => lb,
        _ => ctx.src.choose(512),
    };
    let mut disk = Disk::new(size, 0);
    if ctx.src.chance(3, 4) {
        disk.fill = ctx.src.bits() | 1;
    }
    let sh = ctx.adopt(disk);
    if ctx.src.chance(1, 2) && size >= 512 {
        let m = gen_mbr(ctx.src.bits()).to_bytes();
        lock(&sh).poke(0, &m);
    }
    let mut dev = Dev::new(&sh);
    let mut last = None;
    // what the sector was since it was last known to be stored
    let mut past: Vec<Vec<u8>> = vec![];
    let steps = 1 + ctx.src.small(10);
    for _ in 0..steps {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        if lock(&sh).unsynced() == 0 {
            past.clear();
        }
        dev.pos = if ctx.src.chance(2, 3) { ctx.src.choose(2 * size + 600) } else { 0 };
        let pos = dev.pos;
        let faults = ctx.src.choose_weighted(&[4, 3, 4, 3]);
        let mut plan = Plan::default();
        match faults {
            1 => plan = gen_noise(ctx),
            2 => {
                let e = gen_err(ctx, 9);
                plan.errs.push(e);
                if ctx.src.chance(1, 4) {
                    let n = gen_noise(ctx);
                    plan.noise_rate = n.noise_rate;
                    plan.noise_seed = n.noise_seed;
                }
            }
            3 => {
                plan.crash_at = Some(ctx.src.choose(10));
                plan.crash_after_store = ctx.src.chance(1, 2);
            }
            _ => {}
        }
        let old = lock(&sh).peek(0, 512.min(size as usize));
        if ctx.src.chance(2, 3) {
            // often the same as before, it might not have been stored then
            let (which, seed) = match last {
                Some(l) if ctx.src.chance(1, 3) => l,
                _ => (ctx.src.choose(4), ctx.src.bits()),
            };
            last = Some((which, seed));
            let (a, b) = mbr_range(which);
            let want = mbr_bytes(which, seed);
            {
                let mut d = lock(&sh);
                d.set_plan(plan);
                d.start_journal();
            }
            let r = ctx.call(&sh, || mbr_write(&mut dev, which, seed));
            ctx.log(|| format!("boot sector write {which} at position {pos} -> {r:?}"));
            ctx.nontrivial = true;
            let (failed, crashed) = {
                let mut d = lock(&sh);
                let x = (d.failed_ops, d.crashed);
                d.calm();
                x
            };
            if crashed {
                let mut d = lock(&sh);
                d.power_loss(&mut ctx.src);
                d.calm();
                drop(d);
                dev = Dev::new(&sh);
            }
            let d = lock(&sh);
            let changes = d.changes();
            let lost = d.not_durable();
            let resized = d.resized;
            drop(d);
            lock(&sh).stop_journal();
            // a power loss may also have undone an earlier operation
            let undone = crashed && !past.is_empty();
            if let Some(at) = stray(&changes, &[(a, b)]).filter(|x| !undone || *x >= 512) {
                ctx.fail("M01", "bytes outside of the range changed", || format!("byte {at}, operation {which}"));
            }
            if resized {
                ctx.fail("M01", "device resized", || String::new());
            }
            let now = lock(&sh).peek(0, 512.min(size as usize));
            past.push(old);
            for i in a..b.min(size) {
                let i = i as usize;
                if !past.iter().any(|o| now[i] == o[i]) && now[i] != want[i - a as usize] {
                    ctx.fail("M01", "byte is neither old nor new", || format!("byte {i}, operation {which}"));
                    break;
                }
            }
            match &r {
                Ok(n) => {
                    if failed > 0 {
                        ctx.fail("M01", "success although an operation failed", || format!("operation {which}"));
                    }
                    if size < b {
                        ctx.fail("M01", "success on a device that is too short", || format!("operation {which}"));
                    } else if now[a as usize..b as usize] != want[..] {
                        ctx.fail("M01", "success but not the requested bytes", || format!("operation {which}"));
                    }
                    if !lost.is_empty() {
                        ctx.fail("M01", "success but not flushed", || format!("operation {which}"));
                    }
                    if dev.pos != pos {
                        let p = dev.pos;
                        ctx.fail("M01", "position not restored", || format!("operation {which}: {p} instead of {pos}"));
                    }
                    if let Some(n) = n {
                        if *n as u64 != b - a {
                            ctx.fail("M01", "wrong number of bytes reported", || format!("operation {which}: {n}"));
                        }
                    }
                }
                Err(e) => {
                    if failed == 0 && size >= b {
                        ctx.fail("M01", "failed without a cause", || format!("operation {which}: {e:?}"));
                    }
                    if e.fatal() {
                        ctx.fail("M01", "crashed", || format!("operation {which}: {e:?}"));
                    }
                    if !crashed {
                        // what was not flushed stays in the cache
                        match ctx.src.choose(3) {
                            0 => {
                                let mut d = lock(&sh);
                                d.power_loss(&mut ctx.src);
                            }
                            1 => {
                                let mut d = lock(&sh);
                                d.drop_ghost();
                                d.sync_everything();
                            }
                            // and is still there when the next operation comes
                            _ => {}
                        }
                        let now = lock(&sh).peek(0, 512.min(size as usize));
                        for i in a..b.min(size) {
                            let i = i as usize;
                            if !past.iter().any(|o| now[i] == o[i]) && now[i] != want[i - a as usize] {
                                ctx.fail("M01", "byte is neither old nor new", || format!("byte {i}, operation {which}"));
                                break;
                            }
                        }
                    }
                }
            }
        } else {
            // reading
            if plan.crash_at.is_some() {
                plan = Plan::default();
            }
            {
                let mut d = lock(&sh);
                d.set_plan(plan);
                d.start_journal();
            }
            let which = ctx.src.choose(3);
            let l = lbs(lb);
            let r: Res<Vec<u8>> = ctx.call(&sh, || match which {
                0 => ProtectiveMBR::from_disk(&mut dev, l)
                    .map(|m| {
                        let mut v = m.to_bytes().to_vec();
                        let mut b = Boot([0; 512]);
                        b.0.copy_from_slice(&v);
                        if b.differs(&m).is_some() {
                            v[0] ^= 1;
                        }
                        v
                    })
                    .map_err(|e| mbr_err(&e)),
                1 => mbr::read_bootcode(&mut dev).map(|b| b.to_vec()).map_err(|e| io_err(&e)),
                _ => mbr::read_disk_signature(&mut dev).map(|b| b.to_vec()).map_err(|e| io_err(&e)),
            });
            let (a, b, need) = match which {
                0 => (0, 512, lb),
                1 => (0, 440, 440),
                _ => (440, 444, 444),
            };
            ctx.log(|| format!("boot sector read {which} at position {pos} -> {:?}", r.as_ref().map(|v| v.len())));
            let (failed, changed) = {
                let mut d = lock(&sh);
                let x = (d.failed_ops, !d.changes().is_empty() || d.resized);
                d.stop_journal();
                d.calm();
                x
            };
            if changed {
                ctx.fail("M01", "reading changed the device", || format!("operation {which}"));
            }
            let valid = size >= 512 && old[510..512] == [0x55, 0xAA];
            match &r {
                Ok(v) => {
                    if failed > 0 {
                        ctx.fail("M01", "success although an operation failed", || format!("read {which}"));
                    }
                    if size < need || (which == 0 && !valid) || v[..] != old[a..b] {
                        ctx.fail("M01", "read back something else", || format!("read {which}"));
                    }
                    if dev.pos != pos {
                        ctx.fail("M01", "position not restored", || format!("read {which}"));
                    }
                }
                Err(e) => {
                    if e.fatal() || (failed == 0 && size >= need && (which != 0 || valid)) {
                        ctx.fail("M01", "reading failed without a cause", || format!("read {which}: {e:?}"));
                    }
                    if failed > 0 && !e.is_io() {
                        ctx.fail("F01", "wrong status for a failed operation", || format!("{e:?}"));
                    }
                }
            }
        }
        ctx.src.end();
    }
}

/// Boot sectors read, changed and written back.
pub fn x04(ctx: &mut Ctx) {
    let lb = if ctx.src.chance(1, 3) { 4096u64 } else { 512 };
    let l = lbs(lb);
    let size = match ctx.src.choose_weighted(&[8, 1, 1]) {
        0 => lb * (1 + ctx.src.choose(20)),
        1 => 512 + ctx.src.choose(8192),
        _ => ctx.src.choose(512),
    };
    let fill = if ctx.src.chance(3, 4) { ctx.src.bits() | 1 } else { 0 };
    let sh = ctx.adopt(Disk::new(size, fill));
    let seed = ctx.src.bits();
    let (mut held, mut model) = gen_boot(seed);
    if let Some(m) = model.differs(&held) {
        ctx.fail("X04", "boot sector encoded wrong", || m);
    }
    scribble(ctx, &sh, size);
    let mut dev = Dev::new(&sh);
    let steps = 2 + ctx.src.small(14);
    for _ in 0..steps {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        let mut plan = if ctx.src.chance(1, 2) { gen_noise(ctx) } else { Plan::default() };
        if ctx.src.chance(1, 4) {
            let e = gen_err(ctx, 9);
            plan.errs.push(e);
        }
        match ctx.src.choose_weighted(&[5, 6, 5, 2, 2, 1]) {
            0 => {
                let old = lock(&sh).peek(0, size.min(512) as usize);
                lock(&sh).set_plan(plan);
                let r = ctx.call(&sh, || ProtectiveMBR::from_disk(&mut dev, l).map_err(|e| mbr_err(&e)));
                ctx.log(|| format!("reading the boot sector -> {:?}", r.as_ref().map(|_| ())));
                let failed = lock(&sh).failed_ops;
                lock(&sh).calm();
                let valid = size >= lb && old[510..512] == [0x55, 0xAA];
                match r {
                    Ok(m) => {
                        ctx.nontrivial = true;
                        if !valid || failed > 0 {
                            ctx.fail("X04", "not a boot sector", || format!("signature {:?}", old.get(510..512)));
                            return;
                        }
                        model.0.copy_from_slice(&old);
                        if let Some(x) = model.differs(&m) {
                            ctx.fail("X04", "boot sector decoded wrong", || x);
                        }
                        held = m;
                    }
                    Err(e) if e.fatal() || (valid && failed == 0) => {
                        ctx.fail("X04", "reading a boot sector failed", || format!("{e:?}"))
                    }
                    _ => {}
                }
            }
            1 => {
                let (what, seed) = (ctx.src.choose(7), ctx.src.bits());
                let r = guarded(|| Ok(model.change(&mut held, what, seed)));
                ctx.log(|| format!("changing part {what} -> {r:?}"));
                match r {
                    Ok(None) => {}
                    x => ctx.fail("X04", "wrong part of a boot sector", || format!("{x:?}")),
                }
                if let Some(x) = model.differs(&held) {
                    ctx.fail("X04", "changing one part changed another", || format!("part {what}: {x}"));
                }
            }
            2 => {
                let whole = ctx.src.chance(1, 2);
                let old = lock(&sh).peek(0, size.min(512) as usize);
                lock(&sh).set_plan(plan);
                let r = ctx.call(&sh, || {
                    if whole { held.overwrite_lba0(&mut dev) } else { held.update_conservative(&mut dev) }.map_err(|e| mbr_err(&e))
                });
                ctx.log(|| format!("writing {} -> {r:?}", if whole { "all" } else { "the records" }));
                lock(&sh).calm();
                if r.is_ok() {
                    ctx.nontrivial = true;
                    let now = lock(&sh).peek(0, size.min(512) as usize);
                    let from = if whole { 0 } else { 446 };
                    let bad = (0..now.len()).find(|i| now[*i] != if *i < from { old[*i] } else { model.0[*i] });
                    if let Some(i) = bad.or(if now.len() < 512 { Some(now.len()) } else { None }) {
                        ctx.fail("X04", "boot sector stored wrong", || format!("byte {i}"));
                    }
                } else if model.differs(&held).is_some() {
                    ctx.fail("X04", "a failed write changed the boot sector in memory", String::new);
                }
            }
            3 => {
                // bytes from somewhere else
                let len = *ctx.src.pick(&[lb as usize, lb as usize, 512, 4096, 0, 511, 513, 4095, 1024]);
                let mut b: Vec<u8> = vec![];
                let seed = ctx.src.bits();
                for i in 0..(len as u64).div_ceil(8) {
                    b.extend_from_slice(&mix(seed, i).to_le_bytes());
                }
                b.truncate(len);
                if b.len() >= 512 && !ctx.src.chance(1, 5) {
                    b[510..512].copy_from_slice(&[0x55, 0xAA]);
                } else if b.len() >= 512 && ctx.src.chance(1, 2) {
                    b[510 + ctx.src.choose(2) as usize] = *ctx.src.pick(&[0x55, 0xAA]);
                }
                let valid = len as u64 == lb && b[510..512] == [0x55, 0xAA];
                let r = guarded(|| ProtectiveMBR::from_bytes(&b, l).map_err(|e| mbr_err(&e)));
                ctx.log(|| format!("decoding {len} bytes -> {:?}", r.as_ref().map(|_| ())));
                match r {
                    Ok(m) if valid => {
                        model.0.copy_from_slice(&b[..512]);
                        if let Some(x) = model.differs(&m) {
                            ctx.fail("X04", "boot sector decoded wrong", || x);
                        }
                        held = m;
                    }
                    Err(e) if !valid && !e.fatal() => {}
                    r => ctx.fail("X04", "not a boot sector", || format!("{len} bytes: {:?}", r.map(|_| ()))),
                }
                let n = ctx.src.choose(20) as usize;
                if n != 16 {
                    match guarded(|| PartRecord::from_bytes(&vec![1; n]).map_err(|e| mbr_err(&e))) {
                        Err(e) if !e.fatal() => {}
                        x => ctx.fail("X04", "not a record", || format!("{n} bytes: {x:?}")),
                    }
                }
            }
            4 => scribble(ctx, &sh, size),
            _ => {
                let mut d = lock(&sh);
                d.power_loss(&mut ctx.src);
                d.calm();
                drop(d);
                dev = Dev::new(&sh);
            }
        }
        ctx.src.end();
    }
}

/// Another program writes to the boot sector.
fn scribble(ctx: &mut Ctx, sh: &Shared, size: u64) {
    let seed = ctx.src.bits();
    let mut b: [u8; 512] = fill_bytes(seed);
    if !ctx.src.chance(1, 4) {
        b[510..512].copy_from_slice(&[0x55, 0xAA]);
    } else if ctx.src.chance(1, 2) {
        // half of a signature
        b[510 + ctx.src.choose(2) as usize] = *ctx.src.pick(&[0x55, 0xAA]);
    }
    if size >= 512 {
        lock(sh).poke(0, &b);
    }
}

// ---------------------------------------------------------------- failures while opening (F01)

pub fn f01(ctx: &mut Ctx) {
    let p = Profile { steps: 6, cfg: CfgWeights { readonly: 0, strict: 0, ro_backup: 0, consent: 5 }, ..Profile::default() };
    let w = hist::history(ctx, &p);
    let rec = &w.disks[0];
    let (Some(t), true) = (rec.acked.clone(), rec.in_step && rec.maybe.is_empty()) else { return };
    let lb = rec.lb;
    let base = w.with_disk(0, |d| {
        let mut f = d.fork();
        f.growable = false;
        f
    });
    let mut base = base;
    let mbr_ok = ctx.src.chance(3, 4);
    if mbr_ok {
        let m = gen_mbr(ctx.src.bits()).to_bytes();
        base.poke(0, &m);
    }
    let (tp, tb) = (ondisk::primary(&base, lb), ondisk::backup(&base, lb));
    let (Some(tp), Some(tb)) = (tp, tb) else { return };
    let trials = 2 + ctx.src.small(12);
    for _ in 0..trials {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        let mut plan = hist_noise(ctx);
        let n = 1 + ctx.src.choose(2);
        for _ in 0..n {
            let e = gen_err(ctx, 36);
            plan.errs.push(e);
        }
        let mut f = base.fork();
        f.set_plan(plan);
        let sh = ctx.adopt(f);
        let cfg = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 50, ro_backup: 20, consent: 20, strict: 35 });
        let kind = ctx.src.choose_weighted(&[6, 2, 1, 1]);
        let l = lbs(lb);
        let mut dev = Dev::at(&sh, if ctx.src.chance(1, 4) { ctx.src.choose(100_000) } else { 0 });
        ctx.nontrivial = true;
        match kind {
            0 => {
                let r = open_at(ctx, &cfg, &sh);
                ctx.log(|| format!("open {cfg:?} -> {}", brief(&r)));
                match r {
                    Ok(d) => {
                        let got = d.table();
                        if got != t {
                            ctx.fail("F01", "not the true content", || format!("{} instead of {}", got.brief(), t.brief()));
                        }
                        let m = d.mem();
                        for (which, s, truth) in [("primary", &m.primary, &tp.hdr), ("backup", &m.backup, &tb.hdr)] {
                            match s {
                                Ok(h) if h == truth => {}
                                Ok(h) => ctx.fail("F01", "not the true content", || format!("{which} {h:?}")),
                                Err(e) if e.is_io() => ctx.probe("a header reported an I/O error"),
                                Err(e) => ctx.fail("F01", "wrong status for a failed operation", || format!("{which} header: {e:?}")),
                            }
                        }
                        if lock(&sh).errs_fired > 0 {
                            ctx.probe("opened although an operation failed");
                        }
                    }
                    Err(e) => {
                        if lock(&sh).errs_fired == 0 {
                            ctx.fail("F01", "open failed without a cause", || format!("{e:?}"));
                        } else if !e.is_io() {
                            ctx.fail("F01", "wrong status for a failed operation", || format!("open: {e:?}"));
                        } else if matches!(&e, E::Io(_, _, m) if m.contains("CRC") || m.contains("unsupported partition")) {
                            ctx.fail("F01", "an I/O error was reported as a corrupt table", || format!("open: {e:?}"));
                        } else {
                            ctx.probe("open reported an I/O error");
                        }
                        if e.fatal() {
                            ctx.fail("O01", "open crashed", || format!("{e:?}"));
                        }
                    }
                }
            }
            1 => {
                let r = ctx.call(&sh, || ProtectiveMBR::from_disk(&mut dev, l).map(|m| m.to_bytes()).map_err(|e| mbr_err(&e)));
                ctx.log(|| format!("probe of the boot sector -> {:?}", r.as_ref().map(|_| ())));
                let bytes = base.peek(0, 512);
                match r {
                    Ok(b) => {
                        if b[..] != bytes[..] {
                            ctx.fail("F01", "not the true content", || "boot sector".into());
                        }
                    }
                    Err(e) if mbr_ok && !e.is_io() => {
                        ctx.fail("F01", "wrong status for a failed operation", || format!("boot sector: {e:?}"))
                    }
                    _ => {}
                }
            }
            2 => {
                let r = ctx.call(&sh, || {
                    gpt::header::read_header_from_arbitrary_device(&mut dev, l).map(|h| hdr(&h)).map_err(|e| hdr_err(&e))
                });
                ctx.log(|| format!("read_header -> {r:?}"));
                match r {
                    Ok(h) if h == tp.hdr => {}
                    Ok(h) => ctx.fail("F01", "not the true content", || format!("{h:?}")),
                    Err(e) if e.is_io() => {}
                    Err(e) => ctx.fail("F01", "wrong status for a failed operation", || format!("header: {e:?}")),
                }
            }
            _ => {
                let h = {
                    let sh2 = base.fork().shared();
                    gpt::header::read_header_from_arbitrary_device(&mut Dev::new(&sh2), l)
                };
                if let Ok(h) = h {
                    let r = ctx.call(&sh, || {
                        gpt::partition::file_read_partitions(&mut dev, &h, l).map(|p| ents(&p)).map_err(|e| io_err(&e))
                    });
                    match r {
                        Ok(e) if e == t.ents => {}
                        Ok(e) => ctx.fail("F01", "not the true content", || format!("{} entries", e.len())),
                        Err(E::Io(_, _, m)) if m.contains("CRC") => {
                            ctx.fail("F01", "wrong status for a failed operation", || format!("entries: {m}"))
                        }
                        Err(e) if e.fatal() => ctx.fail("O01", "reading entries crashed", || format!("{e:?}")),
                        _ => {}
                    }
                }
            }
        }
        // the device works again
        lock(&sh).calm();
        let mut c = cfg.clone();
        c.strict = true;
        match open_at(ctx, &c, &sh) {
            Ok(d) if d.table() == t => {}
            r => ctx.fail("F01", "no recovery after the failure", || brief(&r)),
        }
        ctx.src.end();
    }
}

// ---------------------------------------------------------------- retry (E03)

pub fn e03(ctx: &mut Ctx) {
    let p = Profile {
        steps: 6,
        cfg: CfgWeights { readonly: 0, strict: 0, ro_backup: 8, consent: 0 },
        loss_after_write: 0,
        edit_faults: [6, 1, 0],
        write_faults: [6, 1, 0, 0],
        ..Profile::default()
    };
    let mut w = hist::history(ctx, &p);
    if ctx.done() {
        return;
    }
    if ctx.src.chance(1, 4) && w.disks[0].in_step && w.disks[0].acked.is_some() {
        hist::damage(ctx, &mut w, 0, &p);
    }
    if w.objs.is_empty() || !w.objs[0].cfg.writable || ctx.done() {
        return;
    }
    let cfg = w.objs[0].cfg.clone();
    // the undisturbed twin
    let tw = w.with_disk(0, |d| {
        d.sync_everything();
        d.fork()
    });
    let twin_sh = ctx.adopt(tw);
    let mut twin = w.objs[0].d.on_device(Dev::new(&twin_sh), true);
    let rounds = 1 + ctx.src.small(5);
    for _ in 0..rounds {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        // an edit of both
        if ctx.src.chance(1, 2) {
            let st = getrandom::sim_state();
            let at = ctx.src.rec.len();
            match ctx.src.choose(4) {
                0 => w.add_by_size(ctx, 0, Faults::None),
                1 => w.remove(ctx, 0),
                2 => w.update_guid(ctx, 0),
                _ => w.replace(ctx, 0, Faults::None),
            }
            let _ = (st, at);
            if ctx.done() {
                ctx.src.end();
                return;
            }
            // the twin gets the same table
            let t = w.objs[0].d.table();
            let pp = t.ents.iter().map(|(i, e)| (*i, part(e))).collect();
            let r = guarded(|| {
                twin.take_partitions();
                twin.update_partitions(pp).map_err(|e| gpt_err(&e))?;
                twin.update_guid(Some(t.guid));
                Ok(())
            });
            // the size of the device is looked at when entries are replaced, but not by every edit
            let moved = cfg.ro_backup && w.objs[0].geo.bak != w.last_lba(0);
            if r.is_err() || moved {
                // the entries were accepted on the object but cannot be replaced as a whole
                twin = w.objs[0].d.on_device(Dev::new(&twin_sh), true);
            }
        }
        let before = w.objs[0].d.mem();
        let e = w.write(ctx, 0, Faults::Errors, false);
        if e.fatal || ctx.done() {
            ctx.src.end();
            return;
        }
        if !e.ok {
            ctx.probe("a write failed");
            let after = w.objs[0].d.mem();
            if after.table != before.table {
                ctx.fail("E03", "failed write changed the table in memory", || before.diff(&after));
            }
            if w.with_disk(0, |d| d.not_durable().len()) > 0 {
                ctx.probe("unsynced data left by a failed write");
            }
        }
        ctx.src.end();
    }
    // the device works again
    ctx.nontrivial = true;
    let m = w.objs[0].d.table();
    let e = w.write(ctx, 0, Faults::None, false);
    if !e.ok {
        ctx.fail("E03", "retry failed", || "the device works again".into());
        return;
    }
    let r = guarded(|| twin.write_inplace().map_err(|e| gpt_err(&e)));
    if let Err(e) = r {
        ctx.fail("E03", "undisturbed write failed", || format!("{e:?}"));
        return;
    }
    let (a, b) = (w.with_disk(0, |d| d.fork_durable()), lock(&twin_sh).fork_durable());
    if let Some(s) = first_difference(&a, &b) {
        ctx.fail("E03", "other bytes than an undisturbed write", || format!("sector {s} for {}, {cfg:?}", m.brief()));
    }
}

/// First sector in which two disks differ.
pub fn first_difference(a: &Disk, b: &Disk) -> Option<u64> {
    if a.size != b.size {
        return Some(a.size.min(b.size) / SEC);
    }
    let mut s: Vec<u64> = a.touched().chain(b.touched()).collect();
    s.sort_unstable();
    s.dedup();
    s.into_iter().find(|s| a.sector(*s) != b.sector(*s))
}

// ---------------------------------------------------------------- readers and a writer (S01)

enum Ev {
    WriteStart(usize),
    WriteEnd(usize, bool),
    Open { start: u64, end: u64, r: Result<Table, E>, strict: bool },
}

pub fn s01(ctx: &mut Ctx) {
    let p = Profile {
        file: 0,
        steps: 3,
        cfg: CfgWeights { readonly: 0, strict: 0, ro_backup: 0, consent: 5 },
        write_faults: [1, 0, 0, 0],
        edit_faults: [1, 0, 0],
        loss_after_write: 0,
        w: hist::Weights { grow: 0, damage: 0, power: 0, consume: 0, reopen: 0, recreate: 0, ..Profile::default().w },
        tight: 60,
        ..Profile::default()
    };
    let mut w = hist::history(ctx, &p);
    if ctx.done() || w.objs.is_empty() {
        return;
    }
    // a table to start from
    let e = w.write(ctx, 0, Faults::None, false);
    if !e.ok || ctx.done() {
        return;
    }
    if ctx.src.chance(1, 5) && w.disks[0].in_step {
        hist::damage(ctx, &mut w, 0, &p);
        if w.objs.is_empty() || ctx.done() {
            return;
        }
    }
    let both = w.disks[0].in_step;
    let lb = w.disks[0].lb;
    let sh = w.disks[0].sh.clone();
    let geo = w.objs[0].geo.clone();
    let first = w.objs[0].m.clone();
    let nw = 1 + ctx.src.small(3);
    // versions are decided beforehand, so that threads draw schedule decisions only
    let mut versions = vec![first];
    for _ in 0..nw {
        let prev = versions.last().unwrap().clone();
        let mut t = match ctx.src.choose_weighted(&[4, 2, 2]) {
            0 => gen_table(&mut ctx.src, &geo, 40),
            1 => {
                let mut t = prev.clone();
                if let Some(e) = t.ents.values_mut().next() {
                    e.flags = gen_flags(&mut ctx.src);
                    e.name = gen_name(&mut ctx.src, false);
                }
                t
            }
            _ => {
                let mut t = prev.clone();
                let k = t.ents.keys().next().copied();
                if let Some(k) = k {
                    t.ents.remove(&k);
                }
                t
            }
        };
        if ctx.src.chance(2, 3) {
            t.guid = prev.guid;
        }
        versions.push(t);
    }
    let readers = 1 + ctx.src.choose(2) as usize;
    let opens: Vec<Vec<(Cfg, u64)>> = (0..readers)
        .map(|_| {
            let n = 1 + ctx.src.choose(4);
            (0..n)
                .map(|_| {
                    let mut c = gen_cfg(&mut ctx.src, lb, &CfgWeights { readonly: 70, strict: 25, ro_backup: 10, consent: 0 });
                    c.lb = lb;
                    (c, ctx.src.choose(60))
                })
                .collect()
        })
        .collect();
    let rate = *ctx.src.pick(&[6u64, 2, 3, 12, 40]);
    let faults = if ctx.src.chance(1, 4) { gen_noise(ctx) } else { Plan::default() };
    let failing = ctx.src.chance(1, 5);
    let mut plan = faults;
    if failing {
        let mut e = gen_err(ctx, 60);
        e.dur = e.dur.min(3);
        plan.errs.push(e);
    }
    lock(&sh).set_plan(plan);
    let src = std::mem::replace(&mut ctx.src, crate::choice::Src::random(0));
    let sched = Sched::new(src, 1 + readers, rate);
    let log: Arc<Mutex<Vec<Ev>>> = Arc::new(Mutex::new(vec![]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let obj = w.objs.remove(0);
    let AnyDisk::D(mut d) = obj.d else { return };
    let rng = getrandom::sim_state();
    {
        let log = log.clone();
        let vs = versions.clone();
        bodies.push(Box::new(move || {
            getrandom::sim_seed(rng ^ 1);
            for (i, v) in vs.iter().enumerate().skip(1) {
                let pp = v.ents.iter().map(|(i, e)| (*i, part(e))).collect();
                let ok = guarded(|| {
                    d.update_guid(Some(v.guid));
                    d.update_partitions(pp).map_err(|e| gpt_err(&e))
                })
                .is_ok();
                if !ok {
                    // an I/O error in an edit, what would be written is unclear
                    break;
                }
                let mut tries = 0;
                loop {
                    log.lock().unwrap().push(Ev::WriteStart(i));
                    sched::with(|s| s.seq += 1);
                    let r = guarded(|| d.write_inplace().map_err(|e| gpt_err(&e)));
                    sched::with(|s| s.seq += 1);
                    log.lock().unwrap().push(Ev::WriteEnd(i, r.is_ok()));
                    tries += 1;
                    if r.is_ok() || tries > 3 {
                        break;
                    }
                }
            }
        }));
    }
    for (k, list) in opens.into_iter().enumerate() {
        let log = log.clone();
        let sh = sh.clone();
        bodies.push(Box::new(move || {
            getrandom::sim_seed(rng ^ (100 + k as u64));
            for (cfg, wait) in list {
                for _ in 0..wait {
                    sched::point();
                }
                let start = log.lock().unwrap().len() as u64;
                let r = open_dev(&cfg, Dev::new(&sh));
                let mut l = log.lock().unwrap();
                let end = l.len() as u64;
                l.push(Ev::Open { start, end, r: r.map(|d| d.table()), strict: cfg.strict });
            }
        }));
    }
    let st = sched.run(bodies);
    ctx.src = st.src;
    ctx.stats.n[SWITCHES] += st.switches;
    ctx.note(st.trace.iter().fold(0, |h, (a, b)| mix(h, (*a as u64) << 32 ^ *b)));
    lock(&sh).calm();
    let tr = st.trace;
    ctx.log(|| {
        let v: Vec<String> = tr.iter().take(400).map(|(t, p)| format!("{p}:{}", if *t == 0 { "W".into() } else { format!("R{t}") })).collect();
        format!("schedule (operation:thread) {}", v.join(" "))
    });
    let log = std::mem::take(&mut *log.lock().unwrap());
    // judge
    let known = |t: &Table| -> Vec<usize> {
        versions.iter().enumerate().filter(|(_, v)| v.same_content(t)).map(|x| x.0).collect()
    };
    let mut any_failed = false;
    for (n, ev) in log.iter().enumerate() {
        match ev {
            Ev::WriteStart(i) => ctx.log(|| format!("[{n}] write of version {i} starts")),
            Ev::WriteEnd(i, ok) => {
                any_failed |= !ok;
                ctx.log(|| format!("[{n}] write of version {i} ends, ok {ok}"));
            }
            Ev::Open { start, end, r, strict } => {
                let mut completed = 0;
                let mut in_progress = false;
                let mut broken = false;
                for e in &log[..*start as usize] {
                    match e {
                        Ev::WriteStart(_) => in_progress = true,
                        Ev::WriteEnd(i, ok) => {
                            in_progress = false;
                            broken = !ok;
                            if *ok {
                                completed = *i;
                            }
                        }
                        _ => {}
                    }
                }
                let mut latest = 0;
                for e in &log[..*end as usize] {
                    if let Ev::WriteStart(i) = e {
                        latest = latest.max(*i);
                    }
                }
                let overlap =
                    in_progress || log[*start as usize..*end as usize].iter().any(|e| matches!(e, Ev::WriteStart(_)));
                if overlap {
                    ctx.nontrivial = true;
                    ctx.probe("open overlapped a write");
                }
                ctx.log(|| {
                    format!(
                        "[{n}] open in {start}..{end} (strict {strict}, may be version {completed}-{latest}): {}",
                        match r {
                            Ok(t) => format!("version {:?} {}", known(t), t.brief()),
                            Err(e) => format!("{e:?}"),
                        }
                    )
                });
                match r {
                    Ok(t) => {
                        let v = known(t);
                        if v.is_empty() {
                            ctx.fail("S01", "a mixture was read", || t.brief());
                        } else if !v.iter().any(|v| (completed..=latest).contains(v)) {
                            ctx.fail("S01", "a superseded table was read", || {
                                format!("version {v:?} while {completed} was already written")
                            });
                        } else if overlap {
                            ctx.probe(if v.contains(&completed) { "overlapping open read the old table" } else { "overlapping open read the new table" });
                        }
                    }
                    Err(e) if e.fatal() => ctx.fail("S01", "open crashed", || format!("{e:?}")),
                    Err(e) => {
                        let possible = !*strict || both || completed > 0;
                        if possible && !overlap && !broken && !any_failed && !failing {
                            ctx.fail("S01", "open failed without a write", || format!("{e:?}"));
                        }
                        if overlap {
                            ctx.probe("overlapping open refused");
                        }
                    }
                }
            }
        }
    }
}
