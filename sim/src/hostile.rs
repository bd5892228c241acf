//! Arbitrary and hostile media (O01).

use crate::choice::mix;
use crate::env::*;
use crate::hist::{self, Profile};
use crate::model::*;
use crate::ondisk::{self, crc32, Ent, Hdr, Layout};
use crate::sim::*;
use crate::world::*;
use gpt::mbr::{self, ProtectiveMBR};
use std::collections::BTreeMap;
use uuid::Uuid;

fn nasty(ctx: &mut Ctx, last: u64) -> u64 {
    let src = &mut ctx.src;
    match src.choose_weighted(&[3, 3, 2, 2, 2, 1]) {
        0 => src.choose(70),
        1 => (last + 2).saturating_sub(src.choose(70)),
        2 => u64::MAX - src.choose(40),
        3 => *src.pick(&[0, 1, 2, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX / 512, u64::MAX / 512 + 1, u64::MAX / 4096, 1 << 32, 1 << 55]),
        4 => src.choose(last.saturating_add(10).max(1)),
        _ => src.bits(),
    }
}

fn nasty32(ctx: &mut Ctx) -> u32 {
    let src = &mut ctx.src;
    match src.choose_weighted(&[4, 3, 2, 2, 1]) {
        0 => 128,
        1 => src.choose(300) as u32,
        2 => *src.pick(&[0, 1, 64, 127, 128, 129, 256, 512, 4096, 1 << 16, 1 << 25, (1 << 25) + 1, 1 << 31, u32::MAX]),
        3 => u32::MAX - src.choose(3) as u32,
        _ => src.bits() as u32,
    }
}

/// Puts something on the disk that a program that means no good could have put there.
fn fill(ctx: &mut Ctx, d: &mut Disk, lb: u64) {
    let last = ondisk::last_lba(d, lb);
    match ctx.src.choose_weighted(&[8, 3, 2, 1, 4]) {
        0 | 1 | 4 => {
            // well-checksummed headers
            let n = match ctx.src.choose_weighted(&[5, 2, 1]) {
                0 => 128u32,
                1 => 1 + ctx.src.choose(300) as u32,
                _ => 1 + ctx.src.choose(6000) as u32,
            };
            let len = n as u64 * 128;
            if d.size < 3 * lb {
                return;
            }
            let std = Layout::array_blocks(n, lb);
            let mut l = Layout {
                num_parts: n,
                part_size: 128,
                first_usable: 2 + std,
                last_usable: last.saturating_sub(std + 1),
                primary_start: 2,
                backup_start: last.saturating_sub(std),
                backup_lba: last,
            };
            if ctx.src.chance(1, 3) {
                l.first_usable = nasty(ctx, last);
            }
            if ctx.src.chance(1, 3) {
                l.last_usable = nasty(ctx, last);
            }
            // entries
            let mut ents = BTreeMap::new();
            let k = ctx.src.small(9).min(n as u64);
            for i in 0..k {
                ctx.src.begin();
                let id = match ctx.src.choose(3) {
                    0 | 1 => i as u32 + 1,
                    _ => 1 + ctx.src.choose(n as u64) as u32,
                };
                let first = nasty(ctx, last);
                let end = match ctx.src.choose(3) {
                    0 => first.saturating_add(ctx.src.choose(100)),
                    _ => nasty(ctx, last),
                };
                let e = Ent {
                    ty: if ctx.src.chance(1, 8) { Uuid::nil() } else { gen_type(&mut ctx.src).guid },
                    guid: rand_uuid(&mut ctx.src),
                    first,
                    last: end,
                    flags: gen_flags(&mut ctx.src),
                    name: gen_name(&mut ctx.src, false),
                };
                ents.insert(id, e);
                ctx.src.end();
            }
            if ctx.src.chance(1, 6) {
                // all of them
                let r = ctx.src.bits();
                for i in 0..n.min(6000) {
                    let f = mix(r, i as u64) % (last + 1);
                    ents.insert(i + 1, Ent {
                        ty: Uuid::from_u64_pair(r, i as u64 | 1),
                        guid: Uuid::from_u64_pair(i as u64, r | 1),
                        first: f,
                        last: f + mix(r, i as u64 ^ 99) % 50,
                        flags: 0,
                        name: String::new(),
                    });
                }
            }
            let mut array = vec![0u8; len as usize];
            for (id, e) in &ents {
                let o = (*id as usize - 1) * 128;
                let mut b = e.encode(128);
                if id % 5 == 4 {
                    // unpaired surrogates
                    b[56..60].copy_from_slice(&[0x00, 0xD8, 0x41, 0xDC]);
                    b[60..62].copy_from_slice(&[0x01, 0xDC]);
                }
                array[o..o + 128].copy_from_slice(&b);
            }
            let mut p = Hdr {
                revision: 0x10000,
                header_size: 92,
                crc: 0,
                reserved: 0,
                my_lba: 1,
                alt_lba: last,
                first_usable: l.first_usable,
                last_usable: l.last_usable,
                guid: rand_uuid(&mut ctx.src),
                part_start: 2,
                num_parts: n,
                part_size: 128,
                crc_parts: crc32(&array),
            };
            let mut b = p.clone();
            b.my_lba = last;
            b.alt_lba = 1;
            b.part_start = l.backup_start;
            for (which, h) in [("primary", &mut p), ("backup", &mut b)] {
                let k = ctx.src.small(4);
                for _ in 0..k {
                    match ctx.src.choose(12) {
                        0 => h.my_lba = nasty(ctx, last),
                        1 => h.alt_lba = nasty(ctx, last),
                        2 => h.first_usable = nasty(ctx, last),
                        3 => h.last_usable = nasty(ctx, last),
                        4 => h.part_start = nasty(ctx, last),
                        5 => h.num_parts = nasty32(ctx),
                        6 => h.part_size = nasty32(ctx),
                        7 => h.header_size = nasty32(ctx),
                        8 => h.revision = nasty32(ctx),
                        9 => h.reserved = nasty32(ctx),
                        10 => h.crc_parts = ctx.src.bits() as u32,
                        _ => h.guid = Uuid::nil(),
                    }
                }
                // a table of many gigabytes that really lies on the device may be read
                if d.size > 1 << 32 && h.part_size == 128 {
                    h.num_parts = h.num_parts.min(1 << 16);
                }
                // make the checksum fit what the header points to, where that is possible
                let start = h.part_start.checked_mul(lb);
                let bytes = h.num_parts as u64 * h.part_size as u64;
                if which == "primary" || ctx.src.chance(3, 4) {
                    if let Some(s) = start {
                        if s.saturating_add(len) <= d.size && s < d.size {
                            d.poke(s, &array);
                        }
                    }
                }
                if bytes <= 1 << 22 && ctx.src.chance(5, 6) {
                    if let Some(s) = start {
                        if s.saturating_add(bytes) <= d.size {
                            h.crc_parts = crc32(&d.peek(s, bytes as usize));
                        }
                    }
                }
                h.seal();
            }
            for (h, at) in [(&p, 1), (&b, last)] {
                let gone = ctx.src.chance(1, 5);
                if !gone && (at + 1) * lb <= d.size {
                    d.poke(at * lb, &h.encode());
                }
            }
            ctx.log(|| format!("primary {p:?}\n    backup {b:?}\n    entries {}", ents.len()));
        }
        2 => {
            // signatures in front of garbage
            if d.size >= 2 * lb {
                d.poke(lb, b"EFI PART");
                d.poke(last * lb, b"EFI PART\x00\x00\x01\x00\x5c\x00\x00\x00");
            }
            ctx.log(|| "signatures only".into());
        }
        _ => ctx.log(|| "no table".into()),
    }
    if ctx.src.chance(1, 4) && d.size >= 512 {
        let m = crate::scen::gen_mbr(ctx.src.bits()).to_bytes();
        d.poke(0, &m);
    }
    let k = ctx.src.small(3);
    if ctx.src.chance(1, 4) {
        for _ in 0..k {
            let at = ctx.src.choose(d.size.max(1));
            let b = ctx.src.bits() as u8;
            if at < d.size {
                d.poke(at, &[b]);
            }
        }
    }
}

pub fn o01(ctx: &mut Ctx) {
    // ordinary use must not crash either
    if ctx.src.chance(1, 4) {
        let p = Profile { steps: 20, edit_faults: [5, 1, 3], write_faults: [5, 1, 3, 1], ..Profile::default() };
        hist::history(ctx, &p);
        ctx.nontrivial = true;
        return;
    }
    let lb = if ctx.src.chance(1, 3) { 4096u64 } else { 512 };
    let size = match ctx.src.choose_weighted(&[5, 2, 2, 2, 1]) {
        0 => lb * (68 + ctx.src.choose(200)),
        1 => ctx.src.choose(4 * 4096 + 2),
        2 => ctx.src.choose(lb * 80),
        3 => lb * (1 + ctx.src.choose(4000)),
        _ => match ctx.src.choose(3) {
            0 => lb << 33,
            1 => i64::MAX as u64 - ctx.src.choose(600),
            _ => u64::MAX - ctx.src.choose(600),
        },
    };
    let mut d = Disk::new(size, if ctx.src.chance(1, 3) { ctx.src.bits() | 1 } else { 0 });
    if d.size > 0 && d.size < i64::MAX as u64 {
        fill(ctx, &mut d, lb);
    } else if d.size > 0 {
        d.poke(lb, b"EFI PART");
    }
    ctx.log(|| format!("{size} bytes, block size {lb}"));
    let mut plan = if ctx.src.chance(1, 3) { gen_noise(ctx) } else { Plan::default() };
    if ctx.src.chance(1, 3) {
        let e = gen_err(ctx, 30);
        plan.errs.push(e);
    }
    if ctx.src.chance(1, 6) {
        plan.flips.push((ctx.src.choose(20), ctx.src.choose(92 * 8)));
    }
    d.set_plan(plan.clone());
    let sh = ctx.adopt(d);
    ctx.nontrivial = true;
    // what may be read and held: a few passes over tables that cannot be bigger than the device
    let read_limit = |passes: u64| (1u64 << 16).saturating_add(size.min(1 << 40).saturating_mul(passes));
    let mem_limit = (2u64 << 20) + size.min(1 << 28) * 24;
    let clb = if ctx.src.chance(1, 12) { 4608 - lb } else { lb };
    let cfg = gen_cfg(&mut ctx.src, clb, &CfgWeights { readonly: 20, strict: 20, ro_backup: 15, consent: 30 });
    let l = lbs(clb);
    // probing
    let mut dev = Dev::new(&sh);
    macro_rules! step {
        ($what:expr, $passes:expr, $f:expr) => {{
            {
                let mut g = lock(&sh);
                g.bytes_read = 0;
            }
            let f = $f;
            let (r, peak) = peak_memory(|| ctx.call(&sh, f));
            let br = lock(&sh).bytes_read;
            if let Err(e) = &r {
                if e.fatal() {
                    let c = format!("{}: {}", $what, e.class());
                    ctx.fail("O01", &c, || format!("{e:?}"));
                }
            }
            if br > read_limit($passes) {
                ctx.fail("O01", "reads more than is proportionate", || format!("{}: {br} bytes of a device of {size}", $what));
            }
            if peak > mem_limit {
                ctx.fail("O01", "needs more memory than is proportionate", || format!("{}: {peak} bytes for a device of {size}", $what));
            }
            r
        }};
    }
    if ctx.src.chance(1, 2) {
        let _ = step!("probing the boot sector", 1, || {
            ProtectiveMBR::from_disk(&mut dev, l).map(|m| (m.to_bytes(), format!("{m:?}"))).map_err(|e| mbr_err(&e))
        });
        let _ = step!("reading the boot code", 1, || mbr::read_bootcode(&mut dev).map_err(|e| io_err(&e)));
        let _ = step!("reading the signature", 1, || mbr::read_disk_signature(&mut dev).map_err(|e| io_err(&e)));
    }
    if ctx.src.chance(1, 2) {
        let h = step!("reading a header", 2, || {
            gpt::header::read_header_from_arbitrary_device(&mut dev, l).map_err(|e| hdr_err(&e))
        });
        if let Ok(h) = h {
            let _ = format!("{h} {h:?}");
            let r = step!("reading the entries", 2, || {
                gpt::partition::file_read_partitions(&mut dev, &h, l).map(|p| p.len()).map_err(|e| io_err(&e))
            });
            ctx.log(|| format!("read_header Ok, entries {r:?}"));
        }
    }
    if ctx.done() {
        return;
    }
    let c = cfg.gpt();
    let d2 = Dev::new(&sh);
    let r = step!("opening", 6, || c.open_from_device(d2).map(AnyDisk::D).map_err(|e| gpt_err(&e)));
    ctx.log(|| format!("open {cfg:?} -> {}", crate::scen::brief(&r)));
    let (mut d, opened) = match r {
        Ok(d) => (d, true),
        Err(_) => {
            // installers put a new table over whatever is there
            let d2 = Dev::new(&sh);
            let c = cfg.gpt();
            match step!("creating", 1, || c.create_from_device(d2, None).map(AnyDisk::D).map_err(|e| gpt_err(&e))) {
                Ok(d) => (d, false),
                Err(_) => return,
            }
        }
    };
    ctx.probe(if opened { "opened" } else { "created over it" });
    crate::world::check_types(ctx, &d);
    crate::world::check_numbers(ctx, &d);
    let steps = 2 + ctx.src.small(8);
    for _ in 0..steps {
        if ctx.done() {
            return;
        }
        ctx.src.begin();
        if ctx.src.chance(1, 4) {
            let e = gen_err(ctx, 20);
            lock(&sh).set_plan(Plan { errs: vec![e], ..Plan::default() });
        } else {
            lock(&sh).calm();
        }
        let last = lock(&sh).size / clb;
        match ctx.src.choose_weighted(&[4, 4, 4, 3, 2, 3, 4, 1]) {
            0 => {
                let _ = step!("inspecting", 1, || Ok(on!(&d, d => {
                    for p in d.partitions().values() {
                        let _ = (p.sectors_len().is_ok(), p.bytes_len(l).is_ok(), p.bytes_start(l).is_ok(), p.is_used(), format!("{p} {p:?}").len());
                    }
                    let _ = format!("{d:?} {:?} {:?} {}", d.primary_header(), d.backup_header(), d.header());
                    d.calculate_alignment()
                })));
            }
            1 => {
                let _ = step!("listing free sectors", 1, || Ok(on!(&d, d => (d.find_free_sectors(), d.find_next_partition_id()))));
            }
            2 => {
                let size = match ctx.src.choose(3) {
                    0 => clb * (1 + ctx.src.choose(10)),
                    1 => 1 + ctx.src.choose(lock(&sh).size.max(1)),
                    _ => u64::MAX - ctx.src.choose(5000),
                };
                let al = *ctx.src.pick(&[None, Some(0), Some(1), Some(2048), Some(7), Some(u64::MAX), Some(1 << 63)]);
                let n = gen_name(&mut ctx.src, true);
                let r = step!("adding by size", 1, || on!(&mut d, d => d.add_partition(&n, size, gpt::partition_types::BASIC, 0, al).map_err(|e| gpt_err(&e))));
                ctx.log(|| format!("add_partition({size}, {al:?}) -> {r:?}"));
            }
            3 => {
                let id = match ctx.src.choose(3) {
                    0 => 1 + ctx.src.choose(200) as u32,
                    1 => u32::MAX - ctx.src.choose(2) as u32,
                    _ => 1 + ctx.src.choose(10_000) as u32,
                };
                let (first, len) = (nasty(ctx, last), nasty(ctx, last).max(1));
                let r = step!("adding at a position", 1, || on!(&mut d, d => d.add_partition_at("x", id, first, len, gpt::partition_types::BASIC, 0).map_err(|e| gpt_err(&e))));
                ctx.log(|| format!("add_partition_at({id}, {first}, {len}) -> {r:?}"));
            }
            4 => {
                let t = d.table();
                let id = t.ents.keys().next().copied().unwrap_or(1);
                let _ = step!("removing", 1, || Ok(on!(&mut d, d => d.remove_partition(id))));
            }
            5 => {
                let mut t = d.table();
                if ctx.src.chance(1, 2) {
                    t.ents.retain(|i, _| i % 2 == 0);
                }
                let pp: BTreeMap<_, _> = t.ents.iter().map(|(i, e)| (*i, part(e))).collect();
                let r = step!("replacing", 1, || on!(&mut d, d => d.update_partitions(pp).map_err(|e| gpt_err(&e))));
                ctx.log(|| format!("update_partitions -> {r:?}"));
            }
            6 => {
                let r = step!("writing", 8, || on!(&mut d, d => d.write_inplace().map_err(|e| gpt_err(&e))));
                ctx.log(|| format!("write -> {r:?}"));
            }
            _ => {
                let _ = step!("changing the guid", 1, || Ok(on!(&mut d, d => d.update_guid(None))));
            }
        }
        ctx.src.end();
    }
}
