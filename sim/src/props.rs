//! What is simulated for which property.

use crate::env::*;
use crate::hist::{self, Profile, Weights};
use crate::model::CfgWeights;
use crate::{hostile, manual, scen, twin, variants};

pub struct Spec {
    pub id: &'static str,
    /// runs of the quick tier
    pub quick: u64,
    pub thorough: u64,
    /// what makes a run count as non-trivial
    pub nontrivial: &'static str,
    /// probes of which one has to be hit for that, empty if the scenario says so itself
    pub marks: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

const WRITE: &str = "at least one table write succeeded and was judged";

pub const SPECS: &[Spec] = &[
    Spec { id: "D01", quick: 220000, thorough: 4400000, nontrivial: WRITE, marks: &["written", "written with a read-only backup"], run: d01 },
    Spec { id: "C01", quick: 180000, thorough: 3600000, nontrivial: "a write was interrupted by a loss of power and the disk was reopened", marks: &["power lost during a write"], run: c01 },
    Spec { id: "C02", quick: 260000, thorough: 5200000, nontrivial: WRITE, marks: &["written"], run: c02 },
    Spec { id: "R01", quick: 240000, thorough: 4800000, nontrivial: "a copy was damaged on a disk whose copies were in step and the disk was opened", marks: &[], run: scen::r01 },
    Spec { id: "I01", quick: 100000, thorough: 2000000, nontrivial: "stored sectors or data in transit were corrupted before an open", marks: &[], run: scen::i01 },
    Spec { id: "S01", quick: 60000, thorough: 1200000, nontrivial: "an open overlapped a write", marks: &[], run: scen::s01 },
    Spec { id: "E01", quick: 200000, thorough: 4000000, nontrivial: WRITE, marks: &["written", "written with a read-only backup"], run: e01 },
    Spec { id: "E02", quick: 180000, thorough: 3600000, nontrivial: "an operation was interrupted or cut short at least once", marks: &[], run: twin::e02 },
    Spec { id: "E03", quick: 100000, thorough: 2000000, nontrivial: "writes with injected errors were followed by a retry that was compared with an undisturbed write", marks: &[], run: scen::e03 },
    Spec { id: "A01", quick: 460000, thorough: 9200000, nontrivial: "an edit was refused or failed", marks: &["edit refused or failed"], run: a01 },
    Spec { id: "W01", quick: 240000, thorough: 4800000, nontrivial: WRITE, marks: &["written", "written with a read-only backup"], run: w01 },
    Spec { id: "W02", quick: 280000, thorough: 5600000, nontrivial: "the device was watched during opens and edits", marks: &["edit done", "edit refused or failed"], run: w02 },
    Spec { id: "W03", quick: 280000, thorough: 5600000, nontrivial: "a table was written with a read-only backup and judged", marks: &["written with a read-only backup"], run: w03 },
    Spec { id: "T01", quick: 220000, thorough: 4400000, nontrivial: WRITE, marks: &["written", "written with a read-only backup"], run: t01 },
    Spec { id: "T02", quick: 300000, thorough: 6000000, nontrivial: WRITE, marks: &["written", "written with a read-only backup"], run: t02 },
    Spec { id: "T03", quick: 200000, thorough: 4000000, nontrivial: "an unchanged table was written again", marks: &["written again without a change"], run: t03 },
    Spec { id: "L01", quick: 360000, thorough: 7200000, nontrivial: "edits were judged", marks: &["edit done", "edit refused or failed"], run: l01 },
    Spec { id: "L02", quick: 440000, thorough: 8800000, nontrivial: "edits and free lists were judged", marks: &["edit done", "edit refused or failed"], run: l02 },
    Spec { id: "N01", quick: 300000, thorough: 6000000, nontrivial: "edits were judged", marks: &["edit done", "edit refused or failed"], run: n01 },
    Spec { id: "U01", quick: 280000, thorough: 5600000, nontrivial: "identifiers were generated", marks: &["identifier generated"], run: u01 },
    Spec { id: "H01", quick: 220000, thorough: 4400000, nontrivial: WRITE, marks: &["written", "written with a read-only backup"], run: h01 },
    Spec { id: "M01", quick: 3000000, thorough: 120000000, nontrivial: "a boot-sector write was executed", marks: &[], run: scen::m01 },
    Spec { id: "O01", quick: 600000, thorough: 8000000, nontrivial: "hostile media were opened or a history with faults was executed", marks: &[], run: hostile::o01 },
    Spec { id: "F01", quick: 220000, thorough: 4400000, nontrivial: "an intact table was opened while operations failed", marks: &[], run: scen::f01 },
    Spec { id: "K01", quick: 220000, thorough: 4400000, nontrivial: "an object with copies was edited or written", marks: &[], run: twin::k01 },
    Spec { id: "G01", quick: 800000, thorough: 16000000, nontrivial: "a header or an entry was written and judged", marks: &[], run: manual::g01 },
    Spec { id: "P01", quick: 180000, thorough: 3600000, nontrivial: "operations through a path and through a device were compared", marks: &[], run: twin::p01 },
    Spec { id: "X01", quick: 240000, thorough: 4800000, nontrivial: "types were resolved for partitions", marks: &["type resolved"], run: x01 },
    Spec { id: "X02", quick: 300000, thorough: 6000000, nontrivial: "the numbers of a table were compared", marks: &["numbers reported"], run: x02 },
    Spec { id: "X03", quick: 300000, thorough: 6000000, nontrivial: "the alignment of a table was compared", marks: &["numbers reported"], run: x03 },
    Spec { id: "X04", quick: 4000000, thorough: 80000000, nontrivial: "a boot sector was read or written and judged", marks: &[], run: scen::x04 },
    Spec { id: "Q01", quick: 60000, thorough: 2000000, nontrivial: "the run was repeated by another build of the library", marks: &[], run: variants::q01 },
];

pub fn spec(id: &str) -> Option<&'static Spec> {
    SPECS.iter().find(|s| s.id == id)
}

fn base() -> Profile {
    Profile::default()
}

fn w() -> Weights {
    base().w
}

fn d01(ctx: &mut Ctx) {
    let p = Profile {
        file: 60,
        cfg: CfgWeights { readonly: 8, strict: 5, ro_backup: 12, consent: 12 },
        w: Weights { write: 9, consume: 3, power: 4, mbr: 2, seek: 3, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [6, 2, 2, 0],
        loss_after_write: 60,
        ..base()
    };
    hist::history(ctx, &p);
}

fn c01(ctx: &mut Ctx) {
    let p = Profile {
        file: 30,
        foreign: 60,
        cfg: CfgWeights { readonly: 0, strict: 10, ro_backup: 0, consent: 8 },
        steps: 18,
        w: Weights { write: 14, consume: 3, grow: 2, damage: 2, replace: 5, guid: 2, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [3, 0, 3, 9],
        loss_after_write: 15,
        tight: 30,
        ..base()
    };
    if ctx.src.chance(1, 5) {
        hist::undo(ctx, &p);
    } else {
        hist::history(ctx, &p);
    }
}

fn c02(ctx: &mut Ctx) {
    let p = Profile {
        cfg: CfgWeights { readonly: 0, strict: 15, ro_backup: 3, consent: 15 },
        w: Weights { write: 10, consume: 2, grow: 4, damage: 5, reopen: 4, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [8, 1, 3, 4],
        loss_after_write: 5,
        tight: 20,
        ..base()
    };
    hist::history(ctx, &p);
}

fn e01(ctx: &mut Ctx) {
    let p = Profile {
        file: 40,
        cfg: CfgWeights { readonly: 0, strict: 5, ro_backup: 12, consent: 15 },
        w: Weights { write: 14, consume: 4, grow: 2, damage: 2, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [4, 1, 12, 0],
        loss_after_write: 3,
        ..base()
    };
    hist::history(ctx, &p);
}

fn a01(ctx: &mut Ctx) {
    let p = Profile {
        foreign: 60,
        cfg: CfgWeights { readonly: 10, strict: 5, ro_backup: 8, consent: 35 },
        steps: 24,
        max_parts: 12,
        w: Weights { add_size: 8, add_at: 8, replace: 7, write: 3, grow: 2, ..w() },
        edit_faults: [5, 1, 5],
        write_faults: [5, 1, 1, 0],
        tight: 30,
        ..base()
    };
    hist::history(ctx, &p);
}

fn w01(ctx: &mut Ctx) {
    let p = Profile {
        cfg: CfgWeights { readonly: 0, strict: 5, ro_backup: 10, consent: 15 },
        w: Weights { write: 12, consume: 3, grow: 3, damage: 2, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [4, 2, 4, 4],
        tight: 30,
        ..base()
    };
    hist::history(ctx, &p);
}

fn w02(ctx: &mut Ctx) {
    let p = Profile {
        file: 50,
        foreign: 60,
        cfg: CfgWeights { readonly: 50, strict: 10, ro_backup: 10, consent: 20 },
        w: Weights { reopen: 4, write: 6, consume: 2, grow: 2, damage: 2, recreate: 2, mbr: 0, ..w() },
        edit_faults: [4, 1, 3],
        write_faults: [6, 1, 1, 1],
        ..base()
    };
    // opening needs no more than what read-only media permit
    if ctx.src.chance(1, 4) {
        twin::p01(ctx);
        return;
    }
    // neither does an object that was moved to another device, writable or not
    if ctx.src.chance(1, 6) {
        twin::k01(ctx);
        return;
    }
    hist::history(ctx, &p);
}

fn w03(ctx: &mut Ctx) {
    let p = Profile {
        file: 30,
        foreign: 75,
        cfg: CfgWeights { readonly: 0, strict: 5, ro_backup: 85, consent: 15 },
        w: Weights { write: 12, consume: 3, grow: 3, damage: 2, reopen: 3, ..w() },
        edit_faults: [3, 1, 1],
        write_faults: [6, 2, 3, 3],
        tight: 20,
        ..base()
    };
    hist::history(ctx, &p);
}

fn t01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 40,
        max_parts: 30,
        w: Weights { reopen: 4, grow: 1, ..w() },
        edit_faults: [6, 1, 1],
        write_faults: [8, 1, 1, 1],
        ..base()
    };
    hist::history(ctx, &p);
}

fn t02(ctx: &mut Ctx) {
    let p = Profile {
        steps: 30,
        max_parts: 16,
        w: Weights { add_at: 7, remove: 4, reopen: 4, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [8, 0, 1, 1],
        ..base()
    };
    hist::history(ctx, &p);
}

fn t03(ctx: &mut Ctx) {
    let p = Profile {
        foreign: 45,
        steps: 24,
        cfg: CfgWeights { readonly: 0, strict: 8, ro_backup: 12, consent: 20 },
        w: Weights { write: 10, consume: 3, reopen: 4, grow: 3, damage: 3, guid: 3, ..w() },
        edit_faults: [1, 0, 0],
        write_faults: [8, 1, 2, 2],
        ..base()
    };
    hist::history(ctx, &p);
}

fn l01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 40,
        max_parts: 40,
        cfg: CfgWeights { readonly: 4, strict: 5, ro_backup: 6, consent: 20 },
        w: Weights { add_size: 12, add_at: 10, remove: 5, replace: 4, write: 4, ..w() },
        edit_faults: [8, 1, 1],
        tight: 40,
        ..base()
    };
    hist::history(ctx, &p);
}

fn l02(ctx: &mut Ctx) {
    let p = Profile {
        steps: 40,
        max_parts: 40,
        cfg: CfgWeights { readonly: 4, strict: 5, ro_backup: 6, consent: 10 },
        w: Weights { add_size: 14, add_at: 8, remove: 6, replace: 4, write: 3, ..w() },
        edit_faults: [12, 2, 0],
        tight: 40,
        ..base()
    };
    hist::history(ctx, &p);
}

fn n01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 26,
        max_parts: 130,
        cfg: CfgWeights { readonly: 2, strict: 5, ro_backup: 6, consent: 45 },
        w: Weights { add_at: 8, replace: 8, write: 6, reopen: 3, ..w() },
        edit_faults: [8, 1, 2],
        write_faults: [8, 1, 1, 1],
        tight: 25,
        ..base()
    };
    hist::history(ctx, &p);
}

fn u01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 30,
        w: Weights { guid: 6, take: 2, replace: 4, recreate: 2, reopen: 4, ..w() },
        edit_faults: [6, 1, 1],
        write_faults: [8, 1, 1, 1],
        ..base()
    };
    hist::history(ctx, &p);
}

fn h01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 24,
        max_parts: 30,
        cfg: CfgWeights { readonly: 0, strict: 8, ro_backup: 10, consent: 30 },
        w: Weights { write: 9, consume: 2, grow: 3, damage: 3, replace: 5, ..w() },
        edit_faults: [6, 1, 0],
        write_faults: [10, 1, 1, 1],
        tight: 30,
        ..base()
    };
    hist::history(ctx, &p);
}

fn x01(ctx: &mut Ctx) {
    let p = Profile {
        steps: 30,
        max_parts: 30,
        w: Weights { add_size: 12, add_at: 10, reopen: 4, replace: 3, ..w() },
        edit_faults: [8, 1, 1],
        write_faults: [8, 1, 1, 1],
        ..base()
    };
    hist::history(ctx, &p);
}

/// 512 and 4096 are block sizes, nothing else is.
fn block_size(ctx: &mut Ctx) {
    use gpt::disk::LogicalBlockSize;
    let near = |x: u64, d: u64| x.wrapping_add(d).wrapping_sub(1);
    let v = match ctx.src.choose(4) {
        0 => near(512, ctx.src.choose(3) as u64),
        1 => near(4096, ctx.src.choose(3) as u64),
        2 => near(1 << ctx.src.choose(64), ctx.src.choose(3) as u64),
        _ => *ctx.src.pick(&[512 | 1 << 32, 4096 | 1 << 32, 520, 4160, 512 << 48, u64::MAX]),
    };
    let lb = LogicalBlockSize::try_from(v);
    let ok = match lb {
        Ok(lb) => {
            [512, 4096].contains(&v)
                && [u64::from(lb), usize::from(lb) as u64, lb.as_u64(), lb.as_usize() as u64] == [v; 4]
                && lb.to_string() == v.to_string()
        }
        Err(_) => ![512, 4096].contains(&v),
    };
    if !ok {
        ctx.fail("X02", "wrong block size", || format!("{v} bytes: {:?}", LogicalBlockSize::try_from(v)));
    }
}

fn x02(ctx: &mut Ctx) {
    block_size(ctx);
    // entries nobody would make
    if ctx.src.chance(1, 2) {
        hostile::o01(ctx);
        return;
    }
    let p = Profile {
        steps: 20,
        max_parts: 12,
        w: Weights { replace: 10, reopen: 4, ..w() },
        edit_faults: [8, 1, 1],
        write_faults: [8, 1, 1, 1],
        ..base()
    };
    hist::history(ctx, &p);
}

fn x03(ctx: &mut Ctx) {
    let p = Profile {
        steps: 40,
        max_parts: 16,
        w: Weights { add_size: 10, add_at: 8, remove: 6, replace: 6, take: 2, reopen: 3, ..w() },
        edit_faults: [6, 1, 2],
        ..base()
    };
    if ctx.src.chance(1, 8) {
        hostile::o01(ctx);
        return;
    }
    hist::history(ctx, &p);
}
