//! The committed list of known findings and the witnesses that show each of them.

use crate::env::*;
use crate::ondisk;
use crate::sim::*;
use gpt::partition_types::LINUX_FS;
use std::collections::BTreeSet;

pub struct Finding {
    pub id: &'static str,
    pub prop: &'static str,
    /// shows the finding, Some(text) if it is still there
    pub witness: fn() -> Option<String>,
}

pub const FINDINGS: &[Finding] = &[
    Finding { id: "T02-compaction", prop: "T02", witness: compaction },
    Finding { id: "W01-growth", prop: "W01", witness: growth_overwrites },
    Finding { id: "H01-growth", prop: "H01", witness: growth_not_conformant },
    Finding { id: "C02-growth", prop: "C02", witness: growth_loses_backup },
];

const LB: u64 = 512;

fn consent() -> Cfg {
    Cfg { consent: true, ..Cfg::plain(LB) }
}

/// A new table on a disk of so many blocks, maybe with every block set to something.
fn fresh(blocks: u64, fill: u64, cfg: &Cfg) -> Option<(Shared, gpt::GptDisk<Dev>)> {
    let sh = Disk::new(blocks * LB, fill).shared();
    let d = cfg.gpt().create_from_device(Dev::new(&sh), Some(uuid::Uuid::from_u128(1))).ok()?;
    Some((sh, d))
}

/// Entries are stored without the gaps that removed partitions left, so the numbers change.
fn compaction() -> Option<String> {
    guarded(|| {
        let run = || -> Option<String> {
            let (sh, mut d) = fresh(4096, 0, &Cfg::plain(LB))?;
            d.add_partition("one", 512, LINUX_FS, 0, None).ok()?;
            let id = d.add_partition("two", 512, LINUX_FS, 0, None).ok()?;
            d.remove_partition(1)?;
            d.write_inplace().ok()?;
            let found = Cfg::plain(LB).gpt().open_from_device(Dev::new(&sh)).ok()?;
            let (now, p) = found.partitions().iter().next()?;
            (p.name == "two" && *now != id)
                .then(|| format!("partition {id} has number {now} after partition 1 was removed, the table written and reopened"))
        };
        Ok(run())
    })
    .ok()?
}

/// A disk whose first and last usable block are in use, with a table that had to grow because of an entry 129.
fn grown() -> Option<(Shared, gpt::GptDisk<Dev>)> {
    let (sh, mut d) = fresh(300, 0x5EED, &consent())?;
    let (first, last) = (d.header().first_usable, d.header().last_usable);
    d.add_partition_at("last", 128, last, 1, LINUX_FS, 0).ok()?;
    for id in (1..=127).chain(129..=129) {
        d.add_partition_at("p", id, first + id as u64 - 1, 1, LINUX_FS, 0).ok()?;
    }
    Some((sh, d))
}

/// With change_partition_count the entry array may grow into blocks that partitions use.
fn growth_overwrites() -> Option<String> {
    guarded(|| {
        let run = || -> Option<String> {
            let (sh, mut d) = grown()?;
            let p = d.partitions().values().map(|p| p.first_lba).min()?;
            let before = lock(&sh).sector(p);
            d.write_inplace().ok()?;
            let after = lock(&sh).sector(p);
            (before != after).then(|| {
                format!("a table that grew to 129 entries was written over block {p}, which belongs to partition 1")
            })
        };
        Ok(run())
    })
    .ok()?
}

fn growth_not_conformant() -> Option<String> {
    guarded(|| {
        let run = || -> Option<String> {
            let (sh, mut d) = grown()?;
            d.write_inplace().ok()?;
            let e = ondisk::conformant(&lock(&sh), LB).err()?;
            Some(format!("a table that grew to 129 entries while the first and last usable block were in use: {e}"))
        };
        Ok(run())
    })
    .ok()?
}

fn growth_loses_backup() -> Option<String> {
    guarded(|| {
        let run = || -> Option<String> {
            let (sh, mut d) = grown()?;
            d.write_inplace().ok()?;
            let b = ondisk::backup(&lock(&sh), LB);
            (!b.map_or(false, |b| b.array_ok)).then(|| {
                "the backup of a table that grew to 129 entries while the last usable block was in use is not valid".into()
            })
        };
        Ok(run())
    })
    .ok()?
}


/// The ids listed as known (not the fixed ones) in the committed file.
pub fn listed(path: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.trim().strip_prefix("finding: ") {
                if let Some(id) = r.split_whitespace().find_map(|w| w.strip_prefix("id=")) {
                    v.insert(id.to_string());
                }
            }
        }
    }
    v
}
