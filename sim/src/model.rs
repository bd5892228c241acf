//! Reference model of the in-memory table and generators of arguments.

use crate::choice::{mix, Src};
use crate::env::Cfg;
use crate::ondisk::{Ent, Hdr, Layout, Table};
use crate::types::{unknown, KNOWN};
use gpt::partition_types as pt;
use std::collections::BTreeMap;
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Geo {
    pub num_parts: u32,
    pub fu: u64,
    pub lu: u64,
    pub bak: u64,
    /// start of the primary entry array
    pub ps: u64,
}

impl Geo {
    pub fn of(h: &Hdr) -> Geo {
        Geo {
            num_parts: h.num_parts,
            fu: h.first_usable,
            lu: h.last_usable,
            bak: h.alt_lba.max(h.my_lba),
            // only the primary knows, the default is behind the header
            ps: if h.my_lba < h.alt_lba && h.part_start < h.first_usable { h.part_start.max(2) } else { 2 },
        }
    }
    pub fn blocks(&self, lb: u64) -> u64 {
        Layout::array_blocks(self.num_parts, lb)
    }
}

/// Unused sections inside of the usable area, (first, length), ascending.
pub fn gaps(table: &Table, geo: &Geo) -> Vec<(u64, u64)> {
    // boundaries and a counter, deliberately unlike the library's sweep
    let mut ev: Vec<(u128, i32)> = vec![];
    for e in table.ents.values().filter(|e| e.used()) {
        if e.first <= e.last {
            ev.push((e.first as u128, 1));
            ev.push((e.last as u128 + 1, -1));
        }
    }
    let (lo, hi) = (geo.fu as u128, geo.lu as u128 + 1);
    if lo >= hi {
        return vec![];
    }
    ev.push((lo, 0));
    ev.push((hi, 0));
    ev.sort_by_key(|e| e.0);
    let mut out: Vec<(u64, u64)> = vec![];
    let mut depth = 0;
    let mut i = 0;
    while i < ev.len() {
        let at = ev[i].0;
        while i < ev.len() && ev[i].0 == at {
            depth += ev[i].1;
            i += 1;
        }
        if i == ev.len() {
            break;
        }
        let (a, b) = (at.max(lo), ev[i].0.min(hi));
        if depth == 0 && a < b {
            match out.last_mut() {
                Some(l) if l.0 as u128 + l.1 as u128 == a => l.1 += (b - a) as u64,
                _ => out.push((a as u64, (b - a) as u64)),
            }
        }
    }
    out
}

pub fn lowest_free(table: &Table, geo: &Geo) -> Option<u32> {
    if table.ents.is_empty() {
        return Some(1);
    }
    (1..=geo.num_parts).find(|i| table.ents.get(i).map_or(true, |e| !e.used()))
}

/// Lowest position that satisfies a request by size.
pub fn first_fit(g: &[(u64, u64)], blocks: u64, align: u64) -> Option<u64> {
    for (s, len) in g {
        let end = *s as u128 + *len as u128;
        let p = if align > 0 { (*s as u128).div_ceil(align as u128) * align as u128 } else { *s as u128 };
        if p + blocks as u128 <= end {
            return Some(p as u64);
        }
    }
    None
}

/// The library insists on at least 128 entries when it lays out a table.
pub fn would_change(geo: &Geo, id: u32, count: usize) -> bool {
    let n = (count as u32).max(id).max(128).max(geo.num_parts);
    n != geo.num_parts
}

/// The geometry cannot be laid out on a disk whose last block is `bak`.
pub fn no_room(geo: &Geo, count: usize, consent: bool, last_used: u64, bak: u64, lb: u64) -> bool {
    let n = if consent { (count as u32).max(128) } else { (count as u32).max(128).max(geo.num_parts) };
    let a = Layout::array_blocks(n, lb);
    let Some(top) = bak.checked_sub(a + 1) else { return true };
    let fu = geo.fu.max(geo.ps + a);
    let lu = geo.lu.min(last_used).max(top);
    fu > lu
}

// ---------------------------------------------------------------- generators

pub fn rand_uuid(src: &mut Src) -> Uuid {
    let (a, b) = (src.bits(), src.bits());
    match a % 24 {
        // as good as any other when somebody supplies it
        0 => Uuid::nil(),
        1 => Uuid::from_u128(u128::MAX),
        _ => Uuid::from_u64_pair(a, b),
    }
}

pub fn gen_type(src: &mut Src) -> pt::Type {
    match src.choose_weighted(&[6, 2]) {
        0 => Uuid::from_u128(KNOWN[1 + src.choose(KNOWN.len() as u64 - 1) as usize].1).into(),
        _ => {
            let u = unknown(src);
            if u.is_nil() {
                pt::BASIC
            } else {
                u.into()
            }
        }
    }
}

pub fn gen_flags(src: &mut Src) -> u64 {
    match src.choose_weighted(&[4, 2, 2, 1, 1, 2]) {
        0 => 0,
        1 => 1 << src.choose(3),
        2 => 1 << src.choose(64),
        3 => u64::MAX,
        4 => 0xFFFF << 48,
        _ => src.bits(),
    }
}

pub fn gen_name(src: &mut Src, allow_long: bool) -> String {
    let unit = |src: &mut Src, kind: usize| -> char {
        match kind {
            0 => (b'a' + src.choose(26) as u8) as char,
            1 => char::from_u32(0xA1 + src.choose(0x300) as u32).unwrap_or('x'),
            2 => char::from_u32(0x4E00 + src.choose(0x5000) as u32).unwrap_or('x'),
            3 => *src.pick(&['\u{FEFF}', '\u{FFFD}', '\u{E000}', '\u{FFFE}', '\u{1}', ' ', '\u{D7FF}', '\u{100}']),
            _ => char::from_u32(0x1_0000 + src.choose(0x10_0000) as u32).unwrap_or('x'),
        }
    };
    let kind = src.choose_weighted(&[5, 2, 2, 2, 2]);
    let units = match src.choose_weighted(&[4, 2, 3, if allow_long { 1 } else { 0 }]) {
        0 => src.range(1, 8),
        1 => 0,
        2 => src.range(34, 36),
        _ => src.range(37, 80),
    };
    let mut s = String::new();
    let mut n = 0;
    while n < units {
        let mut c = unit(src, kind);
        if n + c.len_utf16() as u64 > units {
            c = 'z';
        }
        n += c.len_utf16() as u64;
        s.push(c);
    }
    s
}

/// Used, disjoint entries inside of the usable area.
pub fn gen_table(src: &mut Src, geo: &Geo, max: u64) -> Table {
    let mut ents = BTreeMap::new();
    let area = geo.lu - geo.fu + 1;
    let want = src.small(max.min(geo.num_parts as u64).min(area));
    let numbering = src.choose_weighted(&[4, 2, 1]);
    let mut next = geo.fu;
    let mut id = 0u32;
    for i in 0..want {
        if next > geo.lu {
            break;
        }
        src.begin();
        let left = want - i;
        let room = (geo.lu - next + 1) / left;
        let gap = if room > 1 && src.chance(1, 3) { src.choose(room.min(3000)) } else { 0 };
        let first = next + gap;
        let max_len = (geo.lu - first + 1).min((room - gap).max(1));
        let len = match src.choose_weighted(&[3, 2, 1]) {
            0 => 1,
            1 => src.range(1, max_len),
            _ => max_len,
        };
        id = match numbering {
            0 => id + 1,
            1 => id + 1 + src.choose(3) as u32,
            _ => {
                let lo = id + 1;
                let hi = geo.num_parts - (left as u32 - 1);
                if lo >= hi {
                    lo
                } else {
                    src.range(lo as u64, hi as u64) as u32
                }
            }
        };
        if id > geo.num_parts {
            src.end();
            break;
        }
        ents.insert(
            id,
            Ent {
                ty: gen_type(src).guid,
                guid: rand_uuid(src),
                first,
                last: first + len - 1,
                flags: gen_flags(src),
                name: gen_name(src, false),
            },
        );
        next = first + len;
        src.end();
    }
    // the last entry may be aligned with the end of the area
    Table { guid: rand_uuid(src), ents }
}

/// A table with nearly as many entries as fit.
pub fn gen_crowd(src: &mut Src, geo: &Geo) -> Table {
    let area = geo.lu - geo.fu + 1;
    let n = (geo.num_parts as u64).saturating_sub(src.small(8)).min(area);
    let seed = src.bits();
    let each = (area / n.max(1)).min(1 + src.choose(5));
    let shift = src.choose(area - each * n + 1);
    let backwards = src.chance(1, 4);
    let len = if each > 1 && src.chance(1, 2) { each - 1 } else { each };
    let ents = (0..n)
        .map(|i| {
            let at = if backwards { n - 1 - i } else { i };
            let first = geo.fu + shift + each * at;
            let r = mix(seed, i);
            let e = Ent {
                ty: Uuid::from_u128(KNOWN[1 + r as usize % (KNOWN.len() - 1)].1),
                guid: Uuid::from_u64_pair(r, mix(seed ^ 1, i)),
                first,
                last: first + len - 1,
                flags: r >> 60,
                name: format!("{i}"),
            };
            (i as u32 + 1, e)
        })
        .collect();
    Table { guid: rand_uuid(src), ents }
}

/// Size of a disk in bytes.
pub fn gen_size(src: &mut Src, lb: u64, arr: u64) -> u64 {
    // mbr, two headers, two arrays and one usable block
    let min = 3 + 2 * arr + 1;
    let blocks = match src.choose_weighted(&[4, 4, 2, 1, 1]) {
        0 => min + 20 + src.choose(60),
        1 => min + src.choose(4000),
        2 => min + src.choose(6),
        3 => (1 << 21) + src.choose(1 << 32),
        _ => (1 << 33) + src.choose(1 << 40),
    };
    // a device that is no multiple of the block size
    let tail = if src.chance(1, 12) { src.choose(lb) } else { 0 };
    blocks * lb + tail
}

pub fn gen_cfg(src: &mut Src, lb: u64, w: &CfgWeights) -> Cfg {
    Cfg {
        lb,
        writable: !src.chance(w.readonly, 100),
        strict: src.chance(w.strict, 100),
        ro_backup: src.chance(w.ro_backup, 100),
        consent: src.chance(w.consent, 100),
    }
}

#[derive(Clone, Copy)]
pub struct CfgWeights {
    pub readonly: u64,
    pub strict: u64,
    pub ro_backup: u64,
    pub consent: u64,
}

impl Default for CfgWeights {
    fn default() -> Self {
        CfgWeights { readonly: 4, strict: 10, ro_backup: 8, consent: 12 }
    }
}
