//! Independent reader and writer of the on-disk format (UEFI 2.10, chapter 5), used as oracle.
//! Shares no code with the library.

use crate::sim::Disk;
use std::collections::BTreeMap;
use uuid::Uuid;

pub fn crc32(data: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[[u32; 256]; 4]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        let mut t = [[0u32; 256]; 4];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            t[0][i as usize] = c;
        }
        for i in 0..256 {
            for k in 1..4 {
                let p = t[k - 1][i];
                t[k][i] = (p >> 8) ^ t[0][(p & 0xff) as usize];
            }
        }
        t
    });
    let mut c = !0u32;
    let mut it = data.chunks_exact(4);
    for w in &mut it {
        c ^= u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
        c = t[3][(c & 0xff) as usize]
            ^ t[2][(c >> 8 & 0xff) as usize]
            ^ t[1][(c >> 16 & 0xff) as usize]
            ^ t[0][(c >> 24) as usize];
    }
    for b in it.remainder() {
        c = t[0][((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// GUIDs are stored with the first three fields little endian.
pub fn guid_bytes(g: &Uuid) -> [u8; 16] {
    let b = *g.as_bytes();
    [
        b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13],
        b[14], b[15],
    ]
}

pub fn guid_from(b: &[u8]) -> Uuid {
    Uuid::from_bytes([
        b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13],
        b[14], b[15],
    ])
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub ty: Uuid,
    pub guid: Uuid,
    pub first: u64,
    pub last: u64,
    pub flags: u64,
    pub name: String,
}

impl Ent {
    pub fn used(&self) -> bool {
        !self.ty.is_nil()
    }

    /// What a name becomes on disk.
    pub fn stored_name(name: &str) -> String {
        let u: Vec<u16> = name.encode_utf16().take(36).collect();
        let end = u.iter().position(|c| *c == 0).unwrap_or(u.len());
        String::from_utf16_lossy(&u[..end])
    }

    pub fn normal(&self) -> Ent {
        let mut e = self.clone();
        e.name = Self::stored_name(&e.name);
        e
    }

    pub fn encode(&self, size: usize) -> Vec<u8> {
        let mut b = vec![0u8; size];
        b[0..16].copy_from_slice(&guid_bytes(&self.ty));
        b[16..32].copy_from_slice(&guid_bytes(&self.guid));
        b[32..40].copy_from_slice(&self.first.to_le_bytes());
        b[40..48].copy_from_slice(&self.last.to_le_bytes());
        b[48..56].copy_from_slice(&self.flags.to_le_bytes());
        for (i, u) in self.name.encode_utf16().take(36).enumerate() {
            b[56 + 2 * i..58 + 2 * i].copy_from_slice(&u.to_le_bytes());
        }
        b
    }

    pub fn decode(b: &[u8]) -> Ent {
        let q = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        let mut u = vec![];
        for i in 0..36 {
            let c = u16::from_le_bytes([b[56 + 2 * i], b[57 + 2 * i]]);
            if c == 0 {
                break;
            }
            u.push(c);
        }
        Ent {
            ty: guid_from(&b[0..16]),
            guid: guid_from(&b[16..32]),
            first: q(32),
            last: q(40),
            flags: q(48),
            name: String::from_utf16_lossy(&u),
        }
    }
}

/// Disk GUID and entries by number.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Table {
    pub guid: Uuid,
    pub ents: BTreeMap<u32, Ent>,
}

impl Table {
    /// The used entries in order, in the form in which they are stored.
    pub fn used(&self) -> Vec<Ent> {
        self.ents.values().filter(|e| e.used()).map(|e| e.normal()).collect()
    }

    pub fn same_content(&self, o: &Table) -> bool {
        self.guid == o.guid && self.used() == o.used()
    }

    pub fn brief(&self) -> String {
        let mut s = format!("guid {} [", self.guid);
        for (i, (id, e)) in self.ents.iter().enumerate() {
            if i > 0 {
                s.push_str(", ");
            }
            if i == 6 {
                s.push_str(&format!("... {} entries", self.ents.len()));
                break;
            }
            s.push_str(&format!("{id}:{}-{} {:?}{}", e.first, e.last, e.name, if e.used() { "" } else { " unused" }));
        }
        s.push(']');
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub revision: u32,
    pub header_size: u32,
    pub crc: u32,
    pub reserved: u32,
    pub my_lba: u64,
    pub alt_lba: u64,
    pub first_usable: u64,
    pub last_usable: u64,
    pub guid: Uuid,
    pub part_start: u64,
    pub num_parts: u32,
    pub part_size: u32,
    pub crc_parts: u32,
}

impl Hdr {
    pub fn encode(&self) -> [u8; 92] {
        let mut b = [0u8; 92];
        b[0..8].copy_from_slice(b"EFI PART");
        b[8..12].copy_from_slice(&self.revision.to_le_bytes());
        b[12..16].copy_from_slice(&self.header_size.to_le_bytes());
        b[16..20].copy_from_slice(&self.crc.to_le_bytes());
        b[20..24].copy_from_slice(&self.reserved.to_le_bytes());
        b[24..32].copy_from_slice(&self.my_lba.to_le_bytes());
        b[32..40].copy_from_slice(&self.alt_lba.to_le_bytes());
        b[40..48].copy_from_slice(&self.first_usable.to_le_bytes());
        b[48..56].copy_from_slice(&self.last_usable.to_le_bytes());
        b[56..72].copy_from_slice(&guid_bytes(&self.guid));
        b[72..80].copy_from_slice(&self.part_start.to_le_bytes());
        b[80..84].copy_from_slice(&self.num_parts.to_le_bytes());
        b[84..88].copy_from_slice(&self.part_size.to_le_bytes());
        b[88..92].copy_from_slice(&self.crc_parts.to_le_bytes());
        b
    }

    pub fn seal(&mut self) {
        self.crc = 0;
        self.crc = crc32(&self.encode());
    }

    pub fn decode(b: &[u8]) -> Hdr {
        let d = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap());
        let q = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
        Hdr {
            revision: d(8),
            header_size: d(12),
            crc: d(16),
            reserved: d(20),
            my_lba: q(24),
            alt_lba: q(32),
            first_usable: q(40),
            last_usable: q(48),
            guid: guid_from(&b[56..72]),
            part_start: q(72),
            num_parts: d(80),
            part_size: d(84),
            crc_parts: d(88),
        }
    }

    /// Signature and checksum of a 92 byte header are right.
    pub fn check(b: &[u8]) -> Option<Hdr> {
        if &b[0..8] != b"EFI PART" {
            return None;
        }
        let h = Hdr::decode(b);
        let mut z = b[..92].to_vec();
        z[16..20].fill(0);
        if crc32(&z) == h.crc {
            Some(h)
        } else {
            None
        }
    }
}

/// One copy as found on the disk.
#[derive(Clone, Debug)]
pub struct Copy {
    pub hdr: Hdr,
    /// the raw header block
    pub block: Vec<u8>,
    pub array: Vec<u8>,
    pub array_ok: bool,
}

impl Copy {
    pub fn table(&self) -> Table {
        let mut ents = BTreeMap::new();
        let sz = self.hdr.part_size as usize;
        for (i, b) in self.array.chunks_exact(sz).enumerate() {
            if b.iter().any(|x| *x != 0) {
                ents.insert(i as u32 + 1, Ent::decode(b));
            }
        }
        Table { guid: self.hdr.guid, ents }
    }
}

const MAX_ARRAY: u64 = 1 << 22;

/// Reads the copy whose header is at `lba`, None if the header is invalid.
pub fn read_copy(d: &Disk, lb: u64, lba: u64) -> Option<Copy> {
    let off = lba.checked_mul(lb)?;
    if off.checked_add(92)? > d.size {
        return None;
    }
    let block = d.peek(off, lb as usize);
    // a header that belongs elsewhere is no header
    let hdr = Hdr::check(&block).filter(|h| h.my_lba == lba)?;
    let len = hdr.num_parts as u64 * hdr.part_size as u64;
    let start = hdr.part_start.checked_mul(lb);
    let (mut array, mut ok) = (vec![], false);
    if let Some(s) = start {
        if len <= MAX_ARRAY && s.checked_add(len).map_or(false, |e| e <= d.size) && hdr.part_size == 128 {
            array = d.peek(s, len as usize);
            ok = crc32(&array) == hdr.crc_parts;
        }
    }
    Some(Copy { hdr, block, array, array_ok: ok })
}

pub fn last_lba(d: &Disk, lb: u64) -> u64 {
    (d.size.saturating_sub(lb)) / lb
}

pub fn primary(d: &Disk, lb: u64) -> Option<Copy> {
    read_copy(d, lb, 1)
}

pub fn backup(d: &Disk, lb: u64) -> Option<Copy> {
    read_copy(d, lb, last_lba(d, lb))
}

/// What the specification demands of one copy.
pub fn conformance(d: &Disk, lb: u64, is_primary: bool) -> Result<Copy, String> {
    let which = if is_primary { "primary" } else { "backup" };
    let last = last_lba(d, lb);
    let at = if is_primary { 1 } else { last };
    let c = read_copy(d, lb, at).ok_or_else(|| format!("{which}: no valid header in block {at}"))?;
    let h = &c.hdr;
    let e = |m: String| Err(format!("{which}: {m}"));
    if h.revision != 0x0001_0000 {
        return e(format!("revision {:#x}", h.revision));
    }
    if h.header_size != 92 {
        return e(format!("header size {}", h.header_size));
    }
    if h.reserved != 0 {
        return e("reserved field not zero".into());
    }
    if c.block[92..].iter().any(|b| *b != 0) {
        return e("bytes after the header not zero".into());
    }
    if h.my_lba != at {
        return e(format!("own location {} instead of {at}", h.my_lba));
    }
    let alt = if is_primary { last } else { 1 };
    if h.alt_lba != alt {
        return e(format!("alternate location {} instead of {alt}", h.alt_lba));
    }
    if h.part_size != 128 {
        return e(format!("entry size {}", h.part_size));
    }
    if !c.array_ok {
        return e("entry array checksum".into());
    }
    let blocks = (h.num_parts as u64 * 128).div_ceil(lb);
    let end = h.part_start + blocks; // exclusive
    if h.first_usable > h.last_usable {
        return e(format!("usable area {}-{}", h.first_usable, h.last_usable));
    }
    if is_primary {
        if h.part_start < 2 || end > h.first_usable {
            return e(format!("array {}-{} outside of 2-{}", h.part_start, end - 1, h.first_usable - 1));
        }
    } else if h.part_start <= h.last_usable || end > at {
        return e(format!("array {}-{} outside of {}-{}", h.part_start, end - 1, h.last_usable + 1, at - 1));
    }
    if h.last_usable >= last {
        return e(format!("last usable block {} but the backup header is in {last}", h.last_usable));
    }
    for (i, b) in c.array.chunks_exact(128).enumerate() {
        if b[..16].iter().all(|x| *x == 0) && b.iter().any(|x| *x != 0) {
            return e(format!("unused entry {} is not zero", i + 1));
        }
    }
    Ok(c)
}

/// Both copies together.
pub fn conformant(d: &Disk, lb: u64) -> Result<(Copy, Copy), String> {
    let p = conformance(d, lb, true)?;
    let b = conformance(d, lb, false)?;
    let (x, y) = (&p.hdr, &b.hdr);
    if (x.first_usable, x.last_usable, x.guid, x.num_parts, x.crc_parts)
        != (y.first_usable, y.last_usable, y.guid, y.num_parts, y.crc_parts)
    {
        return Err("the copies differ".into());
    }
    if p.array != b.array {
        return Err("the entry arrays differ".into());
    }
    Ok((p, b))
}

/// A disk written by somebody else.
#[derive(Clone, Debug)]
pub struct Layout {
    pub num_parts: u32,
    pub part_size: u32,
    pub first_usable: u64,
    pub last_usable: u64,
    pub primary_start: u64,
    pub backup_start: u64,
    pub backup_lba: u64,
}

impl Layout {
    pub fn array_blocks(num_parts: u32, lb: u64) -> u64 {
        (num_parts as u64 * 128).div_ceil(lb)
    }

    /// The usual layout for a disk whose last block is `bak`.
    pub fn standard(num_parts: u32, lb: u64, bak: u64) -> Layout {
        let a = Self::array_blocks(num_parts, lb);
        Layout {
            num_parts,
            part_size: 128,
            first_usable: 2 + a,
            last_usable: bak - a - 1,
            primary_start: 2,
            backup_start: bak - a,
            backup_lba: bak,
        }
    }

    pub fn headers(&self, table: &Table, lb: u64) -> (Vec<u8>, Hdr, Hdr) {
        let _ = lb;
        let mut array = vec![0u8; self.num_parts as usize * self.part_size as usize];
        for (id, e) in &table.ents {
            let o = (*id as usize - 1) * self.part_size as usize;
            array[o..o + 128].copy_from_slice(&e.encode(128));
        }
        let mut p = Hdr {
            revision: 0x10000,
            header_size: 92,
            crc: 0,
            reserved: 0,
            my_lba: 1,
            alt_lba: self.backup_lba,
            first_usable: self.first_usable,
            last_usable: self.last_usable,
            guid: table.guid,
            part_start: self.primary_start,
            num_parts: self.num_parts,
            part_size: self.part_size,
            crc_parts: crc32(&array),
        };
        let mut b = p.clone();
        b.my_lba = self.backup_lba;
        b.alt_lba = 1;
        b.part_start = self.backup_start;
        p.seal();
        b.seal();
        (array, p, b)
    }

    /// Puts both copies on the disk.
    pub fn put(&self, d: &mut Disk, table: &Table, lb: u64) {
        let (array, p, b) = self.headers(table, lb);
        self.put_copy(d, &array, &p, lb);
        self.put_copy(d, &array, &b, lb);
    }

    pub fn put_copy(&self, d: &mut Disk, array: &[u8], h: &Hdr, lb: u64) {
        let mut blk = vec![0u8; lb as usize];
        blk[..92].copy_from_slice(&h.encode());
        d.poke(h.part_start * lb, array);
        d.poke(h.my_lba * lb, &blk);
    }
}
