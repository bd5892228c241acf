From c1f4c6d4f8deb2668c645f7c6c168738eddec8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 01/22] fix: write the disk guid set by update_guid

update_guid promises that the new guid is recorded once write() is called,
but write_inplace rebuilt the headers with the old guid.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..b1ae1f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -875,6 +875,7 @@ where
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
             .primary(true)
+            .disk_guid(self.guid)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
 
-- 
2.43.0


From c96f886219f07dc229ec6f73d6ed0bdf83ccc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 02/22] fix: add_partition_at accepted segments reaching past
 the free section

Only the start and the length were compared, so a segment starting late in a
free section could overlap the next partition or leave the usable area.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b1ae1f2..1d607b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,12 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            // the whole segment needs to be inside of this free section
+            let fits = first_lba
+                .checked_sub(starting_lba)
+                .and_then(|offset| offset.checked_add(length_lba))
+                .map_or(false, |needed| needed <= length);
+            if !fits {
                 continue;
             }
 
-- 
2.43.0


From edc422c8ad6bce314514f8565010f50d030993e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 03/22] fix: add_partition overflowed with a huge alignment

On overflow the request panicked, or, without overflow checks, wrapped around
and was placed outside of the free section.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d607b5..a5c1a4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -528,7 +528,10 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            // a huge alignment might overflow, in which case this section is to small
+            let needed_lba = alignment_offset_lba.checked_add(size_lba);
+
+            if needed_lba.map_or(false, |needed| length >= needed) {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From bcd7ebfb60d1bdbf4fe29f1b3413c11fe7b20d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 04/22] fix: find_free_sectors reported used sectors as free

Sorting all boundaries and pairing them up only works if the partitions are
disjoint and inside of the usable area. Increasing the partition count moves
first_usable behind the start of existing partitions, after that new partitions
were placed inside of existing ones. It also underflowed if first_usable is 0.
---
 src/lib.rs | 54 +++++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5c1a4f..90382a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -717,34 +717,34 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
-        for part in self.partitions().iter().filter(|p| p.1.is_used()) {
-            trace!(
-                "used partition: ({}, {})",
-                part.1.first_lba,
-                part.1.last_lba
-            );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
-        }
-        disk_positions.push(header.last_usable + 1);
         trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
-                // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
-
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+
+        let mut used: Vec<_> = self
+            .partitions()
+            .values()
+            .filter(|p| p.is_used())
+            .map(|p| (p.first_lba, p.last_lba))
+            .collect();
+        used.sort_unstable();
+
+        // walk over the used sections and collect the usable lba's in between, this does
+        // not rely on the partitions being disjoint or inside of the usable area
+        let mut free = vec![];
+        let mut next_free = header.first_usable;
+        for (first_lba, last_lba) in used {
+            trace!("used partition: ({}, {})", first_lba, last_lba);
+            let end = first_lba.min(header.last_usable.saturating_add(1));
+            if next_free < end {
+                free.push((next_free, end - next_free));
+            }
+            next_free = next_free.max(last_lba.saturating_add(1));
+        }
+        let end = header.last_usable.saturating_add(1);
+        if next_free < end {
+            free.push((next_free, end - next_free));
+        }
+
+        free
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From e72fc9c0702114d3577604b720bd5faf8f0feffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 05/22] fix: add_partition panicked with an alignment of zero

calculate_alignment returns zero for an empty table, passing that on to
add_partition divided by zero.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90382a8..4a2934e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -519,8 +519,11 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
-                Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
+                Some(alignment) if alignment > 0 => {
+                    (alignment - (starting_lba % alignment)) % alignment
+                }
+                // calculate_alignment returns zero if there are no partitions
+                _ => 0_u64,
             };
 
             debug!(
-- 
2.43.0


From f5349295c7b02e301e1eea52aa0ce97833747e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 06/22] fix: failed edits left a changed partition table behind

If the headers could not be updated (the device failed or is to small for more
entries) the caller got an error but the partitions were changed nonetheless.
---
 src/lib.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a2934e..ce923c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -563,12 +563,16 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                let replaced = self.partitions.insert(partition_id, part.clone());
+                if let Some(p) = &replaced {
                     debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    if let Err(e) = self.init_headers() {
+                        self.undo_insert(partition_id, replaced);
+                        return Err(e);
+                    }
                 }
                 return Ok(partition_id);
             }
@@ -648,13 +652,17 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
+            let replaced = self.partitions.insert(id, part.clone());
+            if let Some(p) = &replaced {
                 debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                if let Err(e) = self.init_headers() {
+                    self.undo_insert(id, replaced);
+                    return Err(e);
+                }
             }
 
             return Ok(id);
@@ -664,6 +672,14 @@ where
         Err(GptError::NotEnoughSpace)
     }
 
+    /// Restores what a partition id refered to before `insert` was called.
+    fn undo_insert(&mut self, id: u32, replaced: Option<partition::Partition>) {
+        match replaced {
+            Some(p) => self.partitions.insert(id, p),
+            None => self.partitions.remove(&id),
+        };
+    }
+
     /// calculate sector alignment based on the current partitions
     /// in order to promise uniform alignment
     /// return 0 if no partitions existed
@@ -817,9 +833,12 @@ where
             return Err(GptError::PartitionCountWouldChange);
         }
 
-        self.partitions = pp;
+        let replaced = std::mem::replace(&mut self.partitions, pp);
 
-        self.init_headers()
+        self.init_headers().map_err(|e| {
+            self.partitions = replaced;
+            e
+        })
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
-- 
2.43.0


From 6c7b6195d31f89cb0922080430810cf0278c4671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/22] fix: partition count shrank or was exceeded without
 consent

update_partitions reset a larger partition count to 128 even if changing it is
not allowed. And with ids above the partition count in use, more partitions
than entries were accepted, after which every write failed.
---
 src/lib.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce923c9..09c85f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -550,7 +550,7 @@ where
 
                 // let's try to increase the num parts
                 // because partition_id 0 will never exist the num_parts is without + 1
-                let num_parts_changes = self.header().num_parts_would_change(partition_id);
+                let num_parts_changes = self.num_parts_would_change(partition_id);
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
@@ -637,7 +637,7 @@ where
 
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
-            let num_parts_changes = self.header().num_parts_would_change(id);
+            let num_parts_changes = self.num_parts_would_change(id);
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -672,6 +672,17 @@ where
         Err(GptError::NotEnoughSpace)
     }
 
+    /// Returns true if the num parts changes when a partition gets inserted.
+    ///
+    /// If ids bigger than num_parts are in use, there might be to many partitions even
+    /// though the new id would be small enough.
+    fn num_parts_would_change(&self, id: u32) -> bool {
+        let new = !self.partitions.contains_key(&id);
+        let num_parts = self.partitions.len() as u32 + new as u32;
+
+        self.header().num_parts_would_change(id.max(num_parts))
+    }
+
     /// Restores what a partition id refered to before `insert` was called.
     fn undo_insert(&mut self, id: u32, replaced: Option<partition::Partition>) {
         match replaced {
@@ -845,7 +856,12 @@ where
     /// header.
     pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        let mut num_parts = self.partitions.len() as u32;
+        if !self.config.change_partition_count {
+            if let Ok(header) = self.try_header() {
+                num_parts = num_parts.max(header.num_parts);
+            }
+        }
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
-- 
2.43.0


From a1b9a1faf89dc2a3ca356a5ac7031091e77ca767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 08/22] fix: backup header overwrote the end of a grown backup
 partition table

If the partition count was increased the last usable lba stayed the same, so the
larger backup table reached into the backup header even if there is enough free
space at the end of the disk. The backup could not be used after that.
---
 src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 09c85f4..a1f99f6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -863,9 +863,24 @@ where
             }
         }
 
+        // a bigger partition table needs space in front of the backup header, so the last
+        // usable lba is only kept if it is in use
+        let last_used = self
+            .partitions
+            .values()
+            .filter(|p| p.is_used())
+            .map(|p| p.last_lba)
+            .max()
+            .unwrap_or(0);
+        let last_usable = self
+            .try_header()
+            .map(|h| h.last_usable.min(last_used))
+            .unwrap_or(0);
+
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
             .backup_lba(bak)
+            .last_usable(last_usable)
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
-- 
2.43.0


From 7715d60124b2eec154e23e58a05b504129176178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 09/22] fix: return an error for unsupported partition entry
 sizes

Opening a disk with entries of 256 bytes, which is a valid size, panicked.
---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..387c14e 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From c9b771c344cfd1a8ff8e9fbe48f956a1cdd577fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 10/22] fix: a failed seek was ignored when reading a header

The header was then read from wherever the device was positioned, which was
reported as an invalid signature or even accepted as the wrong header.
---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From 2b36caa1ce62f9b0b1a94a9cf24fdd51de29605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 11/22] fix: partition entries were parsed from bytes that were
 not checksummed

The table was read twice, once to parse the entries and once to verify the
checksum. If the first read returned something else (a transient read error or
a concurrent write) wrong entries were accepted.
---
 src/partition.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index 387c14e..598941b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -265,20 +265,35 @@ pub fn file_read_partitions<D: Read + Seek>(
         ));
     }
 
+    // the entries need to be parsed from the same bytes that the checksum was calculated
+    // on, the device might return something different the second time.
+    let pt_len = u64::from(header.num_parts)
+        .checked_mul(header.part_size.into())
+        .ok_or_else(|| Error::new(ErrorKind::Other, "partitions - size"))?;
+    // don't trust pt_len to allocate the buffer
+    let mut table = Vec::new();
+    file.take(pt_len).read_to_end(&mut table)?;
+    if table.len() as u64 != pt_len {
+        return Err(ErrorKind::UnexpectedEof.into());
+    }
+
+    debug!("checking partition table CRC");
+    let comp_crc = CRC_32.checksum(&table);
+    if comp_crc != header.crc32_parts {
+        return Err(Error::new(ErrorKind::Other, "partition table CRC mismatch"));
+    }
+
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
     let empty_bytes = [0u8; 128];
-    for i in 0..header.num_parts {
-        let mut bytes = empty_bytes;
-
-        file.read_exact(&mut bytes)?;
+    for (i, bytes) in (0..header.num_parts).zip(table.chunks_exact(128)) {
         // Note: unused partition entries are zeroed, so skip them
         if bytes.eq(&empty_bytes) {
             empty_parts += 1;
             continue;
         }
 
-        let mut reader = Bytes::from(&bytes[..]);
+        let mut reader = Bytes::from(bytes);
         let type_guid = parse_uuid(&mut reader)?;
         let part_guid = parse_uuid(&mut reader)?;
         let first_lba = reader.read_le_u64();
@@ -307,19 +322,6 @@ pub fn file_read_partitions<D: Read + Seek>(
     }
     debug!("Num Zeroed partitions {:?}\n\n", empty_parts);
 
-    debug!("checking partition table CRC");
-    let _ = file.seek(SeekFrom::Start(pstart))?;
-    let pt_len = u64::from(header.num_parts)
-        .checked_mul(header.part_size.into())
-        .ok_or_else(|| Error::new(ErrorKind::Other, "partitions - size"))?;
-    let mut table = vec![0; pt_len as usize];
-    file.read_exact(&mut table)?;
-
-    let comp_crc = CRC_32.checksum(&table);
-    if comp_crc != header.crc32_parts {
-        return Err(Error::new(ErrorKind::Other, "partition table CRC mismatch"));
-    }
-
     Ok(parts)
 }
 
-- 
2.43.0


From cd0f2caac54dd9182b81b021d5db0010abc466aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 12/22] fix: open from the backup if the primary partition
 entries are damaged

Only a damaged primary header lead to the backup being used, if the entries were
corrupt or not readable opening failed even though the backup is fine.
---
 src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1f99f6..0d870a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -283,7 +283,20 @@ impl GptConfig {
         };
 
         let header = h1.as_ref().or(h2.as_ref()).unwrap();
-        let table = partition::file_read_partitions(&mut device, header, self.lb_size)?;
+        let table = partition::file_read_partitions(&mut device, header, self.lb_size);
+
+        // a copy is only usable if its partition entries are, if those of the primary are not
+        // try the backup
+        let (h1, table) = match (table, &h1, &h2) {
+            (Err(e), Ok(_), Ok(backup)) if !self.only_valid_headers => {
+                match partition::file_read_partitions(&mut device, backup, self.lb_size) {
+                    Ok(table) => (Err(HeaderError::Io(e)), table),
+                    Err(_) => return Err(e.into()),
+                }
+            }
+            (table, _, _) => (h1, table?),
+        };
+        let header = h1.as_ref().or(h2.as_ref()).unwrap();
 
         let disk = GptDisk {
             config: self,
-- 
2.43.0


From 49a5df25899ad3a225c4ced01536610a597c8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 13/22] fix: a crash while writing could destroy both copies of
 the partition table

The partition entries of both copies were written interleaved and only flushed
at the very end, so if the write got interrupted neither of the headers matched
its entries anymore and the disk could not be opened. Now a copy is only touched
once the other one is known to be on the disk. The partition count is checked
before anything is written.
---
 src/lib.rs | 165 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 88 insertions(+), 77 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d870a3..443d439 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -302,6 +302,7 @@ impl GptConfig {
             config: self,
             device,
             guid: header.disk_guid,
+            primary_intact: h1.is_ok(),
             primary_header: h1,
             backup_header: h2,
             partitions: table,
@@ -327,6 +328,7 @@ impl GptConfig {
             guid: guid.unwrap_or_else(uuid::Uuid::new_v4),
             primary_header: Err(HeaderError::InvalidGptSignature),
             backup_header: Err(HeaderError::InvalidGptSignature),
+            primary_intact: true,
             partitions: BTreeMap::new(),
             sync_all: None,
         };
@@ -356,6 +358,9 @@ pub struct GptDisk<D> {
     guid: uuid::Uuid,
     primary_header: Result<header::Header, HeaderError>,
     backup_header: Result<header::Header, HeaderError>,
+    /// false if the primary copy on the device might be damaged, the backup is then the
+    /// only copy to rely on until the primary is written
+    primary_intact: bool,
     /// partition: 0 does never exist
     partitions: BTreeMap<u32, partition::Partition>,
     // we need this because to really make sure all content is written
@@ -395,6 +400,7 @@ impl<D: Clone> Clone for GptDisk<D> {
                 .as_ref()
                 .map_err(|e| e.lossy_clone())
                 .cloned(),
+            primary_intact: self.primary_intact,
             partitions: self.partitions.clone(),
             sync_all: self.sync_all,
         }
@@ -467,6 +473,7 @@ impl<D> GptDisk<D> {
                 .as_ref()
                 .map_err(|e| e.lossy_clone())
                 .cloned(),
+            primary_intact: self.primary_intact,
             partitions: self.partitions.clone(),
             sync_all: None,
         };
@@ -953,7 +960,7 @@ where
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
 
-        let backup_header = if !self.config.readonly_backup {
+        let mut backup_header = if !self.config.readonly_backup {
             let header = header::HeaderBuilder::from_header(primary_header)
                 .primary(false)
                 .build(self.config.lb_size)?;
@@ -963,94 +970,98 @@ where
             None
         };
 
-        // Write all of the used partitions at the start of the partition array.
-        let mut next_partition_index = 0;
-        for (part_idx, partition) in self
-            .partitions
-            .clone()
-            .iter()
-            .filter(|p| p.1.is_used())
-            .enumerate()
-        {
-            // don't allow us to overflow partition array...
-            // todo this should not be possible since we
-            // check in add partition that it is valid
-            if part_idx >= primary_header.num_parts as usize {
-                return Err(GptError::OverflowPartitionCount);
+        // don't allow us to overflow partition array...
+        // todo this should not be possible since we
+        // check in add partition that it is valid
+        let used_partitions = self.partitions.values().filter(|p| p.is_used()).count();
+        if used_partitions > primary_header.num_parts as usize {
+            return Err(GptError::OverflowPartitionCount);
+        }
+
+        // Only one of the copies might be damaged at any time (if we get interrupted or the
+        // device fails), so each copy needs to reach the disk before the other is touched.
+        // If the primary might already be damaged start with that one.
+        let primary_first = !self.primary_intact;
+        for is_primary in [primary_first, !primary_first] {
+            if is_primary {
+                self.primary_intact = false;
+                write_partition_array(
+                    &mut self.device,
+                    &self.partitions,
+                    primary_header,
+                    self.config.lb_size,
+                )?;
+                debug!("Writing primary header");
+                primary_header.write_primary(&mut self.device, self.config.lb_size)?;
+            } else if let Some(backup_header) = &mut backup_header {
+                write_partition_array(
+                    &mut self.device,
+                    &self.partitions,
+                    backup_header,
+                    self.config.lb_size,
+                )?;
+                debug!("Writing backup header");
+                backup_header.write_backup(&mut self.device, self.config.lb_size)?;
+            } else {
+                continue;
             }
 
-            // Write to primary partition array
-            partition.1.write_to_device(
-                &mut self.device,
-                part_idx as u64,
-                primary_header.part_start,
-                self.config.lb_size,
-                primary_header.part_size,
-            )?;
-            // IMPORTANT: must also write it to the backup header if it uses a different
-            // area to store the partition array; otherwise backup header will not point
-            // to an up to date partition array on disk.
-            if let Some(backup_header) = &backup_header {
-                if part_idx >= backup_header.num_parts as usize {
-                    return Err(GptError::OverflowPartitionCount);
-                }
+            self.device.flush()?;
 
-                if primary_header.part_start != backup_header.part_start {
-                    partition.1.write_to_device(
-                        &mut self.device,
-                        part_idx as u64,
-                        backup_header.part_start,
-                        self.config.lb_size,
-                        backup_header.part_size,
-                    )?;
-                }
+            if let Some(sync_all) = self.sync_all {
+                sync_all(&mut self.device)?;
             }
-            next_partition_index = part_idx + 1;
-        }
-
-        // Next, write zeros to the rest of the primary/backup partition array
-        // (ensures any newly deleted partitions are truly removed from disk, etc.)
-        // NOTE: we should never underflow here because of boundary checking in loop above.
-        partition::Partition::write_zero_entries_to_device(
-            &mut self.device,
-            next_partition_index as u64,
-            (primary_header.num_parts as u64)
-                .checked_sub(next_partition_index as u64)
-                .unwrap(),
-            primary_header.part_start,
-            self.config.lb_size,
-            primary_header.part_size,
-        )?;
-        if let Some(backup_header) = &backup_header {
-            partition::Partition::write_zero_entries_to_device(
-                &mut self.device,
-                next_partition_index as u64,
-                (backup_header.num_parts as u64)
-                    .checked_sub(next_partition_index as u64)
-                    .unwrap(),
-                backup_header.part_start,
-                self.config.lb_size,
-                backup_header.part_size,
-            )?;
-        }
 
-        if let Some(backup_header) = backup_header {
-            debug!("Writing backup header");
-            backup_header.write_backup(&mut self.device, self.config.lb_size)?;
+            if is_primary {
+                self.primary_intact = true;
+            }
         }
-        debug!("Writing primary header");
-        primary_header.write_primary(&mut self.device, self.config.lb_size)?;
-
-        self.device.flush()?;
 
-        if let Some(sync_all) = self.sync_all {
-            sync_all(&mut self.device)?;
-        }
+        // the device is left behind the primary header, regardless of which copy came first
+        let end = (primary_header.current_lba + 1) * self.config.lb_size.as_u64();
+        self.device.seek(io::SeekFrom::Start(end))?;
 
         Ok(())
     }
 }
 
+/// Writes the used partitions to the partition array of the given header.
+fn write_partition_array<D: DiskDevice>(
+    device: &mut D,
+    partitions: &BTreeMap<u32, partition::Partition>,
+    header: &header::Header,
+    lb_size: disk::LogicalBlockSize,
+) -> Result<(), GptError> {
+    // Write all of the used partitions at the start of the partition array.
+    let mut next_partition_index = 0;
+    for (part_idx, partition) in partitions.values().filter(|p| p.is_used()).enumerate() {
+        partition.write_to_device(
+            device,
+            part_idx as u64,
+            header.part_start,
+            lb_size,
+            header.part_size,
+        )?;
+        next_partition_index = part_idx + 1;
+    }
+
+    // Next, write zeros to the rest of the partition array
+    // (ensures any newly deleted partitions are truly removed from disk, etc.)
+    // NOTE: we should never underflow here because of boundary checking in write_inplace.
+    partition::Partition::write_zero_entries_to_device(
+        device,
+        next_partition_index as u64,
+        (header.num_parts as u64)
+            .checked_sub(next_partition_index as u64)
+            .unwrap(),
+        header.part_start,
+        lb_size,
+        header.part_size,
+    )?;
+
+    Ok(())
+}
+
 fn file_sync_all(device: &mut fs::File) -> io::Result<()> {
     device.sync_all()
 }
-- 
2.43.0


From 6ce522c33c7c46b1f3d2daf5ee2a661e79ab8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 14/22] fix: a written table had no backup that could be found
 on a grown device

The backup header is searched in the last lba, write left it where the disk ended
before, so the copy was lost as soon as the primary got damaged.
---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 443d439..04dcc48 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -954,8 +954,15 @@ where
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         trace!("old backup lba: {}", bak);
 
-        let primary_header = header::HeaderBuilder::from_header(self.header())
+        let header = self.header();
+        let mut backup_lba = header.current_lba.max(header.backup_lba);
+        // the backup is only found in the last lba, so move it there if the device has grown
+        if !self.config.readonly_backup {
+            backup_lba = backup_lba.max(bak);
+        }
+        let primary_header = header::HeaderBuilder::from_header(header)
             .primary(true)
+            .backup_lba(backup_lba)
             .disk_guid(self.guid)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From f8746212a7169c9f5bdf78a4413a728bcc46ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 15/22] fix: the primary was overwritten first although no
 backup could be found

If the device grew, the backup of a damaged primary is not in the last lba anymore, so the
backup needs to be written first.
---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04dcc48..e82af7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -303,6 +303,7 @@ impl GptConfig {
             device,
             guid: header.disk_guid,
             primary_intact: h1.is_ok(),
+            intact_backup: h2.as_ref().ok().map(|h| h.current_lba),
             primary_header: h1,
             backup_header: h2,
             partitions: table,
@@ -329,6 +330,7 @@ impl GptConfig {
             primary_header: Err(HeaderError::InvalidGptSignature),
             backup_header: Err(HeaderError::InvalidGptSignature),
             primary_intact: true,
+            intact_backup: None,
             partitions: BTreeMap::new(),
             sync_all: None,
         };
@@ -361,6 +363,8 @@ pub struct GptDisk<D> {
     /// false if the primary copy on the device might be damaged, the backup is then the
     /// only copy to rely on until the primary is written
     primary_intact: bool,
+    /// the lba of the backup header on the device, if that copy can be relied on
+    intact_backup: Option<u64>,
     /// partition: 0 does never exist
     partitions: BTreeMap<u32, partition::Partition>,
     // we need this because to really make sure all content is written
@@ -401,6 +405,7 @@ impl<D: Clone> Clone for GptDisk<D> {
                 .map_err(|e| e.lossy_clone())
                 .cloned(),
             primary_intact: self.primary_intact,
+            intact_backup: self.intact_backup,
             partitions: self.partitions.clone(),
             sync_all: self.sync_all,
         }
@@ -474,6 +479,7 @@ impl<D> GptDisk<D> {
                 .map_err(|e| e.lossy_clone())
                 .cloned(),
             primary_intact: self.primary_intact,
+            intact_backup: self.intact_backup,
             partitions: self.partitions.clone(),
             sync_all: None,
         };
@@ -987,8 +993,9 @@ where
 
         // Only one of the copies might be damaged at any time (if we get interrupted or the
         // device fails), so each copy needs to reach the disk before the other is touched.
-        // If the primary might already be damaged start with that one.
-        let primary_first = !self.primary_intact;
+        // If the primary might already be damaged start with that one, unless the backup would
+        // not be found because the device has grown.
+        let primary_first = !self.primary_intact && self.intact_backup == Some(bak);
         for is_primary in [primary_first, !primary_first] {
             if is_primary {
                 self.primary_intact = false;
@@ -1001,6 +1008,7 @@ where
                 debug!("Writing primary header");
                 primary_header.write_primary(&mut self.device, self.config.lb_size)?;
             } else if let Some(backup_header) = &mut backup_header {
+                self.intact_backup = None;
                 write_partition_array(
                     &mut self.device,
                     &self.partitions,
@@ -1021,6 +1029,8 @@ where
 
             if is_primary {
                 self.primary_intact = true;
+            } else {
+                self.intact_backup = backup_header.as_ref().map(|h| h.current_lba);
             }
         }
 
-- 
2.43.0


From 9a4d041a93fca3b5364819c2abcd7fdca2d15162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 16/22] fix: a crash could bring back an outdated table from a
 damaged primary

If only the entries of the primary are damaged, parts of a new array together with what was
left of the old one might fit to the outdated header again.
---
 src/lib.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e82af7e..e97b2f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -998,6 +998,16 @@ where
         let primary_first = !self.primary_intact && self.intact_backup == Some(bak);
         for is_primary in [primary_first, !primary_first] {
             if is_primary {
+                // An outdated header might fit to what a partially written array looks like,
+                // so get rid of it before the array is written.
+                if !self.primary_intact {
+                    let lb_size = self.config.lb_size;
+                    let start = primary_header.current_lba * lb_size.as_u64();
+                    self.device.seek(io::SeekFrom::Start(start))?;
+                    self.device.write_all(&vec![0; lb_size.as_usize()])?;
+                    flush_device(&mut self.device, self.sync_all)?;
+                }
+
                 self.primary_intact = false;
                 write_partition_array(
                     &mut self.device,
@@ -1021,11 +1031,7 @@ where
                 continue;
             }
 
-            self.device.flush()?;
-
-            if let Some(sync_all) = self.sync_all {
-                sync_all(&mut self.device)?;
-            }
+            flush_device(&mut self.device, self.sync_all)?;
 
             if is_primary {
                 self.primary_intact = true;
@@ -1079,6 +1085,20 @@ fn write_partition_array<D: DiskDevice>(
     Ok(())
 }
 
+/// Makes sure that everything written so far is stored.
+fn flush_device<D: DiskDevice>(
+    device: &mut D,
+    sync_all: Option<fn(&mut D) -> io::Result<()>>,
+) -> io::Result<()> {
+    device.flush()?;
+
+    if let Some(sync_all) = sync_all {
+        sync_all(device)?;
+    }
+
+    Ok(())
+}
+
 fn file_sync_all(device: &mut fs::File) -> io::Result<()> {
     device.sync_all()
 }
-- 
2.43.0


From 09e1bfd5d97ab1f77632ef7ff9cf3019d594fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 17/22] fix: a primary partition array not in lba 2 was moved
 over other data

---
 src/header/builder.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..bc85677 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -14,6 +14,8 @@ pub struct HeaderBuilder {
     first_usable: u64,
     /// Last usable LBA (secondary partition table first LBA - 1)
     last_usable: u64,
+    /// Where the primary partition array starts, zero if not known
+    primary_part_start: u64,
     /// Number of partition entries
     num_parts: u32,
     /// Size of a partition entry, usually 128
@@ -30,6 +32,7 @@ impl HeaderBuilder {
             backup_lba: 0,
             first_usable: 0,
             last_usable: 0,
+            primary_part_start: 0,
             num_parts: super::MIN_NUM_PARTS,
             part_size: 128,
         }
@@ -52,6 +55,7 @@ impl HeaderBuilder {
             backup_lba,
             first_usable: header.first_usable,
             last_usable: header.last_usable,
+            primary_part_start: if primary { header.part_start } else { 0 },
             num_parts: header.num_parts,
             part_size: header.part_size,
         }
@@ -135,9 +139,16 @@ impl HeaderBuilder {
         let part_array_size = self.num_parts * self.part_size;
         let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
 
+        // an array which already exists might not directly follow the header, there could be
+        // other data between them
+        let primary_part_start = match self.primary_part_start {
+            start if start < self.first_usable => start.max(self.primary_lba + 1),
+            _ => self.primary_lba + 1,
+        };
+
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
-            1 + 1 + part_array_lbs,
+            primary_part_start + part_array_lbs,
         );
 
         let last_usable = self.last_usable.max(
@@ -152,7 +163,7 @@ impl HeaderBuilder {
         }
 
         let part_start = if self.primary {
-            self.primary_lba + 1
+            primary_part_start
         } else {
             last_usable + 1
         };
-- 
2.43.0


From 3b7e04dfff06ae66dd785559bd6afc81423e052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 18/22] fix: a header copied from another lba was accepted

A header states the lba it lies in.  A copy of the backup header in lba 1
passed as intact primary although its entries are those of the backup, so
a crash while the backup is rewritten left no table at all.
---
 src/header/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index a322aa2..1c2116e 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -202,6 +202,16 @@ impl Header {
         Ok(bytes.len())
     }
 
+    /// A header which is a copy of one at another lba is not valid.
+    fn check_location(self, lba: u64) -> Result<Self, HeaderError> {
+        if self.current_lba != lba {
+            debug!("header of lba {} found in lba {lba}", self.current_lba);
+            return Err(HeaderError::InvalidGptSignature);
+        }
+
+        Ok(self)
+    }
+
     /// Returns true if the num parts changes
     pub(crate) fn num_parts_would_change(&self, partitions_len: u32) -> bool {
         let n_num_parts = partitions_len.max(MIN_NUM_PARTS).max(self.num_parts);
@@ -299,7 +309,7 @@ pub(crate) fn read_primary_header<D: Read + Seek>(
 ) -> Result<Header, HeaderError> {
     let cur = file.stream_position().unwrap_or(0);
     let offset: u64 = sector_size.into();
-    let res = file_read_header(file, offset);
+    let res = file_read_header(file, offset).and_then(|h| h.check_location(1));
     let _ = file.seek(SeekFrom::Start(cur));
     res
 }
@@ -313,7 +323,7 @@ pub(crate) fn read_backup_header<D: Read + Seek>(
     let offset = h2sect
         .checked_mul(sector_size.into())
         .ok_or(HeaderError::Overflow("backup header overflow - offset"))?;
-    let res = file_read_header(file, offset);
+    let res = file_read_header(file, offset).and_then(|h| h.check_location(h2sect));
     let _ = file.seek(SeekFrom::Start(cur));
     res
 }
-- 
2.43.0


From a8162bd51e670eff1bb89b6dd8ec0eb93de81b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:05 +0000
Subject: [PATCH 19/22] fix: a last usable lba behind the backup header
 overflowed on write

The backup partition array was written behind the backup header (or with
a last usable lba of u64::MAX to lba 0).  The size of the partition array
could overflow as well.
---
 src/header/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index bc85677..8a11538 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -136,8 +136,8 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         // an array which already exists might not directly follow the header, there could be
         // other data between them
@@ -148,7 +148,7 @@ impl HeaderBuilder {
 
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
-            primary_part_start + part_array_lbs,
+            primary_part_start.saturating_add(part_array_lbs),
         );
 
         let last_usable = self.last_usable.max(
@@ -158,7 +158,7 @@ impl HeaderBuilder {
                 .ok_or(HeaderError::BackupLbaToEarly)?,
         );
 
-        if first_usable > last_usable {
+        if first_usable > last_usable || last_usable >= self.backup_lba {
             return Err(HeaderError::BackupLbaToEarly);
         }
 
-- 
2.43.0


From e8033ee53ca9679178be015bca8281179304b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 20/22] fix: the usable area grew over a backup that is not to
 be written

---
 src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e97b2f8..471a7eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -910,6 +910,7 @@ where
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
+        let h1 = self.keep_readonly_backup(h1);
         let header = self.primary_header.insert_ok(h1);
 
         if !self.config.readonly_backup {
@@ -922,6 +923,18 @@ where
         Ok(())
     }
 
+    /// The array of a backup which is not written might be anywhere behind the usable area, so
+    /// that area must not grow.
+    fn keep_readonly_backup(&self, mut primary: header::Header) -> header::Header {
+        if let (true, Ok(header)) = (self.config.readonly_backup, self.try_header()) {
+            if header.last_usable >= primary.first_usable {
+                primary.last_usable = primary.last_usable.min(header.last_usable);
+            }
+        }
+
+        primary
+    }
+
     /// Persist state to disk, consuming this disk object.
     ///
     /// This is a destructive action, as it overwrite headers and
@@ -971,6 +984,7 @@ where
             .backup_lba(backup_lba)
             .disk_guid(self.guid)
             .build(self.config.lb_size)?;
+        let primary_header = self.keep_readonly_backup(primary_header);
         let primary_header = self.primary_header.insert_ok(primary_header);
 
         let mut backup_header = if !self.config.readonly_backup {
-- 
2.43.0


From 160313a188e34c0032b87c6b273f6e33b5c6f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:29 +0000
Subject: [PATCH 21/22] fix: the position of an entry far behind the start of
 the array wrapped around

---
 src/partition.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index 598941b..586dc09 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -126,8 +126,11 @@ impl Partition {
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow - offset"))?;
+        trace!("seeking to partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -156,8 +159,11 @@ impl Partition {
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow - offset"))?;
+        trace!("seeking to starting partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From 27f692f2456b0e93581248e1659ef249d71c26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:31 +0000
Subject: [PATCH 22/22] fix: a known type GUID in another notation was not
 recognised

---
 src/macros.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..36c397b 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,8 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                // might still be a known one in another notation
+                                Ok(u) => Ok(u.into()),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0

