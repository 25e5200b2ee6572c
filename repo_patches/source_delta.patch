From 73612fdc347956e0f0f9f9a46537b8eef21c500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:37 +0000
Subject: [PATCH 01/48] fix: limit RAID 4/5/6 chunk reads to the current chunk

A read spanning several chunks read the whole remaining length from the
member of every chunk it touched, returning too many and wrong bytes.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..e5f55ae 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 4ac7f150eed04b74df2aa26e327f8b7699cfd410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:37 +0000
Subject: [PATCH 02/48] fix: limit RAID 10 chunk reads to the current chunk

A read spanning several chunks read the whole remaining length from the
member of every chunk it touched, returning too many and wrong bytes.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index e5f55ae..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From e6151a4b3f5c1eab777a91477e5499981acda9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:57 +0000
Subject: [PATCH 03/48] fix: count RAID 0 zones by chunk-rounded member sizes

Members whose sizes differ by less than a chunk were counted as separate
zones, which made opening the array fail.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..2c4eda3 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
-- 
2.43.0


From d2ab36a3a491d5b333eede12c82c16c87acb83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:57 +0000
Subject: [PATCH 04/48] fix: address the members of later RAID 0 zones
 correctly

Zones after the first one start where the smaller members end, and consist
of the remaining members only. Reads in these zones used the beginning of
the members and looked up members by their number in the whole array.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2c4eda3..b4ba307 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -165,8 +165,8 @@ class RAID0Stream(AlignedStream):
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
-            offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            offset_in_device = zone.dev_start + (chunk * stripe_size) + offset_in_stripe
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
-- 
2.43.0


From 1014b43537c14874f8bb1de7d46736087e1438aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:09 +0000
Subject: [PATCH 05/48] fix: honour the original RAID 0 multi-zone layout

Arrays recorded with layout 1 select the member of a later zone by the
offset in the array instead of the offset in the zone.
---
 dissect/volume/raid/stream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index b4ba307..a66f943 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -48,6 +48,10 @@ class Layout(IntEnum):
     PARITY_N_6 = PARITY_N
 
 
+# RAID0 multi-zone layout that selects the device by the offset in the array, instead of the offset in the zone
+RAID0_ORIG_LAYOUT = 1
+
+
 class LinearStream(MappingStream):
     """Implements a stream on a linear RAID set."""
 
@@ -159,7 +163,7 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            if len(self.zones) == 1 or len(self.zones[1].devices) == 1 or self.virtual_disk.layout == RAID0_ORIG_LAYOUT:
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From c45a78c737b5bcf9074fb979df36f349ceeb33b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:09 +0000
Subject: [PATCH 06/48] fix: size of MD RAID 0 arrays with other than power of
 two chunks

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..2089395 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -57,7 +57,7 @@ class MDVirtualDisk(VirtualDisk):
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
-                size += disk.size & ~(reference_disk.chunk_size - 1)
+                size += disk.size // reference_disk.chunk_size * reference_disk.chunk_size
         elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
             size = reference_disk.sb.size * SECTOR_SIZE
         else:
-- 
2.43.0


From 20d04d77894e5f421090671f99075910d1707655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:09 +0000
Subject: [PATCH 07/48] fix: round the MD 1.0 superblock location down to 4 KiB

The 1.0 superblock is 4 KiB aligned, so members whose size is not a
multiple of 4 KiB were not recognised.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 2089395..87e462e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -161,7 +161,7 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
         # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From 1e90390659e02a5d70841b6964948d62e29e4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:19 +0000
Subject: [PATCH 08/48] fix: assemble MD arrays that have spare, faulty or
 journal devices

Devices without a role have no position to sort by, and the journal device
took the place of the first member.
---
 dissect/volume/md/md.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 87e462e..ed013ec 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,10 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        # Spare, faulty and journal devices don't have a position in the array
+        physical_disks = sorted(
+            physical_disks, key=lambda disk: disk.raid_disks if disk.raid_disk is None else disk.raid_disk
+        )
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
@@ -112,9 +115,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
             role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
+            if role <= c_md.MD_DISK_ROLE_MAX:
                 self.raid_disk = role
             else:
                 self.raid_disk = None
-- 
2.43.0


From 33388839c7b2e72b87fdc6753cf593a9a1554ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:19 +0000
Subject: [PATCH 09/48] fix: read the level in MD 0.90 superblocks as signed

Linear arrays are level -1 and were rejected as an unknown level.
---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From db28ee132f1dfa22f97553bf46c1464704a33310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:19 +0000
Subject: [PATCH 10/48] fix: ignore spare and faulty devices of MD 0.90 arrays

Spares have a number beyond the members, or still the number of the member
they used to be. Only devices that are in sync are members of the array.
---
 dissect/volume/md/md.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index ed013ec..88fb87c 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -130,7 +130,10 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+
+            disk = self.sb.disks[self.dev_number]
+            # Spare and faulty devices are not in sync with the array
+            self.raid_disk = disk.raid_disk if disk.state & (1 << c_md.MD_DISK_SYNC) else None
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.ctime)
-- 
2.43.0


From ff369cb64cb50fcafab62b221ba21c01ca427828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:47 +0000
Subject: [PATCH 11/48] fix: round the members of MD linear arrays down to the
 chunk size

The kernel only uses whole chunks of each member of a linear array, so
everything after the first member with a partial chunk was shifted.
---
 dissect/volume/md/md.py       | 8 +++++++-
 dissect/volume/raid/raid.py   | 3 +++
 dissect/volume/raid/stream.py | 7 ++++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 88fb87c..35131cc 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -55,8 +55,13 @@ class MDVirtualDisk(VirtualDisk):
         reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
         disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
 
+        disk_sizes = None
+
         if reference_disk.level == Level.LINEAR:
-            size = sum(disk.size for _, disk in disk_map.values())
+            # Members are used up to a multiple of the chunk size, if there is one
+            chunk_size = reference_disk.chunk_size or 1
+            disk_sizes = {idx: disk.size // chunk_size * chunk_size for idx, (_, disk) in disk_map.items()}
+            size = sum(disk_sizes.values())
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
@@ -78,6 +83,7 @@ class MDVirtualDisk(VirtualDisk):
             reference_disk.chunk_size,
             reference_disk.raid_disks,
             disk_map,
+            disk_sizes,
         )
 
 
diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..23c128a 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -49,6 +49,7 @@ class VirtualDisk:
         stripe_size: int,
         num_disks: int,
         disk_map: DiskMap,
+        disk_sizes: dict[int, int] | None = None,
     ):
         self.name = name
         self.uuid = uuid
@@ -58,6 +59,8 @@ class VirtualDisk:
         self.stripe_size = stripe_size
         self.num_disks = num_disks
         self.disk_map = disk_map
+        # How much of each disk belongs to the set, for those where that's not the size of the physical disk
+        self.disk_sizes = disk_sizes or {}
 
     def open(self) -> BinaryIO:
         """Return a file-like object of the RAID volume in this set."""
diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index a66f943..896dc47 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -64,9 +64,10 @@ class LinearStream(MappingStream):
             raise RAIDError(f"Missing disks in linear RAID set {virtual_disk.uuid} ({virtual_disk.name})")
 
         offset = 0
-        for disk_offset, disk in self.disk_map.values():
-            self.add(offset, disk.size, disk.open(), disk_offset)
-            offset += disk.size
+        for idx, (disk_offset, disk) in self.disk_map.items():
+            size = virtual_disk.disk_sizes.get(idx, disk.size)
+            self.add(offset, size, disk.open(), disk_offset)
+            offset += size
 
 
 class Zone(NamedTuple):
-- 
2.43.0


From 98c675a1d33e9b17f48f2072037977ca8e2652fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:08 +0000
Subject: [PATCH 12/48] fix: skip over other DDF configuration records

Unused, vendor and spare assignment records did not advance the offset, so
all virtual disk configuration records after them were lost.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..3386256 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -293,12 +293,12 @@ def _read_virtual_disk_configuration_records(
     for _ in range(count):
         fh.seek(offset)
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
+        offset += size
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 8ba7ab936984224b9241dc7df7f68406222a450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:08 +0000
Subject: [PATCH 13/48] fix: check the unicode name flag of DDF virtual disks

The flag for enforced disk grouping was checked instead, so unicode names
failed to decode as ASCII.
---
 dissect/volume/ddf/ddf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3386256..c5e7f0d 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,8 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        is_unicode = self.type & c_ddf.DDF_VDE_UNICODE_NAME
+        self.name = name.decode(encoding="utf-8") if is_unicode else name.decode(encoding="ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From d33f8c4ffa35872b8768db8e1d71eb5988c36099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:08 +0000
Subject: [PATCH 14/48] fix: skip unused entries in the DDF disk record tables

Removing a disk leaves an unused entry in front of the remaining ones. These
were parsed as a record, and the same number of records at the end of the
table was missed.
---
 dissect/volume/ddf/ddf.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index c5e7f0d..3c9c45c 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -22,6 +22,9 @@ if TYPE_CHECKING:
 
 DEFAULT_SECTOR_SIZE = 512
 
+# Size of both physical disk and virtual disk entries
+RECORD_SIZE = 64
+
 DECADE = 3600 * 24 * (365 * 10 + 2)
 
 
@@ -278,13 +281,29 @@ def _read_section_header(
 def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Physical_Disk_Records, c_ddf.DDF_PDR_SIGNATURE)
-    return [PhysicalDiskRecord(fh) for _ in range(header.Populated_PDEs)]
+    return _read_populated_records(fh, PhysicalDiskRecord, header.Populated_PDEs, header.Max_PDE_Supported)
 
 
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Virtual_Disk_Records, c_ddf.DDF_VD_RECORD_SIGNATURE)
-    return [VirtualDiskRecord(fh) for _ in range(header.Populated_VDEs)]
+    return _read_populated_records(fh, VirtualDiskRecord, header.Populated_VDEs, header.Max_VDE_Supported)
+
+
+def _read_populated_records(
+    fh: BinaryIO, record_type: type[PhysicalDiskRecord | VirtualDiskRecord], populated: int, maximum: int
+) -> list[PhysicalDiskRecord | VirtualDiskRecord]:
+    """Read the populated records of a table, skipping the unused ones (filled with ``0xFF``) in between."""
+    result = []
+    for _ in range(max(populated, maximum)):
+        if len(result) == populated:
+            break
+
+        buf = fh.read(RECORD_SIZE)
+        if buf != b"\xff" * RECORD_SIZE:
+            result.append(record_type(io.BytesIO(buf)))
+
+    return result
 
 
 def _read_virtual_disk_configuration_records(
-- 
2.43.0


From 44a8db197bb5646185ab62660848e27b16c55658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:08 +0000
Subject: [PATCH 15/48] fix: convert DDF starting blocks to bytes

Virtual disks that don't start at the first block of a physical disk were
read from the wrong offset.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3c9c45c..7cb6e6f 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -69,7 +69,7 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From dd8425be7cf2e57f244fd2bf3503a23bd25c6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:08 +0000
Subject: [PATCH 16/48] fix: honour start and size of DDF RAID 1 virtual disks

Mirrored virtual disks exposed the whole physical disk from its first
block, including other virtual disks on it.
---
 dissect/volume/ddf/ddf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7cb6e6f..010c010 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -4,6 +4,7 @@ import io
 from typing import TYPE_CHECKING, BinaryIO
 
 from dissect.util import ts
+from dissect.util.stream import RangeStream
 
 from dissect.volume.ddf.c_ddf import c_ddf
 from dissect.volume.exceptions import DDFError
@@ -111,6 +112,13 @@ class DDFVirtualDisk(VirtualDisk):
             disks,
         )
 
+    def open(self) -> BinaryIO:
+        if self.level == Level.RAID1:
+            # The virtual disk can start anywhere on the physical disk and be smaller than it
+            disk_offset, disk = next(iter(self.disk_map.values()))
+            return RangeStream(disk.fh, disk.offset + disk_offset, self.size)
+        return super().open()
+
     @property
     def virtual_disk_configuration_record(self) -> VirtualDiskConfigurationRecord:
         return self.vdcr
-- 
2.43.0


From 7afe0e45656a63552dbf362a8dd9a97b7a0f1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:06 +0000
Subject: [PATCH 17/48] fix: honour the drive offset of Vinum subdisks

All subdisks were read from the start of the data section of their drive,
so only the first subdisk of a drive returned its own data.
---
 dissect/volume/vinum/vinum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..41b3120 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,10 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            disk = disks_by_name[sd.drive]
+                            # The driveoffset is relative to the start of the drive, instead of its data section
+                            disk_offset = sd.driveoffset - disk.offset if sd.driveoffset else 0
+                            disk_map[idx] = (disk_offset, disk)
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From 7ef3cbca7610158339b1b2063a71f18daa9d45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:06 +0000
Subject: [PATCH 18/48] fix: honour the length of subdisks in concatenated
 Vinum plexes

Every subdisk was assumed to span its whole drive, which shifted the data of
all subdisks but the first and made the volume too large.
---
 dissect/volume/vinum/vinum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 41b3120..c6f9e66 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -259,6 +259,7 @@ class VinumPlexDisk(VirtualDisk):
         stripe_size = 0 if plex.org == PlexOrg.CONCAT else plex.stripesize  # concatenated disks don't have stripes
 
         size = 0
+        disk_sizes = None
         sd = sds[0]
         if plex.org == PlexOrg.RAID5:
             # SDs in a vinum RAID5 org are required to have equal size, so we
@@ -271,6 +272,8 @@ class VinumPlexDisk(VirtualDisk):
         else:
             for sd in sds:
                 size += sd.length
+            # The SDs of a concatenated plex don't need to span their whole drive
+            disk_sizes = {idx: sd.length for idx, sd in enumerate(sorted(sds, key=lambda sd: sd.plexoffset))}
 
         super().__init__(
             volume.name.decode(errors="backslashreplace"),
@@ -281,6 +284,7 @@ class VinumPlexDisk(VirtualDisk):
             stripe_size,
             len(sds),
             disk_map,
+            disk_sizes,
         )
 
 
-- 
2.43.0


From ef1761687ae9e0a0aed2bf6c3cc9239f6edd44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:50 +0000
Subject: [PATCH 19/48] fix: prefer complete plexes of mirrored Vinum volumes

The first plex was always used, even when some of its subdisks were missing
or unusable while another plex was complete.
---
 dissect/volume/vinum/vinum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index c6f9e66..d384b41 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -204,7 +204,14 @@ class VinumConfiguration(Configuration):
                     # There is no official order in the plexes. However if they
                     # are named automatically, they have a pseudo order due to
                     # there names being constructed with p0, p1, etc.
-                    splexes = sorted(plexes, key=lambda plex: plex.name)
+                    # Plexes with unusable or missing SDs go last, so they are only
+                    # read from if there is no complete plex.
+                    disk_maps = disk_map_by_plex_by_volume[volume.name]
+                    sds_by_plex = sds_by_plex_by_volume[volume.name]
+                    splexes = sorted(
+                        plexes,
+                        key=lambda plex: (len(disk_maps[plex.name]) != len(sds_by_plex[plex.name]), plex.name),
+                    )
                     for idx, plex in enumerate(splexes):
                         disk_map = disk_map_by_plex_by_volume[volume.name][plex.name]
                         if disk_map:
-- 
2.43.0


From deedb123239931c7310ddef349fb4c0580a11d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:55 +0000
Subject: [PATCH 20/48] fix: read blocks behind an unprovisioned thin device
 block

---
 dissect/volume/dm/thin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..7c1ebf0 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -75,23 +75,20 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                # Blocks that are not provisioned read as zeroes
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
-            offset += read_size
             block += 1
 
         return b"".join(result)
-- 
2.43.0


From 0cf8602c331f607d2fdc5680bb1ecf26d1a83842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:55 +0000
Subject: [PATCH 21/48] fix: read the thin pool superblock from the start of
 the metadata device

---
 dissect/volume/dm/thin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 7c1ebf0..85863eb 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,8 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+
+        self.fh.seek(0)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From 6b233c879be6c1d1c03f289e88aa4480925db408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:49 +0000
Subject: [PATCH 22/48] fix: read LVM metadata that wraps around in the
 metadata area

---
 dissect/volume/lvm/physical.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..892bd4b 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -70,8 +70,17 @@ class LVM2Device:
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
 
-        self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        # The text is stored in a circular buffer that starts after the sector with the metadata area header
+        offset, length = raw_locn[0].offset, raw_locn[0].size - 1
+        remaining = min(length, mda_header.size - offset)
+
+        self.fh.seek(mda_header.start + offset)
+        buf = self.fh.read(remaining)
+        if remaining < length:
+            self.fh.seek(mda_header.start + SECTOR_SIZE)
+            buf += self.fh.read(length - remaining)
+
+        return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From d99fd5867782840d87d2b36b907b5476231d9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:49 +0000
Subject: [PATCH 23/48] fix: use LVM metadata of any physical volume that has
 it

---
 dissect/volume/lvm/lvm2.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..2f4325b 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -28,7 +28,11 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        # Not every physical volume has to carry metadata
+        self.metadata = next((device.metadata for device in devices if device.metadata), None)
+        if self.metadata is None:
+            raise LVM2Error("No metadata found on any of the physical volumes")
+
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
-- 
2.43.0


From 8d6cc31f4ceb5b121aa97f64180f7efa56ae03ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:49 +0000
Subject: [PATCH 24/48] fix: interleave the stripes of striped LVM segments

---
 dissect/volume/lvm/metadata.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..a8797f1 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -13,6 +13,8 @@ from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.c_lvm2 import SECTOR_SIZE
 from dissect.volume.lvm.physical import LVM2Device  # noqa: TC001
+from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
+from dissect.volume.raid.stream import Level
 
 if TYPE_CHECKING:
     from dissect.util.stream import RunlistStream
@@ -372,6 +374,9 @@ class StripedSegment(Segment):
     stripes: list[tuple[str, int]]
 
     def open(self) -> BinaryIO:
+        if self.stripe_count > 1:
+            return self._open_striped()
+
         stream = MappingStream()
         pv = self._logical_volume._volume_group.physical_volumes
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
@@ -392,6 +397,27 @@ class StripedSegment(Segment):
 
         return stream
 
+    def _open_striped(self) -> BinaryIO:
+        vg = self._logical_volume._volume_group
+        extent_size = vg.extent_size * SECTOR_SIZE
+        size = self.extent_count * extent_size
+
+        disk_map = {}
+        for i, (pv_name, extent_offset) in enumerate(self.stripes):
+            pv_fh = vg.physical_volumes[pv_name].open()
+            disk_map[i] = (0, PhysicalDisk(pv_fh, extent_offset * extent_size, size // self.stripe_count))
+
+        return VirtualDisk(
+            self._logical_volume.name,
+            self._logical_volume.id,
+            size,
+            Level.RAID0,
+            0,
+            self.stripe_size * SECTOR_SIZE,
+            self.stripe_count,
+            disk_map,
+        ).open()
+
     def _from_dict(self, obj: dict, name: str | None = None, parent: MetaBase | None = None) -> None:
         super()._from_dict(obj, name=name, parent=parent)
         self.stripes = [tuple(self.stripes[i : i + 2]) for i in range(0, len(self.stripes), 2)]
-- 
2.43.0


From 5c2caf6add7f15191e9a3292ae7f5f39034ac349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:21 +0000
Subject: [PATCH 25/48] fix: make all extents of LVM physical volumes available

---
 dissect/volume/lvm/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index a8797f1..7e3ea3d 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -166,10 +166,11 @@ class PhysicalVolume(MetaBase):
             raise LVM2Error(f"Physical volume not found: {self.name} (id={self.id}, device={self.device})")
 
         stream: RunlistStream = self.dev.open()
-        if stream.size >= self.size:
+        # All extents must be available, even if both the header and the metadata state a smaller size
+        size = max(self.size, self.pe_count * self.vg.extent_size * SECTOR_SIZE)
+        if stream.size >= size:
             return stream
 
-        size = max(stream.size, self.size)
         area = self.dev._data_area_descriptors[0]
 
         stream.runlist = [(area.offset // SECTOR_SIZE, size // SECTOR_SIZE)]
-- 
2.43.0


From f825658c724aa7745d2b2c79aca5c6c7450af87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:20 +0000
Subject: [PATCH 26/48] fix: skip unused GPT entries that still have sector
 numbers

An entry with an all-zero partition type is not in use, even when a
partitioning tool left the other fields of the entry in place. Those
entries were reported as partitions.
---
 dissect/volume/disk/schemes/gpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index b149e1c..a8ffea7 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -94,7 +94,8 @@ class GPT:
                     self.fh.seek(base_offset + (part_num * self.gpt.partition_entry_size))
 
                     partition = c_gpt.GPT_PARTITION(self.fh)
-                    if partition.first_lba == 0:
+                    if partition.first_lba == 0 or partition.type_guid == bytes(16):
+                        # A partition type of all zeroes marks an unused entry
                         continue
 
                     name = (
-- 
2.43.0


From 049d47aac7d07dee1c6f7461643418afd7d69256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:43 +0000
Subject: [PATCH 27/48] fix: ignore MD super blocks that belong to a nested
 array

The location of a super block was accepted on its magic alone. When an
array member stores the members of another array, a super block of the
nested array can lie at one of the searched locations. Version 1 super
blocks record their own location, so use it to recognise these.
---
 dissect/volume/md/md.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 35131cc..ae51600 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -183,13 +183,20 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
             continue
 
         fh.seek(sector * SECTOR_SIZE)
-        peek = fh.read(12)
-        if len(peek) != 12:
+        peek = fh.read(152)
+        if len(peek) != 152:
             continue
 
-        magic, major, minor = struct.unpack("<3I", peek)
-        if magic == c_md.MD_SB_MAGIC:
-            return sector, major, minor
+        magic, major, minor = struct.unpack_from("<3I", peek)
+        if magic != c_md.MD_SB_MAGIC:
+            continue
+
+        # Version 1 super blocks record their own location, which tells them apart from the super block of an array
+        # that is stored in this one
+        if major == 1 and struct.unpack_from("<Q", peek, 144)[0] != sector:
+            continue
+
+        return sector, major, minor
 
     return None, None, None
 
-- 
2.43.0


From 4c9503426a7960b53822d8b5b48dfd74654669f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:43 +0000
Subject: [PATCH 28/48] fix: don't detect another partition scheme after a read
 error

A read error while parsing the scheme that is on the disk was treated as
if that scheme isn't there. Remains of an older scheme, like a disklabel
behind a MBR, were then used instead.
---
 dissect/volume/disk/disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..3bc9f42 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -29,6 +29,9 @@ class Disk:
                 self.scheme = scheme(fh, sector_size=self.sector_size)
 
                 break
+            except OSError:
+                # A read error says nothing about the scheme, so don't try to detect another one
+                raise
             except Exception as e:
                 errors.append(str(e))
 
-- 
2.43.0


From 200b7a9c320f4b3e623cca2e85d77800412cf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:57 +0000
Subject: [PATCH 29/48] fix: read other near copies of a RAID10 set when a disk
 is missing

A RAID10 stream always read the first copy of a chunk. With that disk
missing, reading failed with a KeyError although another copy is
available.
---
 dissect/volume/raid/stream.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 896dc47..a3482d5 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -422,6 +422,19 @@ class RAID10Stream(AlignedStream):
 
             if self.far_offset:
                 stripe *= self.far_copies
+
+            # Fall back to the next near copies if a disk is missing
+            for _ in range(self.near_copies):
+                if dev in self.disk_map:
+                    break
+
+                dev += 1
+                if dev >= self.raid_disks:
+                    dev = 0
+                    stripe += 1
+            else:
+                raise RAIDError(f"Missing disks in RAID10 set {self.virtual_disk.uuid} ({self.virtual_disk.name})")
+
             device_start, device = self.disk_map[dev]
 
             stripe_remaining = stripe_size - offset_in_stripe
-- 
2.43.0


From b79a17af80f699ed1c0d3ef3ba97e42dc9e6c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:29 +0000
Subject: [PATCH 30/48] fix: do not use MD members that dropped out of a
 redundant array

A member that missed superblock updates, or that the newest superblock lists as
faulty, still describes itself as active. Its data is outdated, so leave it out
of the disk map for redundant levels.
---
 dissect/volume/md/md.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index ae51600..e2fb728 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -53,6 +53,13 @@ class MDConfiguration(Configuration):
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
         reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
+        if reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
+            # Members that dropped out of the array don't have current data, even if they still think they are active
+            physical_disks = [
+                disk
+                for disk in physical_disks
+                if disk.events + 1 >= reference_disk.events and not reference_disk.is_faulty(disk.dev_number)
+            ]
         disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
 
         disk_sizes = None
@@ -150,6 +157,12 @@ class MDPhysicalDisk(PhysicalDisk):
 
         super().__init__(fh, self.data_offset * SECTOR_SIZE, self.data_size * SECTOR_SIZE)
 
+    def is_faulty(self, dev_number: int) -> bool:
+        """Return whether the super block of this disk lists the given device as faulty."""
+        if self.sb.major_version == 1:
+            return dev_number < len(self.sb.dev_roles) and self.sb.dev_roles[dev_number] == c_md.MD_DISK_ROLE_FAULTY
+        return bool(self.sb.disks[dev_number].state & (1 << c_md.MD_DISK_FAULTY))
+
 
 def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
     """Find the super block of an MD device.
-- 
2.43.0


From a1c656080214fd732c24b2b08d9354980e227f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:42 +0000
Subject: [PATCH 31/48] fix: use the newest committed LVM metadata

The metadata was always taken from the first metadata area of the first device
that has one, which can be empty, ignored or older than the others after an
interrupted update. Look at all areas and use the highest sequence number.
---
 dissect/volume/lvm/lvm2.py     |  6 +++---
 dissect/volume/lvm/physical.py | 26 ++++++++++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index 2f4325b..d424806 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -8,7 +8,7 @@ from dissect.util import ts
 
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.metadata import VolumeGroup
-from dissect.volume.lvm.physical import LVM2Device
+from dissect.volume.lvm.physical import LVM2Device, get_seqno
 
 if TYPE_CHECKING:
     from datetime import datetime
@@ -28,8 +28,8 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        # Not every physical volume has to carry metadata
-        self.metadata = next((device.metadata for device in devices if device.metadata), None)
+        # Not every physical volume has to carry metadata, and some can have missed updates
+        self.metadata = max((device.metadata for device in devices if device.metadata), key=get_seqno, default=None)
         if self.metadata is None:
             raise LVM2Error("No metadata found on any of the physical volumes")
 
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 892bd4b..fe0d91a 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -63,15 +63,24 @@ class LVM2Device:
 
     @cached_property
     def metadata(self) -> dict | None:
-        if not self._metadata_areas:
-            return None
+        """The most recently committed metadata of all metadata areas."""
+        newest = None
 
-        # Only support the first metadata area for now
-        # Unsure when a second area is used
-        mda_header, raw_locn = self._metadata_areas[0]
+        for mda_header, raw_locn in self._metadata_areas:
+            # The first location is that of the committed metadata, a second one is not committed yet
+            # There's no metadata in an area that is ignored or not written to yet
+            if not raw_locn or not raw_locn[0].size or raw_locn[0].flags & c_lvm.RAW_LOCN_IGNORED:
+                continue
 
+            metadata = self._read_metadata(mda_header, raw_locn[0])
+            if newest is None or get_seqno(metadata) > get_seqno(newest):
+                newest = metadata
+
+        return newest
+
+    def _read_metadata(self, mda_header: c_lvm.mda_header, raw_locn: c_lvm.raw_locn) -> dict:
         # The text is stored in a circular buffer that starts after the sector with the metadata area header
-        offset, length = raw_locn[0].offset, raw_locn[0].size - 1
+        offset, length = raw_locn.offset, raw_locn.size - 1
         remaining = min(length, mda_header.size - offset)
 
         self.fh.seek(mda_header.start + offset)
@@ -117,6 +126,11 @@ def _read_descriptors(
     return ctype[None](fh)
 
 
+def get_seqno(metadata: dict) -> int:
+    """Return the sequence number of the volume group in the given metadata."""
+    return max((value.get("seqno", 0) for value in metadata.values() if isinstance(value, dict)), default=0)
+
+
 def parse_metadata(string: str) -> dict:
     root = {}
     current = root
-- 
2.43.0


From 8fcf7fa56913ec856173eeb1f9bffc6bdf36cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:28 +0000
Subject: [PATCH 32/48] fix: use the most recent DDF virtual disk configuration
 record

Disks can carry records of different age when an update was interrupted or a
disk was replaced. The record of the last disk was used, whatever its sequence
number.
---
 dissect/volume/ddf/ddf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 010c010..9c000ff 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -55,10 +55,11 @@ class DDFConfiguration(Configuration):
         for pd in physical_disks:
             pd_map[pd.reference] = pd
             vde_map.update({vde.guid: vde for vde in pd.virtual_disk_records})
-            vdcr_map.update({vdcr.guid: vdcr for vdcr in pd.virtual_disk_configuration_records})
-            vdcr_uniq.update(
-                {(vdcr.guid, vdcr.secondary_element_seq): vdcr for vdcr in pd.virtual_disk_configuration_records}
-            )
+            for vdcr in pd.virtual_disk_configuration_records:
+                # Disks can have missed updates, only use the most recent record
+                for records, key in ((vdcr_map, vdcr.guid), (vdcr_uniq, (vdcr.guid, vdcr.secondary_element_seq))):
+                    if key not in records or vdcr.sequence_number >= records[key].sequence_number:
+                        records[key] = vdcr
 
         vd_map: dict = {}
         for vdcr in vdcr_uniq.values():
-- 
2.43.0


From ce54005626ec632b0330e01548cad9f9109cfb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:44 +0000
Subject: [PATCH 33/48] fix: use the secondary DDF structures if the primary
 ones are being updated

The header of the primary copy is marked open while its sections are rewritten.
When the writer crashes at that point, only the secondary copy is complete.
---
 dissect/volume/ddf/ddf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 9c000ff..1fb5b60 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -153,6 +153,15 @@ class DDFPhysicalDisk(PhysicalDisk):
             self.secondary_header = c_ddf.DDF_Header(fh)
 
         self.active_header_offset = self.primary_header_offset
+        self.active_header = self.primary_header
+        if (
+            self.primary_header.Open_Flag & c_ddf.DDF_HEADER_OPENED_MASK
+            and self.secondary_header
+            and not self.secondary_header.Open_Flag & c_ddf.DDF_HEADER_OPENED_MASK
+        ):
+            # An update of the primary structures was interrupted
+            self.active_header_offset = self.secondary_header_offset
+            self.active_header = self.secondary_header
 
         header_offset = self.active_header_offset
         fh.seek(header_offset + (self.anchor.Controller_Data_Section * sector_size))
-- 
2.43.0


From 49550fc87745e5dae238c215eea0a6a9142ff617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:00 +0000
Subject: [PATCH 34/48] fix: do not use failed disks for redundant DDF virtual
 disks

The physical disk records of the most recent configuration tell which disks
failed, are missing or are being rebuilt. Such disks have outdated data.
---
 dissect/volume/ddf/ddf.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 1fb5b60..9ab7c48 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -26,6 +26,15 @@ DEFAULT_SECTOR_SIZE = 512
 # Size of both physical disk and virtual disk entries
 RECORD_SIZE = 64
 
+REDUNDANT_LEVELS = (
+    c_ddf.DDF_VDCR_RAID1,
+    c_ddf.DDF_VDCR_RAID3,
+    c_ddf.DDF_VDCR_RAID4,
+    c_ddf.DDF_VDCR_RAID5,
+    c_ddf.DDF_VDCR_RAID6,
+    c_ddf.DDF_VDCR_RAID1E,
+)
+
 DECADE = 3600 * 24 * (365 * 10 + 2)
 
 
@@ -61,6 +70,14 @@ class DDFConfiguration(Configuration):
                     if key not in records or vdcr.sequence_number >= records[key].sequence_number:
                         records[key] = vdcr
 
+        # Disks that failed don't have current data, even if they can still be read
+        newest_pd = max(physical_disks, key=lambda pd: pd.active_header.Sequence_Number)
+        outdated = {
+            pdr.reference
+            for pdr in newest_pd.physical_disk_records
+            if pdr.state & (c_ddf.DDF_PDE_FAILED | c_ddf.DDF_PDE_REBUILD | c_ddf.DDF_PDE_MISSING)
+        }
+
         vd_map: dict = {}
         for vdcr in vdcr_uniq.values():
             vd_pd_map = vd_map.setdefault(vdcr.guid, {})
@@ -70,13 +87,20 @@ class DDFConfiguration(Configuration):
 
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
-                if matched_pd := pd_map.get(pds):
+                if pds in outdated and vdcr.primary_raid_level in REDUNDANT_LEVELS:
+                    matched_pd = None
+                else:
+                    matched_pd = pd_map.get(pds)
+
+                if matched_pd:
                     vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
 
-        virtual_disks = [DDFVirtualDisk(vdcr_map[guid], vde_map[guid], vd_map[guid]) for guid in vd_map]
+        virtual_disks = [
+            DDFVirtualDisk(vdcr_map[guid], vde_map[guid], disks) for guid, disks in vd_map.items() if disks
+        ]
         super().__init__(physical_disks, virtual_disks)
 
 
-- 
2.43.0


From dd460146b572b4bcea021fdac703b7b36e638c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 35/48] fix: raise an error for cyclic and invalid B-tree nodes

---
 dissect/volume/dm/btree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..dfbf886 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        seen = set()
         while True:
+            if block in seen:
+                raise DMError(f"Cyclic reference to B-tree node: {block}")
+            seen.add(block)
+
             node = self._read_node(block)
 
             low = -1
@@ -64,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"Invalid B-tree node flags: {node.header.flags}")
 
 
 class Node:
-- 
2.43.0


From e96f63514dbdb1eb602afafb56c759bde820fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 36/48] fix: raise an error for cyclic VSS block chains

---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..6242be0 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -653,8 +653,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    seen = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in seen:
+            raise Error(f"cyclic reference to VSS block at {offset:#x}")
+        seen.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From 5728beaf84ebae061f86c4599aa7e17ead9589da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:05 +0000
Subject: [PATCH 37/48] fix: reject GPT partition entries that are too small

---
 dissect/volume/disk/schemes/gpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index a8ffea7..2e9ca2e 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -71,6 +71,9 @@ class GPT:
         if self.gpt.signature != b"EFI PART":
             raise DiskError(f"Invalid GPT signature, expected 'EFI PART', got {self.gpt.signature!r}.")
 
+        if self.gpt.partition_entry_size < len(c_gpt.GPT_PARTITION):
+            raise DiskError(f"Invalid GPT partition entry size: {self.gpt.partition_entry_size}.")
+
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-- 
2.43.0


From 39b4dc93fbc643d0e15999c223c860902fbea8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:20 +0000
Subject: [PATCH 38/48] fix: reject thin pools with an impossible data block
 size

---
 dissect/volume/dm/thin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 85863eb..1f7d962 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -8,6 +8,9 @@ from dissect.volume.dm.btree import BTree
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
 from dissect.volume.exceptions import DMError
 
+# In sectors, the device-mapper doesn't allow for blocks of more than 1 GiB
+MAX_DATA_BLOCK_SIZE = (1024 * 1024 * 1024) // SECTOR_SIZE
+
 
 class ThinPool:
     """Interact with a device-mapper thin-provision pool."""
@@ -42,6 +45,9 @@ class Metadata:
             raise DMError("Invalid magic for thin-pool metadata superblock")
 
         self.data_block_size = self.sb.data_block_size
+        if self.data_block_size > MAX_DATA_BLOCK_SIZE:
+            raise DMError(f"Invalid data block size for thin-pool: {self.data_block_size}")
+
         self.metadata_block_size = self.sb.metadata_block_size
 
         self.data_mapping = BTree(self.fh, self.sb.data_mapping_root, self.metadata_block_size)
-- 
2.43.0


From 90b13dbc874ed2c9c6c7b88e997dcc9ea4a78391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:49 +0000
Subject: [PATCH 39/48] fix: follow every extended MBR only once

A damaged partition table whose extended MBRs refer to the same extended
MBR more than once was followed once for every path, which takes time
exponential in the length of the chain.
---
 dissect/volume/disk/schemes/mbr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..270e5a3 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -54,6 +54,7 @@ class MBR:
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
             raise DiskError("Sector is a QNX Boot Sector, not an MBR")
 
+        self._seen_ebrs = set()
         self.partitions: list[Partition] = list(self._partitions(self.mbr, self.offset))
 
     def _partitions(
@@ -72,6 +73,11 @@ class MBR:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
+                # Damaged tables can refer to the same extended MBR more than once
+                if part_offset in self._seen_ebrs:
+                    continue
+                self._seen_ebrs.add(part_offset)
+
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
                 yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
-- 
2.43.0


From 0b8a7f39b47908702d0736fbef6ef83e456a6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:52 +0000
Subject: [PATCH 40/48] fix: don't open LVM logical volumes that refer to
 themselves

Damaged metadata can have mirrors and thin pools refer to the logical
volume they are part of, directly or through others. Opening such a
volume recursed without end, or took exponential time in case of mirrors.
---
 dissect/volume/lvm/metadata.py | 38 +++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 7e3ea3d..9688fc3 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -316,6 +316,27 @@ class Segment(MetaBase):
     def open(self) -> BinaryIO:
         raise NotImplementedError(f"{self.__class__.__name__} is not implemented yet")
 
+    def _references(self) -> list[str]:
+        """Return the names of the logical volumes that are necessary to open this segment."""
+        return []
+
+    def _get_lv(self, name: str) -> LogicalVolume:
+        """Return the logical volume with the given name, if it doesn't depend on the one of this segment itself."""
+        lvs = self._logical_volume._volume_group.logical_volumes
+
+        seen = set()
+        todo = [name]
+        while todo:
+            lv = lvs.get(todo.pop())
+            if lv is self._logical_volume:
+                raise LVM2Error(f"Logical volume refers to itself: {lv.name}")
+
+            if lv and lv.name not in seen:
+                seen.add(lv.name)
+                todo.extend(ref for segment in lv.segments for ref in segment._references())
+
+        return lvs[name]
+
     @classmethod
     def from_dict(cls, obj: dict, name: str | None = None, parent: MetaBase | None = None) -> Segment:
         SEGMENT_CLASS_MAP = {
@@ -437,13 +458,15 @@ class MirrorSegment(Segment):
         # Just open the first mirror we can
         for lv_name, _ in self.mirrors:
             try:
-                lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                return self._get_lv(lv_name).open()
             except Exception:  # noqa: PERF203
                 pass
         else:
             raise LVM2Error("No mirrors available")
 
+    def _references(self) -> list[str]:
+        return [lv_name for lv_name, _ in self.mirrors or []]
+
     def _from_dict(self, obj: dict, name: str | None = None, parent: MetaBase | None = None) -> None:
         super()._from_dict(obj, name=name, parent=parent)
 
@@ -473,11 +496,14 @@ class ThinSegment(Segment):
     def open(self) -> BinaryIO:
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
 
-        thin_pool_lv = self._logical_volume._volume_group.logical_volumes[self.thin_pool]
+        thin_pool_lv = self._get_lv(self.thin_pool)
         thin_pool_segment: ThinPoolSegment = thin_pool_lv.segments[0]
         thin_pool = thin_pool_segment.open_pool()
         return thin_pool.open(self.device_id, self.extent_count * extent_size)
 
+    def _references(self) -> list[str]:
+        return [self.thin_pool]
+
 
 @dataclass(init=False)
 class ThinPoolSegment(Segment):
@@ -497,8 +523,10 @@ class ThinPoolSegment(Segment):
         raise RuntimeError("Opening a thin-pool for reading is not possible, use open_pool() instead")
 
     def open_pool(self) -> ThinPool:
-        lvs = self._logical_volume._volume_group.logical_volumes
-        return ThinPool(lvs[self.metadata].open(), lvs[self.pool].open())
+        return ThinPool(self._get_lv(self.metadata).open(), self._get_lv(self.pool).open())
+
+    def _references(self) -> list[str]:
+        return [self.metadata, self.pool]
 
 
 @dataclass(init=False)
-- 
2.43.0


From 3bf0a86159779c658a579e6b943e630ce31de05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:21 +0000
Subject: [PATCH 41/48] fix: report when an MD super block was last updated

The update time was taken from the creation time.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index e2fb728..b591108 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -149,7 +149,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = disk.raid_disk if disk.state & (1 << c_md.MD_DISK_SYNC) else None
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From 97cce3bded4b3700d99c866326573d74888de3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:44 +0000
Subject: [PATCH 42/48] fix: report the creation time of logical volumes as a
 datetime

The type of LogicalVolume.creation_time is datetime, but it was left as the number
in the metadata text. The other times in the metadata are converted.
---
 dissect/volume/lvm/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 9688fc3..20bfa51 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -240,6 +240,9 @@ class LogicalVolume(MetaBase):
         self._volume_group = parent
         self._segments = [Segment.from_dict(v, name=k, parent=self) for k, v in obj.items() if isinstance(v, dict)]
 
+        if self.creation_time:
+            self.creation_time = ts.from_unix(self.creation_time)
+
 
 @dataclass(init=False)
 class HistoricalLogicalVolume(MetaBase):
-- 
2.43.0


From 93e71b877dab0ba19f241b44532e1b7f62db3a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:32 +0000
Subject: [PATCH 43/48] fix: report the serial of an MBR disk that holds a BSD
 disklabel

---
 dissect/volume/disk/disk.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 3bc9f42..a8a92ac 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -38,8 +38,8 @@ class Disk:
         if not self.scheme:
             raise DiskError("Unable to detect a valid partition scheme:\n- {}".format("\n- ".join(errors)))
 
-        main_scheme = self.scheme
-        for partition in main_scheme.partitions:
+        self._main_scheme = self.scheme
+        for partition in self._main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
                 self.scheme = BSD(partition.open(), sector_size=self.sector_size)
@@ -47,11 +47,11 @@ class Disk:
             else:
                 self.partitions.append(partition)
 
-        if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
+        if isinstance(self._main_scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
 
     @property
     def serial(self) -> int | None:
-        if isinstance(self.scheme, MBR):
-            return self.scheme.mbr.vol_no
+        if isinstance(self._main_scheme, MBR):
+            return self._main_scheme.mbr.vol_no
         return None
-- 
2.43.0


From a533844e18044c4073f38833ade44444dd6af534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:32 +0000
Subject: [PATCH 44/48] fix: read every extended partition of an MBR relative
 to its own start

---
 dissect/volume/disk/schemes/mbr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 270e5a3..e8f5898 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -67,9 +67,7 @@ class MBR:
             part_offset = offset + partition.sector_ofs * self.sector_size
 
             if partition.type in (0x05, 0x0F, 0x85):  # Extended
-                if not ebr_offset:
-                    ebr_offset = part_offset
-                else:
+                if ebr_offset:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
@@ -80,7 +78,7 @@ class MBR:
 
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
-                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
+                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset or part_offset)
 
                 continue
 
-- 
2.43.0


From c32a1387dfe241ad22dc6f48e612d5b177339139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:32 +0000
Subject: [PATCH 45/48] fix: open disks with a BSD partition that has no valid
 disklabel

---
 dissect/volume/disk/disk.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index a8a92ac..b55a78a 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -42,8 +42,13 @@ class Disk:
         for partition in self._main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
-                self.scheme = BSD(partition.open(), sector_size=self.sector_size)
-                self.partitions.extend(self.scheme.partitions)
+                try:
+                    self.scheme = BSD(partition.open(), sector_size=self.sector_size)
+                except (DiskError, EOFError):
+                    # There's no valid disklabel in this partition
+                    self.partitions.append(partition)
+                else:
+                    self.partitions.extend(self.scheme.partitions)
             else:
                 self.partitions.append(partition)
 
-- 
2.43.0


From e0c03b5d79204778c895aadbdf1013133c13b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:47 +0000
Subject: [PATCH 46/48] fix: read shadow copy stores without a previous bitmap

---
 dissect/volume/vss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 6242be0..a878b65 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,11 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        # Not every store has a previous bitmap
+        if self.desc3.store_previous_bitmap_offset == 0:
+            return None
+
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From 69dec7f64ce02cae11d80abdf80ba9eca34884c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:15 +0000
Subject: [PATCH 47/48] fix: open LVM volume groups without logical volumes

LVM2 leaves out the logical_volumes section if a volume group has no logical
volumes. Opening such a group failed on the missing section.
---
 dissect/volume/lvm/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 20bfa51..018c07d 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -58,7 +58,7 @@ class VolumeGroup(MetaBase):
     max_lv: int
     max_pv: int
     physical_volumes: dict[str, PhysicalVolume]
-    logical_volumes: dict[str, LogicalVolume]
+    logical_volumes: dict[str, LogicalVolume] | None
 
     system_id: str | None
     allocation_policy: str | None
-- 
2.43.0


From 6278b63fc78af4a5232934e7426c787953fefc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:16:15 +0000
Subject: [PATCH 48/48] fix: accept optional attributes of LVM RAID and VDO
 pool segments

LVM2 only writes these attributes when they are set. Without one of them no
volume of the whole volume group could be opened, including those of other
types.
---
 dissect/volume/lvm/metadata.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 018c07d..da7f6b3 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -630,13 +630,13 @@ class VdoPoolSegment(Segment):
     data: str
     header_size: int
     virtual_extents: int
-    use_compression: bool
-    use_deduplication: bool
-    use_metadata_hints: bool
+    use_compression: bool | None
+    use_deduplication: bool | None
+    use_metadata_hints: bool | None
     minimum_io_size: int
     block_map_cache_size_mb: int
     block_map_era_length: int
-    use_sparse_index: int
+    use_sparse_index: int | None
     index_memory_size_mb: int
     max_discard: int
     slab_size_mb: int
@@ -653,13 +653,13 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
 
     data_copies: int | None
     data_offset: int | None
-- 
2.43.0

