From 4ed394ae2130f6d4d9a052e028791b82c5e0b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:55 +0000
Subject: [PATCH 01/49] fix: read only the current chunk in RAID 4/5/6 streams

A read that spans several chunks asked every member for the whole remaining
length instead of the part that lies in the current chunk. The result
contained too many bytes and data of the wrong chunks.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..e5f55ae 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 947f521c35106585fb99ad970c02e9500e5f92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:41 +0000
Subject: [PATCH 02/49] fix: read only the current chunk in RAID 10 streams

A read that spans several chunks asked every member for the whole remaining
length, so the result held too many bytes in the wrong order.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index e5f55ae..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 84d284f2d30f93b041c33751c50700f727d33b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:41 +0000
Subject: [PATCH 03/49] fix: compare rounded member sizes when counting RAID 0
 zones

Members that only differ by a tail shorter than a chunk belong to the same
strip zone. Comparing a rounded size with a raw one counted a zone too many
and opening the volume failed with a KeyError.
---
 dissect/volume/raid/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..2c4eda3 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
-- 
2.43.0


From bbc91134bdbb6a6e0f10f065ab170c6794494bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:41 +0000
Subject: [PATCH 04/49] fix: use the zone's own devices and start in RAID 0
 zones

Zones behind the first one start at dev_start on each member and only contain
the larger members. The member was looked up by its number in the set instead
of its position in the zone, and the start of the zone was ignored.
---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2c4eda3..b4ba307 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -165,8 +165,8 @@ class RAID0Stream(AlignedStream):
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
-            offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            offset_in_device = zone.dev_start + (chunk * stripe_size) + offset_in_stripe
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
-- 
2.43.0


From 38b72c61ec4f471bd04bdd6baccb9f2e6a182bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:41 +0000
Subject: [PATCH 05/49] fix: honour the original RAID 0 multi-zone layout

Sets with members of different size record which of the two multi-zone layouts
they use. With the original layout the member within a zone follows from the
offset in the volume, not from the offset in the zone.
---
 dissect/volume/raid/stream.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index b4ba307..d1c09b2 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -65,6 +65,10 @@ class LinearStream(MappingStream):
             offset += disk.size
 
 
+RAID0_ORIG_LAYOUT = 1
+"""The original multi-zone RAID0 layout, which counts stripes from the start of the volume instead of the zone."""
+
+
 class Zone(NamedTuple):
     zone_end: int
     dev_start: int
@@ -159,7 +163,11 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            if (
+                self.virtual_disk.layout == RAID0_ORIG_LAYOUT
+                or len(self.zones) == 1
+                or len(self.zones[1].devices) == 1
+            ):
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From 849177ba9bb7a7014a116070c4345fcfc891c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:41 +0000
Subject: [PATCH 06/49] fix: honour the data offset of a mirror member

RAID 1 volumes ignored the member's data offset from the disk map and started
reading at the beginning of the physical disk.
---
 dissect/volume/raid/raid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..46ac0ea 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,8 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
-            return disk.open()
+            _, (data_offset, disk) = next(iter(self.disk_map.items()))
+            fh = disk.open()
+            return RangeStream(fh, data_offset, disk.size - data_offset) if data_offset else fh
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
         if self.level == Level.RAID10:
-- 
2.43.0


From 12117089b123fe39a1e29d26009c23ac4a6b61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:04 +0000
Subject: [PATCH 07/49] fix: report the update time of an MD superblock

The update time was taken from the creation time field.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From b594e216043a97a1bf45ef653f0ad218c7ffaf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:04 +0000
Subject: [PATCH 08/49] fix: align the MD 1.0 superblock location to 4K

The superblock of version 1.0 sits at least 8K from the end of the device,
rounded down to a multiple of 4K. Devices with another size were not
recognised as MD members.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..f363d06 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -161,7 +161,7 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
         # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From 8da8085c07bfefba679cbf33524ae949144adc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:04 +0000
Subject: [PATCH 09/49] fix: do not give an MD journal device a data role

A journal device was reported as member 0, so it could replace the real first
member when a volume was assembled.
---
 dissect/volume/md/md.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index f363d06..b63912e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -111,13 +111,9 @@ class MDPhysicalDisk(PhysicalDisk):
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
+            # Spare, faulty and journal devices don't have a role in the array's data
             role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
-                self.raid_disk = role
-            else:
-                self.raid_disk = None
+            self.raid_disk = role if role <= c_md.MD_DISK_ROLE_MAX else None
 
         else:
             self.set_uuid = UUID(bytes_le=self.sb.set_uuid0 + self.sb.set_uuid1 + self.sb.set_uuid2 + self.sb.set_uuid3)
-- 
2.43.0


From a3689ffb6b40039fbb8786a2bbbc863f83972454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:04 +0000
Subject: [PATCH 10/49] fix: do not give spare and faulty MD 0.90 devices a
 data role

Version 0.90 stores the state of a device in its descriptor. The role field is
only meaningful for devices that are in sync.
---
 dissect/volume/md/md.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index b63912e..aefc473 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -125,7 +125,12 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+
+            # Only in-sync devices have a role in the array's data
+            descriptor = self.sb.disks[self.dev_number]
+            in_sync = descriptor.state & (1 << c_md.MD_DISK_SYNC)
+            faulty = descriptor.state & (1 << c_md.MD_DISK_FAULTY)
+            self.raid_disk = descriptor.raid_disk if in_sync and not faulty else None
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.utime)
-- 
2.43.0


From a53de706fe01193795901dbdd9e14dbaa347d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:04 +0000
Subject: [PATCH 11/49] fix: read the MD 0.90 level as a signed value

Linear sets use level -1, which was read as 4294967295.
---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From 2e75a96930bdecc5ce033841d730a975e10ed288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:39 +0000
Subject: [PATCH 12/49] fix: assemble MD sets that contain spare devices

Devices without a role have no member number, and sorting those together with
the numbered members raised a TypeError.
---
 dissect/volume/md/md.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index aefc473..3f8fbdb 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,8 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        # Devices without a role in the array (e.g. spares) go last
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk or 0))
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
-- 
2.43.0


From e3377c14a5c56c902c546d426f38b23810d7fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:39 +0000
Subject: [PATCH 13/49] fix: prefer the most recently updated MD device for a
 role

When a replaced device is supplied together with its replacement, both claim
the same role. Which one was used depended on the order of the devices; use
the one with the highest event count.
---
 dissect/volume/md/md.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 3f8fbdb..635cc2d 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -50,8 +50,14 @@ class MDConfiguration(Configuration):
 
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
-        disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
+        # Most recently updated devices first
+        physical_disks = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)
+        reference_disk = physical_disks[0]
+
+        disk_map = {}
+        for disk in physical_disks:
+            if disk.raid_disk is not None:
+                disk_map.setdefault(disk.raid_disk, (0, disk))
 
         if reference_disk.level == Level.LINEAR:
             size = sum(disk.size for _, disk in disk_map.values())
-- 
2.43.0


From 2560dae57d3e406e19a7655e9196041a1be189ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:39 +0000
Subject: [PATCH 14/49] fix: round MD RAID 0 members to any chunk size

RAID 0 allows chunk sizes that are not a power of two, for which masking gives
a wrong size.
---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 635cc2d..7c209ca 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -64,7 +64,7 @@ class MDVirtualDisk(VirtualDisk):
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
-                size += disk.size & ~(reference_disk.chunk_size - 1)
+                size += disk.size // reference_disk.chunk_size * reference_disk.chunk_size
         elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
             size = reference_disk.sb.size * SECTOR_SIZE
         else:
-- 
2.43.0


From 2082cb6f8709f89eb7889812265b4d57ee7cbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:09 +0000
Subject: [PATCH 15/49] fix: round members of linear MD sets to the chunk size

Linux only uses whole chunks of the members of a linear set. With a member
that is not a multiple of the chunk size, everything behind it was read from
the wrong place.
---
 dissect/volume/md/md.py       | 4 +++-
 dissect/volume/raid/stream.py | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 7c209ca..2092a59 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -60,7 +60,9 @@ class MDVirtualDisk(VirtualDisk):
                 disk_map.setdefault(disk.raid_disk, (0, disk))
 
         if reference_disk.level == Level.LINEAR:
-            size = sum(disk.size for _, disk in disk_map.values())
+            # Members are rounded down to the chunk size, if there is one
+            chunk_size = reference_disk.chunk_size or 1
+            size = sum(disk.size // chunk_size * chunk_size for _, disk in disk_map.values())
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index d1c09b2..ca6b585 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -61,8 +61,13 @@ class LinearStream(MappingStream):
 
         offset = 0
         for disk_offset, disk in self.disk_map.values():
-            self.add(offset, disk.size, disk.open(), disk_offset)
-            offset += disk.size
+            disk_size = disk.size
+            if virtual_disk.stripe_size:
+                # If there is a chunk size, only whole chunks of a member are used
+                disk_size -= disk_size % virtual_disk.stripe_size
+
+            self.add(offset, disk_size, disk.open(), disk_offset)
+            offset += disk_size
 
 
 RAID0_ORIG_LAYOUT = 1
-- 
2.43.0


From 43238224c42b4b2943df718bf8e34d5ea87e13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:25 +0000
Subject: [PATCH 16/49] fix: step over DDF configuration records that are not
 virtual disk records

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..3386256 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -293,12 +293,12 @@ def _read_virtual_disk_configuration_records(
     for _ in range(count):
         fh.seek(offset)
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
+        offset += size
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 15a0e99c7c2cd86548e42bdd598ea23c3586fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:25 +0000
Subject: [PATCH 17/49] fix: convert DDF starting blocks to bytes

The offsets in a disk map are in bytes, starting blocks are in blocks.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3386256..7180ea1 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -66,7 +66,7 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    vd_pd_map[sec * count + i] = (starting_block * matched_pd.block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From c8a71afe42366cb60ea4ac93bb4d7d8a7bd248e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:25 +0000
Subject: [PATCH 18/49] fix: use the Unicode flag of a DDF virtual disk to
 decode its name

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7180ea1..de309c3 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8" if self.type & c_ddf.DDF_VDE_UNICODE_NAME else "ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From 177232ee703d4b2c6b5543429a82419d1a9378ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:25 +0000
Subject: [PATCH 19/49] fix: skip unused entries in the DDF disk tables

The populated entries are not necessarily the first ones, an entry becomes unused when its disk is removed.
---
 dissect/volume/ddf/ddf.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index de309c3..761c181 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -24,6 +24,9 @@ DEFAULT_SECTOR_SIZE = 512
 
 DECADE = 3600 * 24 * (365 * 10 + 2)
 
+DDF_ENTRY_SIZE = 64
+DDF_UNUSED_GUID = b"\xff" * 24
+
 
 class DDF(RAID):
     def __init__(
@@ -277,13 +280,32 @@ def _read_section_header(
 def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Physical_Disk_Records, c_ddf.DDF_PDR_SIGNATURE)
-    return [PhysicalDiskRecord(fh) for _ in range(header.Populated_PDEs)]
+    return _read_entries(fh, PhysicalDiskRecord, header.Populated_PDEs, header.Max_PDE_Supported)
 
 
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Virtual_Disk_Records, c_ddf.DDF_VD_RECORD_SIGNATURE)
-    return [VirtualDiskRecord(fh) for _ in range(header.Populated_VDEs)]
+    return _read_entries(fh, VirtualDiskRecord, header.Populated_VDEs, header.Max_VDE_Supported)
+
+
+def _read_entries(
+    fh: BinaryIO, record: type[PhysicalDiskRecord | VirtualDiskRecord], populated: int, supported: int
+) -> list[PhysicalDiskRecord | VirtualDiskRecord]:
+    """Read the populated entries of a table, unused entries in between have a GUID of all 0xFF."""
+    result = []
+    for _ in range(max(populated, supported)):
+        if len(result) == populated:
+            break
+
+        offset = fh.tell()
+        if fh.read(DDF_ENTRY_SIZE).startswith(DDF_UNUSED_GUID):
+            continue
+
+        fh.seek(offset)
+        result.append(record(fh))
+
+    return result
 
 
 def _read_virtual_disk_configuration_records(
-- 
2.43.0


From f6ba657bbd0c97156f54eb16eb91e8b791e3a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:25 +0000
Subject: [PATCH 20/49] fix: use the most recent copy of a DDF configuration
 record

The copy of the last given disk was used, also when that was an outdated one.
---
 dissect/volume/ddf/ddf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 761c181..3ffcd4c 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -54,10 +54,14 @@ class DDFConfiguration(Configuration):
         for pd in physical_disks:
             pd_map[pd.reference] = pd
             vde_map.update({vde.guid: vde for vde in pd.virtual_disk_records})
-            vdcr_map.update({vdcr.guid: vdcr for vdcr in pd.virtual_disk_configuration_records})
-            vdcr_uniq.update(
-                {(vdcr.guid, vdcr.secondary_element_seq): vdcr for vdcr in pd.virtual_disk_configuration_records}
-            )
+            for vdcr in pd.virtual_disk_configuration_records:
+                # A disk can have an outdated copy of a record, use the most recent one
+                if (other := vdcr_map.get(vdcr.guid)) is None or vdcr.sequence_number >= other.sequence_number:
+                    vdcr_map[vdcr.guid] = vdcr
+
+                key = (vdcr.guid, vdcr.secondary_element_seq)
+                if (other := vdcr_uniq.get(key)) is None or vdcr.sequence_number >= other.sequence_number:
+                    vdcr_uniq[key] = vdcr
 
         vd_map: dict = {}
         for vdcr in vdcr_uniq.values():
-- 
2.43.0


From 46a5dc72c3275185b79ad15c2032b12a98b3fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:48 +0000
Subject: [PATCH 21/49] fix: concatenate only the part of a disk that belongs
 to a DDF virtual disk

---
 dissect/volume/ddf/ddf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3ffcd4c..be3ffec 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -104,6 +104,11 @@ class DDFVirtualDisk(VirtualDisk):
             vdcr.secondary_element_count,
         )
 
+        if level == Level.LINEAR:
+            # Only the blocks that belong to this virtual disk are concatenated, not the whole physical disk
+            size = vdcr.header.Block_Count * block_size
+            disks = {idx: (0, PhysicalDisk(pd.fh, pd.offset + start, size)) for idx, (start, pd) in disks.items()}
+
         super().__init__(
             self.vdr.name,
             self.vdr.guid.hex(),
-- 
2.43.0


From fa902f46a8079fc094c68df8e260f41fd9544b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:34 +0000
Subject: [PATCH 22/49] fix: start a new chain for every extended partition in
 an MBR

A second extended partition was looked up relative to the first one.
---
 dissect/volume/disk/schemes/mbr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..74c49c6 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -66,15 +66,15 @@ class MBR:
             part_offset = offset + partition.sector_ofs * self.sector_size
 
             if partition.type in (0x05, 0x0F, 0x85):  # Extended
-                if not ebr_offset:
-                    ebr_offset = part_offset
-                else:
+                # Every extended partition in the MBR itself is the first one of its own chain
+                base_offset = ebr_offset or part_offset
+                if ebr_offset:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
-                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
+                yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=base_offset)
 
                 continue
 
-- 
2.43.0


From 7bc41183109a0ace6d3fbd3162b3e8bf58ee1ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:46 +0000
Subject: [PATCH 23/49] fix: refuse a GPT partition on an MBR disk that also
 has a BSD partition

The scheme of the BSD partition replaced that of the disk before the check was made.
---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..40d12db 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -44,7 +44,7 @@ class Disk:
             else:
                 self.partitions.append(partition)
 
-        if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
+        if isinstance(main_scheme, MBR) and any(p.type == 0xEE for p in main_scheme.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
 
     @property
-- 
2.43.0


From 1bce2da11241da7a1845b8b68384d6cbd791c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:46 +0000
Subject: [PATCH 24/49] fix: report the serial of an MBR disk that has a BSD
 partition

---
 dissect/volume/disk/disk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 40d12db..8c90574 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -35,7 +35,7 @@ class Disk:
         if not self.scheme:
             raise DiskError("Unable to detect a valid partition scheme:\n- {}".format("\n- ".join(errors)))
 
-        main_scheme = self.scheme
+        self._main_scheme = main_scheme = self.scheme
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
@@ -49,6 +49,6 @@ class Disk:
 
     @property
     def serial(self) -> int | None:
-        if isinstance(self.scheme, MBR):
-            return self.scheme.mbr.vol_no
+        if isinstance(self._main_scheme, MBR):
+            return self._main_scheme.mbr.vol_no
         return None
-- 
2.43.0


From e2fc0f96d43d0b812ed38810eb38da131674ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:51 +0000
Subject: [PATCH 25/49] fix: strip LVM metadata comments that are empty or
 contain quotes

A comment behind a value was only recognised when it held at least one
character and no double quote. A bare "#" swallowed the following line
and a quote in a comment made the value unparsable.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..a311eee 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -113,7 +113,8 @@ def parse_metadata(string: str) -> dict:
     current = root
     parents = {}
 
-    s = re.sub(r"(#[^\"]+?)$", "", string, flags=re.MULTILINE)
+    # Strip comments, but leave strings that contain a comment character alone
+    s = re.sub(r'("(?:\\.|[^"\\\n])*")|#.*', lambda m: m.group(1) or "", string)
 
     it = iter(s.split("\n"))
     for line in it:
-- 
2.43.0


From aaf346e2db309600cbb1e62306e8058b69a005c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:51 +0000
Subject: [PATCH 26/49] fix: allow comments and blank lines in multi-line LVM
 metadata lists

Blank lines raised an IndexError, and white space or a comment behind the
closing bracket made the list run on into the next items.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index a311eee..dc7a541 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -151,8 +151,9 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
     if value[0] == "[" and value[-1] != "]":
         lines = [value]
         for line in it:
+            line = line.strip()
             lines.append(line)
-            if line[-1] == "]":
+            if line.endswith("]"):
                 break
         value = "".join(lines)
 
-- 
2.43.0


From de22488a5af2439467febe29bc61cf6065d8b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:04 +0000
Subject: [PATCH 27/49] fix: accept LVM RAID segments that leave out optional
 fields

LVM writes either a device count or a stripe count and leaves out sizes
and rates that are not set, so no group with a RAID volume could be
opened.
---
 dissect/volume/lvm/metadata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..6e534ac 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -595,14 +595,13 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
-
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
     data_copies: int | None
     data_offset: int | None
     raids: list[str] | None
-- 
2.43.0


From 672eedde5b21f1ccc06e70a6d9f7bb9da8f2a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:04 +0000
Subject: [PATCH 28/49] fix: accept LVM VDO pool segments with features turned
 off

LVM only writes the feature switches of a VDO pool when they are on.
---
 dissect/volume/lvm/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 6e534ac..ab3bd7e 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -572,13 +572,9 @@ class VdoPoolSegment(Segment):
     data: str
     header_size: int
     virtual_extents: int
-    use_compression: bool
-    use_deduplication: bool
-    use_metadata_hints: bool
     minimum_io_size: int
     block_map_cache_size_mb: int
     block_map_era_length: int
-    use_sparse_index: int
     index_memory_size_mb: int
     max_discard: int
     slab_size_mb: int
@@ -590,6 +586,10 @@ class VdoPoolSegment(Segment):
     logical_threads: int
     physical_threads: int
 
+    use_compression: bool | None
+    use_deduplication: bool | None
+    use_metadata_hints: bool | None
+    use_sparse_index: int | None
     write_policy: str | None
 
 
-- 
2.43.0


From 2df0a1406e485e27e336d20738bf895d4cfba33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:05 +0000
Subject: [PATCH 29/49] fix: open LVM groups without logical volumes

LVM leaves the section out when the group has no logical volumes.
---
 dissect/volume/lvm/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index ab3bd7e..f4a7a78 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -56,8 +56,8 @@ class VolumeGroup(MetaBase):
     max_lv: int
     max_pv: int
     physical_volumes: dict[str, PhysicalVolume]
-    logical_volumes: dict[str, LogicalVolume]
 
+    logical_volumes: dict[str, LogicalVolume] | None
     system_id: str | None
     allocation_policy: str | None
     profile: str | None
-- 
2.43.0


From 4ca4b0e82637e9363b5976418d162ab4e625acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:30 +0000
Subject: [PATCH 30/49] fix: read LVM metadata text that wraps around its
 metadata area

The metadata area is a circular buffer behind a header of one sector.
Text that reached the end of the area was read on past it.
---
 dissect/volume/lvm/physical.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index dc7a541..0aff47f 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -70,8 +70,17 @@ class LVM2Device:
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
 
-        self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        offset = raw_locn[0].offset
+        size = raw_locn[0].size - 1
+
+        self.fh.seek(mda_header.start + offset)
+        buf = self.fh.read(min(size, mda_header.size - offset))
+        if (remaining := size - len(buf)) > 0:
+            # The metadata area is circular, so wrap around to the start, right after the header sector
+            self.fh.seek(mda_header.start + SECTOR_SIZE)
+            buf += self.fh.read(remaining)
+
+        return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From 5e874e37470a1db17d6293d466d1d841765da494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:30 +0000
Subject: [PATCH 31/49] fix: skip LVM metadata areas that are empty or ignored

The first metadata area of a device was always used, also when it holds
no metadata or is marked as ignored and may hold outdated metadata.
---
 dissect/volume/lvm/physical.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 0aff47f..a82d366 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -63,13 +63,13 @@ class LVM2Device:
 
     @cached_property
     def metadata(self) -> dict | None:
-        if not self._metadata_areas:
+        # A device can have multiple copies of the metadata, and areas that are empty or ignored
+        for mda_header, raw_locn in self._metadata_areas:
+            if raw_locn and raw_locn[0].size and not raw_locn[0].flags & c_lvm.RAW_LOCN_IGNORED:
+                break
+        else:
             return None
 
-        # Only support the first metadata area for now
-        # Unsure when a second area is used
-        mda_header, raw_locn = self._metadata_areas[0]
-
         offset = raw_locn[0].offset
         size = raw_locn[0].size - 1
 
-- 
2.43.0


From 8664ee17e080740e9b80a55e7bde77e6709658d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:30 +0000
Subject: [PATCH 32/49] fix: open LVM groups of which the first device has no
 current metadata

The metadata of the first device was used, so whether a group could be
opened, and in which version, depended on the order of the devices.
---
 dissect/volume/lvm/lvm2.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..d176f6b 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -28,7 +28,12 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        # Not every device has metadata, and it may be outdated on some, so use the most recent
+        metadata = [device.metadata for device in devices if device.metadata]
+        if not metadata:
+            raise LVM2Error("No metadata found on any of the devices")
+        self.metadata = max(metadata, key=_get_seqno)
+
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
@@ -49,3 +54,8 @@ class LVM2:
     @property
     def vg(self) -> VolumeGroup:
         return self.volume_group
+
+
+def _get_seqno(metadata: dict) -> int:
+    """Return the sequence number of the volume group in the given metadata."""
+    return max((vg.get("seqno", 0) for vg in metadata.values() if isinstance(vg, dict)), default=0)
-- 
2.43.0


From ba298b4d1aae0d3484db7c38480b66589795ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:42 +0000
Subject: [PATCH 33/49] fix: read thin device ranges that span mapped and
 unmapped blocks

A read that ran into an unmapped block returned nothing but zeroes from
there on, and lost the mapped blocks in front of it and behind it.
---
 dissect/volume/dm/thin.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..82ed4b6 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -75,23 +75,19 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
-            offset += read_size
             block += 1
 
         return b"".join(result)
-- 
2.43.0


From 7dc2294302355fce5b3792f6f023b86bbbace0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:34 +0000
Subject: [PATCH 34/49] fix: interleave the stripes of LVM striped segments

The areas of a striped segment were put behind each other, with the
stripe size taken as a number of extents instead of sectors.
---
 dissect/volume/lvm/metadata.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index f4a7a78..2eaea63 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -13,6 +13,8 @@ from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.c_lvm2 import SECTOR_SIZE
 from dissect.volume.lvm.physical import LVM2Device  # noqa: TC001
+from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
+from dissect.volume.raid.stream import Level
 
 if TYPE_CHECKING:
     from dissect.util.stream import RunlistStream
@@ -376,19 +378,19 @@ class StripedSegment(Segment):
         pv = self._logical_volume._volume_group.physical_volumes
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
 
-        opened_pv = {}
+        if len(self.stripes) > 1:
+            # The extents are divided equally over the areas and interleaved with the stripe size, like a RAID0
+            area_size = (self.extent_count // len(self.stripes)) * extent_size
+            disk_map = {
+                idx: (0, PhysicalDisk(pv[pv_name].open(), extent_offset * extent_size, area_size))
+                for idx, (pv_name, extent_offset) in enumerate(self.stripes)
+            }
+            stripe_size = self.stripe_size * SECTOR_SIZE
+            size = self.extent_count * extent_size
+            return VirtualDisk(self.name, "", size, Level.RAID0, 0, stripe_size, len(disk_map), disk_map).open()
 
-        offset = 0
         for pv_name, extent_offset in self.stripes:
-            if pv_name not in opened_pv:
-                pv_fh = pv[pv_name].open()
-                opened_pv[pv_name] = pv_fh
-            else:
-                pv_fh = opened_pv[pv_name]
-
-            stripe_size = (self.stripe_size or self.extent_count) * extent_size
-            stream.add(offset, stripe_size, pv_fh, extent_offset * extent_size)
-            offset += stripe_size
+            stream.add(0, self.extent_count * extent_size, pv[pv_name].open(), extent_offset * extent_size)
 
         return stream
 
-- 
2.43.0


From 20c64bc8c224ee6634f28027e71b5c3e2d92229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:34 +0000
Subject: [PATCH 35/49] fix: use the extent offset of LVM mirror legs

A mirror segment was always read from the start of its leg.
---
 dissect/volume/lvm/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 2eaea63..bd0f4b5 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream
+from dissect.util.stream import MappingStream, RangeStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -410,10 +410,11 @@ class MirrorSegment(Segment):
 
     def open(self) -> BinaryIO:
         # Just open the first mirror we can
-        for lv_name, _ in self.mirrors:
+        extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
+        for lv_name, extent_offset in self.mirrors:
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
             except Exception:  # noqa: PERF203
                 pass
         else:
-- 
2.43.0


From 4a1a9ded49944f0a54413e015cbb12166ba9b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:49 +0000
Subject: [PATCH 36/49] fix: honour the drive offset of vinum subdisks

The offset of a subdisk on its drive was ignored, so every subdisk was read
from the start of the data area of the drive.
---
 dissect/volume/vinum/vinum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..a9c9f8f 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,9 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            # The driveoffset is relative to the start of the physical disk
+                            data_offset = sd.driveoffset - c_vinum.GV_DATA_START if sd.driveoffset else 0
+                            disk_map[idx] = (data_offset, disks_by_name[sd.drive])
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From 5c713f5be10d381ac76e172f45f799da7467b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:45 +0000
Subject: [PATCH 37/49] fix: use the subdisk lengths of concatenated vinum
 plexes

The subdisks were concatenated using the size of the whole drive, so data past
the first subdisk was read from the wrong place.
---
 dissect/volume/vinum/vinum.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index a9c9f8f..c53293e 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -11,7 +11,9 @@ from functools import cached_property
 from typing import TYPE_CHECKING, BinaryIO, TypedDict, TypeVar
 
 from dissect.util import ts
+from dissect.util.stream import MappingStream
 
+from dissect.volume.exceptions import RAIDError
 from dissect.volume.raid.raid import (
     RAID,
     Configuration,
@@ -282,6 +284,20 @@ class VinumPlexDisk(VirtualDisk):
             disk_map,
         )
 
+    def open(self) -> BinaryIO:
+        if self.level != Level.LINEAR:
+            return super().open()
+
+        # A subdisk doesn't necessarily span the whole physical disk, so use the SDs for concatenated plexes
+        if len(self.disk_map) != self.num_disks:
+            raise RAIDError(f"Missing disks in plex {self.uuid} ({self.name})")
+
+        stream = MappingStream()
+        for idx, sd in enumerate(sorted(self.sds, key=lambda sd: sd.plexoffset)):
+            data_offset, disk = self.disk_map[idx]
+            stream.add(sd.plexoffset, sd.length, disk.open(), data_offset)
+        return stream
+
 
 class VinumMirrorDisk(VirtualDisk):
     def __init__(
-- 
2.43.0


From 1b92c20ed3c408f0e0fb612e7dac21c72f1f530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:01 +0000
Subject: [PATCH 38/49] fix: handle VSS stores without a previous bitmap

An offset of zero means that the store has no previous bitmap. It was read from
the start of the volume, so reading the shadow copy failed.
---
 dissect/volume/vss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..3208dec 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,9 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        if not self.desc3.store_previous_bitmap_offset:
+            return None
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From 0052ecf8fd633eedf3e3a7d7aae7be3956bbedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:16 +0000
Subject: [PATCH 39/49] fix: read the thin pool superblock from the start of
 the device

---
 dissect/volume/dm/thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 82ed4b6..7f2960c 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,7 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+        self.fh.seek(0)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From 28dddd49b92d7d5483a5acfd1fc18a26b7d9e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:00 +0000
Subject: [PATCH 40/49] fix: raise an error on device-mapper B-trees that loop
 or have invalid nodes

---
 dissect/volume/dm/btree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..b3d43a8 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        visited = set()
         while True:
+            if block in visited:
+                raise DMError(f"Loop in B-tree at block {block}")
+            visited.add(block)
+
             node = self._read_node(block)
 
             low = -1
@@ -64,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"Invalid flags in B-tree node at block {block}")
 
 
 class Node:
-- 
2.43.0


From a4055e94ee05218ab64393d72389519f3e83c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:00 +0000
Subject: [PATCH 41/49] fix: raise an error on VSS block chains that loop

---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 3208dec..28d2d92 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -655,8 +655,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    visited = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in visited:
+            raise Error(f"Loop in VSS block chain at offset 0x{offset:x}")
+        visited.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From ab197a0500af94b1c8425528b91a995d5d7f15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:00 +0000
Subject: [PATCH 42/49] fix: reject GPT partition entries smaller than an entry

---
 dissect/volume/disk/schemes/gpt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index b149e1c..52215a4 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -71,6 +71,9 @@ class GPT:
         if self.gpt.signature != b"EFI PART":
             raise DiskError(f"Invalid GPT signature, expected 'EFI PART', got {self.gpt.signature!r}.")
 
+        if self.gpt.partition_entry_size < len(c_gpt.GPT_PARTITION):
+            raise DiskError(f"Invalid GPT partition entry size: {self.gpt.partition_entry_size}")
+
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-- 
2.43.0


From 081ca82c84396a9449b23c491d13cc1c408d7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:58 +0000
Subject: [PATCH 43/49] fix: name BSD disklabel partitions by their own type

The type of a disklabel partition was looked up among the MBR types, so a
4.2BSD partition (type 7) had the type name NTFS.
---
 dissect/volume/disk/partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/disk/partition.py b/dissect/volume/disk/partition.py
index 00935a7..38cfe08 100644
--- a/dissect/volume/disk/partition.py
+++ b/dissect/volume/disk/partition.py
@@ -219,7 +219,8 @@ class Partition:
         self.flags = flags
         self.guid = guid
         self.type_str = type_str or translate_partition_type(self.type)
-        self.type_name = translate_partition_type(self.type, False)
+        # The type of a BSD disklabel partition is not an MBR type, so use the name it comes with
+        self.type_name = type_str or translate_partition_type(self.type, False)
         self.raw = raw
 
     def __repr__(self) -> str:
-- 
2.43.0


From 11bf702eec781935b9bf716ba4a3ef631a0796c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:33 +0000
Subject: [PATCH 44/49] fix: report a DDF section with a wrong signature as a
 DDF error

The message asked the structure for an attribute it does not have, so an
AttributeError was raised in place of the DDFError.
---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index be3ffec..aaba704 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -282,7 +282,7 @@ def _read_section_header(
 ) -> c_ddf.Physical_Disk_Records | c_ddf.Virtual_Disk_Records | c_ddf.Controller_Data | c_ddf.Physical_Disk_Data:
     obj = structure(fh)
     if obj.Signature != signature:
-        raise DDFError(f"Invalid {structure.name} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
+        raise DDFError(f"Invalid {structure.__name__} header. Signature: {obj.Signature:#010x}, expected {signature:#x}")
     return obj
 
 
-- 
2.43.0


From 3d4b3cce3b98624cf5e0cc483efa575311f5778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:55 +0000
Subject: [PATCH 45/49] fix: compare LVM metadata without following the objects
 it belongs to

Two logical volumes, physical volumes, segments or groups that were loaded
separately could not be compared. A volume refers to its group and the group
to its volumes, so the comparison never ended. Groups without devices failed
on the missing device attribute instead.
---
 dissect/volume/lvm/metadata.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index bd0f4b5..1596a40 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from datetime import datetime  # noqa: TC003
 from functools import cache
 from types import UnionType
@@ -114,8 +114,8 @@ class PhysicalVolume(MetaBase):
 
     # Internal fields
     _name: str
-    _volume_group: VolumeGroup
-    _dev: LVM2Device | None
+    _volume_group: VolumeGroup = field(compare=False)
+    _dev: LVM2Device | None = field(default=None, compare=False)
 
     def __repr__(self) -> str:
         return f"<PhysicalVolume name={self.name} id={self.id}>"
@@ -194,7 +194,7 @@ class LogicalVolume(MetaBase):
 
     # Internal fields
     _name: str
-    _volume_group: VolumeGroup
+    _volume_group: VolumeGroup = field(compare=False)
     _segments: list[Segment]
 
     def __repr__(self) -> str:
@@ -250,7 +250,7 @@ class HistoricalLogicalVolume(MetaBase):
     descendants: list[str] | None
 
     # Internal fields
-    _volume_group: VolumeGroup
+    _volume_group: VolumeGroup = field(compare=False)
 
     def __repr__(self) -> str:
         return f"<HistoricalLogicalVolume name={self.name} id={self.id} removal_time={self.removal_time}>"
@@ -287,7 +287,7 @@ class Segment(MetaBase):
 
     # Internal fields
     _name: str
-    _logical_volume: LogicalVolume
+    _logical_volume: LogicalVolume = field(compare=False)
     _flags: list[str]
 
     def __repr__(self) -> str:
-- 
2.43.0


From 91d438c86d1c1cd2412f96ada0d9a85bf07eec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:58 +0000
Subject: [PATCH 46/49] fix: compare block descriptors of shadow copies

The arguments of the type test were swapped, so comparing two descriptors
failed with a type error.
---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 28d2d92..b8cbbaa 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -629,7 +629,7 @@ class BlockDescriptor:
         self.is_forwarder = bool(self.flags & BLOCK_FLAG.IS_FORWARDER)
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(BlockDescriptor, other):
+        if not isinstance(other, BlockDescriptor):
             return False
 
         return (
-- 
2.43.0


From 7d12a377ceb78a81fb5722f48909738f9367d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:05 +0000
Subject: [PATCH 47/49] fix: convert the creation time of LVM logical volumes

The creation time of a logical volume is declared as a datetime, like that of
a historical volume, but was left as the number of seconds.
---
 dissect/volume/lvm/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 1596a40..34d7c10 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -239,6 +239,9 @@ class LogicalVolume(MetaBase):
         self._volume_group = parent
         self._segments = [Segment.from_dict(v, name=k, parent=self) for k, v in obj.items() if isinstance(v, dict)]
 
+        if self.creation_time:
+            self.creation_time = ts.from_unix(self.creation_time)
+
 
 @dataclass(init=False)
 class HistoricalLogicalVolume(MetaBase):
-- 
2.43.0


From 06d46ac1d3c9d350883cc062b7d4d83f7f037194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:42 +0000
Subject: [PATCH 48/49] fix: read LVM physical volumes inside run lists

The data area of a physical volume was opened as a RunlistStream. When the
device itself is a RunlistStream, such as a file in a file system, that class
takes over the source below it and ignores where its runs are. Use a
RangeStream, which reads through the device it is given.
---
 dissect/volume/lvm/metadata.py | 16 +++-------------
 dissect/volume/lvm/physical.py |  5 ++---
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 34d7c10..ac45a2d 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass, field
 from datetime import datetime  # noqa: TC003
 from functools import cache
 from types import UnionType
-from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
+from typing import BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
 from dissect.util.stream import MappingStream, RangeStream
@@ -16,9 +16,6 @@ from dissect.volume.lvm.physical import LVM2Device  # noqa: TC001
 from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
 from dissect.volume.raid.stream import Level
 
-if TYPE_CHECKING:
-    from dissect.util.stream import RunlistStream
-
 
 @dataclass(init=False)
 class MetaBase:
@@ -165,15 +162,8 @@ class PhysicalVolume(MetaBase):
         if self.dev is None:
             raise LVM2Error(f"Physical volume not found: {self.name} (id={self.id}, device={self.device})")
 
-        stream: RunlistStream = self.dev.open()
-        if stream.size >= self.size:
-            return stream
-
-        size = max(stream.size, self.size)
-        area = self.dev._data_area_descriptors[0]
-
-        stream.runlist = [(area.offset // SECTOR_SIZE, size // SECTOR_SIZE)]
-        stream.size = size
+        stream: RangeStream = self.dev.open()
+        stream.size = max(stream.size, self.size)
         return stream
 
 
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index a82d366..e7e71f5 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -6,7 +6,7 @@ from bisect import bisect_right
 from functools import cached_property
 from typing import TYPE_CHECKING, Any, BinaryIO
 
-from dissect.util.stream import RunlistStream
+from dissect.util.stream import RangeStream
 
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, SECTOR_SIZE, c_lvm
@@ -106,8 +106,7 @@ class LVM2Device:
         # Only accounts for one data area descriptor
         # When multiple descriptors get allowed in the future, this code should be adjusted to reflect that
         area = self._data_area_descriptors[0]
-        runlist = [(area.offset // SECTOR_SIZE, self.size // SECTOR_SIZE)]
-        return RunlistStream(self.fh, runlist, self.size, SECTOR_SIZE)
+        return RangeStream(self.fh, area.offset, self.size, SECTOR_SIZE)
 
 
 def _read_descriptors(
-- 
2.43.0


From c7efa46fffb8f2d8690f0cdd731a5efaa50200b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:55 +0000
Subject: [PATCH 49/49] fix: read VSS range lists that fill their block

A list block holds 677 ranges of 24 bytes and 8 bytes that belong to none.
Those were parsed as another range, which ended in an EOFError.
---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index b8cbbaa..4ce22c6 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -493,7 +493,7 @@ class RangeList:
 
         buf = memoryview(data)
         self.entries = []
-        for entry_offset in range(0, len(data), STORE_RANGELIST_ENTRY_SIZE):
+        for entry_offset in range(0, len(data) - STORE_RANGELIST_ENTRY_SIZE + 1, STORE_RANGELIST_ENTRY_SIZE):
             entry_buf = buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
             if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
                 break
-- 
2.43.0

