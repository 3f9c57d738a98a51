"""Writes /verif/properties.jsonl (kept as a generator so that wording stays reviewable)."""
import json, os

P = []
B = "dissect/volume/"


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [B + f for f in files], "mechanism": [{"name": n, "where": B + w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": B + w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


NOIMG = ("The tests that read RAID/disk/LVM images need git-lfs data that is not part of the tree, so they do not run; "
         "even with it they cover one image per kind.")

prop("C01", "Parity RAID volumes (levels 4, 5, 6) return the bytes their layout places there",
     "Reading any byte range of a complete RAID 4, 5 or 6 volume returns exactly the bytes that the declared parity layout places at those volume addresses. "
     "This holds for every supported layout, member count, chunk size, per-member data start and read length, including reads that span many chunks and stripes. "
     "Parity blocks are never returned as data, and an undefined layout for levels 5 and 6 is rejected with an error on reading rather than guessed.",
     ["configurations", "inputs"],
     "all level/layout pairs x member counts x chunk sizes x member data starts x every chunk-boundary read window over at least two full parity rotations",
     NOIMG + " They use one layout each, 3 or 4 members, and reads smaller than a chunk.",
     ["raid/stream.py", "raid/raid.py"],
     [("layout arithmetic", "raid/stream.py RAID456Stream._get_stripe_read_info"), ("chunk walk", "raid/stream.py RAID456Stream._read"),
      ("level dispatch", "raid/raid.py VirtualDisk.open")],
     observe=["VirtualDisk.open().read"])

prop("C02", "RAID 0 volumes return striped data, including members of different size",
     "Reading any byte range of a RAID 0 volume returns the bytes striped over its members in member order, whatever order the members were supplied in. "
     "When members differ in size, the space beyond the smallest member continues as further striping zones over only the larger members, and a tail shorter than a chunk on a member is never used. "
     "With the original multi-zone layout (layout number 1) chunk rotation counts from the start of the volume, otherwise it counts from the start of the zone.",
     ["configurations", "inputs"],
     "all member-size vectors (in chunks plus a sub-chunk remainder) for 1..4 members (equal members up to 32) x chunk sizes x layout numbers x data starts x every chunk-boundary read window",
     NOIMG + " The one multi-zone image is only read inside its first zone.",
     ["raid/stream.py", "raid/raid.py", "md/md.py"],
     [("zone construction", "raid/stream.py RAID0Stream.__init__"), ("zone lookup and chunk walk", "raid/stream.py RAID0Stream._read"),
      ("volume size", "md/md.py MDVirtualDisk.__init__")],
     state=[("zones", "list of striping zones with end, member start and members", "raid/stream.py RAID0Stream.zones")],
     observe=["VirtualDisk.open().read", "MD(...).configurations[..].virtual_disks[..].size"])

prop("C03", "RAID 10 volumes return the right data for near, far and offset layouts",
     "Reading any byte range of a complete RAID 10 volume returns the volume's data for every combination of near and far copy counts, far-offset placement, far-set variant, member count (also when it is not a multiple of the copies), chunk size and member data start. "
     "Reads spanning several chunks return exactly the requested bytes in order. "
     "An undefined far-set variant is rejected with an error.",
     ["configurations", "inputs"],
     "all near x far x offset-flag x far-set variants x member counts 2..6 (thereafter one chunk size up to 32) x chunk sizes x every chunk-boundary read window",
     NOIMG + " They hold a single 2-member near-2 set read in blocks smaller than a chunk.",
     ["raid/stream.py", "raid/raid.py"],
     [("copy placement", "raid/stream.py RAID10Stream._read"), ("geometry decoding", "raid/stream.py RAID10Stream.__init__")],
     observe=["VirtualDisk.open().read"])

prop("C04", "Linear and mirrored volumes return concatenated and mirrored data",
     "A linear volume is the concatenation of its members' data areas in member order, whatever order the members were supplied in. "
     "A mirrored volume returns the mirrored data for at least its full size from whichever members are present, honouring each member's data start. "
     "An unsupported RAID level is refused with an error when opened.",
     ["configurations", "inputs"],
     "member counts 1..4 x all member-size vectors (rotating sizes up to 40) x data starts x supply orders x subsets present (mirror) x every unit read window; all level numbers",
     NOIMG + " Two equal members at fixed offsets are all they contain.",
     ["raid/stream.py", "raid/raid.py", "md/md.py"],
     [("member concatenation", "raid/stream.py LinearStream.__init__"), ("mirror selection", "raid/raid.py VirtualDisk.open"),
      ("member data area", "raid/raid.py PhysicalDisk.open")],
     observe=["VirtualDisk.open().read", "PhysicalDisk.open().read"])

prop("C05", "Every opened stream behaves as one fixed byte string under any access history",
     "For every kind of stream this library hands out (partition, RAID volume, physical and logical volume, thin device, vinum volume, shadow copy), any sequence of seeks, reads, peeks and position queries yields exactly the corresponding slices of one fixed byte string, with reads stopping at the end. "
     "The result of an operation depends only on that stream's own position: interleaved use of other streams over the same sources, of the same volume opened twice, or repositioning of the source file objects never changes it.",
     ["histories", "configurations"],
     "all operation sequences of depth 3 over 33 boundary-value operations and of depth 4 over 14 of them (deeper in the thorough tier), on two streams sharing their sources plus source repositioning, for each stream kind",
     "Tests read each stream front to back once; no test interleaves streams or seeks around, and the history space is combinatorial.",
     ["disk/partition.py", "raid/stream.py", "raid/raid.py", "lvm/physical.py", "lvm/metadata.py", "dm/thin.py", "vss.py"],
     [("partition stream", "disk/partition.py Partition.open"), ("RAID chunk reads", "raid/stream.py _read methods"),
      ("segment mapping", "lvm/metadata.py LogicalVolume.open"), ("thin block reads", "dm/thin.py ThinDevice._read"),
      ("shadow block reads", "vss.py Store._read")],
     state=[("stream position and buffer", "current offset and last aligned block of each stream", "raid/stream.py, dm/thin.py, vss.py (stream subclasses)")],
     observe=["stream.read/seek/tell/peek/readinto"])

prop("C06", "Sets with missing members never return wrong bytes",
     "Whatever subset of members is missing, opening or reading a RAID volume either raises an error or returns exactly the bytes the complete set would return; it never substitutes other data and never returns fewer bytes than requested below the volume size. "
     "Linear and RAID 0 sets refuse to open unless every member is present, and parity sets refuse to open when more members are missing than their redundancy allows. "
     "Parity sets within their redundancy still open and return every range that lies on members that are present, and a mirror opens from any one of its members.",
     ["fault_sequences", "configurations"],
     "all levels and layouts x member counts x every subset of missing members x every chunk",
     "No test opens an incomplete set.",
     ["raid/stream.py", "raid/raid.py"],
     [("completeness checks", "raid/stream.py LinearStream/RAID0Stream/RAID456Stream constructors"), ("member lookup", "raid/stream.py _read methods")],
     observe=["VirtualDisk.open", "read"])

prop("C07", "MD superblocks are found and decoded wherever their version places them",
     "For metadata versions 0.90, 1.0, 1.1 and 1.2 and any device size, an MD member is recognised by the superblock at the position the format defines for that size, and a device without one is refused with an error. "
     "The decoded set identity and name, event count, chunk size, level, layout, member count, device number, role, data start, data size, creation and update time are those stored on disk, over the full width of each field. "
     "Spare, faulty and journal members are reported as having no data role.",
     ["inputs", "configurations"],
     "4 versions x all device sizes modulo the placement granularity x per-field boundary values x role kinds and device numbers",
     "Only the absence of a superblock is tested without image data; image tests fix one size and version each.",
     ["md/md.py", "md/c_md.py"],
     [("superblock search", "md/md.py find_super_block"), ("field decoding", "md/md.py MDPhysicalDisk.__init__")],
     observe=["MDPhysicalDisk attributes", "find_super_block result"])

prop("C08", "MD sets assemble independently of device order, strays and stale members",
     "Devices are grouped into one configuration per set identity, and the resulting volume (level, layout, chunk size, size, contents) is the same for every order in which the devices are supplied. "
     "Parameters come from the member with the most recent event count, spares, faulty and journal devices never supply volume data, and when two devices claim the same role the one with the higher event count supplies the data. "
     "The volume contents equal the data stored through the set's RAID geometry, at the members' data starts.",
     ["configurations", "inputs"],
     "all supply orders of mixtures of members, spares, journals, stale duplicates and members of another set, for each level and metadata version",
     NOIMG + " One supply order and no extra devices.",
     ["md/md.py", "raid/raid.py"],
     [("grouping", "md/md.py MD.__init__"), ("role map and reference member", "md/md.py MDVirtualDisk.__init__"), ("member ordering", "md/md.py MDConfiguration.__init__")],
     observe=["MD(...).configurations", "virtual_disks[..].open().read"])

prop("C09", "DDF metadata is decoded and grouped into configurations independently of order",
     "From the anchor at the last block of each disk, the active header and its sections are located and every populated physical disk entry, virtual disk entry and virtual disk configuration record is decoded, wherever unused or foreign records lie between them. "
     "Disks are grouped by their configuration identity; the virtual disks reported (name, identity, size, level, layout, chunk size, member count, member start) do not depend on supply order, and the record with the highest sequence number wins when copies differ. "
     "Data without a valid anchor is refused with an error.",
     ["inputs", "configurations"],
     "header locations x block sizes x record slots with gaps x VD counts 0..3 x member counts x supply orders x stale copies x field boundary values",
     NOIMG + " One virtual disk per set in the first slot, one supply order.",
     ["ddf/ddf.py", "ddf/c_ddf.py"],
     [("anchor and header", "ddf/ddf.py DDFPhysicalDisk"), ("configuration records", "ddf/ddf.py DDFPhysicalDisk._read_virtual_disk_configuration_records"),
      ("grouping and member map", "ddf/ddf.py DDFConfiguration")],
     observe=["DDF(...).configurations", "virtual_disks"])

prop("C10", "DDF volumes return the data stored under their RAID level and qualifier",
     "Every DDF virtual disk returns the bytes its RAID level, level qualifier, secondary elements, chunk size, member order and member start block place there, also when several virtual disks share the same physical disks. "
     "Level and qualifier combinations outside the supported set are refused with an error.",
     ["configurations", "inputs"],
     "all level/qualifier pairs x member counts x chunk sizes x start blocks x one or two virtual disks per disk group x chunk-boundary read windows",
     NOIMG + " Start block is zero and one volume exists in every tested image.",
     ["ddf/ddf.py", "raid/stream.py", "raid/raid.py"],
     [("level and layout conversion", "ddf/ddf.py DDFVirtualDisk/_convert_raid_layout"), ("member start", "ddf/ddf.py DDFConfiguration"), ("chunk walks", "raid/stream.py")],
     observe=["virtual_disks[..].open().read"])

prop("C11", "MBR primary and logical partitions are reported completely and exactly",
     "Every used primary entry and every logical partition reachable through extended-partition chains is reported exactly once, in table order, with the byte offset, size, type, bootable flag and number the table defines for the given sector size; empty entries and extended containers are not reported. "
     "Primary entries are relative to where the table lies, logical entries to their own boot record; links are relative to the extended partition they belong to, and a partition's number is its 1-based slot, continuing along the chain from the slot of the extended partition. "
     "Sectors without the boot signature and filesystem boot sectors are refused with an error.",
     ["inputs", "configurations"],
     "all assignments of entry kinds (empty, data, extended) to the 4 primary slots x chain lengths and link-slot positions x positions of the table x sector sizes x start/size boundary values",
     "Stable tests only check an all-zero sector; the image test has two primary partitions.",
     ["disk/schemes/mbr.py", "disk/partition.py"],
     [("entry walk and chain", "disk/schemes/mbr.py MBR._partitions"), ("sector acceptance", "disk/schemes/mbr.py MBR.__init__")],
     observe=["MBR(fh).partitions", "Disk(fh).partitions", "Disk.serial"])

prop("C12", "GPT entries are reported completely and exactly, including hybrid MBRs",
     "Every used GPT entry is reported once, in slot order, with its slot number, type and unique identifiers, attribute flags, name, and the byte range given by its first and last LBA, for any sector size, entry count, entry size and entry-array location. "
     "With a hybrid MBR the GPT entries appear at the position of the first protective entry among the MBR partitions, which keep their own numbers; further protective entries add nothing. "
     "A missing protective entry or header signature is refused with an error.",
     ["inputs", "configurations"],
     "slot occupancy patterns x sector sizes x entry sizes x array locations x protective/hybrid MBR shapes x field boundary values x names of every length",
     "Stable tests only check an all-zero sector; image tests hold five fixed tables.",
     ["disk/schemes/gpt.py", "disk/schemes/mbr.py", "disk/partition.py"],
     [("entry walk", "disk/schemes/gpt.py GPT._partitions"), ("header lookup", "disk/schemes/gpt.py GPT.__init__")],
     observe=["GPT(fh).partitions", "Disk(fh).partitions"])

prop("C13", "Apple partition map entries are reported completely and exactly",
     "Every entry of an Apple partition map is reported in map order with its number, byte offset and size for the given sector size, type and name, whether the map starts at the beginning or behind a driver descriptor block of any block size. "
     "Data without a map signature is refused with an error.",
     ["inputs", "configurations"],
     "map lengths x map positions x sector sizes x start/size boundary values x names and types of every length",
     "Stable tests only check an all-zero sector; the image test has one map.",
     ["disk/schemes/apm.py", "disk/partition.py"],
     [("map walk", "disk/schemes/apm.py APM._partitions"), ("descriptor block", "disk/schemes/apm.py APM.__init__")],
     observe=["APM(fh).partitions", "Disk(fh).partitions"])

prop("C14", "BSD disklabel partitions (32 and 64 bit) are reported completely and exactly",
     "Every used slot of a BSD disklabel is reported in slot order with its slot number, byte offset, size, file-system type and type name, except the slot that describes the whole device and unused slots. "
     "Offsets in 32-bit labels are relative to the whole-device slot's start and scaled by the sector size, offsets in 64-bit labels are bytes within the slice; 64-bit slots also report their storage identifier. "
     "A wrong magic (either copy, for 32-bit labels) is refused with an error.",
     ["inputs", "configurations"],
     "all slot occupancy patterns up to 10 slots and full-size tables x label kinds x sector sizes x whole-device offsets x field boundary values x all file-system types",
     "Stable tests do not cover it; image tests hold one label of each kind.",
     ["disk/schemes/bsd.py", "disk/partition.py"],
     [("slot walk", "disk/schemes/bsd.py BSD._partitions"), ("label detection", "disk/schemes/bsd.py BSD.__init__")],
     observe=["BSD(fh).partitions", "Disk(fh).partitions"])

prop("C15", "Disk detection picks the right scheme and opens every partition's exact bytes",
     "Opening a disk detects GPT, MBR, Apple and BSD schemes (GPT before the MBR that protects it), replaces each partition of a BSD type by the partitions of the disklabel inside it, keeps all other partitions in order, and fails with a disk error for data carrying none of these schemes or a protective MBR whose GPT cannot be found at the given sector size. "
     "Each reported partition opens to exactly the source bytes at its position, relative to its slice for nested labels. "
     "The disk serial is the MBR volume number for MBR disks and absent otherwise.",
     ["inputs", "configurations"],
     "all combinations of scheme signatures present x nested label kinds and positions x sector sizes x partition kinds, reading every partition's edges",
     "Stable tests only check an all-zero sector against each scheme class; nothing opens partitions.",
     ["disk/disk.py", "disk/partition.py", "disk/schemes/bsd.py"],
     [("scheme probing", "disk/disk.py Disk.__init__"), ("partition stream", "disk/partition.py Partition.open"), ("type names", "disk/partition.py translate_partition_type")],
     observe=["Disk(fh).scheme/partitions/serial", "Partition.open().read"])

prop("C16", "LVM metadata text is parsed to exactly the tree it denotes",
     "Parsing volume group metadata text yields exactly the nested sections, and integer, string and list values it contains, for any nesting, order and formatting LVM produces: comments on their own line or behind values, blank lines, indentation, single- and multi-line lists, empty lists, and strings containing comment, brace, bracket, equals and escaped-quote characters. "
     "The typed objects built from it (group, physical and logical volumes, segments and their kinds, areas, tags, flags, times) carry those values, times as points in time (UTC) and everything else unchanged.",
     ["inputs"],
     "all metadata trees up to depth 4, width 3 and 10 nodes; all values and ordered pairs of values in all formatting variants; all segment kinds with all optional fields present or absent",
     NOIMG + " The parser is never tested on its own.",
     ["lvm/metadata.py"],
     [("text parser", "lvm/metadata.py parse_metadata"), ("typed objects", "lvm/metadata.py MetaBase.from_dict, VolumeGroup, LogicalVolume, Segment")],
     observe=["parse_metadata(text)", "VolumeGroup attributes"])

prop("C17", "LVM physical volumes and their metadata are found on every valid device layout",
     "The label is found in any of the first four sectors, and the physical volume identity, size, data area and metadata areas are those recorded there; a device without a valid label is refused with an error. "
     "The current metadata text is returned in full wherever it lies in the metadata area, including when it wraps around the end of the circular area. "
     "Opening a group gives the same volumes for every order of its devices, also when some devices carry no metadata area.",
     ["inputs", "configurations"],
     "label sectors x data-area counts/locations/sizes x metadata-area counts x text positions and lengths around the wrap point x device orders x which devices carry metadata",
     "Stable tests check an empty device and one crafted two-area header.",
     ["lvm/physical.py", "lvm/lvm2.py", "lvm/c_lvm2.py"],
     [("label scan", "lvm/physical.py LVM2Device.__init__"), ("metadata location", "lvm/physical.py LVM2Device.metadata"), ("group assembly", "lvm/lvm2.py LVM2.__init__")],
     observe=["LVM2Device attributes and metadata", "LVM2(...).vg"])

prop("C18", "LVM logical volumes return the bytes their segments map",
     "Reading any range of a logical volume returns the bytes of the physical extents its segments map, for any number and order of linear, striped and mirrored segments over any set of physical volumes, with stripes interleaved at the recorded stripe size, and for thin volumes the bytes of the thin pool. "
     "A volume that needs an absent physical volume or an unsupported segment kind fails with an error when opened, while the other volumes stay readable. "
     "A mirror reads from any leg that can be opened.",
     ["configurations", "inputs"],
     "segment sequences up to length 3 over kinds, stripe counts 1..3 (many up to 40), stripe sizes, extents and PVs x subsets of absent PVs x device orders x boundary read windows",
     NOIMG + " Single-stripe volumes over one PV, one mirror pair, one thin image.",
     ["lvm/metadata.py", "lvm/lvm2.py", "lvm/physical.py", "dm/thin.py"],
     [("segment mapping", "lvm/metadata.py LogicalVolume.open, StripedSegment.open, MirrorSegment.open, ThinSegment.open"), ("extent to device offset", "lvm/metadata.py PhysicalVolume.open, lvm/physical.py")],
     observe=["LogicalVolume.open().read"])

prop("C19", "Device-mapper B-tree lookups return exactly the stored mapping",
     "Looking up a key in a single- or multi-level device-mapper B-tree returns exactly the value stored under it and nothing for keys that are not stored, for every tree shape, key set and value size. "
     "Lookups are unaffected by earlier lookups and by other trees in the same process.",
     ["inputs", "histories"],
     "all key subsets of a small universe and of 64-bit boundary values x tree heights 1..3 x all splits into nodes x value sizes x all present and absent keys, in every order of a pair of lookups",
     NOIMG + " The thin image holds a tree with one leaf.",
     ["dm/btree.py", "dm/c_dm.py"],
     [("descent", "dm/btree.py BTree.lookup"), ("binary search", "dm/btree.py Node"), ("node cache", "dm/btree.py BTree")],
     state=[("node cache", "recently read nodes by block number", "dm/btree.py")],
     observe=["BTree.lookup"])

prop("C20", "Thin devices return mapped blocks and zeroes for holes over any range",
     "Reading any range of a thin device returns the data block the pool maps for every mapped block and zeroes for every unmapped block, for any mapping shared or not with other devices of the pool, any block size, and any range spanning mapped blocks and holes. "
     "An unknown device id, or metadata without the thin-pool magic, is refused with an error; with a size hint reads stop there, without one the device reads as zeroes beyond its mapped blocks.",
     ["inputs", "configurations"],
     "all mapped/hole patterns over 6 blocks x data block permutations x device sets x block sizes x size hints x every block-boundary and unaligned read window",
     NOIMG + " It reads 512 bytes at a time, never across a block.",
     ["dm/thin.py", "dm/btree.py", "dm/c_dm.py"],
     [("block walk", "dm/thin.py ThinDevice._read"), ("device details", "dm/thin.py ThinDevice.__init__"), ("pool superblock", "dm/thin.py ThinPool.__init__")],
     observe=["ThinPool.open(id, size).read", "ThinPool attributes"])

prop("C21", "Vinum configuration text is parsed with the documented strictness",
     "Configuration text yields, line by line, exactly the volumes, plexes and subdisks it declares, with values converted as documented: size units, default states for unknown words, stripe size only with striped or RAID 5 organisation, comments and blank lines ignored. "
     "A line that is malformed (missing value or mandatory name, unknown word or type, quoted token, out-of-range size) and everything after it is dropped, and everything before it is kept. "
     "The parser never raises, whatever the bytes.",
     ["inputs"],
     "all token sequences up to length 5 over the keyword and value alphabet per line kind, all line sequences up to length 3, all byte strings up to length 6 over a 10-symbol alphabet",
     "Tests check about forty hand-written lines, each token at most once or twice.",
     ["vinum/config.py"],
     [("tokeniser", "vinum/config.py tokenize"), ("line parsers", "vinum/config.py _parse_volume_config/_parse_plex_config/_parse_sd_config"), ("line loop", "vinum/config.py parse_vinum_config")],
     observe=["parse_vinum_config(time, text)"])

prop("C22", "Vinum volumes assemble from the newest configuration and return their data",
     "From any set of drives in any order, each object's newest declaration wins; volumes are built only from usable plexes and subdisks on present active drives, in plex-offset order, as mirror, concatenated, striped or RAID 5 volumes with the sizes the subdisks define. "
     "Reading a volume returns the bytes stored through that organisation at each subdisk's own offset on its drive. "
     "Drives without a vinum header are refused with an error and inactive drives contribute nothing.",
     ["configurations", "inputs"],
     "organisation x subdisk counts x states of every object x stale/new declarations on each drive x supply orders x drive offsets x absent drives x read windows",
     "Stable tests cover only drive-header parsing and text lines; assembly needs absent image data, one supply order, one volume per image.",
     ["vinum/vinum.py", "vinum/config.py", "vinum/c_vinum.py", "raid/stream.py"],
     [("newest-wins merge and filtering", "vinum/vinum.py VinumConfiguration"), ("volume construction", "vinum/vinum.py VinumPlexDisk/VinumMirrorDisk"), ("drive header", "vinum/vinum.py VinumPhysicalDisk")],
     observe=["Vinum(...).configurations[0].virtual_disks", "open().read"])

prop("C23", "Shadow copies return the volume as it was when the snapshot was taken",
     "For any history of block writes and snapshot creations recorded with copy-on-write stores, each listed shadow copy reads as the exact volume contents at its creation, whether a block was preserved in its own store, in a newer one, or is unchanged on the volume. "
     "Sector-level overlay records affect only the sectors they list and only in their own snapshot. "
     "Snapshots are listed once each, oldest first, with their recorded identity and creation time; a volume without a catalog signature is refused with an error.",
     ["histories"],
     "all histories of up to 6 operations (block writes, snapshot creations, overlays) over 3 blocks with up to 3 snapshots, each replayed into an on-disk image and read back through every snapshot",
     "There are no tests for it at all.",
     ["vss.py"],
     [("block resolution", "vss.py Store.read_block"), ("catalog and store linking", "vss.py VSS/Catalog"), ("descriptor lists", "vss.py BlockMap")],
     observe=["VSS(fh).catalog.stores", "Store.open().read"])

prop("C24", "Damaged or truncated metadata always ends in a result or an error",
     "For every supported on-disk format, opening an image that is truncated at any point or has any metadata field set to an extreme or self-referencing value finishes in bounded time and memory, either with an exception or with a usable object. "
     "No damaged pointer, count or link can make it loop forever. "
     "Data it does return for volumes not touched by the damage is unchanged.",
     ["fault_sequences", "inputs"],
     "every sector-granular truncation and every (field, extreme value) substitution over one image per format, including cyclic links, then reading everything reported",
     "Tests feed an empty sector at most.",
     ["disk/disk.py", "md/md.py", "ddf/ddf.py", "lvm/physical.py", "dm/btree.py", "dm/thin.py", "vinum/vinum.py", "vss.py"],
     [("chain walks", "disk/schemes/mbr.py MBR._partitions, dm/btree.py BTree.lookup, vss.py block lists"), ("counted tables", "ddf/ddf.py, disk/schemes/gpt.py, lvm/physical.py")],
     observe=["constructors", "open().read"])

prop("C25", "Opening volumes is read-only, repeatable and isolated",
     "No operation writes to, truncates or closes a source. "
     "Opening the same sources again, in any order, interleaved with other images of the same or another format in the same process, always gives the same objects and bytes as opening them in a fresh process.",
     ["histories", "configurations"],
     "all ordered pairs (triples thorough) of images from every format, opened and read in one process and compared with the isolated result",
     "Each test opens one image; shared caches and module state are never exercised.",
     ["disk/disk.py", "md/md.py", "ddf/ddf.py", "lvm/lvm2.py", "dm/btree.py", "dm/thin.py", "vinum/vinum.py", "vss.py"],
     [("caches", "dm/btree.py, lvm/metadata.py, vss.py"), ("source access", "all parsers")],
     state=[("caches", "memoised nodes, pools and properties", "dm/btree.py, lvm/metadata.py, vss.py")],
     observe=["all public constructors and open()"])

prop("C26", "Partitions are described by the documented name of their type",
     "Every partition carries a type description and a short type name that depend only on its partition scheme and type value. "
     "Known MBR types and GPT type identifiers get the name listed for them and all others are called unknown, with the numeric value or identifier in front in the description; Apple partitions are described by their type text. "
     "Partitions of a BSD disklabel are described by the name of their file-system type in that label, also when the label lies inside an MBR or GPT partition.",
     ["inputs", "configurations"],
     "all 256 type values of MBR (primary, logical, hybrid) and BSD labels (32 and 64 bit, bare and nested), all listed GPT identifiers with every single bit changed, Apple type texts of every length",
     "The image tests look at two GPT types and need absent data.",
     ["disk/partition.py", "disk/schemes/bsd.py"],
     [("type names", "disk/partition.py translate_partition_type, PARTITION_TYPES"), ("description attributes", "disk/partition.py Partition.__init__"),
      ("label type names", "disk/schemes/bsd.py FS_NAMES")],
     observe=["Partition.type_str", "Partition.type_name", "translate_partition_type"])

prop("C27", "Volumes stacked on volumes return the same data as on plain files",
     "A stream the library hands out can serve as the source of any other format: an image set stored inside partitions, RAID volumes, logical volumes, thin devices or vinum volumes opens to the same objects and bytes as from plain files. "
     "This holds for stacks of several layers, and when several members of one set lie in the same container and so share its sources.",
     ["configurations", "histories"],
     "every ordered stack of one or two containers out of 24 kinds around each of 25 kinds of image sets, read as a whole, in turns over all volumes, and backwards",
     "Tests open every image from a plain file.",
     ["disk/partition.py", "raid/stream.py", "raid/raid.py", "md/md.py", "ddf/ddf.py", "lvm/metadata.py", "lvm/physical.py", "dm/thin.py", "vinum/vinum.py", "vss.py"],
     [("stream classes", "raid/stream.py, dm/thin.py ThinDevice, lvm/metadata.py, disk/partition.py Partition.open"), ("size detection", "raid/raid.py PhysicalDisk, md/md.py find_super_block, ddf/ddf.py DDFPhysicalDisk")],
     observe=["open().read of the innermost volumes"])

prop("C28", "Openers recognise exactly their own format and refuse all others as documented",
     "Every opener refuses images of all other supported formats, blank data, and its own images moved away from their place, and finds its own metadata whatever marks of other formats lie elsewhere on the device. "
     "A refusal is the error kind of that format: a disk error for partition schemes, an LVM, DDF or device-mapper error for these, the library's base error for shadow copies and a value error for MD and vinum members. "
     "Detection of a partition scheme fails with a disk error whatever the data, also when it is empty or too short.",
     ["inputs", "configurations"],
     "14 openers x all sources of 50 image sets whole, cut and moved; constant data of every byte value in 20 lengths; every compatible subset of 16 kinds of format marks on one device",
     "Tests feed one empty buffer to one opener.",
     ["disk/disk.py", "disk/schemes/mbr.py", "disk/schemes/gpt.py", "disk/schemes/apm.py", "disk/schemes/bsd.py", "md/md.py", "ddf/ddf.py", "lvm/physical.py", "lvm/lvm2.py", "dm/thin.py", "vinum/vinum.py", "vss.py", "exceptions.py"],
     [("signature tests", "constructors of all formats"), ("scheme detection", "disk/disk.py Disk"), ("error classes", "exceptions.py")],
     observe=["constructors and the errors they raise"])

prop("C29", "Sets that cannot be used are refused with the error of their kind",
     "A set that lacks members or devices beyond its redundancy, mixes several sets, has an unsupported level, layout or segment kind, or carries a damaged signature in any of its metadata blocks is refused, never opened to data. "
     "The error is that of the format (RAID, LVM, DDF, device-mapper, disk or the library's base error for shadow copies), a value error for unusable MD, DDF and vinum configurations, and a not-implemented error for kinds of levels and segments that are not supported.",
     ["inputs", "configurations"],
     "every single-bit change of 25 signatures; every subset of missing members of levels linear, 0, 4, 5, 6 with 2-7 members; every level and layout number in range; every DDF level and qualifier; every subset of devices of an LVM group and a vinum set; every LVM segment kind; every block and entry kind of shadow copies",
     "Tests look at one missing-disk case and no error classes.",
     ["raid/raid.py", "raid/stream.py", "md/md.py", "ddf/ddf.py", "lvm/lvm2.py", "lvm/metadata.py", "lvm/physical.py", "dm/thin.py", "vinum/vinum.py", "vss.py", "disk/disk.py", "disk/schemes/gpt.py", "exceptions.py"],
     [("completeness checks", "raid/stream.py constructors, vinum/vinum.py VinumPlexDisk.open, lvm/metadata.py PhysicalVolume.open"), ("level tables", "ddf/ddf.py, md/md.py MDVirtualDisk, raid/raid.py VirtualDisk.open"), ("error classes", "exceptions.py")],
     observe=["constructors and open(), and the errors they raise"])

prop("C30", "Objects describe themselves with their identifying values",
     "Every object reachable from an opened disk, RAID set, volume group or shadow copy volume has a text representation that can always be made, before and after its volumes are opened. "
     "The representation holds the identifying values of partitions (number, offset, size, type name, name), DDF disks and records (identifier, reference, number, name), LVM groups, volumes and segments (name, identifier, number of segments, extents and kind) and shadow copy volumes (identifiers, number of snapshots).",
     ["inputs", "configurations"],
     "everything reachable from 50 opened image sets; partitions over boundary values of number, offset, size, type and name; DDF records over boundary references, numbers and names; LVM objects over every subset of optional fields and every segment kind; 0-5 snapshots",
     "No test makes a representation of most of these objects; a failing one only shows in logs and debuggers.",
     ["disk/partition.py", "ddf/ddf.py", "lvm/metadata.py", "lvm/lvm2.py", "lvm/physical.py", "vss.py"],
     [("representations", "__repr__ of Partition, the DDF, LVM and VSS classes"), ("records of a DDF volume", "ddf/ddf.py DDFVirtualDisk")],
     observe=["repr(), str() and format() of public objects"])

prop("C31", "Objects compare by the metadata they describe",
     "Any two objects reachable from opened disks, sets, groups and shadow copy volumes can be compared, also when they come from separate openings and refer to each other, and every object equals itself and no value of another type. "
     "LVM groups, physical, logical and historical volumes and segments, and block descriptors of shadow copies are equal exactly when the metadata they were made from is equal, with or without devices attached to a group.",
     ["inputs", "configurations"],
     "everything reachable from 50 opened image sets against itself, its copy and other types; all pairs of LVM objects over every subset of optional fields and every segment kind; all pairs of 243 block descriptors",
     "No test compares objects of two openings.",
     ["lvm/metadata.py", "vss.py", "vinum/config.py"],
     [("generated comparisons", "dataclasses of lvm/metadata.py and vinum/config.py"), ("descriptor comparison", "vss.py BlockDescriptor.__eq__")],
     observe=["== and != of public objects"])

prop("C32", "A failing source is reported and can be read again",
     "When reading a source fails while a disk, set, group, pool or shadow copy volume is opened, listed or read, that operation either ends in an error or gives exactly what it gives without the failure. "
     "Once the source can be read again, repeating the operation over the same sources, on the same objects and on the same streams gives exactly what it gives without the failure, however many failures went before.",
     ["fault_sequences", "histories"],
     "every single read of a source, every read from which on a source fails until repaired, and every pair of reads (LVM: at most 24 apart) during opening, listing and reading of 50 image sets of 25 kinds, each followed by repeating the step, everything before it, and the opening",
     "No test has a source that fails.",
     ["vss.py", "dm/btree.py", "dm/thin.py", "lvm/physical.py", "lvm/lvm2.py", "md/md.py", "ddf/ddf.py", "vinum/vinum.py", "raid/stream.py", "disk/disk.py"],
     [("values kept after the first use", "vss.py Store, lvm/physical.py LVM2Device.metadata, dm/thin.py ThinPool"), ("node cache", "dm/btree.py BTree"), ("detection loop", "disk/disk.py Disk.__init__")],
     observe=["results and errors of opening, describing and reading"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
