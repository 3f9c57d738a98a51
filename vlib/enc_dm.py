"""Encoder for device-mapper B-trees and thin-pool metadata."""

from __future__ import annotations

import struct

SECTOR = 512
THIN_MAGIC = 27022010
INTERNAL, LEAF = 1, 2


def node(flags, blocknr, entries, value_size, max_entries=None, block_size=4096, junk=0x5A) -> bytes:
    """entries: (key, value bytes). The unused slots hold junk, as they do after deletions."""
    room = (block_size - 32) // (8 + value_size)
    if max_entries is None:
        max_entries = room // 3 * 3 if room >= 3 else room
    assert len(entries) <= max_entries <= room, (len(entries), max_entries, room)
    buf = bytearray([junk]) * block_size
    struct.pack_into("<IIQIIII", buf, 0, 0, flags, blocknr, len(entries), max_entries, value_size, 0)
    for i, (key, value) in enumerate(entries):
        struct.pack_into("<Q", buf, 32 + 8 * i, key)
        off = 32 + 8 * max_entries + value_size * i
        buf[off : off + value_size] = value
    return bytes(buf)


class Meta:
    """Metadata blocks, allocated one by one."""

    def __init__(self, block_size=4096, first=1, stride=1):
        self.block_size = block_size
        self.blocks: dict[int, bytes] = {}
        self.next = first
        self.stride = stride

    def add(self, flags, entries, value_size, max_entries=None) -> int:
        nr = self.next
        self.next += self.stride
        self.blocks[nr] = node(flags, nr, entries, value_size, max_entries, self.block_size)
        return nr

    def leaf(self, entries, value_size=8, max_entries=None) -> int:
        return self.add(LEAF, entries, value_size, max_entries)

    def internal(self, children, max_entries=None) -> int:
        """children: (lowest key, block)."""
        return self.add(INTERNAL, [(k, struct.pack("<Q", b)) for k, b in children], 8, max_entries)

    def tree(self, entries, splits, value_size=8, max_entries=None) -> int:
        """Build a tree.

        ``splits`` lists, from the leaves up, how many items go in each node of a level; a level
        that ends up as one node is the root.
        """
        if not entries:
            return self.leaf([], value_size, max_entries)
        items = list(entries)
        make = lambda part: self.leaf(part, value_size, max_entries)  # noqa: E731
        for level in splits:
            assert sum(level) == len(items), (level, len(items))
            out, i = [], 0
            for n in level:
                part = items[i : i + n]
                i += n
                out.append((part[0][0], make(part)))
            items = out
            make = self.internal
        assert len(items) == 1, items
        return items[0][1]

    def even(self, entries, fanout, value_size=8, height=None) -> int:
        """A tree with ``fanout`` items per node."""
        splits, n, level = [], len(entries), 0
        while True:
            counts = [min(fanout, n - i) for i in range(0, n, fanout)] or [0]
            splits.append(counts)
            n = len(counts)
            level += 1
            if n == 1 and (height is None or level >= height):
                break
        return self.tree(entries, splits, value_size)

    def image(self, size=None):
        from vlib.src import PatternFile  # noqa: PLC0415

        top = max(self.blocks, default=0) + 1
        fh = PatternFile(size or top * self.block_size, None)
        for nr, data in sorted(self.blocks.items()):
            fh.put(nr * self.block_size, data)
        return fh


def superblock(mapping_root, details_root, data_block_sectors, metadata_block_sectors=8, magic=THIN_MAGIC, blocks=64) -> bytes:
    buf = struct.pack("<IIQ16sQIIQQ", 0x1234, 0, 0, b"uuid" * 4, magic, 2, 7, 3, 0)
    buf += b"\x11" * 128 + b"\x22" * 128
    buf += struct.pack("<QQIIQIII", mapping_root, details_root, data_block_sectors, metadata_block_sectors, blocks, 0, 0, 0)
    return buf


def details(mapped=0, trans=1, ctime=2, stime=3) -> bytes:
    return struct.pack("<QQII", mapped, trans, ctime, stime)


def block_time(block, time=0) -> bytes:
    return struct.pack("<Q", (block << 24) | time)


def pool(
    devices,
    block_sectors,
    fanout=3,
    meta_block=4096,
    times=None,
    magic=THIN_MAGIC,
    extra_details=(),
    height=None,
    first=1,
    no_details=(),
):
    """Pool metadata. ``devices``: {device id: {thin block: data block}}."""
    meta = Meta(meta_block, first)
    tops = []
    for dev in sorted(devices):
        entries = []
        for i, (blk, data) in enumerate(sorted(devices[dev].items())):
            entries.append((blk, block_time(data, times[i % len(times)] if times else 0)))
        tops.append((dev, struct.pack("<Q", meta.even(entries, fanout, height=height))))
    mapping = meta.even(tops, fanout, height=height)
    known = sorted((set(devices) | set(extra_details)) - set(no_details))
    det = meta.even([(d, details(len(devices.get(d, ())))) for d in known], fanout, 24)
    fh = meta.image()
    fh.put(0, superblock(mapping, det, block_sectors, meta_block // SECTOR, magic))
    return fh
