"""Encoder for volume shadow copies: a history of writes and snapshots becomes an on-disk image."""

from __future__ import annotations

import struct
import uuid

from vlib.src import PatternFile, pattern

ID = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
HDR = 0x1E00
B = 0x4000
PER_LIST = (B - 128) // 32  # 508
PER_CATALOG = (B - 128) // 128  # 127
FORWARDER, OVERLAY, UNUSED = 1, 2, 4
INDEX, HEADER, RANGES, BITMAP = 3, 4, 5, 6


def volume_header(catalog: int, ident=ID, vol=bytes(range(16)), store_vol=bytes(range(16, 32))) -> bytes:
    out = ident + struct.pack("<IIQQQQQ", 1, 1, HDR, 0, 0, catalog, 1 << 30)
    return (out + vol + store_vol).ljust(512, b"\x00")


def catalog_block(rel: int, off: int, nxt: int, entries: bytes, ident=ID, kind=2) -> bytes:
    head = (ident + struct.pack("<IIQQQ", 1, kind, rel, off, nxt)).ljust(128, b"\x00")
    return (head + entries).ljust(B, b"\x00")


def store_block(kind: int, off: int, nxt: int, body: bytes, ident=ID, rel=0, size=0) -> bytes:
    head = (ident + struct.pack("<IIQQQQ", 1, kind, rel, off, nxt, size)).ljust(128, b"\x00")
    return (head + body).ljust(B, b"\x00")


def entry2(size: int, ident: bytes, time: int) -> bytes:
    return (struct.pack("<QQ", 2, size) + ident + struct.pack("<QQQ", 7, 0x40, time)).ljust(128, b"\x00")


def entry3(ident: bytes, blocks: int, header: int, ranges: int, bitmap: int, prev: int) -> bytes:
    out = struct.pack("<QQ", 3, blocks) + ident
    return (out + struct.pack("<QQQQQQ", header, ranges, bitmap, 0x1234, 1 << 20, prev)).ljust(128, b"\x00")


def information(copy_id: bytes, set_id: bytes, machine="host", service="srv") -> bytes:
    out = bytes(16) + copy_id + set_id + struct.pack("<IIII", 0xD, 1, 0x0042000D, 0)
    for name in (machine, service):
        enc = name.encode("utf-16-le")
        out += struct.pack("<H", len(enc)) + enc
    return out


def descriptor(original: int, relative: int, store: int, flags: int = 0, bitmap: int = 0) -> bytes:
    return struct.pack("<QQQII", original, relative, store, flags, bitmap)


class Store:
    def __init__(self, index: int, time: int):
        self.ident = uuid.UUID(int=0x1000 + index).bytes_le
        self.copy_id = uuid.UUID(int=0x2000 + index)
        self.set_id = uuid.UUID(int=0x3000 + index)
        self.time = time
        self.descriptors: list[tuple] = []  # original, relative, store, flags, bitmap
        self.kept: set[int] = set()
        self.overlay_at: dict[int, int] = {}
        self.clear: set[int] = set()  # blocks whose bit is clear in the bitmap
        self.prev_clear: set[int] | None = None  # None: no previous bitmap
        self.machine = f"host{index}"
        self.service = f"service-{index}"


class Volume:
    """A volume under the copy-on-write rules; ``contents`` is the reference."""

    def __init__(self, blocks: int, tag: int = 60, tail: int = 0, meta: int | None = None, size: int | None = None):
        """``blocks`` data blocks from the start; ``tail``: bytes cut off the end of the last one; metadata behind it."""
        self.blocks = blocks
        self.tag = tag
        self.cut = tail
        self.size = (blocks * B - tail) if size is None else size
        self.next_meta = meta if meta is not None else max(blocks, 1) + 1
        self.serial = 0
        self.now: dict[int, bytes] = {}
        self.stores: list[Store] = []
        self.views: list[dict[int, bytes]] = []
        self.raw: dict[int, bytes] = {}  # store block offset -> data
        self.ranges: list[tuple[int, int, int]] | None = None  # of every store; None: the one of its header

    def alloc(self) -> int:
        off = self.next_meta * B
        self.next_meta += 1
        return off

    def block(self, b: int) -> bytes:
        return self.now[b] if b in self.now else pattern(self.tag, b * B, B)

    def fresh(self) -> bytes:
        self.serial += 1
        return pattern(self.tag + 100 + self.serial, 0, B)

    def snapshot(self, time: int | None = None) -> Store:
        s = Store(len(self.stores), 132_000_000_000_000_000 + 600_000_000 * len(self.stores) if time is None else time)
        self.stores.append(s)
        self.views.append(dict(self.now))
        return s

    def write(self, b: int) -> None:
        if self.stores and b not in self.stores[-1].kept:
            s = self.stores[-1]
            s.kept.add(b)
            off = self.alloc()
            self.raw[off] = self.block(b)
            s.descriptors.append((b * B, b * B, off, 0, 0))
        self.now[b] = self.fresh()

    def overlay(self, k: int, b: int, mask: int) -> None:
        """Snapshot ``k`` itself changed the sectors of ``mask``."""
        s = self.stores[k]
        if b not in s.overlay_at:
            s.overlay_at[b] = self.alloc()
            self.raw[s.overlay_at[b]] = pattern(self.tag + 99, s.overlay_at[b], B)
        off = s.overlay_at[b]
        new = self.fresh()
        data, view = bytearray(self.raw[off]), bytearray(self.view(k, b))
        for i in range(32):
            if mask >> i & 1:
                data[i * 512 : (i + 1) * 512] = view[i * 512 : (i + 1) * 512] = new[i * 512 : (i + 1) * 512]
        self.raw[off] = bytes(data)
        self.views[k][b] = bytes(view)
        s.descriptors.append((b * B, b * B, off, OVERLAY, mask))

    def view(self, k: int, b: int) -> bytes:
        return self.views[k][b] if b in self.views[k] else pattern(self.tag, b * B, B)

    def image(self, catalog_entries=None, bitmap_bytes=None, ident=ID, catalog_offset=None, cls=PatternFile, total=None):
        """Encode.  Returns the source and remembers where everything is in ``self.places``."""
        self.places: dict[str, int] = {"volume": HDR}
        regions: list[tuple[int, bytes]] = [(b * B, data) for b, data in self.now.items()]
        regions += list(self.raw.items())
        if bitmap_bytes is None:
            bitmap_bytes = max(B - 128, (self.blocks + 7) // 8)
        entries = []
        for i, s in enumerate(self.stores):
            at = self.alloc()
            self.places[f"header{i}"] = at
            body = information(s.copy_id.bytes_le, s.set_id.bytes_le, s.machine, s.service)
            regions.append((at, store_block(HEADER, at, 0, body)))
            lists = [s.descriptors[j : j + PER_LIST] for j in range(0, len(s.descriptors), PER_LIST)] or [[]]
            first = self.chain(
                regions, INDEX, [b"".join(descriptor(*d) for d in part) for part in lists], f"list{i}"
            )
            listed = [(at, 0, B)] if self.ranges is None else self.ranges
            ranges = self.chain(regions, RANGES, [b"".join(struct.pack("<QQQ", *r) for r in listed)], f"ranges{i}")
            bitmap = self.chain(regions, BITMAP, self.bits(s.clear, bitmap_bytes), f"bitmap{i}")
            prev = 0
            if s.prev_clear is not None:
                prev = self.chain(regions, BITMAP, self.bits(s.prev_clear, bitmap_bytes), f"previous{i}")
            entries.append((entry2(self.size, s.ident, s.time), entry3(s.ident, first, at, ranges, bitmap, prev)))
        flat = [e for pair in entries for e in pair]
        if catalog_entries:
            flat = catalog_entries(entries)
        parts = [b"".join(flat[j : j + PER_CATALOG]) for j in range(0, len(flat), PER_CATALOG)] or [b""]
        offs = [self.alloc() for _ in parts]
        for j, (off, part) in enumerate(zip(offs, parts)):
            nxt = offs[j + 1] if j + 1 < len(offs) else 0
            regions.append((off, catalog_block(j * B, off, nxt, part)))
            self.places[f"catalog.{j}"] = off
        regions.append((HDR, volume_header(offs[0] if catalog_offset is None else catalog_offset, ident)))
        length = total if total is not None else max(self.next_meta * B, self.size)
        fh = cls(length, self.tag)
        for off, data in regions:
            fh.put(off, data)
        return fh

    def chain(self, regions, kind, parts, name) -> int:
        offs = [self.alloc() for _ in parts]
        for j, (off, part) in enumerate(zip(offs, parts)):
            nxt = offs[j + 1] if j + 1 < len(offs) else 0
            regions.append((off, store_block(kind, off, nxt, part, rel=j * B)))
            self.places[f"{name}.{j}"] = off
        return offs[0]

    @staticmethod
    def bits(clear, count) -> list[bytes]:
        buf = bytearray(b"\xff" * count)
        for b in clear:
            buf[b // 8] &= ~(1 << (b % 8)) & 0xFF
        step = B - 128
        return [bytes(buf[i : i + step]) for i in range(0, count, step)]

    def expect(self, k: int, first: int, count: int) -> bytes:
        """Blocks ``first`` .. of snapshot ``k``; block 0 holds the volume header as well."""
        out = []
        for b in range(first, first + count):
            data = self.view(k, b)
            if b == 0 and 0 not in self.views[k]:
                raise AssertionError("block 0 holds the header")
            out.append(data)
        return b"".join(out)
