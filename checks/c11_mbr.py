"""C11: MBR primary and logical partitions are reported completely and exactly."""

from __future__ import annotations

from itertools import product

from dissect.volume.disk.schemes.mbr import MBR

from vlib import enc_disk as e
from vlib.src import PatternFile, mem

PROPERTY = "C11"
BOUNDS = (
    "every assignment of {empty, data, extended} to the 4 primary slots x chains of 1-6 boot records x every "
    "data-slot/link-slot pair with sector sizes 512 and 4096 (1024 and 2048 with two of the pairs), the three extended "
    "types in turn; tables read from 5 positions within the source; chains of 7-100 boot records; every assignment x 8 chains with records without data, without link or "
    "with two data entries x each extended type; every 4-slot content of the first boot record x every content of the "
    "records it links to; every type byte; start, size and flag boundary values up to 2^32-1 for primary and logical "
    "entries; every single-bit damage of the signature; every position of the file-system marks, inside, across and "
    "outside of the name field"
)
ASSUMPTIONS = ["boot record chains are finite"]

U32 = (0, 1, 2, 63, 2048, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF)
SECTORS = (512, 1024, 2048, 4096)
MARKS = (b"MSDOS5.0", b"MSWIN4.1", b"NTFS    ", b"EXFAT   ", b"-FVE-FS-", b"SYSLINUX", b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT")
DATA_TYPES = (0x07, 0x83, 0x0C, 0x82)


def cases(tier):
    pairs = [(d, l) for d in range(4) for l in range(4) if d != l]
    for kinds in product("edx", repeat=4):
        count = kinds.count("x")
        if not count:
            for sector in SECTORS:
                yield ("chain", "".join(kinds), sector, 1, 0, 1, 0, "d")
            continue
        for length in range(1, 7):
            for d, l in pairs:
                for sector in SECTORS if (d, l) in ((0, 1), (2, 0)) else (512, 4096):
                    yield ("chain", "".join(kinds), sector, length, d, l, (length + d) % 3, "d")
        for shape in ("-d", "d-", "--d", "d-d", "2", "2-2", "-2", "-"):
            for ext in range(3):
                yield ("chain", "".join(kinds), 512, len(shape), 0, 1, ext, shape)
    # every content of the first boot record, sub-chains behind every link
    for slot in range(4):
        for content in product("edx", repeat=4):
            yield ("tree", slot, "".join(content), "dexe")
            yield ("tree", slot, "".join(content), "ddee")
    for content in product("edx", repeat=4):
        for below in product("edx", repeat=4):
            yield ("tree", 2, "".join(content), "".join(below))
    # the table is read from where the source is positioned
    for kinds in product("edx", repeat=4):
        for position, length in product((512, 4096, 700, 1 << 20, (1 << 41) + 512), (1, 3)):
            yield ("chain", "".join(kinds), 512, length, 0, 1, 0, "d", position)
    for length in range(7, 101):
        for sector in SECTORS:
            yield ("chain", "dxee", sector, length, 0, 1, length % 3, "d")
    for kind in range(256):
        for boot in (0, 0x80):
            yield ("type", kind, boot)
    for boot in (0, 1, 0x7F, 0x80, 0xFF):
        yield ("boot", boot)
    for start, size in product(U32, repeat=2):
        for sector in (512, 4096):
            yield ("field", start, size, sector)
    for base, link, start, size in product((1, 63, 0x7FFFFFFF, 0xFFFFFFF0), (1, 0x10000, 0xFFFFFFFE), (1, 0x80000000, 0xFFFFFFFF), (1, 0xFFFFFFFF)):
        for sector in (512, 4096):
            yield ("logical", base, link, start, size, sector)
    for bit in range(16):
        yield ("sig", 0xAA55 ^ (1 << bit))
    for sig in (0, 0xFFFF, 0x55AA):
        yield ("sig", sig)
    for mark in range(len(MARKS)):
        for at in range(0, 16):
            yield ("mark", mark, at)
    for at in (12, 20, 100, 300, 0x1B0):
        yield ("nomark", at)
    for q in (0, 1):
        yield ("qnx", q)
    for size in (0, 1, 2, 510, 511):
        yield ("short", size)


class Builder:
    """Lays out a table tree, boot records and partitions one behind the other; keeps what must be reported."""

    def __init__(self, sector, ext_type=0x05):
        self.sector = sector
        self.cursor = 1
        self.records: dict[int, bytes] = {}
        self.want: list[tuple] = []
        self.ext_type = ext_type
        self.serial = 0

    def table(self, content, at, number, base, children):
        """Write the table with slots ``content`` at sector ``at``; ``children`` yields the content of linked tables.

        Return nothing; partitions are appended to ``want`` in table order.
        """
        entries = []
        for slot, what in enumerate(content):
            self.serial += 1
            if what == "e":
                # an empty entry may carry stale numbers
                entries.append(e.mbr_entry(0, 77 + self.serial, 99) if self.serial % 2 else e.EMPTY_ENTRY)
                continue
            self.cursor += 3 + self.serial % 4
            if what == "d":
                size = 1 + self.serial % 5
                kind = DATA_TYPES[self.serial % 4]
                boot = 0x80 if self.serial % 3 == 0 else 0
                entries.append(e.mbr_entry(kind, self.cursor - at, size, boot))
                self.want.append((number + slot + 1, self.cursor * self.sector, size * self.sector, kind, boot))
                self.cursor += size
            else:
                here = self.cursor
                self.cursor += 1
                kind = e.EXTENDED[(self.ext_type + self.serial) % 3]
                entries.append(e.mbr_entry(kind, here - (0 if base is None else base), 50))
                self.table(children(), here, number + slot, here if base is None else base, children)
        self.records[at] = e.mbr_sector(entries, serial=1234 + at)

    def image(self):
        img = bytearray(b"\xcc" * ((self.cursor + 8) * self.sector))
        for at, data in self.records.items():
            img[at * self.sector : at * self.sector + 512] = data
        return bytes(img)


def summary(partitions):
    return [(p.number, p.offset, p.size, p.type, p.flags) for p in partitions]


def ebr(shape, d, l, last):
    content = ["e"] * 4
    if shape in ("d", "2"):
        content[d] = "d"
    if not last:
        content[l] = "x"
    if shape == "2":
        content[3 if l != 3 and d != 3 else 2 if 2 not in (d, l) else 1] = "d"
    return "".join(content)


def run(case, ctx):
    kind = case[0]
    if kind == "chain":
        _, kinds, sector, length, d, l, ext, shape, *position = case
        b = Builder(sector, ext)
        shapes = (shape * length)[:length] if len(shape) == 1 else shape
        if kinds.count("x") > 1:
            # every extended partition has its own chain
            pass
        state = {"i": 0}

        def children():
            i = state["i"] % length
            state["i"] += 1
            return ebr(shapes[i], d, l, i == length - 1)

        b.table(kinds, 0, 0, None, children)
        if position:
            base = position[0]
            fh = PatternFile(base + (1 << 30))
            fh.put(base, b.image())
            fh.seek(base)
            want = [(number, base + offset, *rest) for number, offset, *rest in b.want]
            ctx.eq(summary(MBR(fh, sector).partitions), want, "partitions")
            ctx.state((kinds, base, tuple(b.want)))
            return
        got = MBR(mem(b.image()), sector)
        ctx.eq(summary(got.partitions), b.want, "partitions")
        ctx.state((kinds, tuple(b.want)))
    elif kind == "tree":
        _, slot, content, below = case
        b = Builder(512, slot)
        primary = ["d"] * 4
        primary[slot] = "x"
        queue = [content] + [below] * content.count("x") + ["deee"] * 64

        def children():
            return queue.pop(0)

        # breadth does not matter: contents are handed out in walk order
        b.table("".join(primary), 0, 0, None, children)
        got = MBR(mem(b.image()))
        ctx.eq(summary(got.partitions), b.want, "partitions")
        ctx.state((slot, content, below))
    elif kind == "type":
        _, t, boot = case
        if t in e.EXTENDED:
            return
        entries = [e.mbr_entry(0x83, 1, 1), e.mbr_entry(t, 5, 6, boot), e.mbr_entry(0x07, 20, 7)]
        want = [(1, 512, 512, 0x83, 0), (2, 5 * 512, 6 * 512, t, boot), (3, 20 * 512, 7 * 512, 7, 0)]
        if t == 0:
            del want[1]
        got = MBR(mem(e.mbr_sector(entries) + bytes(512 * 40)))
        ctx.eq(summary(got.partitions), want, "partitions")
        ctx.outcome("empty" if t == 0 else "reported")
    elif kind == "boot":
        got = MBR(mem(e.mbr_sector([e.mbr_entry(7, 5, 6, case[1])]) + bytes(8192)))
        ctx.eq(got.partitions[0].flags, case[1], "flags")
    elif kind == "field":
        _, start, size, sector = case
        for slot in range(4):
            entries = [e.EMPTY_ENTRY] * 4
            entries[slot] = e.mbr_entry(0x83, start, size)
            got = MBR(mem(e.mbr_sector(entries)), sector)
            ctx.eq(summary(got.partitions), [(slot + 1, start * sector, size * sector, 0x83, 0)], "partitions")
    elif kind == "logical":
        _, base, link, start, size, sector = case
        second = base + link
        fh = PatternFile(1 << 50)
        fh.put(0, e.mbr_sector([e.mbr_entry(7, 1, 1), e.mbr_entry(0x0F, base, 1 << 20)]))
        # own position + start; the link counts from the extended partition
        fh.put(base * sector, e.mbr_sector([e.mbr_entry(0x83, start, size), e.mbr_entry(5, link, 9)]))
        if second * sector != base * sector:
            fh.put(second * sector, e.mbr_sector([e.mbr_entry(0x82, start, size, 0x80), e.mbr_entry(5, link + 1, 9)]))
        third = base + link + 1
        fh.put(third * sector, e.mbr_sector([e.mbr_entry(0x8E, start, size)]))
        want = [
            (1, sector, sector, 7, 0),
            (2, (base + start) * sector, size * sector, 0x83, 0),
            (3, (second + start) * sector, size * sector, 0x82, 0x80),
            (4, (third + start) * sector, size * sector, 0x8E, 0),
        ]
        ctx.eq(summary(MBR(fh, sector).partitions), want, "partitions")
    elif kind == "sig":
        ctx.raises(MBR, mem(e.mbr_sector([e.mbr_entry(7, 5, 6)], signature=case[1]) + bytes(4096)), what="signature")
    elif kind == "mark":
        _, mark, at = case
        code = (b"\xeb\x52\x90" + b"\x90" * 20)[:at] + MARKS[mark]
        fh = mem(e.mbr_sector([e.mbr_entry(7, 5, 6)], code=code) + bytes(4096))
        # the name of a file-system boot sector takes the bytes 3 to 10
        if any(m in code[3:11] for m in MARKS):
            ctx.raises(MBR, fh, what="file-system boot sector")
            ctx.outcome("refused")
        else:
            ctx.eq(summary(MBR(fh).partitions), [(1, 5 * 512, 6 * 512, 7, 0)], "partitions")
            ctx.outcome("boot code")
    elif kind == "nomark":
        code = (b"\x33\xc0" + b"\x90" * 0x1B8)[: case[1]] + b"FAT NTF"[: 0x1B8 - case[1]]
        got = MBR(mem(e.mbr_sector([e.mbr_entry(7, 5, 6)], code=code) + bytes(4096)))
        ctx.eq(summary(got.partitions), [(1, 5 * 512, 6 * 512, 7, 0)], "partitions")
    elif kind == "qnx":
        code = bytearray(b"\x90" * 0x1B8)
        if case[1]:
            code[168:174] = b"\r\nQNX "
        else:
            code[18:38] = b"Hit Esc for .altboot"
        ctx.raises(MBR, mem(e.mbr_sector([e.mbr_entry(7, 5, 6)], code=bytes(code)) + bytes(4096)), what="QNX boot sector")
    elif kind == "short":
        ctx.raises(MBR, mem(e.mbr_sector([])[: case[1]]), what="short sector")
