"""C14: BSD disklabel partitions (32 and 64 bit) are reported completely and exactly."""

from __future__ import annotations

from itertools import combinations, product

from dissect.volume.disk.schemes.bsd import BSD

from vlib import enc_disk as e
from vlib.src import mem

from checks.c12_gpt import guid_bytes, uuid_text

PROPERTY = "C14"
BOUNDS = (
    "both label kinds x 1-10 slots with every occupancy (sector size and start by occupancy); 8-22 slots with 4 occupancies "
    "x sector sizes 512/1024/2048/4096 x whole-device starts 0, 1, 63, 2^31, 2^32-200000; all 256 file-system types; size and offset boundary "
    "values up to 2^32-1 and 2^64-1; every way of being unused on every slot; every single-bit damage of either magic"
)
ASSUMPTIONS = [
    "the table has room for at least 8 (16) slots on disk, 32-bit slots in front of the whole-device slot's start "
    "are not part of the slice and not reported",
    "the label is in the second sector",
]

SECTORS = (512, 1024, 2048, 4096)
TYPE_NAMES = {
    1: "swap", 2: "Version 6", 3: "Version 7", 4: "System V", 5: "4.1BSD", 6: "Eighth Edition", 7: "4.2BSD", 8: "MSDOS",
    9: "4.4LFS", 10: "unknown", 11: "HPFS", 12: "ISO9660", 13: "boot", 14: "vinum", 15: "raid", 16: "Filecore",
    17: "EXT2FS", 18: "NTFS", 20: "ccd", 21: "jfs", 22: "HAMMER", 23: "HAMMER2", 24: "UDF", 26: "EFS", 27: "ZFS",
    30: "nandfs",
}  # fmt: skip


def cases(tier):
    top = 11
    for bits, n in product((32, 64), range(1, top)):
        for r in range(n + 1):
            for used in combinations(range(n), r):
                yield ("slots", bits, n, used, SECTORS[sum(used) % 4], (0, 63, 1)[len(used) % 3])
    for bits, n in product((32, 64), range(8, 23)):
        for used in (tuple(range(n)), (n - 1,), (0, 2, n - 1), (3,)):
            for sector in SECTORS:
                for raw in (0, 1, 63, 1 << 31, (1 << 32) - 200000):
                    yield ("slots", bits, n, used, sector, raw)
    for bits, kind in product((32, 64), range(256)):
        yield ("type", bits, kind)
    for size, offset in product((1, 2, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF), repeat=2):
        for raw in (0, 1, 0x7FFFFFFF):
            for sector in (512, 4096):
                yield ("field32", size, offset, raw, sector)
    big = (1, 512, 0xFFFFFFFF, 0x100000000, 1 << 40, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF)
    for size, offset in product(big, (0, *big)):
        yield ("field64", size, offset)
    for pos, v in product(range(16), (0, 1, 0x80, 0xFF)):
        yield ("uuid", pos, v)
    for bits, way, slot in product((32, 64), range(4), range(8)):
        yield ("unused", bits, way, slot)
    for size, offset in product((0, 1, 4096), (0, 1, 4096)):
        for slot in range(8):
            yield ("empty64", size, offset, slot)
    for bit in range(32):
        yield ("magic", 32, 0, bit)
        yield ("magic", 32, 1, bit)
        yield ("magic", 64, 0, bit)
    for sector in SECTORS:
        yield ("where", sector)
    for size in (0, 1, 511, 512, 514):
        yield ("short", size)


def summary(partitions):
    return [(p.number, p.offset, p.size, p.type, p.type_str, None if p.guid is None else str(p.guid)) for p in partitions]


def place(label, sector, tail=8192):
    return mem(b"\x11" * sector + label + b"\x22" * tail)


def run(case, ctx):
    globals()[f"run_{case[0]}"](ctx, *case[1:])


def run_slots(ctx, bits, n, used, sector, raw):
    parts = []
    want = []
    for i in range(n):
        kind = 7 if i % 2 else 27
        if bits == 32:
            if i == 2:
                # present in every real label; raw start
                parts.append((100000, raw, 0) if i in used or raw else (0, 0, 0))
            elif i in used:
                parts.append((10 + i, raw + 5 * i, kind))
                want.append((i + 1, 5 * i * sector, (10 + i) * sector, kind, TYPE_NAMES[kind], None))
            else:
                parts.append((0, 0, 0))
        else:
            uuid = guid_bytes(3, i)
            if i in used:
                parts.append((1000 + i, 4096 * i, kind, uuid))
                if i != 2:
                    want.append((i + 1, 4096 * i, 1000 + i, kind, TYPE_NAMES[kind], uuid_text(uuid)))
            else:
                parts.append((0, 0, 0, uuid))
    if bits == 32:
        if n < 3 and raw:
            # no whole-device slot within the count: nothing to be relative to
            parts = [(s, o - raw if s else 0, k) for s, o, k in parts]
        if n >= 8:
            parts.append((5, raw + 1, 7))  # behind the counted slots
        label = e.bsd32_label(parts, count=n)
    else:
        if n >= 3:
            parts.append((5, 1, 7, bytes(16)))
        label = e.bsd64_label(parts, count=n)
    ctx.eq(summary(BSD(place(label, sector), sector).partitions), want, "partitions")
    ctx.state((bits, n, used, sector, raw))


def run_type(ctx, bits, kind):
    if bits == 32:
        label = e.bsd32_label([(10, 5, kind), (0, 0, 0), (100, 0, 0), (20, 50, 7)])
        first = (1, 5 * 512, 10 * 512, kind, TYPE_NAMES.get(kind, "?"), None)
        other = (4, 50 * 512, 20 * 512, 7, "4.2BSD", None)
    else:
        a, b = guid_bytes(3, 1), guid_bytes(3, 2)
        label = e.bsd64_label([(10, 5, kind, a), (0, 0, 0, a), (0, 0, 0, a), (20, 50, 7, b)])
        first = (1, 5, 10, kind, TYPE_NAMES.get(kind, "?"), uuid_text(a))
        other = (4, 50, 20, 7, "4.2BSD", uuid_text(b))
    ctx.eq(summary(BSD(place(label, 512)).partitions), [first, other] if kind else [other], "partitions")


def run_field32(ctx, size, offset, raw, sector):
    if offset < raw:
        return
    label = e.bsd32_label([(1, raw, 1), (size, offset, 7), (100, raw, 0)])
    want = [(1, 0, sector, 1, "swap", None), (2, (offset - raw) * sector, size * sector, 7, "4.2BSD", None)]
    ctx.eq(summary(BSD(place(label, sector), sector).partitions), want, "partitions")


def run_field64(ctx, size, offset):
    a = guid_bytes(3, 9)
    label = e.bsd64_label([(1, 2, 1, a), (size, offset, 7, a)])
    want = [(1, 2, 1, 1, "swap", uuid_text(a)), (2, offset, size, 7, "4.2BSD", uuid_text(a))]
    for sector in (512, 4096):
        ctx.eq(summary(BSD(place(label, sector), sector).partitions), want, "partitions")


def run_uuid(ctx, pos, v):
    raw = bytearray(guid_bytes(4, 4))
    raw[pos] = v
    label = e.bsd64_label([(10, 20, 7, bytes(raw))])
    ctx.eq(str(BSD(place(label, 512)).partitions[0].guid), uuid_text(bytes(raw)), "storage identifier")


def run_unused(ctx, bits, way, slot):
    if bits == 32:
        # unused, or in front of the whole device
        unused = ((0, 0, 0), (0, 5, 7), (10, 5, 0), (10, 62, 7))[way]
        parts = [(10, 63 + 8 * i, 7) for i in range(8)]
        parts[2] = (100, 63, 0)
        parts[slot] = unused if slot != 2 else (100, 63, 7)
        label = e.bsd32_label(parts)
        want = [(i + 1, 8 * i * 512, 5120, 7, "4.2BSD", None) for i in range(8) if i not in (2, slot)]
    else:
        a = guid_bytes(3, 3)
        unused = ((0, 0, 0, a), (0, 0, 7, a), (10, 5, 0, a), (0, 5, 0, a))[way]
        parts = [(10, 8 * i + 1, 7, a) for i in range(8)]
        parts[slot] = unused if slot != 2 else parts[2]
        label = e.bsd64_label(parts)
        want = [(i + 1, 8 * i + 1, 10, 7, "4.2BSD", uuid_text(a)) for i in range(8) if i not in (2, slot)]
    ctx.eq(summary(BSD(place(label, 512)).partitions), want, "partitions")


def run_empty64(ctx, size, offset, slot):
    """A 64-bit slot is unused when both its offset and its size are zero."""
    a = guid_bytes(3, 3)
    parts = [(10, 8 * i + 1, 7, a) for i in range(8)]
    parts[slot] = (size, offset, 7, a)
    want = [(i + 1, p[1], p[0], 7, "4.2BSD", uuid_text(a)) for i, p in enumerate(parts) if i != 2 and (p[0] or p[1])]
    ctx.eq(summary(BSD(place(e.bsd64_label(parts), 512)).partitions), want, "partitions")


def run_magic(ctx, bits, which, bit):
    if bits == 32:
        kw = {"magic2" if which else "magic": e.BSD_MAGIC ^ (1 << bit)}
        label = e.bsd32_label([(10, 5, 7)], **kw)
    else:
        label = e.bsd64_label([(10, 5, 7, bytes(16))], magic=e.BSD_MAGIC64 ^ (1 << bit))
    ctx.raises(BSD, place(label, 512), what="magic")


def run_where(ctx, sector):
    # a label anywhere but in the second sector is none
    label = e.bsd32_label([(10, 5, 7), (0, 0, 0), (9, 0, 0)])
    for other in (0, *SECTORS):
        fh = mem(b"\x11" * other + label + b"\x22" * 16384)
        if other == sector:
            ctx.eq(len(BSD(fh, sector).partitions), 1, "partitions")
        else:
            ctx.raises(BSD, fh, sector, what="label in the wrong place")


def run_short(ctx, size):
    ctx.raises(BSD, mem((b"\x11" * 512 + e.bsd32_label([(10, 5, 7)]))[:size]), what="short label")
