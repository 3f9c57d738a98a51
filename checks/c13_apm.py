"""C13: Apple partition map entries are reported completely and exactly."""

from __future__ import annotations

from itertools import product

from dissect.volume.disk.schemes.apm import APM

from vlib import enc_disk as e
from vlib.src import mem

PROPERTY = "C13"
BOUNDS = (
    "maps of 1-64, 200, 1000 and 5000 entries at the start or behind a driver descriptor of block size 512, 1024, "
    "2048, 4096, 8192, 32768, 65024 x sector sizes 512/1024/2048/4096; start and size boundary values up to 2^32-1; "
    "names and types of every length 0-32, ASCII, multi-byte, with leading and trailing blanks; every single-bit damage of the map signature"
)
ASSUMPTIONS = ["map entries are 512 bytes apart", "names and types are padded with zero bytes"]

U32 = (0, 1, 63, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF)
BLOCKS = (0, 512, 1024, 2048, 4096, 8192, 32768, 65024)


def cases(tier):
    for n in [*range(1, 65), 200, 1000, 5000]:
        for block, sector in product(BLOCKS, (512, 1024, 2048, 4096)):
            yield ("map", n, block, sector)
    for start, size in product(U32, repeat=2):
        for sector in (512, 2048, 4096):
            yield ("field", start, size, sector)
    for n in range(33):
        for alphabet in range(4):
            yield ("name", n, alphabet)
    for block in BLOCKS:
        for bit in range(16):
            yield ("sig", block, bit)
    for size in (0, 1, 100, 511):
        yield ("short", size)


def build(entries, block):
    head = b""
    if block:
        head = e.apm_driver_block(block).ljust(block, b"\x5a")
    return head + b"".join(entries)


def summary(partitions):
    return [(p.number, p.offset, p.size, p.type, p.name) for p in partitions]


def run(case, ctx):
    kind = case[0]
    if kind == "map":
        _, n, block, sector = case
        entries = []
        want = []
        for i in range(n):
            name, typ = f"part {i}", ("Apple_HFS", "Apple_partition_map", "Apple_Free")[i % 3]
            start, size = 64 + 100 * i, 7 + 3 * i
            entries.append(e.apm_entry(n, start, size, name.encode(), typ.encode()))
            want.append((i + 1, start * sector, size * sector, typ, name))
        # looks like one more entry, but is not part of the map
        entries.append(e.apm_entry(n, 1, 1, b"stray", b"Apple_HFS"))
        ctx.eq(summary(APM(mem(build(entries, block)), sector).partitions), want, "partitions")
        ctx.state(case)
    elif kind == "field":
        _, start, size, sector = case
        for at in range(3):
            entries = [e.apm_entry(3, 1, 2, b"a", b"t") for _ in range(3)]
            want = [(i + 1, sector, 2 * sector, "t", "a") for i in range(3)]
            entries[at] = e.apm_entry(3, start, size, b"b", b"u")
            want[at] = (at + 1, start * sector, size * sector, "u", "b")
            ctx.eq(summary(APM(mem(build(entries, 512)), sector).partitions), want, "partitions")
    elif kind == "name":
        _, n, alphabet = case
        text = (
            "abcdefghijklmnopqrstuvwxyz012345"[:n],
            "é" * (n // 2) + "x" * (n % 2),
            # blanks and control characters are part of a name
            (" a b\t\n" * 8)[:n],
            ("x" * 40)[: max(n - 2, 0)] + "  "[: min(n, 2)],
        )[alphabet]
        other = "Z" * (32 - n)
        entries = [e.apm_entry(2, 1, 2, text.encode(), other.encode()), e.apm_entry(2, 3, 4, other.encode(), text.encode())]
        want = [(1, 512, 1024, other, text), (2, 1536, 2048, text, other)]
        ctx.eq(summary(APM(mem(build(entries, 512))).partitions), want, "partitions")
    elif kind == "sig":
        _, block, bit = case
        sig = (0x504D ^ (1 << bit)).to_bytes(2, "big")
        ctx.raises(APM, mem(build([e.apm_entry(1, 1, 2, b"a", b"t", signature=sig)] * 2, block)), what="map signature")
    elif kind == "short":
        ctx.raises(APM, mem(e.apm_entry(1, 1, 2, b"a", b"t")[: case[1]]), what="short map")
