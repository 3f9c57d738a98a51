"""C01: parity RAID volumes return the bytes their layout places there."""

from __future__ import annotations

from itertools import product

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from vlib.ref_raid import (
    LEVEL5_LAYOUTS,
    LEVEL6_LAYOUTS,
    parity_data_disks,
    parity_locate,
    parity_scatter,
)
from vlib.src import PatternFile, check_edges, check_windows, mem, pattern

PROPERTY = "C01"
BOUNDS = (
    "levels 4, 5 and 6 with every defined layout; members 3-6 (level 4), 2-7 (level 5), 4-8 (level 6), one more each in "
    "thorough; chunks 512/1024/1536, and 4096 with up to 5 members and one start variant (thorough: 4096, 2560, 8192 "
    "throughout, 65536 with up to 4 members); 3 member-start variants; 2 map orders; volume sizes full and cut inside a "
    "chunk; every pair of chunk boundaries over two parity rotations plus a row (cut or reordered sets: every boundary "
    "with windows of a chunk, a row and the rest); every +-1/+-half-chunk window around every boundary; wide: every "
    "member count up to 32 with chunks of 512 over a rotation and two rows, every chunk and every chunk edge; big: "
    "chunks of 64 KiB and 1 MiB with 4 and 5 members; sparse members with windows around chunk numbers 2^22..2^50; all "
    "undefined layout numbers 0..32 of levels 5 and 6"
)
ASSUMPTIONS = [
    "row pictures in vlib/ref_raid.py (raid5.c comments, SNIA DDF) define the layouts",
    "members are complete; missing members are C06",
]

COMBOS = [(4, 0)] + [(5, x) for x in LEVEL5_LAYOUTS] + [(6, x) for x in LEVEL6_LAYOUTS]


def member_range(level: int, thorough: bool) -> range:
    lo = {4: 3, 5: 2, 6: 4}[level]
    hi = {4: 6, 5: 7, 6: 8}[level]
    return range(lo, hi + (2 if thorough else 1))


def cases(tier):
    thorough = tier == "thorough"
    chunks = (512, 1024, 1536, 4096) + ((2560, 8192, 65536) if thorough else ())
    for (level, layout), start, order in product(COMBOS, (0, 1, 2), (0, 1)):
        for n in member_range(level, thorough):
            for chunk in chunks:
                if chunk >= 4096 and (n > 5 or start != 1) and not thorough:
                    continue
                if chunk == 65536 and n > 4:
                    continue
                for cut in (0, 1):
                    yield ("full", level, layout, n, chunk, start, order, cut)
    for level, layout in COMBOS:
        for n in range(member_range(level, False).stop, 33):
            yield ("wide", level, layout, n, 512, n + 2)
        for n, chunk in product((4, 5), (1 << 16, 1 << 20)):
            yield ("wide", level, layout, n, chunk, n + 2)
    for (level, layout), n, chunk in product(COMBOS, (4, 5, 7), (512, 65536, 1536)):
        yield ("far", level, layout, n, chunk)
    for level, defined in ((5, LEVEL5_LAYOUTS), (6, LEVEL6_LAYOUTS)):
        for layout in range(33):
            if layout not in defined:
                for n in (4, 5):
                    yield ("undefined", level, layout, n)


def layout_starts(variant: int, i: int) -> tuple[int, int]:
    """(offset of the data area on the device, start of the volume data within it) of member i."""
    if variant == 0:
        return 0, 0
    if variant == 1:
        return 512 * (3 * i + 1), 0
    return 4096 - 512 * i, 1536 * ((i + 1) % 3) + 512


def run(case, ctx):
    if case[0] == "full":
        return run_full(case, ctx)
    if case[0] == "wide":
        return run_wide(case, ctx)
    if case[0] == "far":
        return run_far(case, ctx)
    return run_undefined(case, ctx)


def run_full(case, ctx):
    _, level, layout, n, chunk, start, order, cut = case
    dd = parity_data_disks(level, n)
    rows = 2 * n + 1 if chunk < 8192 else n + 1
    volume = pattern(1, 0, dd * rows * chunk)
    members = parity_scatter(level, layout, n, chunk, rows, volume)
    disk_map = {}
    for i in range(n):
        offset, data = layout_starts(start, i)
        content = pattern(100 + i, 0, offset + data) + bytes(members[i]) + pattern(200 + i, 0, 700)
        disk_map[i] = (data, PhysicalDisk(mem(content), offset, data + len(members[i])))
    if order:
        disk_map = dict(reversed(disk_map.items()))
    size = len(volume) - (chunk + chunk // 2 + 7 if cut else 0)
    want = volume[:size]
    vd = VirtualDisk("v", "u", size, level, layout, chunk, n, disk_map)
    stream = vd.open()
    check_edges(ctx, stream, want)
    bounds = [k * chunk for k in range(dd * rows + 1)] + [size]
    if cut or order:
        # every boundary, but only windows up to one row long, plus everything up to the end
        for a in bounds:
            check_windows(ctx, stream, want, (a, a + chunk, a + dd * chunk, size), key=a)
    else:
        check_windows(ctx, stream, want, bounds)
    half = chunk // 2
    for b in bounds:
        check_windows(ctx, stream, want, (b - chunk - 1, b - half, b - 1, b, b + 1, b + half, b + chunk + 1), key=b)


def run_wide(case, ctx):
    """Many members or big chunks: every chunk and every chunk edge."""
    _, level, layout, n, chunk, rows = case
    dd = parity_data_disks(level, n)
    disk_map = {}
    for i in reversed(range(n)):
        offset, data = 512 * (3 * i + 1), 1024 * (i % 3)
        disk_map[i] = (data, PhysicalDisk(PatternFile(1 << 40, 50 + i), offset, data + rows * chunk))

    want = []
    for k in range(dd * rows):
        dev, row = parity_locate(level, layout, n, k)
        want.append(pattern(50 + dev, 512 * (3 * dev + 1) + 1024 * (dev % 3) + row * chunk, chunk))

    stream = VirtualDisk("v", "u", dd * rows * chunk, level, layout, chunk, n, disk_map).open()
    for k, data in enumerate(want):
        ctx.state(k)
        stream.seek(k * chunk)
        ctx.eq(stream.read(chunk), data, f"chunk {k}")
        if k:
            stream.seek(k * chunk - 300)
            ctx.eq(stream.read(512), want[k - 1][-300:] + data[:212], f"edge {k}")
    stream.seek(0)
    ctx.eq(stream.read(), b"".join(want), "whole volume")


def run_far(case, ctx):
    _, level, layout, n, chunk = case
    dd = parity_data_disks(level, n)
    disk_map = {}
    top = 1 << 62
    for i in range(n):
        disk_map[i] = (2048 * (i + 1), PhysicalDisk(PatternFile(top, 50 + i), 512 * i, top - 4096))
    vd = VirtualDisk("v", "u", top, level, layout, chunk, n, disk_map)
    stream = vd.open()
    for exp in (22, 23, 31, 32, 33, 40, 50):
        for base in ((1 << exp), (1 << exp) // chunk, (1 << exp) * dd // chunk):
            for k in range(max(1, base - 2), base + 3):
                if (k + 4) * chunk > top // 4:
                    continue
                ctx.state((exp, k))
                want = b""
                for c in range(k - 1, k + 3):
                    dev, row = parity_locate(level, layout, n, c)
                    want += pattern(50 + dev, 512 * dev + 2048 * (dev + 1) + row * chunk, chunk)
                start = (k - 1) * chunk
                for a, b in ((chunk - 1, chunk + 1), (0, 4 * chunk), (chunk, 2 * chunk), (chunk // 2, 3 * chunk + 1)):
                    stream.seek(start + a)
                    ctx.eq(stream.read(b - a), want[a:b], f"far window chunk {k - 1} [{a}:{b}]")


def run_undefined(case, ctx):
    _, level, layout, n = case
    disk_map = {i: (0, PhysicalDisk(mem(pattern(i, 0, 8192)), 0, 8192)) for i in range(n)}
    vd = VirtualDisk("v", "u", 8192 * parity_data_disks(level, n), level, layout, 512, n, disk_map)
    for a, ln in ((0, 1), (0, 512), (513, 1024), (0, -1)):

        def use(a=a, ln=ln):
            fh = vd.open()
            fh.seek(a)
            return fh.read(ln)

        ctx.raises(use, what=f"undefined layout {layout} of level {level}")
