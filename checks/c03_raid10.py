"""C03: RAID 10 volumes return the right data for near, far and offset layouts."""

from __future__ import annotations

from itertools import product

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from vlib.ref_raid import raid10_places
from vlib.src import PatternFile, check_edges, check_windows, mem, pattern

PROPERTY = "C03"
BOUNDS = (
    "near 1-4 x far 1-4 x offset flag x far-set variants 0-2 x members 2-6 (8 thorough), every geometry whose copies "
    "do not collide; member sizes of 6 and 8 (thorough 5-12) chunks; chunks 512/1536 with 3 start variants and 4096 with "
    "one; 2 map orders; every pair of chunk boundaries (every third in the second order) and +-1 windows; wide: members "
    "7-32 x near 1-3 x far 1-3 x offset flag x far-set variants 0-2, members of 12 chunks, every chunk and chunk edge; "
    "cut: every geometry of the first group with volume sizes at, next to and halfway between the last 4 chunk boundaries; "
    "sparse sets around 2^31..2^50; far-set variants 3..16 refused"
)
ASSUMPTIONS = [
    "raid10.c __raid10_find_phys defines the placement of copies; geometries in which two copies collide do not exist"
]


def geometries(thorough):
    for n, near, far, offset, sets in product(range(2, 9 if thorough else 7), range(1, 5), range(1, 5), (0, 1), (0, 1, 2)):
        if near * far > n:
            continue
        if far == 1 and offset:
            continue
        layout = near | far << 8 | offset << 16 | sets << 17
        yield n, layout


def cases(tier):
    thorough = tier == "thorough"
    for n, layout in geometries(thorough):
        for dev_chunks in range(5, 13) if thorough else (6, 8):
            if raid10_places(layout, n, dev_chunks) is None:
                continue
            for chunk, start, order in product((512, 1536, 4096), (0, 1, 2), (0, 1)):
                if chunk == 4096 and start != 2:
                    continue
                yield ("full", n, layout, dev_chunks, chunk, start, order)
    for n, near, far, offset, sets in product(range(7, 33), (1, 2, 3), (1, 2, 3), (0, 1), (0, 1, 2)):
        layout = near | far << 8 | offset << 16 | sets << 17
        if (far > 1 or not offset) and raid10_places(layout, n, 12) is not None:
            yield ("full", n, layout, 12, 512, 1, 2)
    for n, layout in geometries(thorough):
        if raid10_places(layout, n, 6) is not None:
            for chunk in (512, 1536):
                yield ("cut", n, layout, chunk)
    for n, layout in geometries(thorough):
        for chunk in (512, 65536):
            yield ("far", n, layout, chunk)
    for sets in range(3, 17):
        for n in (2, 4):
            yield ("undefined", n, 2 | 1 << 8 | sets << 17)
            yield ("undefined", n, 1 | 2 << 8 | 1 << 16 | sets << 17)


def starts(variant: int, i: int) -> tuple[int, int]:
    return ((0, 0), (512 * (2 * i + 1), 0), (2048 - 512 * (i % 4), 1024 * ((i + 1) % 3)))[variant]


def run(case, ctx):
    if case[0] == "full":
        _, n, layout, dev_chunks, chunk, start, order = case
        places = raid10_places(layout, n, dev_chunks)
        want = pattern(1, 0, len(places) * chunk)
        members = [bytearray(pattern(500 + i, 0, dev_chunks * chunk)) for i in range(n)]
        for k, copies in enumerate(places):
            for dev, row in copies:
                members[dev][row * chunk : (row + 1) * chunk] = want[k * chunk : (k + 1) * chunk]
        disk_map = {}
        for i in reversed(range(n)) if order else range(n):
            offset, data = starts(start, i)
            content = pattern(300 + i, 0, offset + data) + bytes(members[i]) + pattern(400 + i, 0, chunk)
            disk_map[i] = (data, PhysicalDisk(mem(content), offset, data + dev_chunks * chunk))
        vd = VirtualDisk("v", "u", len(want), 10, layout, chunk, n, disk_map)
        stream = vd.open()
        check_edges(ctx, stream, want)
        bounds = [k * chunk for k in range(len(places) + 1)]
        if order == 2:
            for b in bounds:
                check_windows(ctx, stream, want, (b - 1, b + 1, b + chunk), key=b)
            return
        if order:
            bounds = bounds[::3] + bounds[-2:]
        check_windows(ctx, stream, want, bounds)
        for b in bounds:
            check_windows(ctx, stream, want, (b - chunk - 1, b - 1, b, b + 1, b + chunk // 2), key=b)
        return
    if case[0] == "cut":
        # volumes that end before their members do
        _, n, layout, chunk = case
        places = raid10_places(layout, n, 6)
        full = pattern(1, 0, len(places) * chunk)
        members = [bytearray(pattern(500 + i, 0, 6 * chunk)) for i in range(n)]
        for k, copies in enumerate(places):
            for dev, row in copies:
                members[dev][row * chunk : (row + 1) * chunk] = full[k * chunk : (k + 1) * chunk]
        for edge in range(max(0, len(full) - 4 * chunk), len(full) + 1, chunk):
            for size in (edge - 1, edge, edge + 1, edge + chunk // 2):
                if not 0 < size <= len(full):
                    continue
                disk_map = {i: (0, PhysicalDisk(mem(bytes(m)), 0, len(m))) for i, m in enumerate(members)}
                stream = VirtualDisk("v", "u", size, 10, layout, chunk, n, disk_map).open()
                check_edges(ctx, stream, full[:size], key=size)
                check_windows(ctx, stream, full[:size], (0, edge - chunk, edge - 1, edge, size), key=size)
        return
    if case[0] == "far":
        _, n, layout, chunk = case
        near, far, offset = layout & 0xFF, layout >> 8 & 0xFF, layout >> 16 & 1
        top = 1 << 60
        # members hold the first copy only at the place the geometry gives it
        disk_map = {i: (2048 * (i + 1), PhysicalDisk(PatternFile(top, 50 + i), 512 * i, top)) for i in range(n)}
        vd = VirtualDisk("v", "u", top // 8, 10, layout, chunk, n, disk_map)
        if near * far != 1 and (near > 1 or far > 1):
            # with unwritten copies only the primary copy is known, so restrict to single-copy reads
            pass
        stream = vd.open()
        for exp in (31, 32, 33, 40, 50):
            base = (1 << exp) // chunk
            for k in range(base - 2, base + 3):
                allowed = []
                for c in range(k, k + 2):
                    allowed.append({pattern(50 + d, 512 * d + 2048 * (d + 1) + r * chunk, chunk) for d, r in copies_of(layout, n, c, offset)})
                ctx.state((exp, k))
                stream.seek(k * chunk)
                got = stream.read(2 * chunk)
                ctx.step()
                if len(got) != 2 * chunk or got[:chunk] not in allowed[0] or got[chunk:] not in allowed[1]:
                    ctx.fail(f"far chunks {k},{k + 1}: {got[:32]!r}/{got[chunk:chunk + 32]!r} is no copy of them")
        return
    _, n, layout = case
    disk_map = {i: (0, PhysicalDisk(mem(pattern(i, 0, 8192)), 0, 8192)) for i in range(n)}
    vd = VirtualDisk("v", "u", 8192, 10, layout, 512, n, disk_map)

    def use():
        return vd.open().read(512)

    ctx.raises(use, what=f"undefined far-set variant {layout:#x}")


def copies_of(layout, n, k, offset):
    """Near copies of a chunk (far copies depend on the member size and are not needed here)."""
    near, far = layout & 0xFF, layout >> 8 & 0xFF
    row, dev = divmod(k * near, n)
    if offset:
        row *= far
    for _ in range(near):
        yield dev, row
        dev += 1
        if dev == n:
            dev = 0
            row += 1
