"""C02: RAID 0 volumes return striped data, including members of different size."""

from __future__ import annotations

from itertools import permutations, product

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from vlib.ref_raid import raid0_places
from vlib.src import PatternFile, check_edges, check_windows, mem, pattern

PROPERTY = "C02"
BOUNDS = (
    "member counts 1-4 (5 thorough), every vector of member sizes of 1-3 chunks (1-4 for up to 3 members), 3 patterns of "
    "member tails (none, about half, all but one byte of a chunk), each with its own member starts, chunks "
    "512/1024/1536/4096/8192 (12288 and 65536 with up to 3 members of 1-3 chunks), layout numbers 0/1/2/None; all supply "
    "orders up to 3 members (2 orders of 4); wide: every member count 5-32 in rotated order, members of 1-3 chunks; steps: "
    "4-12 members that all differ in size, in every rotation of rising and falling sizes; cut: 1-3 members of 1-3 chunks "
    "with every volume size at, next to and halfway between chunk boundaries; every "
    "pair of chunk boundaries (more than 6 members: among the first and last 12), every +-1 window at these boundaries; "
    "sparse sets with windows around 2^31..2^50"
)
ASSUMPTIONS = ["the dealing procedure in vlib/ref_raid.py (raid0.c create_strip_zones/map_sector) defines the layout"]

TAILS = ((0, 0, 0, 0, 0), (1, 0, 2, 1, 0), (2, 1, 0, 0, 2))


def cases(tier):
    thorough = tier == "thorough"
    chunks = (512, 1024, 1536, 4096, 8192, 12288, 65536)
    for n in range(1, 6 if thorough else 5):
        limit = 4 if n <= 3 else 3
        for sizes in product(range(1, limit + 1), repeat=n):
            for chunk, layout, tails in product(chunks, (0, 1, 2, None), range(3)):
                if chunk >= 12288 and (n > 3 or max(sizes) > 3):
                    continue
                yield ("zones", sizes, chunk, layout, tails, (tails + n) % 3)
    for n in range(1, 4):
        for sizes in product((1, 2, 3), repeat=n):
            for perm in permutations(range(n)):
                for layout in (1, 2):
                    yield ("order", sizes, 512, layout, 1, perm)
    for sizes in product((1, 2), repeat=4):
        for perm in ((3, 2, 1, 0), (2, 0, 3, 1)):
            yield ("order", sizes, 512, 2, 0, perm)
    # many members, two-digit member numbers
    for n in range(5, 33):
        for layout, shift in product((1, 2), (1, n // 2)):
            sizes = tuple(1 + (i % 3) for i in range(n))
            yield ("order", sizes, 512, layout, 1, tuple((i + shift) % n for i in reversed(range(n))))
    # as many zones as members
    for n in range(4, 13):
        for shift, layout, falling in product(range(n), (1, 2), (0, 1)):
            sizes = [1 + (i + shift) % n for i in range(n)]
            yield ("order", tuple(reversed(sizes) if falling else sizes), 512, layout, 1, tuple(range(n)))
    # volumes that end before their members do
    for n in range(1, 4):
        for sizes in product((1, 2, 3), repeat=n):
            for chunk, layout in product((512, 1536), (1, 2)):
                yield ("cut", sizes, chunk, layout)
    for n, chunk, start in product((1, 2, 3), (512, 1536, 65536), (0, 1)):
        yield ("far", n, chunk, start)
    for chunk, layout in product((512, 65536), (1, 2)):
        yield ("farzone", chunk, layout)


def tail_bytes(kind: int, chunk: int) -> int:
    return (0, chunk // 2 - 5, chunk - 1)[kind]


def starts(variant: int, i: int) -> tuple[int, int]:
    return ((0, 0), (512 * (2 * i + 1), 0), (8192 - 512 * i, 0))[variant]


def run(case, ctx):
    kind = case[0]
    if kind in ("zones", "order"):
        _, sizes, chunk, layout, tails, variant = case
        n = len(sizes)
        order = variant if kind == "order" else range(n)
        start = 1 if kind == "order" else variant
        byte_sizes = [s * chunk + tail_bytes(TAILS[tails][i % 5], chunk) for i, s in enumerate(sizes)]
        places = raid0_places(byte_sizes, chunk, layout == 1)
        members = [pattern(10 + i, 0, size) for i, size in enumerate(byte_sizes)]
        want = b"".join(members[dev][off : off + chunk] for dev, off in places)
        disk_map = {}
        for i in order:
            offset, data = starts(start, i)
            content = pattern(300 + i, 0, offset + data) + members[i] + pattern(400 + i, 0, 2 * chunk)
            disk_map[i] = (data, PhysicalDisk(mem(content), offset, byte_sizes[i]))
        vd = VirtualDisk("v", "u", len(want), 0, layout, chunk, n, disk_map)
        stream = vd.open()
        check_edges(ctx, stream, want)
        bounds = [k * chunk for k in range(len(places) + 1)]
        if n > 6:
            bounds = bounds[:12] + bounds[-12:]
        check_windows(ctx, stream, want, bounds)
        for b in bounds:
            check_windows(ctx, stream, want, (b - chunk - 1, b - 1, b, b + 1, b + chunk // 2), key=b)
        ctx.outcome(f"zones={len(set(sizes))}")
        return
    if kind == "cut":
        _, sizes, chunk, layout = case
        places = raid0_places([s * chunk for s in sizes], chunk, layout == 1)
        members = [pattern(10 + i, 0, s * chunk) for i, s in enumerate(sizes)]
        full = b"".join(members[dev][off : off + chunk] for dev, off in places)
        for edge in range(0, len(full) + 1, chunk):
            for size in (edge - 1, edge, edge + 1, edge + chunk // 2):
                if not 0 < size <= len(full):
                    continue
                disk_map = {i: (0, PhysicalDisk(mem(m), 0, len(m))) for i, m in enumerate(members)}
                stream = VirtualDisk("v", "u", size, 0, layout, chunk, len(sizes), disk_map).open()
                check_edges(ctx, stream, full[:size], key=size)
                check_windows(ctx, stream, full[:size], (0, edge - chunk, edge - 1, edge, size), key=size)
        return
    if kind == "far":
        # equal members of enormous size, with a start inside the member
        _, n, chunk, start = case
        top = (1 << 58) // chunk * chunk
        disk_map = {
            i: (1024 * start * (i + 1), PhysicalDisk(PatternFile(1 << 60, 50 + i), 512 * i, top)) for i in range(n)
        }
        vd = VirtualDisk("v", "u", top * n // 4, 0, 0, chunk, n, disk_map)
        stream = vd.open()
        for exp in (31, 32, 33, 40, 50):
            for base in ((1 << exp) // chunk, (1 << exp) * n // chunk):
                for k in range(base - 1, base + 2):
                    want = b""
                    for c in range(k - 1, k + 2):
                        row, dev = divmod(c, n)
                        want += pattern(50 + dev, 512 * dev + 1024 * start * (dev + 1) + row * chunk, chunk)
                    ctx.state((exp, k))
                    for a, b in ((0, 3 * chunk), (chunk - 1, chunk + 1), (chunk, 2 * chunk)):
                        stream.seek((k - 1) * chunk + a)
                        ctx.eq(stream.read(b - a), want[a:b], f"far window {k - 1} [{a}:{b}]")
        return
    # three zones of enormous members: windows around the zone edges
    _, chunk, layout = case
    sizes = [(1 << 45) // chunk * chunk + 7, (1 << 41) // chunk * chunk, (1 << 43) // chunk * chunk + chunk - 1]
    c = [s // chunk for s in sizes]
    disk_map = {i: (0, PhysicalDisk(PatternFile(1 << 60, 50 + i), 512 * i, sizes[i])) for i in range(3)}
    size = sum(c) * chunk
    vd = VirtualDisk("v", "u", size, 0, layout, chunk, 3, disk_map)
    stream = vd.open()
    z1, z2 = c[1] * 3, c[1] * 3 + (c[2] - c[1]) * 2

    def place(k):
        if k < z1:
            return k % 3, k // 3
        if k < z2:
            j = k - z1
            return (0, 2)[(k if layout == 1 else j) % 2], c[1] + j // 2
        return 0, c[2] + k - z2

    for base in (0, 1 << 20, z1 // 2, z1, z1 + 1000001, z2, z2 + 12345, sum(c)):
        for k in range(max(0, base - 3), min(sum(c), base + 4)):
            ctx.state(k)
            want = b""
            for x in range(k, min(k + 3, sum(c))):
                dev, row = place(x)
                want += pattern(50 + dev, 512 * dev + row * chunk, chunk)
            stream.seek(k * chunk)
            ctx.eq(stream.read(3 * chunk), want, f"zone window {k}")
            stream.seek(k * chunk + chunk - 1)
            ctx.eq(stream.read(2), want[chunk - 1 : chunk + 1], f"zone edge {k}")
