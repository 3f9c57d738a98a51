"""C04: linear and mirrored volumes return concatenated and mirrored data."""

from __future__ import annotations

from itertools import combinations, permutations, product

from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from vlib.src import PatternFile, check_edges, check_windows, mem, pattern

PROPERTY = "C04"
BOUNDS = (
    "linear: 1-3 members, every size vector over {512, 1024, 1536, 700, 8192, 9001} and every supply order, 4 members "
    "over {512, 1536, 9001} in 3 orders, 2 start variants; the same size vectors of 1-3 members with chunks of 512, 1024 and "
    "4096; 5-40 members of different sizes in 2 orders; sparse members up "
    "to 2^45 bytes; mirror: 1-4 members, every subset present in every order, 5-12 members with each as the only one; data "
    "starts 0..8192 within and on the member, volume sizes equal to and below the data area; every level number -10..20"
)
ASSUMPTIONS = ["a mirror may expose the rest of the member's data area behind the volume size"]

SUPPORTED = (-1, 0, 1, 4, 5, 6, 10)


def cases(tier):
    alphabet = (512, 1024, 1536, 700, 8192, 9001)
    for n in range(1, 5):
        for sizes in product(alphabet if n < 4 else (512, 1536, 9001), repeat=n):
            for perm in permutations(range(n)) if n < 4 else ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)):
                for start in (0, 1):
                    yield ("linear", sizes, perm, start)
    for n in range(1, 4):
        for sizes, chunk in product(product(alphabet, repeat=n), (512, 1024, 4096)):
            if any(s >= chunk for s in sizes):
                yield ("linear", sizes, tuple(range(n)), 1, chunk)
    for n in range(5, 41):
        for shift in (1, n // 2):
            yield ("linear", tuple(512 + 64 * i for i in range(n)), tuple((i + shift) % n for i in reversed(range(n))), 1)
    for perm in permutations(range(3)):
        yield ("linearfar", perm)
    for n in range(1, 5):
        for r in range(1, n + 1):
            for subset in combinations(range(n), r):
                for perm in permutations(subset):
                    for start, size in product(range(5), (4096, 20480, 20480 - 1, 512)):
                        yield ("mirror", n, perm, start, size)
    for n in range(5, 13):
        for i in range(n):
            yield ("mirror", n, (i,), 2, 20480)
    for perm in permutations(range(2)):
        yield ("mirrorfar", perm)
    for level in range(-10, 21):
        if level not in SUPPORTED:
            for layout in (0, 2, None):
                yield ("level", level, layout)


def mirror_start(variant, i):
    """(device offset of the data area, start of the volume data within it)."""
    return ((0, 0), (512 * (i + 1), 0), (0, 512 * (2 * i + 1)), (1024, 8192 - 512 * i), (4096 - 512 * i, 1024))[variant]


def run(case, ctx):
    kind = case[0]
    if kind == "linear":
        _, sizes, perm, start, *chunk = case
        chunk = chunk[0] if chunk else 0
        disk_map = {}
        for i in perm:
            offset = 512 * (2 * i + 1) if start else 0
            content = pattern(300 + i, 0, offset) + pattern(10 + i, 0, sizes[i]) + pattern(400 + i, 0, 999)
            disk_map[i] = (0, PhysicalDisk(mem(content), offset, sizes[i]))
        if chunk:
            # only whole chunks of a member are used
            sizes = [s // chunk * chunk for s in sizes]
        want = b"".join(pattern(10 + i, 0, s) for i, s in enumerate(sizes))
        stream = VirtualDisk("v", "u", len(want), -1, 0, chunk, len(disk_map), disk_map).open()
        check_edges(ctx, stream, want)
        bounds = [0]
        for s in sizes:
            bounds.append(bounds[-1] + s)
        points = {p + d for p in bounds for d in (-1, 0, 1)} | set(range(0, len(want), 512 if len(want) < 9000 else 4096))
        check_windows(ctx, stream, want, points)
    elif kind == "linearfar":
        sizes = ((1 << 45) + 512, (1 << 41) + 1536, (1 << 32) + 4096)
        disk_map = {i: (0, PhysicalDisk(PatternFile(1 << 50, 50 + i), 512 * i, sizes[i])) for i in case[1]}
        stream = VirtualDisk("v", "u", sum(sizes), -1, 0, 0, 3, disk_map).open()
        ctx.eq(stream.size, sum(sizes), "size")
        base = 0
        for i, s in enumerate(sizes):
            for off in (0, 1 << 31, (1 << 32) - 1, s - 4096):
                ctx.state((i, off))
                stream.seek(base + off)
                ctx.eq(stream.read(1000), pattern(50 + i, 512 * i + off, 1000), f"member {i} at {off}")
            base += s
            if i < 2:
                stream.seek(base - 10)
                ctx.eq(
                    stream.read(20),
                    pattern(50 + i, 512 * i + s - 10, 10) + pattern(51 + i, 512 * (i + 1), 10),
                    f"boundary {i}",
                )
    elif kind == "mirror":
        _, n, perm, start, size = case
        volume = pattern(1, 0, 20480)
        disk_map = {}
        for i in perm:
            offset, data = mirror_start(start, i)
            content = pattern(300 + i, 0, offset + data) + volume + pattern(400 + i, 0, 3000)
            disk_map[i] = (data, PhysicalDisk(mem(content), offset, data + 20480))
        stream = VirtualDisk("v", "u", size, 1, 0, 0, n, disk_map).open()
        want = volume[:size]
        points = {p + d for p in (0, 512, 4096, 8192, 16384, size) for d in (-1, 0, 1)}
        check_windows(ctx, stream, want, points)
        stream.seek(0)
        ctx.eq(stream.read(size), want, "whole volume")
        stream.seek(0)
        ctx.true(stream.read().startswith(want), "read() returns at least the volume")
    elif kind == "mirrorfar":
        disk_map = {i: (1 << 33, PhysicalDisk(PatternFile(1 << 60, 7), 1 << 41, 1 << 59)) for i in case[1]}
        stream = VirtualDisk("v", "u", 1 << 50, 1, 0, 0, 2, disk_map).open()
        for off in (0, 1 << 31, 1 << 32, 1 << 45, (1 << 50) - 1000):
            stream.seek(off)
            ctx.eq(stream.read(1000), pattern(7, (1 << 41) + (1 << 33) + off, 1000), f"at {off}")
    else:
        _, level, layout = case
        disk_map = {i: (0, PhysicalDisk(mem(pattern(i, 0, 8192)), 0, 8192)) for i in range(4)}
        vd = VirtualDisk("v", "u", 8192, level, layout, 512, 4, disk_map)
        ctx.raises(vd.open, what=f"level {level}")
