"""C06: sets with missing members never return wrong bytes."""

from __future__ import annotations

from itertools import combinations, product

from dissect.volume.ddf.ddf import DDF
from dissect.volume.md.md import MD
from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

from vlib.ref_raid import (
    LEVEL5_LAYOUTS,
    LEVEL6_LAYOUTS,
    parity_data_disks,
    parity_locate,
    parity_scatter,
    raid0_places,
    raid10_places,
)
from vlib.src import mem, pattern

from checks import c08_md_assembly as md_sets
from checks import c10_ddf_data as ddf_volumes

PROPERTY = "C06"
BOUNDS = (
    "levels linear, 0 and 1 (1-5 members, three size vectors or two starts), 4 and 5 (3-6 members, 7 thorough, every "
    "layout), 6 (4-6, every layout), 10 (2-6, near 1-3 x far 1-3 x offset x far sets); every subset of missing members, "
    "including all; wide: levels 4, 5, 6 with 7-12 and 10 with 7-12 members, every one or two missing; every chunk alone, "
    "every pair of neighbouring chunks, a whole-volume read, and on one stream every ordered pair of the first 8 chunks (read after a "
    "failed read); the same for MD sets of 2-4 members in all four metadata versions and DDF sets of 1-9 members (7 and "
    "more: up to two missing, all subsets thorough) assembled from the devices left"
)
ASSUMPTIONS = ["parity blocks on the images are correct, so reconstruction would be accepted as correct data"]

CHUNK = 512


def cases(tier):
    top = 8 if tier == "thorough" else 7
    combos = [(4, 0, 3)] + [(5, x, 3) for x in LEVEL5_LAYOUTS] + [(6, x, 4) for x in LEVEL6_LAYOUTS]
    for level, layout, lo in combos:
        for n in range(lo, top):
            for missing in subsets(n):
                for order in (0, 1):
                    yield ("parity", level, layout, n, missing, order)
        for n in range(7, 13):
            for missing in subsets(n):
                if 0 < len(missing) <= 2 and n >= top:
                    yield ("parity", level, layout, n, missing, 0)
    for n, layout in product(range(7, 13), (0x102, 0x103, 0x201, 0x202, 0x10201, 0x10202)):
        for missing in subsets(n):
            if 0 < len(missing) <= 2 and raid10_places(layout, n, 6) is not None:
                yield ("raid10", n, layout, missing)
    for n in range(1, 6):
        for missing in subsets(n):
            for sizes in (0, 1, 2):
                yield ("stripe", 0, n, missing, sizes)
                yield ("stripe", -1, n, missing, sizes)
            for start in (0, 1):
                yield ("mirror", n, missing, start)
    for n, near, far, offset, sets in product(range(2, 7), (1, 2, 3), (1, 2, 3), (0, 1), (0, 1, 2)):
        if near * far > n or (far == 1 and offset):
            continue
        layout = near | far << 8 | offset << 16 | sets << 17
        if raid10_places(layout, n, 6) is None:
            continue
        for missing in subsets(n):
            yield ("raid10", n, layout, missing)
    for version, geo in product(("0.90", "1.0", "1.1", "1.2"), range(len(md_sets.GEOMETRIES))):
        n = md_sets.GEOMETRIES[geo][2]
        for missing in subsets(n):
            if len(missing) < n:
                for reverse in (0, 1):
                    yield ("md", version, geo, missing, reverse)
    for geo, (_, _, _, primary, secondary) in enumerate(ddf_volumes.SUPPORTED):
        n = primary * secondary
        for missing in subsets(n):
            if len(missing) < n and (n < 7 or len(missing) < 3 or tier == "thorough"):
                for reverse in (0, 1):
                    yield ("ddf", geo, missing, reverse)


def subsets(n):
    for r in range(n + 1):
        yield from combinations(range(n), r)


def make(level, layout, n, members, missing, size, reverse=False):
    disk_map = {}
    for i in reversed(range(n)) if reverse else range(n):
        if i in missing:
            continue
        offset = 512 * (i + 1)
        content = pattern(300 + i, 0, offset) + bytes(members[i]) + pattern(400 + i, 0, 1024)
        disk_map[i] = (0, PhysicalDisk(mem(content), offset, len(members[i])))
    return VirtualDisk("v", "u", size, level, layout, CHUNK, n, disk_map)


def probe(ctx, vd, want, present, chunk=CHUNK):
    """Read everything in several ways. ``present(k)``: chunk k must be readable (None: unknown)."""
    ok, stream = ctx.call(vd.open)
    if not ok:
        return False
    count = len(want) // chunk

    def attempt(fh, a, b, must):
        def use():
            fh.seek(a)
            return fh.read(b - a)

        ok, got = ctx.call(use)
        if ok:
            ctx.eq(got, want[a:b], f"[{a}:{b}]")
        elif must:
            ctx.fail(f"[{a}:{b}] lies on present members but reading it fails: {got!r}")

    for k in range(count):
        ctx.state(k)
        a = k * chunk
        attempt(vd.open(), a, a + chunk, present(k))
        attempt(vd.open(), a + 5, a + 9, present(k))
        if k + 1 < count:
            attempt(vd.open(), a, a + 2 * chunk, present(k) and present(k + 1))
            attempt(vd.open(), a + chunk - 1, a + chunk + 1, present(k) and present(k + 1))
    attempt(vd.open(), 0, len(want), all(present(k) for k in range(count)))
    few = range(min(count, 8))
    for k, m in product(few, few):
        fh = vd.open()
        attempt(fh, k * chunk + 3, k * chunk + 7, present(k))
        attempt(fh, m * chunk + 1, m * chunk + 8, present(m))
        attempt(fh, m * chunk, (m + 1) * chunk, present(m))
    return True


def check_set(ctx, vd, level, layout, n, missing, want, chunk):
    """A volume assembled from metadata on the devices that are left."""
    ctx.eq(vd.num_disks, n, "member count")
    if level in (-1, 0) and missing or level in (4, 5, 6) and len(missing) > (2 if level == 6 else 1):
        ctx.raises(vd.open, what=f"level {level} without {missing} of {n}")
        return
    if level in (4, 5, 6):
        opened = probe(ctx, vd, want, lambda k: parity_locate(level, layout, n, k)[0] not in missing, chunk)
    elif level == 10:
        probe(ctx, vd, want, lambda k: not missing, chunk)
        return
    else:
        opened = probe(ctx, vd, want, lambda k: True, chunk or 2048)
    ctx.true(opened, f"level {level} without {missing} of {n} does not open")


def run_md(ctx, version, geo, missing, reverse):
    level, layout, n, chunk_s, _ = md_sets.GEOMETRIES[geo]
    volume, _, devices = md_sets.build(version, geo, 0, 0)
    left = [mem(image) for i, (_, image) in enumerate(devices) if i not in missing]
    conf = MD(left[::-1] if reverse else left).configurations[0]
    vd = conf.virtual_disks[0]
    chunk = chunk_s * 512
    if level >= 4:
        # known findings of C08: the size of one component
        volume = volume[: min(vd.size, 24 * chunk) // chunk * chunk]
    else:
        volume = volume[: 12 * (chunk or 2048)]
    check_set(ctx, vd, level, layout, n, missing, volume, chunk)


def run_ddf(ctx, geo, missing, reverse):
    prl, rlq, _, primary, secondary = ddf_volumes.SUPPORTED[geo]
    n = primary * secondary
    starts = [7 + 5 * ((i * 3) % n) for i in range(n)]
    images, wants = ddf_volumes.build([(geo, 1, starts, list(range(n)), 0)], 512, 1)
    left = [mem(image) for i, image in enumerate(images) if i not in missing]
    vd = DDF(left[::-1] if reverse else left).configurations[0].virtual_disks[0]
    level = 10 if secondary > 1 else ddf_volumes.LEVEL[prl]
    ctx.eq(vd.size, len(wants[0]), "size")
    check_set(ctx, vd, level, ddf_volumes.LAYOUT.get((prl, rlq), 0), n, missing, wants[0], 1024)


def run(case, ctx):
    kind = case[0]
    if kind in ("md", "ddf"):
        globals()[f"run_{kind}"](ctx, *case[1:])
    elif kind == "parity":
        _, level, layout, n, missing, order = case
        dd = parity_data_disks(level, n)
        rows = n + 1
        want = pattern(1, 0, dd * rows * CHUNK)
        members = parity_scatter(level, layout, n, CHUNK, rows, want)
        vd = make(level, layout, n, members, missing, len(want), order)
        if len(missing) > n - dd:
            ctx.raises(vd.open, what=f"level {level} without {missing} of {n}")
            return
        ctx.true(
            probe(ctx, vd, want, lambda k: parity_locate(level, layout, n, k)[0] not in missing),
            f"level {level} without {missing} of {n} does not open",
        )
    elif kind == "stripe":
        _, level, n, missing, sizes = case
        byte_sizes = [(2, 2 + i % 2, 3 - i % 3)[sizes] * CHUNK for i in range(n)]
        members = [pattern(10 + i, 0, s) for i, s in enumerate(byte_sizes)]
        if level == 0:
            want = b"".join(members[d][o : o + CHUNK] for d, o in raid0_places(byte_sizes, CHUNK, False))
        else:
            want = b"".join(members)
        vd = make(level, 0, n, members, missing, len(want))
        if missing:
            ctx.raises(vd.open, what=f"level {level} without {missing} of {n}")
            return
        ctx.true(probe(ctx, vd, want, lambda k: True), "complete set does not open")
    elif kind == "mirror":
        _, n, missing, start = case
        want = pattern(1, 0, 8 * CHUNK)
        members = [want] * n
        vd = make(1, 0, n, members, missing, len(want), start)
        if len(missing) == n:
            ctx.raises(vd.open, what="mirror without members")
            return
        ctx.true(probe(ctx, vd, want, lambda k: True), "mirror does not open")
    else:
        _, n, layout, missing = case
        places = raid10_places(layout, n, 6)
        want = pattern(1, 0, len(places) * CHUNK)
        members = [bytearray(pattern(500 + i, 0, 6 * CHUNK)) for i in range(n)]
        for k, copies in enumerate(places):
            for dev, row in copies:
                members[dev][row * CHUNK : (row + 1) * CHUNK] = want[k * CHUNK : (k + 1) * CHUNK]
        vd = make(10, layout, n, members, missing, len(want))
        probe(ctx, vd, want, lambda k: not missing)
