"""C10: DDF volumes return the data stored under their RAID level and qualifier."""

from __future__ import annotations

from itertools import permutations, product

from dissect.volume.ddf.ddf import DDF

from vlib import enc_ddf as e
from vlib.ref_raid import parity_data_disks, parity_scatter, raid0_places, raid10_places
from vlib.src import check_windows, mem, pattern

PROPERTY = "C10"
BOUNDS = (
    "tables: every primary level 0-31 x qualifier 0-5 x 1-6 members, and 7 primary levels x qualifier 0-3 x 6 secondary "
    "levels x 1-4 members x 2, 3 elements, supported or refused; read back: RAID 0 (2-5 members), 1 (2, 3), 1E (2-5), 4/5 "
    "(3-5), 6 (4-6), concat (1-4), striped/spanned mirrors (2-3 x 2-3), each x 5 chunk sizes 512-8192 (65536 thorough) x "
    "3 start variants x extra space on the disks x declared block size (none, that of the disks; twice that of the disks with "
    "2 chunk sizes), with blocks of 4096 one chunk size; every member "
    "order up to 4 members, every rotation above; wide: the same levels with up to 16 members and mirrors of up to 8 "
    "elements, 3 rotations and both block sizes; every ordered pair of volumes of equally many (2-4) members on the same "
    "disks and 4 triples; windows between chunk boundaries and their neighbours (large volumes: every fourth, then the "
    "first and last 24)"
)
ASSUMPTIONS = [
    "RAID 1E offset means what Linux mdadm takes it for (far copies), other layouts follow the SNIA pictures",
    "all members of a concatenation have the same block count",
    "all entries of the member table are in use",
]

GROUP = e.guid("GROUP")
RAID0, RAID1, RAID4, RAID5, RAID6, RAID1E, CONCAT = 0, 1, 4, 5, 6, 0x11, 0x1F
NOSEC = 0xFF

# (prl, rlq, srl, primary members, secondary elements)
SUPPORTED = (
    [(RAID0, 0, NOSEC, n, 1) for n in (2, 3, 4, 5)]
    + [(RAID1, 0, NOSEC, 2, 1), (RAID1, 1, NOSEC, 3, 1)]
    + [(RAID1E, q, NOSEC, n, 1) for q in (0, 1) for n in (2, 3, 4, 5)]
    + [(RAID4, 1, NOSEC, n, 1) for n in (3, 4, 5)]
    + [(RAID5, q, NOSEC, n, 1) for q in (0, 2, 3) for n in (3, 4, 5)]
    + [(RAID6, q, NOSEC, n, 1) for q in (1, 2, 3) for n in (4, 5, 6)]
    + [(CONCAT, 0, NOSEC, n, 1) for n in (1, 2, 3, 4)]
    + [(RAID1, p - 2, s, p, c) for p in (2, 3) for s in (0, 3) for c in (2, 3)]
)
# many members
WIDE = (
    [(prl, q, NOSEC, n, 1) for n in range(6, 17) for prl, q in ((RAID0, 0), (RAID1E, 0), (RAID1E, 1), (RAID4, 1), (CONCAT, 0))]
    + [(RAID5, q, NOSEC, n, 1) for n in range(6, 17) for q in (0, 2, 3)]
    + [(RAID6, q, NOSEC, n, 1) for n in range(7, 17) for q in (1, 2, 3)]
    + [(RAID1, p - 2, s, p, c) for p in (2, 3) for s in (0, 3) for c in range(4, 9)]
)
ALL = [*SUPPORTED, *WIDE]
LAYOUT = {(5, 0): 1, (5, 2): 0, (5, 3): 2, (6, 1): 8, (6, 2): 9, (6, 3): 10}
LEVEL = {RAID0: 0, RAID1: 1, RAID1E: 10, RAID4: 4, RAID5: 5, RAID6: 6, CONCAT: -1}


def cases(tier):
    thorough = tier == "thorough"
    for geo in range(len(SUPPORTED)):
        for strip, start, extra, declared in product(
            (0, 1, 2, 3, 4) + ((7,) if thorough else ()), (0, 1, 2), (0, 1), (0, 512)
        ):
            yield ("one", geo, 512, strip, start, extra, declared, 0)
        for strip, start, extra in product((0, 1), (0, 1, 2), (0, 1)):
            yield ("one", geo, 512, strip, start, extra, 1024, 0)
        for start, declared in product((0, 1, 2), (0, 4096)):
            yield ("one", geo, 4096, 0, start, 1, declared, 0)
            if thorough:
                yield ("one", geo, 4096, 2, start, 1, declared, 0)
        n = SUPPORTED[geo][3] * SUPPORTED[geo][4]
        if n <= 4:
            for k, _ in enumerate(permutations(range(n))):
                yield ("one", geo, 512, 1, 2, 1, 0, k + 1)
        else:
            for k in range(1, n + 1):
                yield ("one", geo, 512, 1, 2, 1, 0, -k)
    for geo in range(len(SUPPORTED), len(ALL)):
        for order in (0, -1, -3):
            yield ("one", geo, 512, 1, 2, 1, 0, order)
        yield ("one", geo, 4096, 0, 1, 0, 4096, -2)
    pool = [g for g, s in enumerate(SUPPORTED) if s[3] * s[4] in (2, 3, 4)]
    for a, b in product(pool, repeat=2):
        na, nb = (SUPPORTED[g][3] * SUPPORTED[g][4] for g in (a, b))
        if na == nb or thorough:
            yield ("many", (a, b), 512)
            yield ("many", (a, b), 4096)
    for triple in ((0, 4, 16), (1, 11, 28), (2, 20, 24), (28, 0, 4)):
        yield ("many", triple, 512)
    for prl, rlq, pec in product(range(0, 32), range(0, 6), range(1, 7)):
        yield ("table", prl, rlq, NOSEC, pec, 1)
    for prl, rlq, srl, pec, sec in product((0, 1, 4, 5, 6, 0x11, 0x1F), range(0, 4), (0, 1, 2, 3, 4, 0xFF), (1, 2, 3, 4), (2, 3)):
        yield ("table", prl, rlq, srl, pec, sec)


def lay_out(geo, chunk, salt):
    """Return (volume, members) as stored from the start block on."""
    prl, rlq, srl, pec, sec = ALL[geo]
    n = pec * sec
    if prl == CONCAT:
        members = [pattern(salt + i, 0, 2 * max(chunk, 4096)) for i in range(n)]
        return b"".join(members), members
    if prl == RAID0:
        members = [pattern(salt + i, 0, 5 * chunk) for i in range(n)]
        return b"".join(members[d][o : o + chunk] for d, o in raid0_places([5 * chunk] * n, chunk, False)), members
    if prl == RAID1 and sec == 1:
        volume = pattern(salt, 0, 4 * max(chunk, 4096))
        return volume, [volume] * n
    if prl in (RAID4, RAID5, RAID6):
        dd = parity_data_disks(prl, n)
        rows = n + 2
        volume = pattern(salt, 0, dd * rows * chunk)
        members = parity_scatter(prl, LAYOUT.get((prl, rlq), 0), n, chunk, rows, volume)
        return volume, [bytes(m) for m in members]
    layout = (0x100 | pec) if sec > 1 else (0x102 if rlq == 0 else 0x201)
    dev_chunks = 6
    places = raid10_places(layout, n, dev_chunks)
    volume = pattern(salt, 0, len(places) * chunk)
    members = [bytearray(pattern(salt + 50 + i, 0, dev_chunks * chunk)) for i in range(n)]
    for k, copies in enumerate(places):
        for dev, row in copies:
            members[dev][row * chunk : (row + 1) * chunk] = volume[k * chunk : (k + 1) * chunk]
    return volume, [bytes(m) for m in members]


def reference(disk):
    return 0x40001000 + 0x111 * disk


def build(volumes, block, extra):
    """``volumes``: [(geo, chunk strip, [start block per member], disks per member, declared block size)].

    Return (disk images, [volume bytes]).
    """
    count = 1 + max(d for v in volumes for d in v[3])
    refs = [reference(i) for i in range(count)]
    data = [bytearray() for _ in refs]
    records = [[] for _ in refs]
    wants = []
    vdes = []
    for vi, (geo, strip, starts, disks, declared) in enumerate(volumes):
        prl, rlq, srl, pec, sec = ALL[geo]
        vblock = declared or block
        chunk = vblock << strip
        volume, members = lay_out(geo, chunk, 1000 * (vi + 1) + 7 * geo)
        wants.append(volume)
        for m, d in enumerate(disks):
            end = starts[m] * block + len(members[m])
            if len(data[d]) < end:
                data[d].extend(pattern(9000 + d, len(data[d]), end - len(data[d])))
            data[d][starts[m] * block : end] = members[m]
        vdes.append(e.vde(e.guid(f"VD-{vi}"), vi, f"vol{vi}".encode()))
        for s in range(sec):
            members_of = disks[s * pec : (s + 1) * pec]
            record = e.vdcr(
                vguid=e.guid(f"VD-{vi}"),
                refs=[refs[d] for d in members_of],
                starts=starts[s * pec : (s + 1) * pec],
                max_elements=32,
                prl=prl,
                rlq=rlq,
                srl=srl,
                strip=strip,
                block_count=len(members[0]) // vblock,
                vd_size=len(volume) // vblock,
                sec_count=sec,
                sec_seq=s,
                block_size=declared or 0xFFFF,
            )
            for d in members_of:
                records[d].append(record)
    images = []
    pdes = []
    size = max(len(d) for d in data)
    for i, r in enumerate(refs):
        # some space behind the data, differing per disk
        data[i].extend(pattern(9500 + i, 0, size - len(data[i]) + (block * 16 * (1 + i) if extra else 0)))
        pdes.append(e.pde(e.guid(f"PD-{r:x}"), r, len(data[i]) // block, block_size=block if i % 2 else 0xFFFF))
    for i, r in enumerate(refs):
        images.append(
            e.disk_image(
                group=GROUP,
                data=bytes(data[i]),
                pdes=pdes,
                vdes=vdes,
                records=records[i],
                pguid=e.guid(f"PD-{r:x}"),
                ref=r,
                block=block,
                max_elements=32,
            )
        )
    return images, wants


def nth_order(n, k):
    if k == 0:
        return list(range(n))
    if k < 0:
        return [(i - k) % n for i in range(n)]
    return list(list(permutations(range(n)))[k - 1])


def check(ctx, vd, geo, volume, chunk, key, disks):
    prl, rlq, srl, pec, sec = ALL[geo]
    ctx.eq(vd.level, 10 if sec > 1 else LEVEL[prl], "level")
    ctx.eq(vd.size, len(volume), "size")
    ctx.eq(vd.stripe_size, chunk, "chunk size")
    ctx.eq(vd.num_disks, pec * sec, "member count")
    ctx.eq(sorted(vd.disk_map), list(range(pec * sec)), "member positions")
    if prl != CONCAT:
        got = [vd.disk_map[i][1].reference for i in range(pec * sec)]
        ctx.eq(got, [reference(d) for d in disks], "member order")
    stream = vd.open()
    if vd.level != 1:
        ctx.eq(stream.size, len(volume), "stream size")
    stream.seek(0)
    ctx.eq(stream.read(len(volume)), volume, "contents")
    step = chunk if len(volume) // chunk <= 40 else chunk * 4
    points = {p + d for p in range(0, len(volume) + 1, step) for d in (-1, 0, 5)}
    if len(points) > 60:
        points = sorted(points)[:24] + sorted(points)[-24:]
    check_windows(ctx, stream, volume, points, key=key)


def run(case, ctx):
    if case[0] == "table":
        return run_table(ctx, *case[1:])
    if case[0] == "one":
        _, geo, block, strip, start, extra, declared, order = case
        prl, rlq, srl, pec, sec = ALL[geo]
        n = pec * sec
        starts = {0: [0] * n, 1: [24] * n, 2: [7 + 5 * ((i * 3) % n) for i in range(n)]}[start]
        disks = nth_order(n, order)
        images, wants = build([(geo, strip, starts, disks, declared)], block, extra)
        supply = [mem(images[i]) for i in (range(n) if not order else reversed(range(n)))]
        ddf = DDF(supply, block)
        vds = ddf.configurations[0].virtual_disks
        ctx.eq(len(vds), 1, "virtual disks")
        return check(ctx, vds[0], geo, wants[0], (declared or block) << strip, case, disks)
    _, geos, block = case
    volumes = []
    at: dict = {}
    for vi, geo in enumerate(geos):
        n = ALL[geo][3] * ALL[geo][4]
        disks = [(i + vi) % n for i in range(n)]
        strip = (1, 0, 2)[vi] if block == 512 else 0
        _, members = lay_out(geo, block << strip, 1)
        starts = []
        for m, d in enumerate(disks):
            starts.append(at.get(d, 0))
            at[d] = at.get(d, 0) + len(members[m]) // block + 3
        volumes.append((geo, strip, starts, disks, 0))
    images, wants = build(volumes, block, 1)
    ddf = DDF([mem(i) for i in images], block)
    ctx.eq(len(ddf.configurations), 1, "configurations")
    vds = {vd.name: vd for vd in ddf.configurations[0].virtual_disks}
    ctx.eq(sorted(vds), [f"vol{i}" for i in range(len(geos))], "virtual disks")
    for vi, geo in enumerate(geos):
        check(ctx, vds[f"vol{vi}"], geo, wants[vi], block << volumes[vi][1], (case, vi), volumes[vi][3])
    return None


def is_supported(prl, rlq, srl, pec, sec):
    if sec > 1:
        return prl == RAID1 and srl in (0, 3) and (pec, rlq) in ((2, 0), (3, 1))
    return {
        CONCAT: True,
        RAID0: rlq == 0,
        RAID1: (pec, rlq) in ((2, 0), (3, 1)),
        RAID1E: rlq in (0, 1),
        RAID4: rlq == 1,
        RAID5: rlq in (0, 2, 3),
        RAID6: rlq in (1, 2, 3),
    }.get(prl, False)


def run_table(ctx, prl, rlq, srl, pec, sec):
    n = pec * sec
    refs = [0x100 + i for i in range(n)]
    pdes = [e.pde(e.guid(f"PD-{r:x}"), r, 64) for r in refs]
    images = []
    for i, r in enumerate(refs):
        s = i // pec
        record = e.vdcr(
            vguid=e.guid("VD-0"),
            refs=refs[s * pec : (s + 1) * pec],
            starts=[0] * pec,
            max_elements=8,
            prl=prl,
            rlq=rlq,
            srl=srl,
            strip=0,
            block_count=64,
            vd_size=64,
            sec_count=sec,
            sec_seq=s,
        )
        images.append(
            e.disk_image(
                group=GROUP,
                data=pattern(i, 0, 64 * 512),
                pdes=pdes,
                vdes=[e.vde(e.guid("VD-0"), 0, b"vol0")],
                records=[record],
                pguid=e.guid(f"PD-{r:x}"),
                ref=r,
            )
        )

    def attempt():
        vd = DDF([mem(i) for i in images]).configurations[0].virtual_disks[0]
        return vd, vd.open().read(512)

    if is_supported(prl, rlq, srl, pec, sec):
        if n < {RAID0: 2, RAID1E: 2, RAID4: 3, RAID5: 3, RAID6: 4}.get(prl, 1):
            ctx.outcome("too few members, not judged")
            return
        vd, _ = attempt()
        ctx.eq(vd.num_disks, n, "member count")
        ctx.eq(vd.level, 10 if sec > 1 else LEVEL[prl], "level")
        ctx.outcome("supported")
    else:
        ctx.raises(attempt, what="unsupported level and qualifier")
        ctx.outcome("refused")
