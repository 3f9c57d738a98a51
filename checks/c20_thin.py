"""C20: thin devices return mapped blocks and zeroes for holes over any range."""

from __future__ import annotations

import itertools

from vlib import enc_dm, src

PROPERTY = "C20"
BOUNDS = (
    "all 64 mapped/hole patterns over 6 blocks x data block arrangements (in order, reversed, spread, 40-bit high, with "
    "time stamps) x block sizes 1/2/16/128 (for 4 patterns: 3-640 that are no powers of two, and 2048) sectors x tree fan-outs 2/3/60 x size hints (none, every block "
    "boundary, unaligned, beyond): every window between 14 boundary points; all pairs of patterns over 4 blocks for two "
    "devices with shared and own blocks, read alternately; device sets of up to 5 ids (24-bit) with every absent id "
    "between; devices known without mappings; wrong magic values; far offsets; "
    "all patterns over 3 blocks of 9 sizes from 1 to 128 MiB"
)
ASSUMPTIONS = ["mapped data blocks lie within the data device"]

ARRANGE = {
    "order": lambda i, b: b,
    "reverse": lambda i, b: 9 - b,
    "spread": lambda i, b: 3 * b + 11,
    "high": lambda i, b: 2**40 - 1 - b,
    "timed": lambda i, b: b + 2,
}


def cases(tier: str):
    sizes = (1, 2, 16, 128) if tier == "quick" else (1, 2, 8, 16, 128, 2048)
    for mask in range(64):
        for arr in ARRANGE:
            for sectors in sizes:
                yield ("one", mask, arr, sectors)
    for mask in (0, 0b101, 0b111111, 0b100110):
        yield ("one", mask, "order", 2048)
        for sectors in (3, 5, 6, 7, 24, 96, 384, 640):
            yield ("one", mask, "spread", sectors)
    for sectors in (2176, 3072, 4096, 8192, 12288, 32768, 65536, 131072, 262144):
        for mask in range(8):
            yield ("big", sectors, mask)
    for a, b in itertools.product(range(16), repeat=2):
        yield ("two", a, b)
    ids = [0, 1, 2, 255, 2**24 - 1]
    for r in range(6):
        for devs in itertools.combinations(ids, r):
            yield ("ids", devs)
    for magic in (0, 1, 27022009, 27022011, 27022010 << 32, 27022010 + (1 << 32), 2**64 - 1):
        yield ("magic", magic)
    for n in (100, 300):
        yield ("many", n)
    for short in range(0, 700, 32):
        yield ("short", short)


def oracle(mapping, data, bs, off, length):
    out = bytearray()
    while length > 0:
        blk, skip = divmod(off, bs)
        n = min(length, bs - skip)
        out += data.at(mapping[blk] * bs + skip, n) if blk in mapping else bytes(n)
        off += n
        length -= n
    return bytes(out)


def open_pool(meta, data):
    from dissect.volume.dm.thin import ThinPool  # noqa: PLC0415

    return ThinPool(meta, data)


def windows(ctx, stream, mapping, data, bs, limit, points, what):
    for a, b in itertools.combinations(points, 2):
        stream.seek(a)
        got = stream.read(b - a)
        end = b if limit is None else min(b, limit)
        ctx.eq(got, oracle(mapping, data, bs, a, max(0, end - a)), f"{what}: {a}..{b}")


def run(case, ctx):
    kind = case[0]
    if kind == "one":
        _, mask, arr, sectors = case
        bs = sectors * 512
        blocks = [b for b in range(6) if mask >> b & 1]
        mapping = {b: ARRANGE[arr](i, b) for i, b in enumerate(blocks)}
        times = [5, 2**24 - 1, 0] if arr == "timed" else None
        data = src.PatternFile(2**40 * bs if arr == "high" else 40 * bs, 77)
        total = 6 * bs
        points = sorted({0, 1, 511, bs - 1, bs, bs + 1, 2 * bs, 3 * bs - 7, 3 * bs, 4 * bs - 512, 4 * bs, 5 * bs + 100,
                         total - 1, total})  # fmt: skip
        for fanout, mblock in ((3, 4096), (2, 512), (60, 4096)):
            meta = enc_dm.pool({4: mapping}, sectors, fanout, mblock, times)
            pool = open_pool(meta, data)
            ctx.state((mask, arr, sectors, fanout))
            if fanout == 3:
                hints = [None, *(k * bs for k in range(8)), 1, 3 * bs - 7, 5 * bs + 512, total - 1, total + 100]
            else:
                hints = [None, total]
            for hint in hints:
                dev = pool.open(4, hint)
                windows(ctx, dev, mapping, data, bs, hint, points, f"{sectors} sectors, hint {hint}")
                if hint is None:
                    for far in (7 * bs, 100 * bs + 5, 2**40, 2**62):
                        dev.seek(far)
                        ctx.eq(dev.read(700), bytes(700), f"beyond the mapped blocks at {far}")
                    dev.seek(5 * bs)
                    ctx.eq(dev.read(3 * bs), oracle(mapping, data, bs, 5 * bs, 3 * bs), "across the last mapped block")
                else:
                    dev.seek(0)
                    ctx.eq(dev.read(), oracle(mapping, data, bs, 0, hint), f"everything, hint {hint}")
                    dev.seek(hint)
                    ctx.eq(dev.read(512), b"", "at the end")
        ctx.outcome(f"{len(blocks)} mapped")
    elif kind == "big":
        big(ctx, case[1], case[2])
    elif kind == "two":
        two(ctx, case[1], case[2])
    elif kind == "ids":
        ids(ctx, tuple(case[1]))
    elif kind == "magic":
        meta = enc_dm.pool({1: {0: 0}}, 2, magic=case[1])
        ctx.raises(open_pool, meta, src.PatternFile(4096, 7), what=f"magic {case[1]:#x}")
        ctx.outcome("refused")
    elif kind == "short":
        good = enc_dm.pool({1: {0: 0}}, 2).at(0, 4096)
        blank = bytes(case[1])
        ctx.raises(open_pool, src.mem(blank), src.PatternFile(4096, 7), what=f"{case[1]} zero bytes")
        if case[1] < 300:
            ctx.raises(open_pool, src.mem(good[: case[1]]), src.PatternFile(4096, 7), what=f"{case[1]} bytes of metadata")
        ctx.outcome("refused")
    else:
        n = case[1]
        mapping = {b * 2 + (b % 3 == 0): (b * 7919) % 1009 for b in range(n)}
        data = src.PatternFile(2000 * 1024, 5)
        for fanout in (3, 84):
            dev = open_pool(enc_dm.pool({9: mapping}, 2, fanout), data).open(9, 2 * n * 1024)
            ctx.eq(dev.read(), oracle(mapping, data, 1024, 0, 2 * n * 1024), f"{n} blocks")
            for off in range(0, 2 * n * 1024, 5000):
                dev.seek(off)
                ctx.eq(dev.read(3000), oracle(mapping, data, 1024, off, min(3000, 2 * n * 1024 - off)), f"at {off}")
            ctx.state((n, fanout))
        ctx.outcome("many blocks")


def big(ctx, sectors, mask):
    """Blocks of more than a megabyte: marks at and around every megabyte of the data device."""
    bs = sectors * 512
    mapping = {b: (5, 1, 3)[b] for b in range(3) if mask >> b & 1}
    data = src.PatternFile(7 * bs, None)
    marks = sorted({m for b in mapping.values() for m in (*range(b * bs, (b + 1) * bs, 1 << 20), (b + 1) * bs - 64)})
    for m in marks:
        data.put(m, src.pattern(9, m, 64))
    pool = open_pool(enc_dm.pool({4: mapping}, sectors), data)
    for hint in (None, 3 * bs, 2 * bs + 512):
        dev = pool.open(4, hint)
        for b in range(3):
            for off in sorted({0, 1 << 20, bs // 2 >> 20 << 20, bs - 64, bs - 40}):
                at = b * bs + off
                want = oracle(mapping, data, bs, at, 80 if hint is None else max(0, min(80, hint - at)))
                dev.seek(at)
                ctx.eq(dev.read(80), want, f"{sectors} sectors at {at:#x}, hint {hint}")
        ctx.state((sectors, mask, hint))
    ctx.outcome("big blocks")


def two(ctx, a, b):
    """A device and a snapshot of it: common blocks shared, others their own; read alternately."""
    bs = 1024
    ma = {k: k for k in range(4) if a >> k & 1}
    mb = {k: (k if k in ma and k % 2 else 10 + k) for k in range(4) if b >> k & 1}
    data = src.PatternFile(20 * bs, 3)
    pool = open_pool(enc_dm.pool({1: ma, 2: mb}, 2, 2, 512), data)
    da, db, again = pool.open(1, 4 * bs), pool.open(2, 4 * bs), pool.open(1)
    points = [0, 1, bs, bs + 500, 2 * bs, 3 * bs, 4 * bs - 1, 4 * bs]
    for x, y in itertools.combinations(points, 2):
        for dev, m in ((da, ma), (db, mb), (again, ma)):
            dev.seek(x)
            data.seek(x)
            ctx.eq(dev.read(y - x), oracle(m, data, bs, x, y - x), f"{x}..{y}")
    ctx.state((a, b))
    ctx.outcome("two devices")


def ids(ctx, devs):
    bs = 512
    data = src.PatternFile(100 * bs, 3)
    maps = {d: {0: 10 * i + 1, 2: 10 * i + 2} for i, d in enumerate(devs)}
    for extra in ((), (77,)):
        for fanout in (2, 3):
            pool = open_pool(enc_dm.pool(maps, 1, fanout, extra_details=extra), data)
            for d in [0, 1, 2, 3, 77, 254, 255, 256, 2**24 - 2, 2**24 - 1, 2**24, 2**32 + 1]:
                if d in maps:
                    ctx.eq(pool.open(d, 3 * bs).read(), oracle(maps[d], data, bs, 0, 3 * bs), f"device {d}")
                    ctx.eq(pool.open(d).details.mapped_blocks, 2, "details")
                elif d in extra:
                    ctx.eq(pool.open(d, 3 * bs).read(), bytes(3 * bs), f"device {d} without mappings")
                else:
                    ctx.raises(pool.open, d, what=f"unknown device {d}")
                    ctx.raises(pool.open, d, 3 * bs, what=f"unknown device {d}")
            ctx.state((devs, extra, fanout))
            # a device that still has a mapping tree but no details is unknown
            for gone in devs:
                pool = open_pool(enc_dm.pool(maps, 1, fanout, extra_details=extra, no_details=(gone,)), data)
                for d in devs:
                    if d == gone:
                        ctx.raises(pool.open, d, what=f"device {d} without details")
                    else:
                        ctx.eq(pool.open(d, 3 * bs).read(), oracle(maps[d], data, bs, 0, 3 * bs), f"device {d}")
                ctx.state((devs, extra, fanout, gone))
    ctx.outcome(f"{len(devs)} devices")
