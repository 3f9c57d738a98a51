"""C19: device-mapper B-tree lookups return exactly the stored mapping."""

from __future__ import annotations

import itertools
import struct

from vlib.enc_dm import Meta

PROPERTY = "C19"
BOUNDS = (
    "every subset of 7 consecutive keys and every subset of 8 64-bit boundary keys x every split into leaves x every "
    "grouping of the leaves (heights 1-3) x value sizes 1/4/8/24 x node capacities exact/default: every key of the "
    "universe, stored or not, looked up twice and after every other key; trees of height 4-5; full nodes; trees of up to "
    "600 nodes with every pair of passes; two- and three-level trees over subsets of 3 outer and 4 inner keys; two trees "
    "over one file and over two files in every interleaving of lookups; nodes in blocks around every power of two from 2^8 to 2^53"
)
ASSUMPTIONS = ["nodes are well formed: keys ascending, an internal key is the lowest key below it"]

SMALL = list(range(2, 9))
BIG = [0, 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]


def compositions(n, most=None):
    """All ways to cut n items into consecutive non-empty groups."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k, *rest)


def value(key, size):
    return (key * 2654435761 + 0x0102030405060708).to_bytes(16, "little")[:size].ljust(size, b"\xee")


def cases(tier: str):
    for name, universe in (("small", SMALL), ("big", BIG)):
        for mask in range(1 << len(universe)):
            yield ("subset", name, mask)
    for block in (512, 1024, 4096, 8192, 65536):
        for size in (1, 4, 8, 24):
            yield ("full", block, size)
    for n, fanout in ((70, 1), (200, 2), (300, 2), (600, 3), (65, 64), (4000, 126)):
        yield ("large", n, fanout)
    for outer in range(1, 8):
        for inner in itertools.product(range(16), repeat=bin(outer).count("1")):
            yield ("nested", outer, inner)
    for depth in (3, 4):
        yield ("levels", depth)
    for a, b in itertools.product(range(0, 32), repeat=2):
        yield ("pair", a, b)
    for height in range(1, 7):
        yield ("tall", height)
    for bits in range(8, 54):
        yield ("far", bits)


def tree(fh, root, block):
    from dissect.volume.dm.btree import BTree  # noqa: PLC0415

    return BTree(fh, root, block // 512)


def asbytes(v):
    return None if v is None else bytes(v)


def check_all(ctx, t, stored, probes, size, what):
    for key in probes:
        want = value(key, size) if key in stored else None
        ctx.eq(asbytes(t.lookup(key)), want, f"{what}: lookup {key:#x}")


def run(case, ctx):
    kind = case[0]
    if kind == "subset":
        _, name, mask = case
        universe = SMALL if name == "small" else BIG
        keys = [k for i, k in enumerate(universe) if mask >> i & 1]
        probes = sorted(set(universe) | {k + d for k in universe for d in (-1, 1) if 0 <= k + d < 2**64})
        shapes = 0
        for leaves in compositions(len(keys)):
            uppers = [((),)] if len(leaves) <= 1 else []
            if len(leaves) > 1:
                for mid in compositions(len(leaves)):
                    if len(mid) == 1:
                        uppers.append((mid,))
                    else:
                        uppers.append((mid, (len(mid),)))
            for upper in uppers:
                sizes = (1, 4, 8, 24) if shapes % 5 == 0 else (8,)
                for size in sizes:
                    # default capacity, then nodes that are exactly full
                    for cap in (None, max(leaves, default=1)):
                        meta = Meta(512, first=1 + shapes % 3)
                        splits = [list(leaves)] + [list(u) for u in upper if u]
                        root = meta.tree([(k, value(k, size)) for k in keys], splits, size, cap)
                        fh = meta.image()
                        t = tree(fh, root, 512)
                        ctx.state((leaves, upper, size, cap))
                        check_all(ctx, t, set(keys), probes, size, f"{splits}")
                        check_all(ctx, t, set(keys), reversed(probes), size, f"{splits} again")
                shapes += 1
        ctx.outcome(f"{len(keys)} keys")
    elif kind == "full":
        _, block, size = case
        room = (block - 32) // (8 + size)
        for n in {1, room // 3 * 3, room - 1, room}:
            meta = Meta(block)
            # Ascending with gaps
            keys = [3 * i + 1 for i in range(n)]
            root = meta.leaf([(k, value(k, size)) for k in keys], size, max_entries=room)
            top = meta.internal([(1, root)])
            fh = meta.image()
            for r in (root, top):
                t = tree(fh, r, block)
                check_all(ctx, t, set(keys), range(0, 3 * n + 3), size, f"full node {n}/{room}")
            ctx.state((block, size, n))
        ctx.outcome("full nodes")
    elif kind == "large":
        _, n, fanout = case
        keys = [5 * i + 2 for i in range(n)]
        if fanout == 1:
            # a chain: every internal node above the leaves has 70 children
            meta = Meta(4096)
            root = meta.internal([(k, meta.leaf([(k, value(k, 8))])) for k in keys])
        else:
            meta = Meta(4096)
            root = meta.even([(k, value(k, 8)) for k in keys], fanout)
        t = tree(meta.image(), root, 4096)
        up = [k + d for k in keys for d in (-1, 0, 1)]
        for order in (up, list(reversed(up)), up[::2] + up[1::2], sorted(up, key=lambda k: k * 7919 % 10007)):
            check_all(ctx, t, set(keys), order, 8, f"{len(meta.blocks)} nodes")
            ctx.state((n, fanout, len(order), order[0]))
        ctx.outcome(f"{len(meta.blocks)} nodes")
    elif kind == "nested":
        _, outer, inner = case
        nested(ctx, outer, list(inner))
    elif kind == "levels":
        levels(ctx, case[1])
    elif kind == "pair":
        pair(ctx, case[1], case[2])
    elif kind == "far":
        far(ctx, case[1])
    elif kind == "tall":
        height = case[1]
        for fanout in (1, 2, 3):
            n = min(fanout**height, 243) if fanout > 1 else 1
            keys = [2 * i + 1 for i in range(n)]
            meta = Meta(512)
            root = meta.even([(k, value(k, 8)) for k in keys], max(fanout, 1), height=height)
            t = tree(meta.image(), root, 512)
            check_all(ctx, t, set(keys), range(2 * n + 3), 8, f"height {height}, fanout {fanout}")
            ctx.state((height, fanout))
        ctx.outcome(f"height {height}")


OUTER = [0, 5, 2**24 - 1]
INNER = [0, 1, 77, 2**40]


def far(ctx, bits):
    """Nodes in blocks around 2^bits, one level and two."""
    for block in (512, 4096):
        for first in ((1 << bits) - 2, (1 << bits) + 1):
            meta = Meta(block, first=first)
            inner = {d: meta.even([(k, value(d * 100 + k, 8)) for k in range(5)], 2) for d in (1, 3)}
            root = meta.even([(d, struct.pack("<Q", r)) for d, r in inner.items()], 2)
            t = tree(meta.image(), root, block)
            for d, k in itertools.product(range(5), range(7)):
                want = value(d * 100 + k, 8) if d in inner and k < 5 else None
                ctx.eq(asbytes(t.lookup([d, k])), want, f"lookup [{d}, {k}], blocks from {first:#x}")
            ctx.state((block, first))
    ctx.outcome("far blocks")


def nested(ctx, outer, inner):
    """Two levels: device id -> block -> value."""
    devs = [k for i, k in enumerate(OUTER) if outer >> i & 1]
    for fanout in (1, 2, 3) if len(devs) > 1 else (3,):
        meta = Meta(512)
        tops, want = [], {}
        for dev, mask in zip(devs, inner):
            keys = [k for i, k in enumerate(INNER) if mask >> i & 1]
            for k in keys:
                want[dev, k] = value(dev * 1000003 + k, 8)
            root = meta.even([(k, want[dev, k]) for k in keys], 2)
            tops.append((dev, struct.pack("<Q", root)))
        if fanout == 1:
            root = meta.internal([(d, meta.leaf([(d, v)])) for d, v in tops])
        else:
            root = meta.even(tops, fanout)
        t = tree(meta.image(), root, 512)
        probes = [(d, k) for d in [*OUTER, 1, 4, 6, 2**64 - 1] for k in [*INNER, 2, 76, 78, 2**40 + 1, 2**64 - 1]]
        for d, k in probes:
            ctx.eq(asbytes(t.lookup([d, k])), want.get((d, k)), f"lookup [{d}, {k}]")
        for d in [*OUTER, 1, 6]:
            got = asbytes(t.lookup(d))
            ctx.eq(got, dict(tops).get(d), f"lookup {d}")
            ctx.eq(asbytes(t.lookup([d])), dict(tops).get(d), f"lookup [{d}]")
        ctx.state((outer, tuple(inner), fanout))
    ctx.outcome(f"{len(devs)} devices")


def levels(ctx, depth):
    meta = Meta(512)
    want = {}

    def make(prefix, left):
        keys = [1, 4] if len(prefix) % 2 else [0, 3]
        out = []
        for k in keys:
            path = (*prefix, k)
            if left == 1:
                want[path] = value(sum(p * 31**i for i, p in enumerate(path)), 8)
                out.append((k, want[path]))
            else:
                out.append((k, struct.pack("<Q", make(path, left - 1))))
        return meta.even(out, 2)

    root = make((), depth)
    t = tree(meta.image(), root, 512)
    for path in itertools.product(range(6), repeat=depth):
        ctx.eq(asbytes(t.lookup(list(path))), want.get(path), f"lookup {path}")
    ctx.state(depth)
    ctx.outcome(f"{depth} levels")


def pair(ctx, a, b):
    """Two trees in one file (and in two files with the same block numbers) used alternately."""
    universe = [0, 1, 2, 3, 4]
    ka = [k for k in universe if a >> k & 1]
    kb = [k for k in universe if b >> k & 1]
    va = lambda k: value(k, 8)  # noqa: E731
    vb = lambda k: value(k + 100, 8)  # noqa: E731
    meta = Meta(512)
    ra = meta.even([(k, va(k)) for k in ka], 2)
    rb = meta.even([(k, vb(k)) for k in kb], 2)
    one = meta.image()
    ma, mb = Meta(512), Meta(512)
    ra2 = ma.even([(k, va(k)) for k in ka], 2)
    rb2 = mb.even([(k, vb(k)) for k in kb], 2)
    fa, fb = ma.image(), mb.image()
    for fha, rooa, fhb, roob in ((one, ra, one, rb), (fa, ra2, fb, rb2)):
        ta, tb = tree(fha, rooa, 512), tree(fhb, roob, 512)
        for x, y in itertools.product(universe, repeat=2):
            ctx.eq(asbytes(ta.lookup(x)), va(x) if x in ka else None, f"first tree, {x}")
            ctx.eq(asbytes(tb.lookup(y)), vb(y) if y in kb else None, f"second tree, {y}")
            ctx.eq(asbytes(ta.lookup(y)), va(y) if y in ka else None, f"first tree again, {y}")
    ctx.state((a, b))
    ctx.outcome("two trees")
