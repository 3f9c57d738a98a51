"""C25: opening volumes is read-only, repeatable and isolated."""

from __future__ import annotations

import hashlib
import itertools
import json
import os
import subprocess
import sys
from functools import lru_cache

from vlib import src, zoo

PROPERTY = "C25"
BOUNDS = (
    "50 image sets (25 formats or kinds x 2 variants with the same names and identities): every ordered pair (triple of one "
    "format's neighbours, thorough: every triple) opened and read in one process under every interleaving of open and read, "
    "every set opened three times over the same sources, with its members in every order, and twice at once with all streams read in turns, all compared with what a process that "
    "opens nothing else reports under three hash seeds; all sources refuse and record writes, truncation and closing"
)
ASSUMPTIONS = [
    "two readers do not use one source at the very same time (threads)",
    "a source holding a partition table is rewound before it is opened: the table is looked for at the current position",
]
ANY_ORDER = ("md-0.90", "md-1.0", "md-1.1", "md-1.2", "ddf", "ddf-concat", "vinum", "lvm")
TABLES = ("mbr", "gpt", "apm", "bsd", "bsd64")
CASE_CPU_SECONDS = 60


def sets():
    return [(n, v) for n in zoo.MAKERS for v in (0, 1)]


def cases(tier: str):
    for name, v in sets():
        yield ("fresh", name, v)
        yield ("repeat", name, v)
        yield ("shared", name, v)
        n = len(zoo.item(name, v).sources)
        if name in ANY_ORDER:
            for order in itertools.permutations(range(n)):
                yield ("order", name, v, order)
    for a in sets():
        for b in sets():
            yield ("pair", a, b)
    names = list(zoo.MAKERS)
    if tier == "quick":
        for i, n in enumerate(names):
            m = names[(i + 7) % len(names)]
            for t in (((n, 0), (n, 1), (n, 0)), ((n, 1), (m, 0), (n, 0)), ((m, 1), (n, 0), (n, 1))):
                yield ("triple", *t)
    else:
        for a in names:
            for b in names:
                for c in names:
                    yield ("triple", (a, 0), (b, 1), (c, 0))


@lru_cache(maxsize=4)
def isolated(seed: int) -> dict:
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    done = subprocess.run(
        [sys.executable, "-B", "-m", "vlib.isolated"], capture_output=True, env=env, timeout=300, check=True
    )
    line = next(x for x in done.stdout.decode().splitlines() if x.startswith("ISOLATED "))
    return json.loads(line[9:])


class Opened:
    """One set in this process; ``root`` is set by ``open``."""

    def __init__(self, ctx, key):
        self.ctx = ctx
        self.key = key
        self.item = zoo.item(*key)
        self.inner = [src.mem(raw) for raw in self.item.sources]
        self.fhs = [src.GuardedFile(fh) for fh in self.inner]
        self.expected = isolated(0)[f"{key[0]}:{key[1]}"]

    def open(self):
        if self.key[0] in TABLES:
            self.fhs[0].seek(0)
        self.root = self.item.root(self.fhs)
        return self

    def read(self, what):
        self.ctx.true(isinstance(self.expected, list), f"alone, {self.key} gives {self.expected}")
        self.ctx.eq(zoo.describe(self.root), self.expected[0], f"{what}: description of {self.key}")
        self.ctx.eq(zoo.contents(self.item, self.root), self.expected[1], f"{what}: contents of {self.key}")

    def done(self):
        for i, (fh, inner, raw) in enumerate(zip(self.fhs, self.inner, self.item.sources)):
            self.ctx.eq(fh.abuse, [], f"calls on source {i} of {self.key}")
            self.ctx.true(inner.getvalue() == raw, f"source {i} of {self.key} was changed")


SCHEDULES = ("oAoBrArB", "oAoBrBrA", "oArAoBrB", "oAoBrArBoArA", "oAoBrAoArBrA")


def run(case, ctx):
    kind = case[0]
    if kind == "fresh":
        fresh(ctx, case[1], case[2])
    elif kind == "repeat":
        repeat(ctx, case[1], case[2])
    elif kind == "shared":
        shared(ctx, case[1], case[2])
    elif kind == "order":
        order(ctx, *case[1:])
    elif kind == "pair":
        pair(ctx, case[1], case[2])
    else:
        triple(ctx, case[1:])


def fresh(ctx, name, v):
    key = f"{name}:{v}"
    base = isolated(0)[key]
    for seed in (1, 2):
        ctx.eq(isolated(seed)[key], base, f"{key} in another process")
        ctx.state(seed)
    # The digests are those of the expected bytes as far as the streams go
    it = zoo.item(name, v)
    ctx.eq(sorted(set(it.wants) - set(base[1])), [], "volumes")
    ctx.outcome(f"fresh {name}")


def repeat(ctx, name, v):
    o = Opened(ctx, (name, v))
    for i in range(3):
        o.open().read(f"time {i}")
        ctx.state(i)
        o.read(f"time {i} again")
        for fh in o.fhs:
            fh.seek(12345 * (i + 1))
    # The same over copies of the sources that already were somewhere else
    other = Opened(ctx, (name, v))
    for fh in other.fhs:
        fh.seek(0, 2)
    other.open().read("sources at their end")
    for x in (o, other):
        x.done()
    ctx.outcome(f"repeat {name}")


def shared(ctx, name, v):
    """Two openings of one set over the same sources, all their streams read in turns."""
    for chunk in (512, 3000, 8192, 65536):
        o = Opened(ctx, (name, v))
        first = o.open().root
        second = o.open().root
        streams = [(label, opener()) for r in (first, second) for label, opener in sorted(o.item.volumes(r).items())]
        parts = [[] for _ in streams]
        pending = list(range(len(streams)))
        while pending:
            for i in list(pending):
                data = streams[i][1].read(chunk)
                ctx.step()
                if not data:
                    pending.remove(i)
                parts[i].append(data)
        for (label, _), got in zip(streams, parts):
            digest = hashlib.sha1(b"".join(got)).hexdigest()
            ctx.eq(digest, o.expected[1][label], f"{label} in turns of {chunk}")
        o.done()
        ctx.state(chunk)
    ctx.outcome(f"shared {name}")


def order(ctx, name, v, perm):
    o = Opened(ctx, (name, v))
    o.fhs = [o.fhs[i] for i in perm]
    o.open()
    ctx.eq(zoo.contents(o.item, o.root), o.expected[1], f"contents of {name} with its members in the order {perm}")
    ctx.state(perm)
    for fh in o.fhs:
        ctx.eq(fh.abuse, [], "calls on a source")
    ctx.outcome("order")


def pair(ctx, a, b):
    for schedule in SCHEDULES:
        oa, ob = Opened(ctx, tuple(a)), Opened(ctx, tuple(b))
        who = {"A": oa, "B": ob}
        for i in range(0, len(schedule), 2):
            op, x = schedule[i], who[schedule[i + 1]]
            if op == "o":
                x.open()
            else:
                x.read(f"{schedule} step {i // 2}")
            ctx.step()
        oa.done()
        ob.done()
        ctx.state(schedule)
    ctx.outcome("same format" if a[0] == b[0] else "different formats")


def triple(ctx, keys):
    items = [Opened(ctx, tuple(k)) for k in keys]
    for x in items:
        x.open()
    for i in (1, 0, 2, 0, 1):
        items[i].read(f"triple {keys}")
        ctx.step()
    for x in items:
        x.done()
    ctx.state("all opened first")
