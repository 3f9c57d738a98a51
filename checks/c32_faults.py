"""C32: a source that fails is reported, never taken for other data, and can be read again."""

from __future__ import annotations

import io
from functools import lru_cache

from vlib import zoo

PROPERTY = "C32"
BOUNDS = (
    "50 image sets (25 formats or kinds x 2 variants): every single read of a source during opening, listing and reading "
    "every volume at 6 places fails once, or that source fails from then on until it is repaired; every pair of reads fails "
    "(LVM: those at most 24 apart; thorough: all); after each failure the step is repeated, read through a new stream, "
    "and everything before it done again through the objects that are already open; finally all is opened again over the same sources"
)
ASSUMPTIONS = [
    "the position of a stream after a failed read is not claimed: it is sought again",
    "an error may be passed on or replaced by another one, and redundant metadata may be used instead",
    "a disk with valid tables of several schemes may be taken for another of them when the first cannot be read (any error "
    "of one scheme makes the detection try the next, also on devices that fail behind their end)",
]
CASE_CPU_SECONDS = 200
GROUP = 20
NEAR = 24
SLOW = ("lvm",)
TABLES = ("mbr", "gpt", "apm", "bsd", "bsd64")


class Failing(io.RawIOBase):
    """A source over bytes whose reads are counted over all sources of a set."""

    def __init__(self, raw, line, index):
        super().__init__()
        self.inner = io.BytesIO(raw)
        self.line = line
        self.index = index

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.inner.tell()

    def seek(self, *args):
        return self.inner.seek(*args)

    def read(self, n=-1):
        self.line.step(self.index)
        return self.inner.read(n)

    def readinto(self, b):
        self.line.step(self.index)
        return self.inner.readinto(b)

    def readall(self):
        return self.read()


class Line:
    """Fails the reads with these numbers; if ``stay``, also all further ones of that source until repaired."""

    def __init__(self, at=(), stay=False):
        self.n = 0
        self.at = at
        self.stay = stay
        self.dead = None
        self.hits = 0

    def step(self, index):
        n, self.n = self.n, self.n + 1
        if n in self.at:
            if self.stay:
                self.dead = index
        elif self.dead != index:
            return
        self.hits += 1
        raise OSError(5, "Input/output error")

    def repair(self):
        self.dead = None


class Session:
    """Open a set, look at it and read every volume in it, step by step; a step can be repeated."""

    def __init__(self, name, variant, line):
        self.tables = name in TABLES
        self.it = zoo.item(name, variant)
        self.fhs = [Failing(raw, line, i) for i, raw in enumerate(self.it.sources)]
        self.root = None
        self.openers = {}
        self.streams = {}

    def open(self):
        if self.tables:
            self.fhs[0].seek(0)
        self.root = self.it.root(self.fhs)

    def describe(self):
        return zoo.describe(self.root)

    def volumes(self):
        self.openers = self.it.volumes(self.root)
        return sorted(self.openers)

    def stream(self, label):
        self.streams[label] = self.openers[label]()

    def read(self, label, at, n):
        fh = self.streams[label]
        fh.seek(at)
        return fh.read(n)

    def fresh(self, label, at, n):
        fh = self.openers[label]()
        fh.seek(at)
        return fh.read(n)


def places(size):
    return [(0, 5000), (max(0, size - 700), 700), (max(0, size // 2 - 4099), 9000), (0, -1), (1, 511), (size // 3, 100)]


@lru_cache(maxsize=4)
def reference(name, variant):
    """The steps of a session with what each gives, and the number of reads they take."""
    line = Line()
    s = Session(name, variant, line)
    steps = [("open", (), s.open()), ("describe", (), s.describe()), ("volumes", (), s.volumes())]
    full = {label: s.openers[label]().read() for label in s.openers}
    for label in s.openers:
        data = full[label]
        steps.append(("stream", (label,), None))
        for at, n in places(len(data)):
            steps.append(("read", (label, at, n), data[at:] if n < 0 else data[at : at + n]))
    line = Line()
    s = Session(name, variant, line)
    for step, args, want in steps:
        if getattr(s, step)(*args) != want:
            raise AssertionError(f"{name}: {step} {args} is not repeatable")
    return steps, line.n


def cases(tier):
    for name in zoo.MAKERS:
        for variant in (0, 1):
            _, n = reference(name, variant)
            for first in range(0, n, GROUP):
                yield ("one", name, variant, first, min(n, first + GROUP))
                yield ("stay", name, variant, first, min(n, first + GROUP))
            if variant == 0:
                near = NEAR if name in SLOW and tier == "quick" else n
                for first in range(0, n, 4):
                    yield ("two", name, variant, first, min(n, first + 4), near)


def run(case, ctx):
    kind, name, variant, first, last, *near = case
    for at in range(first, last):
        if kind == "two":
            for second in range(at + 1, at + 1 + near[0]):
                fault(ctx, name, variant, (at, second), False)
        else:
            fault(ctx, name, variant, (at,), kind == "stay")


def fault(ctx, name, variant, at, stay):
    steps, _ = reference(name, variant)
    line = Line(at, stay)
    s = Session(name, variant, line)
    ctx.state((name, variant, at, stay))
    for i, (step, args, want) in enumerate(steps):
        what = f"read {' and '.join(map(str, at))} fails{' and all later ones' if stay else ''}: {step} {args}"
        failed = attempt(ctx, line, getattr(s, step), args, want, what)
        if not failed or step == "open":
            continue
        if step == "read":
            attempt(ctx, line, s.fresh, args, want, f"{what}: afterwards, with a new stream")
        # What was open before
        for other, oargs, owant in steps[1 : i + 1]:
            if other != "stream":
                attempt(ctx, line, getattr(s, other), oargs, owant, f"{what}: then {other} {oargs}")
    ctx.true(line.hits > 0, f"read {at} never happened")
    attempt(ctx, line, s.open, (), None, "open everything again")
    attempt(ctx, line, s.describe, (), steps[1][2], f"read {at} failed: description when opened again")


def attempt(ctx, line, fn, args, want, what):
    """Repeat until nothing fails; every error has a failed read behind it."""
    failed = False
    while True:
        hits = line.hits
        ok, got = ctx.call(fn, *args)
        ctx.transitions += 1
        if ok:
            ctx.eq(got, want, what)
            if line.hits > hits:
                ctx.outcomes[f"{fn.__name__}: got by without"] += 1
            return failed
        ctx.true(line.hits > hits, f"{what}: {got!r} without a failure{' any more' if failed else ''}")
        ctx.outcomes[f"{fn.__name__}: {type(got).__name__}"] += 1
        line.repair()
        failed = True
