"""C05: every opened stream behaves as one fixed byte string under any access history."""

from __future__ import annotations

import io
import itertools

from vlib import src, zoo

PROPERTY = "C05"
BOUNDS = (
    "every operation sequence of length 3 from a fresh stream over 33 operations, of length 4 over 14 of them (thorough: "
    "length 4 over 20, length 5 over 9): seeks to 9 "
    "boundary positions and relative to position and end, reads and peeks of 0 bytes to the rest of the stream, readinto, "
    "tell, the same on a second stream of the same volume, a stream of another volume over the same sources, reopening, "
    "and repositioning every source; for every volume of 25 image sets covering every stream kind; also the same volume "
    "object over sources that were left anywhere"
)
ASSUMPTIONS = ["the sizes of streams are judged by the properties of their formats", "seeks before the start are outside the claim"]


def cases(tier: str):
    for name in zoo.MAKERS:
        for label in zoo.item(name).wants:
            for first in range(len(alphabet(100000))):
                yield (name, label, first)


def alphabet(size):
    mid = size // 2 // 512 * 512
    big = 8192 if size > 8192 else 512
    ops = [("seek", p) for p in (0, 1, 511, big - 1, big, mid + 3, size - 1, size, size + 700)]
    ops += [("cur", -1), ("cur", 513), ("end", 0), ("end", -600)]
    ops += [("read", n) for n in (0, 1, 700, big, big + 1, -1)]
    ops += [("peek", 1), ("peek", big + 5), ("into", 900), ("tell", 0), ("all", 0)]
    ops += [("same", 0, 700), ("same", mid, -1), ("same", size - 5, 100)]
    ops += [("other", 0, 9000), ("other", -1, -1)]
    ops += [("again", mid, 100)]
    ops += [("src", 0), ("src", 1), ("src", -1)]
    # The operations that matter most come first: they are combined into longer sequences
    keep = [
        ("seek", 1), ("seek", big), ("seek", size - 1), ("read", 1), ("read", big), ("peek", big + 5), ("same", mid, -1),
        ("other", 0, 9000), ("src", 1), ("cur", 513), ("read", -1), ("into", 900), ("same", 0, 700), ("again", mid, 100),
    ]  # fmt: skip
    ops = keep + [op for op in ops if op not in keep]
    return ops


class Model:
    def __init__(self, full: bytes):
        self.full = full
        self.pos = 0

    def read(self, n):
        data = self.full[self.pos :] if n < 0 else self.full[self.pos : self.pos + n]
        self.pos += len(data)
        return data


def apply(ctx, op, stream, model, env, path):
    kind = op[0]
    if kind == "seek":
        got, want = stream.seek(op[1]), op[1]
        model.pos = op[1]
    elif kind == "cur":
        if model.pos + op[1] < 0:
            return False
        model.pos += op[1]
        got, want = stream.seek(op[1], io.SEEK_CUR), model.pos
    elif kind == "end":
        if len(model.full) + op[1] < 0:
            return False
        model.pos = len(model.full) + op[1]
        got, want = stream.seek(op[1], io.SEEK_END), model.pos
    elif kind == "read":
        got, want = stream.read(op[1]), model.read(op[1])
    elif kind == "all":
        got, want = stream.read(), model.read(-1)
    elif kind == "peek":
        pos = model.pos
        got, want = stream.peek(op[1]), model.read(op[1])
        model.pos = pos
    elif kind == "into":
        buf = bytearray(op[1])
        n = stream.readinto(buf)
        data = model.read(op[1])
        got, want = (n, bytes(buf)), (len(data), data.ljust(op[1], b"\0"))
    elif kind == "tell":
        got, want = stream.tell(), model.pos
    elif kind == "same":
        got, want = use(env.second(), env.full, op)
    elif kind == "other":
        got, want = use(env.third(), env.other_full, op)
    elif kind == "again":
        got, want = use(env.opener(), env.full, op)
    else:
        for fh, raw in zip(env.fhs, env.item.sources):
            fh.seek(len(raw) * op[1] // 2 if op[1] >= 0 else 0, io.SEEK_END if op[1] < 0 else io.SEEK_SET)
        got = want = None
    ctx.transitions += 1
    if got != want:
        ctx.eq(got, want, f"{path}")
    return True


def use(stream, full, op):
    at = op[1] if op[1] >= 0 else max(0, len(full) - 3000)
    stream.seek(at)
    return stream.read(op[2]), full[at:] if op[2] < 0 else full[at : at + op[2]]


class Env:
    def __init__(self, name, label):
        self.item = zoo.item(name)
        self.fhs = [src.mem(raw) for raw in self.item.sources]
        volumes = self.item.open(self.fhs)
        labels = list(self.item.wants)
        self.opener = volumes[label]
        other = labels[(labels.index(label) + 1) % len(labels)]
        self.other_opener = volumes[other]
        self.full = self.reference(name, label)
        self.other_full = self.reference(name, other)
        self.reset()

    def reference(self, name, label):
        """The expected bytes; where the end of the stream is another matter."""
        volumes = self.item.open([src.mem(raw) for raw in self.item.sources])
        got = volumes[label]().read()
        want = self.item.wants[label]
        n = min(len(got), len(want))
        return want[:n] + got[n:] if got[:n] == want[:n] else want

    def reset(self):
        self._second = self._third = None

    def second(self):
        if self._second is None:
            self._second = self.opener()
        return self._second

    def third(self):
        if self._third is None:
            self._third = self.other_opener()
        return self._third


def run(case, ctx):
    name, label, first = case
    env = Env(name, label)
    ctx.true(len(env.full) > 0, "an empty volume explores nothing")
    ops = alphabet(len(env.full))
    families = [(len(ops), 2), (14, 3)] + ([(20, 3), (9, 4)] if ctx.thorough else [])
    sequences = (t for width, n in families if first < width for t in itertools.product(ops[:width], repeat=n))
    head = ops[first]
    for tail in sequences:
        stream, model = env.opener(), Model(env.full)
        env.reset()
        path = (head, *tail)
        ctx.states += 1
        for op in path:
            if not apply(ctx, op, stream, model, env, path):
                break
            if stream.tell() != model.pos:
                ctx.eq(stream.tell(), model.pos, f"position after {op} in {path}")
    # End with one look at everything
    stream = env.opener()
    ctx.eq(stream.read(), env.full, "everything")
    ctx.outcome(name)
