"""C31: objects compare by what they describe."""

from __future__ import annotations

import io
import struct
from itertools import product

from vlib import zoo

from checks import c16_lvm_text as c16

PROPERTY = "C31"
BOUNDS = (
    "objects: everything reachable from the 50 opened image sets, each against itself, against the same object of a second "
    "opening and against values of other types; LVM: groups, physical, logical and historical volumes with every subset of "
    "optional fields of the typed checks and every segment kind, all pairs; block descriptors: all pairs of the 243 "
    "descriptors with three values for every field"
)
ASSUMPTIONS = ["objects that describe equal metadata may be distinct when their class does not define a comparison"]

# these describe metadata and nothing else
VALUES = {"VolumeGroup", "PhysicalVolume", "LogicalVolume", "HistoricalLogicalVolume", "BlockDescriptor"}


def cases(tier):
    for inner, variant in product(zoo.MAKERS, (0, 1)):
        yield ("objects", inner, variant)
    for what in ("vg", "pv", "lv", "hlv", "segments", "kinds"):
        yield ("lvm", what)
    for kind in c16.SEGMENTS:
        yield ("segment", kind)
    for first in product(range(3), repeat=2):
        yield ("descriptor", first)


def run(case, ctx):
    globals()[f"run_{case[0]}"](ctx, *case[1:])
    ctx.outcome(case[0])


def compare(ctx, a, b, what):
    """Whether two objects are equal, by all ways of asking."""
    ok, value = ctx.call(lambda: (a == b, b == a, not (a != b), not (b != a)))
    ctx.true(ok, f"{what}: {value!r}")
    ctx.true(all(isinstance(v, bool) for v in value) and len(set(value)) == 1, f"{what}: disagreeing {value}")
    return value[0]


def reachable(it):
    root = it.root([io.BytesIO(s) for s in it.sources])
    seen, out = {}, {}

    def walk(obj, path):
        if id(obj) in seen:
            return
        seen[id(obj)] = obj
        if type(obj).__module__.startswith("dissect.volume"):
            out[path] = obj
            for name, value in list(getattr(obj, "__dict__", {}).items()):
                walk(value, f"{path}.{name}")
        elif isinstance(obj, (list, tuple)):
            for i, value in enumerate(obj):
                walk(value, f"{path}[{i}]")
        elif isinstance(obj, dict):
            for key, value in obj.items():
                walk(value, f"{path}[{key!r}]")

    walk(root, "")
    for label, opener in it.volumes(root).items():
        walk(opener(), label)
    return out


def run_objects(ctx, inner, variant):
    one, two = (reachable(zoo.item(inner, variant)) for _ in range(2))
    for path, obj in one.items():
        kind = type(obj).__name__
        ctx.true(compare(ctx, obj, obj, f"{inner}{path} with itself"), f"{inner}{path} ({kind}) differs from itself")
        for other in (None, 0, "", b"", (), [], {}, object()):
            # enumerations of numbers equal their numbers
            if not isinstance(obj, int):
                ctx.true(not compare(ctx, obj, other, f"{inner}{path} with {other!r}"), f"{inner}{path} equals {other!r}")
        if path in two:
            same = compare(ctx, obj, two[path], f"{inner}{path} with its copy")
            ctx.true(same or kind not in VALUES, f"{inner}{path} ({kind}) differs from its copy")
        ctx.state((inner, path))


def pairs(ctx, variants, pick):
    """``variants`` describe different things; ``pick`` finds the described object in a group."""
    one, two = ([c16.load(ctx, v) for v in variants] for _ in range(2))
    for (i, a), (j, b) in product(enumerate(one), enumerate(two)):
        ctx.eq(compare(ctx, pick(a), pick(b), f"{i} with {j}"), i == j, f"variants {i} and {j}: {variants[i]} {variants[j]}")
        ctx.eq(compare(ctx, a, b, f"groups {i} with {j}"), i == j, f"groups of variants {i} and {j}")
        ctx.state((i, j))
    for a in one:
        a.attach({})
    for (i, a), (j, b) in product(enumerate(one), enumerate(two)):
        ctx.eq(compare(ctx, a, b, f"groups {i} with {j}"), i == j, f"attached groups of variants {i} and {j}")


def chosen(opt):
    return [{k: opt[k] for k in keys} for keys in dict.fromkeys(c16.subsets(opt))]


SEGMENT = {"start_extent": 0, "extent_count": 3, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 0]}


def run_lvm(ctx, what):
    g, pv, lv = c16.group, c16.pv, c16.lv
    if what == "vg":
        pairs(ctx, [g(extra=e) for e in chosen(c16.VG_OPT)], lambda vg: vg)
    elif what == "pv":
        pairs(ctx, [g(pvs={"p": pv(e)}) for e in chosen(c16.PV_OPT)], lambda vg: vg.physical_volumes["p"])
    elif what == "lv":
        pairs(ctx, [g({"l": lv({"segment1": SEGMENT}, e)}) for e in chosen(c16.LV_OPT)], lambda vg: vg.logical_volumes["l"])
    elif what == "hlv":
        pairs(ctx, [g(hlv={"h": {"id": "H", **e}}) for e in chosen(c16.HLV_OPT)],
              lambda vg: vg.historical_logical_volumes["h"])  # fmt: skip
    elif what == "segments":
        changes = ({}, {"start_extent": 1}, {"extent_count": 4}, {"stripes": ["pv0", 1]}, {"stripes": ["pv1", 0]})
        variants = [
            g({"l": lv({f"segment{i + 1}": {**SEGMENT, **c} for i, c in enumerate(cs)})})
            for n in range(3)
            for cs in product(changes, repeat=n)
        ]
        pairs(ctx, variants, lambda vg: vg.logical_volumes["l"])
    else:
        variants = [
            g({"l": lv({"segment1": {"start_extent": 0, "extent_count": 3, "type": kind, **required}})})
            for kind, (required, _) in c16.SEGMENTS.items()
        ]
        pairs(ctx, variants, lambda vg: vg.logical_volumes["l"].segments[0])


def run_segment(ctx, kind):
    required, optional = c16.SEGMENTS[kind]
    variants = [
        c16.group({"l": c16.lv({"segment1": {"start_extent": 3, "extent_count": 5, "type": kind, **required, **opt}})})
        for opt in chosen(optional)
    ]
    pairs(ctx, variants, lambda vg: vg.logical_volumes["l"].segments[0])


def run_descriptor(ctx, first):
    from dissect.volume.vss import BlockDescriptor  # noqa: PLC0415

    values = ((0, 0x4000, 2**40), (0, 0x8000, 2**40 + 1), (0, 0xC000, 2**41), (0, 2, 4), (0, 1, 2**32 - 1))

    def entry(pick):
        return struct.pack("<QQQII", *(v[i] for v, i in zip(values, pick, strict=True)))

    every = [(pick, BlockDescriptor(entry(pick))) for pick in product(range(3), repeat=5)]
    for rest in product(range(3), repeat=3):
        mine = first + rest
        descriptor = BlockDescriptor(entry(mine))
        for pick, other in every:
            ctx.eq(compare(ctx, descriptor, other, f"{mine} with {pick}"), mine == pick, f"descriptors {mine} and {pick}")
            ctx.state((mine, pick))
        for other in (None, 0, "", b"", entry(mine), (), object()):
            ctx.true(not compare(ctx, descriptor, other, f"{mine} with {other!r}"), f"descriptor equals {other!r}")
