"""C27: volumes inside volumes return the same as on plain files."""

from __future__ import annotations

import io

from vlib import stack, zoo

PROPERTY = "C27"
BOUNDS = (
    "24 kinds of containers (bare reader, run list, mapped, shifted and open-ended streams, partition of every scheme and "
    "of a nested label, linear, RAID 0/5/6/10, MD linear/0/1, DDF, vinum, physical volumes, plain and striped logical "
    "volumes, thin devices) x 25 kinds of image sets inside: every pair, and every ordered pair of containers around every "
    "one of the 25 (stacks of three), except as assumed below; all members of a set in one container, so that they share "
    "its sources; each read as a whole, in turns of unaligned pieces over all volumes, and backwards"
)
ASSUMPTIONS = [
    "containers whose recorded size may exceed the contents (GPT, see the known finding of C12, and striped logical "
    "volumes) hold no sets or containers whose metadata is found from the end of the device",
    "a run list stream of dissect.util is not put over another one, or over a physical volume: that class ignores the inner runs",
]

FROM_END = {"md-0.90", "md-1.0", "ddf", "ddf-concat"}
OPEN = {"bare", "relative"}  # end where the source ends
LAYERS = list(stack.LAYERS)


def cases(tier):
    for inner in zoo.MAKERS:
        yield ("stack", (), inner)
        for layer in LAYERS:
            if fits(layer, inner):
                yield ("stack", (layer,), inner)
        for outer in LAYERS:
            for layer in LAYERS:
                if fits(layer, inner) and not clash(layer, outer) and (layer not in OPEN or fits(outer, inner)):
                    yield ("stack", (layer, outer), inner)


def clash(layer, outer):
    if layer == "runlist" and outer in ("runlist", "pv"):
        return True
    return outer in stack.LONGER and layer in ("md-raid1", "ddf")


def fits(layer, inner):
    return not (layer in stack.LONGER and inner in FROM_END)


def run(case, ctx):
    _, layers, inner = case
    it = zoo.item(inner)
    blobs = [stack.pad(s) for s in it.sources]
    plain = it.root([io.BytesIO(b) for b in blobs])
    openers = []
    for layer in layers:
        blobs, opener = stack.LAYERS[layer](blobs)
        blobs = [stack.pad(b) for b in blobs]
        openers.append(opener)
    fhs = [io.BytesIO(b) for b in blobs]
    for opener in reversed(openers):
        fhs = opener(fhs)
    root = it.root(fhs)
    if not stack.LONGER & set(layers):
        ctx.eq(zoo.describe(root), zoo.describe(plain), "description")
    streams = {}
    for label, opener in it.volumes(root).items():
        streams[label] = opener()
    wants = {}
    for label, opener in it.volumes(plain).items():
        size = len(opener().read())
        wants[label] = it.wants[label][:size]
    ctx.eq(sorted(streams), sorted(wants), "volumes")
    for label, fh in streams.items():
        ctx.eq(fh.read(len(wants[label])), wants[label], f"{label}: everything")
    # in turns
    step = 3 * 512 + 7
    for fh in streams.values():
        fh.seek(0)
    for at in range(0, max(len(w) for w in wants.values()), step):
        for label, fh in streams.items():
            want = wants[label][at : at + step]
            if want:
                ctx.eq(fh.read(len(want)), want, f"{label}: {at}")
    # backwards
    for label, fh in streams.items():
        for at in range(len(wants[label]) // 4096 * 4096, -1, -4096):
            fh.seek(at)
            want = wants[label][at : at + 100]
            ctx.eq(fh.read(len(want)), want, f"{label}: back at {at}")
    ctx.state((layers, inner))
    ctx.outcome(" in ".join((inner, *layers[:1])) if len(layers) < 2 else "stack of three")
