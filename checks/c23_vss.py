"""C23: shadow copies return the volume as it was when the snapshot was taken."""

from __future__ import annotations

import contextlib
import io
import itertools
import struct
import uuid

from vlib import enc_vss as ev
from vlib import src

PROPERTY = "C23"
BOUNDS = (
    "every history of up to 6 (thorough 7) operations (write one of 3 blocks, take a snapshot, at most 3, change sectors "
    "inside any snapshot's copy of a block) replayed into an on-disk image and read through every snapshot; overlays: every "
    "single sector and boundary sector masks x base in own store, newer store or volume x record order, alone and in pairs; "
    "lists of 0-1600 records and catalogs of up to 130 snapshots across block borders; bitmaps: every bit combination of "
    "own, previous and absent bitmap; forwarded blocks; unused records; last partial block; offsets past 4 GiB and 1 TiB; "
    "catalog entry orders and time orders; damaged signatures; every window between boundary points"
)
ASSUMPTIONS = [
    "the two catalog entries of a snapshot are in their usual order",
    "list blocks are filled completely before the next one starts",
    "repeated overlays of one block share one store block",
    "a block that neither store records and that both bitmaps of the newest store mark reads as zeroes",
    "a forwarded block has one forwarder and is not forwarded again in the same store",
]

B = ev.B
MASKS = [0x00000001, 0x80000000, 0x0000FFFE, 0x55555555, 0xFFFFFFFF, 0x00018000]


def vss(fh):
    from dissect.volume.vss import VSS  # noqa: PLC0415

    return VSS(fh)


def apply(vol, history):
    for i, op in enumerate(history):
        if op[0] == "w":
            vol.write(op[1])
        elif op[0] == "s":
            vol.snapshot()
        else:
            vol.overlay(op[1], op[2], MASKS[(i * 5 + op[2]) % len(MASKS)])


def enabled(snaps):
    out = [("w", b) for b in (1, 2, 3)]
    if snaps < 3:
        out.append(("s",))
    out += [("o", k, b) for k in range(snaps) for b in (1, 2, 3)]
    return out


def histories(depth, prefix=()):
    snaps = sum(1 for op in prefix if op[0] == "s")
    yield prefix
    if len(prefix) < depth:
        for op in enabled(snaps):
            yield from histories(depth, (*prefix, op))


def cases(tier: str):
    depth = 6 if tier == "quick" else 7
    # Groups share their first four operations
    for prefix in histories(4):
        yield ("hist", prefix, depth)
    for base in ("volume", "own", "newer", "own-newer"):
        for order in ("overlay-first", "overlay-last", "around"):
            yield ("mask", base, order)
    for n in (0, 1, 2, 507, 508, 509, 1015, 1016, 1017, 1600):
        for at in ("first", "last"):
            yield ("lists", n, at)
    for n in (0, 1, 2, 3, 62, 63, 64, 65, 127, 128, 130):
        yield ("catalog", n)
    for perm in itertools.permutations(range(3)):
        yield ("times", perm)
        for times in itertools.permutations((0, 1, 2**63)):
            yield ("rawtimes", perm, times)
    for combo in itertools.product((0, 1), (None, 0, 1), (None, 0, 1), (1, 2, 3)):
        yield ("bitmap", *combo)
    for stores in (1, 2, 3):
        for k in range(stores):
            for target in ("plain", "kept"):
                yield ("forward", stores, k, target)
        yield ("forward", stores, stores - 1, "marked")
        yield ("forward", stores, stores - 1, "marked twice")
    for flags in range(4, 8):
        yield ("unused", flags)
    for tail in (0, 512, 4096, B - 512, B - 4096, B - 1):
        for state in ("volume", "own", "newer", "overlay"):
            yield ("tail", tail, state)
    for shift in (32, 33, 40, 50):
        yield ("far", shift)
    for stores in (1, 2, 3):
        yield ("windows", stores)
    yield ("identity",)
    yield ("refuse",)


def run(case, ctx):
    noise = io.StringIO()
    with contextlib.redirect_stdout(noise):
        globals()["run_" + case[0]](ctx, *case[1:])
    ctx.outcome(case[0] + (" " + str(case[1]) if case[0] in ("mask", "lists", "catalog", "tail", "far") else ""))


def check_all(ctx, vol, fh, blocks, what):
    v = vss(fh)
    ctx.eq(len(v.catalog.stores), len(vol.stores), f"{what}: number of snapshots")
    for k, store in enumerate(v.catalog.stores):
        stream = store.open()
        stream.seek(blocks[0] * B)
        want = vol.expect(k, blocks[0], len(blocks))
        got = stream.read(len(want))
        if got != want:
            for i, b in enumerate(blocks):
                ctx.eq(got[i * B : (i + 1) * B], want[i * B : (i + 1) * B], f"{what}: snapshot {k} block {b}")
            ctx.fail(f"{what}: snapshot {k}: {len(got)} bytes, expected {len(want)}")
        ctx.step()
    return v


def run_hist(ctx, prefix, depth):
    group = histories(depth, prefix) if len(prefix) == 4 else [prefix]
    for history in group:
        vol = ev.Volume(6)
        apply(vol, history)
        if not vol.stores:
            ctx.state(history)
            continue
        vol.stores[-1].clear = {4}
        ctx.state(history)
        check_all(ctx, vol, vol.image(), [1, 2, 3], str(history))
        ctx.outcome(f"{len(vol.stores)} snapshots, {len(vol.raw)} stored blocks")


def run_mask(ctx, base, order):
    masks = [1 << i for i in range(32)]
    masks += [0, 0xFFFFFFFF, 0xFFFFFFFE, 0x7FFFFFFF, 0x0000FFFF, 0xFFFF0000, 0xAAAAAAAA, 0x55555555, 0x00FF00FF]
    pairs = [(m, None) for m in masks] + [(a, b) for a in (1, 0x80000000, 0xFF, 0xFFFFFFFF) for b in (1, 0x100, 0x1FE, 0xFFFFFFFF)]
    for first, second in pairs:
        vol = ev.Volume(6)
        vol.snapshot()

        def put_overlay(n=0, vol=vol, ms=(first, second)):
            vol.overlay(n, 2, ms[0])
            if ms[1] is not None:
                vol.overlay(n, 2, ms[1])

        if order != "overlay-last":
            put_overlay()
        if base in ("own", "own-newer"):
            vol.write(2)
        if base in ("newer", "own-newer"):
            vol.snapshot()
            vol.write(2)
            vol.write(2)
        if order != "overlay-first" and second is not None:
            vol.overlay(0, 2, second)
        if order == "overlay-last":
            put_overlay()
        if base != "volume" and first & 1:
            # One in the newer snapshot does not show in the older one
            vol.overlay(len(vol.stores) - 1, 2, 0x0F0F0000)
        check_all(ctx, vol, vol.image(), [1, 2, 3], f"masks {first:#x}, {second}")
        ctx.state((first, second))


def run_lists(ctx, n, at):
    """One snapshot that preserved n blocks."""
    vol = ev.Volume(n + 8, meta=4000)
    vol.snapshot()
    for b in range(1, n + 1):
        vol.write(b if at == "first" else n + 1 - b)
    vol.overlay(0, 3, 0x10)
    if n > 2:
        vol.write(2)
    fh = vol.image()
    stream = vss(fh).catalog.stores[0].open()
    for b in sorted({1, 2, 3, n // 2, 506, 507, 508, 509, 510, 1015, 1016, 1017, 1018, n - 1, n, n + 1, n + 2}):
        if 1 <= b <= n + 4:
            stream.seek(b * B)
            ctx.eq(stream.read(B), vol.view(0, b), f"block {b} of {n}")
            ctx.state((n, b))
    stream.seek(B)
    want = vol.expect(0, 1, min(n + 3, 600))
    ctx.eq(stream.read(len(want)), want, "all blocks")


def run_catalog(ctx, n):
    """n snapshots, a write of block 1 between any two; also with dropped entries in between."""
    for gaps in ("none", "front", "between"):
        vol = ev.Volume(4, meta=8)
        for _ in range(n):
            vol.snapshot()
            vol.write(1)
        hole = struct.pack("<Q", 1).ljust(128, b"\x07")

        def arrange(entries, gaps=gaps, hole=hole):
            out = [hole] if gaps == "front" else []
            for a, b in entries:
                out += [a, b] if gaps != "between" else [a, hole, b]
            return out

        v = vss(vol.image(arrange))
        ctx.eq([s.copy_identifier for s in v.catalog.stores], [s.copy_id for s in vol.stores], "snapshots, oldest first")
        for k in sorted({0, 1, n // 2, n - 2, n - 1}):
            if 0 <= k < n:
                stream = v.catalog.stores[k].open()
                stream.seek(B)
                ctx.eq(stream.read(B), vol.view(k, 1), f"snapshot {k} of {n}")
                ctx.state((n, gaps, k))


def run_times(ctx, perm):
    """Entries in any order are listed by creation time; interleaved entries of different snapshots."""
    for shape in ("pairs", "grouped", "nested"):
        vol = ev.Volume(6)
        for _ in range(3):
            vol.write(1)
            vol.snapshot()
            vol.write(2)
        vol.write(1)

        def arrange(entries, shape=shape):
            chosen = [entries[i] for i in perm]
            if shape == "grouped":
                return [e[0] for e in chosen] + [e[1] for e in chosen]
            if shape == "nested":
                return [chosen[0][0], chosen[1][0], chosen[1][1], chosen[0][1], *chosen[2]]
            return [e for pair in chosen for e in pair]

        v = check_all(ctx, vol, vol.image(arrange), [1, 2, 3], f"entries {perm} {shape}")
        ctx.eq([s.creation_time for s in v.catalog.stores], [s.time for s in vol.stores], "creation times")
        ctx.eq([s.copy_identifier for s in v.catalog.stores], [s.copy_id for s in vol.stores], "identities")
        ctx.state(shape)


def run_rawtimes(ctx, perm, times):
    vol = ev.Volume(6)
    for i in range(3):
        vol.snapshot(times[i])
    v = vss(vol.image(lambda entries: [e for i in perm for e in entries[i]]))
    order = sorted(range(3), key=lambda i: times[i])
    ctx.eq([s.copy_identifier for s in v.catalog.stores], [vol.stores[i].copy_id for i in order], "oldest first")
    ctx.eq([s.creation_time for s in v.catalog.stores], sorted(times), "times")
    ctx.state(perm)


def run_bitmap(ctx, own, prev, old_own, block):
    """Block ``block`` was never written; bits as given (1: set) in the newest store and, if any, the older one."""
    for stores in (1, 2):
        vol = ev.Volume(6)
        for _ in range(stores):
            vol.snapshot()
        new = vol.stores[-1]
        new.clear = set() if own else {block}
        new.prev_clear = None if prev is None else (set() if prev else {block})
        if stores == 2:
            vol.stores[0].clear = set() if old_own else {block}
            vol.stores[0].prev_clear = None if old_own is None else set()
        zero = not own and not prev
        for written in (False, True):
            if written:
                vol.write(block)
            v = vss(vol.image())
            for k in range(stores):
                stream = v.catalog.stores[k].open()
                for b in (1, 2, 3):
                    want = bytes(B) if (zero and not written and b == block) else vol.view(k, b)
                    stream.seek(b * B)
                    ctx.eq(stream.read(B), want, f"snapshot {k} block {b} (written: {written})")
            ctx.state((stores, written))


def run_forward(ctx, stores, k, target):
    """Store k says that its block 1 is what the next newer state has as block 4."""
    vol = ev.Volume(8)
    for i in range(stores):
        vol.snapshot()
        if i == k:
            vol.stores[k].descriptors.append((1 * B, 4 * B, 0, ev.FORWARDER, 0))
        if target == "kept" and i == k + 1:
            vol.write(4)
        vol.write(2)
    if target.startswith("marked"):
        vol.stores[k].clear = {4}
    if target == "marked twice":
        vol.stores[k].prev_clear = {4}
    v = vss(vol.image())
    old4 = src.pattern(vol.tag, 4 * B, B)
    for i, store in enumerate(v.catalog.stores):
        stream = store.open()
        stream.seek(B)
        got = stream.read(3 * B)
        first = old4 if i <= k else src.pattern(vol.tag, B, B)
        ctx.eq(got, first + vol.expect(i, 2, 2), f"snapshot {i}, forwarder in {k}")
        # the block it was moved to is there as well, also when the bitmaps say that it was not in use
        ctx.eq(stream.read(B), vol.expect(i, 4, 1), f"snapshot {i}, target of the forwarder in {k}")
        ctx.state((i, k, target))


def run_unused(ctx, flags):
    for when in ("before", "after", "only"):
        vol = ev.Volume(6)
        vol.snapshot()
        junk = (2 * B, 3 * B, 5 * B, flags, 0xFFFFFFFF)
        if when == "before":
            vol.stores[0].descriptors.append(junk)
        if when != "only":
            vol.write(2)
        if when != "before":
            vol.stores[0].descriptors.append(junk)
        vol.write(3)
        check_all(ctx, vol, vol.image(), [1, 2, 3, 4], f"unused record {flags} {when}")
        ctx.state(when)


def run_tail(ctx, tail, state):
    """The volume ends inside its last block (5)."""
    vol = ev.Volume(6, tail=tail, meta=20)
    vol.snapshot()
    if state == "overlay":
        vol.overlay(0, 5, 0xFFFF)
    if state == "own":
        vol.write(5)
    if state == "newer":
        vol.snapshot()
        vol.write(5)
    v = vss(vol.image())
    want = vol.expect(0, 1, 5)[: 5 * B - tail]
    store = v.catalog.stores[0]
    ctx.eq(store.volume_size, 6 * B - tail, "volume size")
    stream = store.open()
    ctx.eq(stream.size, 6 * B - tail, "stream size")
    for at in (B, 4 * B + 1, 5 * B, 6 * B - tail - 1, 6 * B - tail, 6 * B):
        for n in (1, 512, B, 10 * B, -1):
            stream.seek(at)
            lo = at - B
            ctx.eq(stream.read(n), want[lo:] if n < 0 else want[lo : lo + n], f"read({n}) at {at}")
            ctx.state((at, n))


def run_far(ctx, shift):
    """Preserved blocks, their copies and all metadata far away."""
    far = (1 << shift) // B
    vol = ev.Volume(6, meta=far + 100, size=(1 << shift) + 64 * B)
    vol.snapshot()
    blocks = [far - 1, far, far + 1, 3]
    for b in blocks:
        vol.write(b)
    vol.overlay(0, far + 1, 0x80000001)
    if shift <= 33:
        vol.stores[0].clear = {far + 3, 4}
    nbytes = (far + 64) // 8 + 8 if shift <= 33 else B - 128
    stream = vss(vol.image(bitmap_bytes=nbytes)).catalog.stores[0].open()
    ctx.eq(stream.size, (1 << shift) + 64 * B, "size")
    for b in blocks + ([far + 2, far + 4, 5] if shift <= 33 else []):
        stream.seek(b * B)
        ctx.eq(stream.read(B), vol.view(0, b), f"block {b:#x}")
        ctx.state((shift, b))
    if shift <= 33:
        for b in (far + 3, 4):
            stream.seek(b * B)
            ctx.eq(stream.read(B), bytes(B), f"block {b:#x}")


def run_windows(ctx, stores):
    vol = ev.Volume(6)
    for i in range(stores):
        vol.snapshot()
        vol.write(2)
        vol.overlay(i, 3, 0x3 << i)
        vol.write(1 + 2 * (i % 2))
    v = vss(vol.image())
    pts = [B, B + 1, B + 511, B + 512, 2 * B - 1, 2 * B, 2 * B + 513, 3 * B - 512, 3 * B, 3 * B + 512, 3 * B + 1024, 4 * B - 1, 4 * B, 5 * B]
    for k, store in enumerate(v.catalog.stores):
        stream = store.open()
        want = vol.expect(k, 1, 4)
        for a in pts:
            for b in pts:
                if b > a:
                    stream.seek(a)
                    ctx.eq(stream.read(b - a), want[a - B : b - B], f"snapshot {k} [{a}:{b}]")
                    ctx.state((k, a, b))
        # Block 0 holds the volume's own header
        whole = store.open()
        raw = v.fh
        raw.seek(0)
        first = raw.read(B)
        ctx.eq(whole.read(B + 8), first + want[:8], "block 0")


def run_identity(ctx):
    for names in (("", ""), ("a", "b"), ("host.example.org", "x" * 60), ("hé", "中文")):
        for values in ((1, 2, 3, 4), (2**128 - 1, 0, 2**127, 0x00112233445566778899AABBCCDDEEFF)):
            vol = ev.Volume(6)
            s = vol.snapshot(2**62 + 5)
            s.machine, s.service = names
            s.copy_id, s.set_id = uuid.UUID(int=values[0]), uuid.UUID(int=values[1])
            fh = vol.image()
            fh.put(ev.HDR, b"")
            header = ev.volume_header(vol.places["catalog.0"], ev.ID, uuid.UUID(int=values[2]).bytes_le, uuid.UUID(int=values[3]).bytes_le)
            fh = src.PatternFile(fh.length, fh.tag, dict(zip(fh.starts, fh.datas)) | {ev.HDR: header})
            v = vss(fh)
            ctx.eq(v.volume_identifier, uuid.UUID(int=values[2]), "volume identifier")
            ctx.eq(v.store_volume_identifier, uuid.UUID(int=values[3]), "store volume identifier")
            store = v.catalog.stores[0]
            ctx.eq(store.copy_identifier, s.copy_id, "copy identifier")
            ctx.eq(store.copy_set_identifier, s.set_id, "copy set identifier")
            ctx.eq(store.creation_time, s.time, "creation time")
            ctx.eq(store.information.operating_machine, names[0], "operating machine")
            ctx.eq(store.information.service_machine, names[1], "service machine")
            ctx.eq(store.volume_size, 6 * B, "volume size")
            ctx.state((names, values))
    # The list of ranges
    vol = ev.Volume(6)
    vol.snapshot()
    v = vss(vol.image())
    got = [(int(e.store_offset), int(e.relative_offset), int(e.size)) for e in v.catalog.stores[0].range_list.entries]
    ctx.eq(got, [(vol.places["header0"], 0, B)], "store ranges")
    for n in (0, 1, 2, 3, 4, 8, 31, 32, 33, 127, 128, 255, 256, 300, 675, 676, 677):
        vol = ev.Volume(6)
        vol.snapshot()
        vol.ranges = [((i + 1) * B << i % 40, i * B, (i % 7 + 1) * B) for i in range(n)]
        entries = vss(vol.image()).catalog.stores[0].range_list.entries
        ctx.eq([(int(e.store_offset), int(e.relative_offset), int(e.size)) for e in entries], vol.ranges, f"{n} store ranges")
        ctx.state(("ranges", n))


def run_refuse(ctx):
    vol = ev.Volume(6)
    vol.snapshot()
    vol.write(1)
    for i in range(16):
        for flip in (1, 0x80, 0xFF):
            bad = bytearray(ev.ID)
            bad[i] ^= flip
            vol.next_meta = 20
            ctx.raises(vss, vol.image(ident=bytes(bad)), what=f"signature byte {i} changed")
            vol.next_meta = 20
            fh = vol.image()
            fh.put(vol.places["catalog.0"], bytes(bad))
            ctx.raises(vss, fh, what=f"catalog signature byte {i} changed")
            vol.next_meta = 20
            fh = vol.image()
            fh.put(vol.places["header0"], bytes(bad))
            ctx.raises(vss, fh, what=f"store signature byte {i} changed")
            ctx.state((i, flip))
    vol.next_meta = 20
    ctx.raises(vss, vol.image(catalog_offset=0), what="no catalog")
    for size in (0, 1, ev.HDR, ev.HDR + 511):
        ctx.raises(vss, src.mem(bytes(size)), what=f"{size} zero bytes")
    ctx.raises(vss, src.mem(bytes(1 << 20)), what="zeroes")
    ctx.raises(vss, src.PatternFile(1 << 20, 5), what="something else")
    for name, kinds in (("list0.0", (0, 2, 4, 5, 6)), ("bitmap0.0", (0, 2, 3, 4, 5))):
        for kind in kinds:
            vol.next_meta = 20
            fh = vol.image()
            fh.put(vol.places[name] + 20, struct.pack("<I", kind))
            stream = vss(fh).catalog.stores[0].open()
            stream.seek(2 * B)
            ctx.raises(stream.read, B, what=f"{name} of kind {kind}")
    # An entry of an unknown kind, and a snapshot without its data entry
    for kind in (4, 5, 255, 2**32 + 2):
        vol.next_meta = 20
        ctx.raises(vss, vol.image(lambda e, kind=kind: [*e[0], struct.pack("<Q", kind).ljust(128, b"\x01")]), what="unknown entry")
    vol.next_meta = 20
    ctx.raises(vss, vol.image(lambda e: [e[0][0]]), what="a snapshot without its data entry")
    # Entries behind the end of the list do not count
    vol.next_meta = 20
    v = vss(vol.image(lambda e: [*e[0], bytes(128), struct.pack("<Q", 77).ljust(128, b"\x01")]))
    ctx.eq(len(v.catalog.stores), 1, "entries behind the end")
