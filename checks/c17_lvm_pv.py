"""C17: LVM physical volumes and their metadata are found on every valid device layout."""

from __future__ import annotations

import itertools
from datetime import datetime, timezone

from vlib import enc_lvm, src

PROPERTY = "C17"
BOUNDS = (
    "label: sectors 0-5 x header offsets 32/64/256 x contents of the other sectors x device sizes (to 2^63) x data areas "
    "(count 0-3, offset to 2^41, size 0 or given) x 0-2 metadata areas, read through the device stream and by sectors; "
    "text: metadata areas at 4096/8192/2^20/2^40 of 4 sizes x text positions (every 512 bytes and every byte within 3 of "
    "the wrap) x lengths ending within 3 bytes of the end x stale text around it x pending second copy x two-area "
    "combinations of current/empty/ignored; group: 1-4 devices x every assignment of current/none/empty/ignored/stale "
    "metadata x every supply order x file or device objects; many: 2-17/25/33/40 devices x every position of the newest "
    "metadata x the others of falling or rising age, all one older, or without"
)
ASSUMPTIONS = [
    "labels and metadata carry valid checksums (the library does not verify them)",
    "devices of one group with metadata of the same sequence number carry the same text",
]

MB = 1 << 20


def vg_tree(uuids, seqno=7, extents=4, lvs=None, pe_start=2048):
    pvs = {
        f"pv{i}": {
            "id": enc_lvm.dashed(u), "device": f"/dev/sd{i}", "status": ["ALLOCATABLE"], "flags": [],
            "dev_size": 4096, "pe_start": pe_start, "pe_count": extents,
        }
        for i, u in enumerate(uuids)
    }  # fmt: skip
    lvs = lvs if lvs is not None else {"all": [(i, 0) for i in range(len(uuids))]}
    out = {
        "id": "vgid", "seqno": seqno, "format": "lvm2", "status": ["RESIZEABLE"], "flags": [], "extent_size": 8,
        "max_lv": 0, "max_pv": 0, "metadata_copies": 0, "physical_volumes": pvs, "logical_volumes": {},
    }  # fmt: skip
    for name, parts in lvs.items():
        segs = {
            f"segment{k + 1}": {
                "start_extent": k, "extent_count": 1, "type": "striped", "stripe_count": 1, "stripes": [f"pv{p}", e],
            }
            for k, (p, e) in enumerate(parts)
        }  # fmt: skip
        out["logical_volumes"][name] = {
            "id": f"id-{name}", "status": ["READ", "VISIBLE"], "flags": [], "segment_count": len(segs), **segs,
        }  # fmt: skip
    return out


def cases(tier: str):
    for sector in range(6):
        for hoff in (32, 64, 256):
            for other in ("zero", "near", "second", "pattern"):
                yield ("label", sector, hoff, other)
    for areas in range(4):
        for size in (0, MB, 512):
            yield ("areas", areas, size)
    for short in range(0, 2049, 128):
        yield ("short", short)
    for start, size in ((4096, 4096), (8192, 4096), (MB, 8192), (1 << 40, 4608), (4096, 131072)):
        step = 512 if size <= 8192 else 32768
        offs = set(range(512, size, step)) | set(range(size - 4, size))
        for off in sorted(offs):
            for delta in (-3, -2, -1, 0, 1, 2, 3, 200, "full"):
                yield ("text", start, size, off, delta)
        for length in ("max", "max-1"):
            for off in sorted(offs):
                yield ("text", start, size, off, length)
    for first, second in itertools.product(("current", "empty", "ignored", "ignored-stale"), repeat=2):
        yield ("two", first, second)
    kinds = ("current", "none", "empty", "ignored", "stale")
    for n in (1, 2, 3, 4):
        for assign in itertools.product(kinds, repeat=n):
            yield ("group", assign)
    for n in (*range(2, 18), 25, 33, 40):
        for at in range(n):
            yield ("many", n, at)
    for n in (1, 2, 3):
        for present in itertools.product((0, 1), repeat=n):
            yield ("partial", present)
    for ct in (None, 0, 1, 1600000000, 2**31, 2**32):
        yield ("top", ct)


def refused(ctx, fn, what):
    ok, val = ctx.call(fn)
    ctx.step()
    if ok:
        ctx.fail(f"{what}: accepted as {val!r}")


def run(case, ctx):
    from dissect.volume.lvm.physical import LVM2Device  # noqa: PLC0415

    kind = case[0]
    if kind == "label":
        run_label(ctx, LVM2Device, *case[1:])
    elif kind == "areas":
        _, areas, size = case
        uuid = enc_lvm.uuid_of(1)
        descs = [(MB * (i + 1), size) for i in range(areas)]
        fh = enc_lvm.device(uuid, 8 * MB, MB, 5, data_areas=descs)
        if areas == 1:
            check_device(ctx, LVM2Device(fh), fh, uuid, 8 * MB, MB, size)
        else:
            refused(ctx, lambda: LVM2Device(fh), f"{areas} data areas")
        ctx.outcome(f"{areas} areas")
    elif kind == "short":
        # Nothing but a truncated device without a label
        refused(ctx, lambda: LVM2Device(src.mem(bytes(case[1]))), f"{case[1]} zero bytes")
        refused(ctx, lambda: LVM2Device(src.mem(src.pattern(3, 0, case[1]))), f"{case[1]} bytes without label")
        ctx.outcome("refused")
    elif kind == "text":
        run_text(ctx, LVM2Device, *case[1:])
    elif kind == "two":
        run_two(ctx, LVM2Device, *case[1:])
    elif kind == "group":
        run_group(ctx, LVM2Device, tuple(case[1]))
    elif kind == "many":
        run_many(ctx, *case[1:])
    elif kind == "partial":
        run_partial(ctx, tuple(case[1]))
    else:
        run_top(ctx, case[1])


def check_device(ctx, dev, fh, uuid, size, data_offset, data_size=0):
    ctx.eq(dev.id, uuid, "identity")
    ctx.eq(dev.size, size, "size")
    stream = dev.open()
    end = min(size, data_size or size, fh.length - data_offset)
    for off in {0, 1, 511, 512, 8191, 8192, max(0, end - 700), max(0, end - 512)}:
        for length in (1, 512, 700):
            if off >= end:
                continue
            length = min(length, end - off)
            ctx.step()
            stream.seek(off)
            ctx.eq(stream.read(length), fh.at(data_offset + off, length), f"data area at {off}+{length}")
    for sector, count in ((0, 1), (0, 3), (1, 2), (7, 9), (end // 512 - 1, 1), (end // 512 - 4, 4)):
        if 0 <= sector and (sector + count) * 512 <= end:
            got = dev.read_sectors(sector, count)
            ctx.eq(got, fh.at(data_offset + sector * 512, count * 512), f"sectors {sector}+{count}")


def run_label(ctx, LVM2Device, sector, hoff, other):
    uuid, stale = enc_lvm.uuid_of(1), enc_lvm.uuid_of(2)
    text = enc_lvm.text_bytes(enc_lvm.group_tree(vg_tree([uuid])))
    for dsize, doff in ((4 * MB, MB), (4 * MB, 64 * 1024), (1 << 42, 1 << 41), (2**63, MB), (8 * MB, 4 * MB), (0, MB)):
        flen = max(4 * MB, doff + 2 * MB) if dsize < 2**60 else 4 * MB
        for dlen in (0, MB):
            for mdas in (0, 1, 2):
                areas = [(MB // 2 + i * 65536, 65536, enc_lvm.mda(MB // 2 + i * 65536, 65536, text, 512)) for i in range(mdas)]
                fh = enc_lvm.device(uuid, flen, doff, 5, areas, sector, dsize, dlen, hoff)
                for s in range(6):
                    if s == sector:
                        continue
                    if other == "near":
                        for i, word in enumerate((b"LABELONF", b"labelone", b"LABELTWO", b"\x00LABELON")):
                            if s % 4 == i:
                                fh.put(s * 512, word)
                    elif other == "second" and s > sector:
                        fh.put(s * 512, enc_lvm.label_sector(s, stale, 77, [(0, 0)], []))
                    elif other == "pattern":
                        fh.put(s * 512, src.pattern(9, s * 512, 512))
                ctx.state((sector, hoff, other, dsize, doff, dlen, mdas))
                if sector > 3 and other != "second":
                    refused(ctx, lambda fh=fh: LVM2Device(fh), f"label in sector {sector}")
                    ctx.outcome("refused")
                    continue
                if sector > 3:
                    continue
                dev = LVM2Device(fh)
                check_device(ctx, dev, fh, uuid, dsize, doff, dlen)
                if mdas:
                    got = {k: v for k, v in dev.metadata.items() if k != "_raw"}
                    ctx.eq(got, enc_lvm.group_tree(vg_tree([uuid])), "metadata")
                else:
                    ctx.true(not dev.metadata, "metadata of a device without metadata areas")
                ctx.outcome("found")


def fit(length, seed):
    """A tree whose text (with the closing NUL) is exactly ``length`` bytes."""
    tree = enc_lvm.group_tree({"id": "v", "seqno": seed})
    base = len(enc_lvm.text_bytes(tree))
    pad = length - base
    if pad < 0:
        return None
    # Position-unique filler with some two-byte characters, so that every wrap position can split one
    filler = "".join(f"{i:04d}é" for i in range(pad // 6 + 1))
    raw = filler.encode()[:pad]
    try:
        filler = raw.decode()
    except UnicodeDecodeError:
        filler = raw[:-1].decode() + "z"
    tree["description"] = filler
    return tree


def run_text(ctx, LVM2Device, start, size, off, delta):
    room = size - 512
    if delta == "full":
        length = room - 1
    elif delta == "max":
        length = room
    elif delta == "max-1":
        length = room - 2
    else:
        length = size - off + delta
        # Too short for any metadata text: let it wrap
        if length < 200:
            length = 300 + delta
    if length > room:
        ctx.outcome("does not fit")
        return
    tree = fit(length, 7)
    text = enc_lvm.text_bytes(tree)
    ctx.eq(len(text), length, "generator: text length")
    uuid = enc_lvm.uuid_of(3)
    for around in ("fill", "stale", "pending"):
        old = enc_lvm.text_bytes(fit(min(room, 400), 6))
        second = None
        if around != "fill":
            pos = 512 + (off - 512 + length) % room
            second = (pos, old)
        if around == "pending":
            data = enc_lvm.mda(start, size, text, off, second=second)
            # the pending copy may overlap when there is no room left: write the current text last
            blob = bytearray(data)
        else:
            blob = bytearray(enc_lvm.mda(start, size, text, off, fill=b"\x20" if around == "fill" else b"#"))
            if second and length + len(old) <= room:
                enc_lvm._circ(blob, second[0], old, size)
        areas = [(start, size, bytes(blob))]
        fh = enc_lvm.device(uuid, start + size + 4 * MB, start + size + MB, 5, areas)
        dev = LVM2Device(fh)
        meta = dict(dev.metadata)
        raw = meta.pop("_raw", None)
        ctx.state((start, size, off, length, around))
        ctx.eq(meta, tree, f"metadata of {length} bytes at {off} in an area of {size}")
        if raw is not None:
            ctx.eq(raw, text[:-1].decode(), "text")
    ctx.outcome("wraps" if off + length > size else ("touches end" if off + length >= size - 1 else "inside"))


def area(kind, start, size, text, stale):
    if kind == "current":
        return enc_lvm.mda(start, size, text, 1024)
    if kind == "empty":
        return enc_lvm.mda(start, size, None, 0)
    if kind == "ignored":
        data = bytearray(enc_lvm.mda(start, size, b"", 0, flags=1))
        return bytes(data)
    if kind == "stale":
        return enc_lvm.mda(start, size, stale, 512)
    return enc_lvm.mda(start, size, stale, 512, flags=1)


def run_two(ctx, LVM2Device, first, second):
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    uuid = enc_lvm.uuid_of(4)
    tree = enc_lvm.group_tree(vg_tree([uuid]))
    text = enc_lvm.text_bytes(tree)
    stale = enc_lvm.text_bytes(enc_lvm.group_tree(vg_tree([uuid], 3, lvs={"old": [(0, 1)]})))
    areas = [
        (4096, 65536, area(first, 4096, 65536, text, stale)),
        (3 * MB, 65536, area(second, 3 * MB, 65536, text, stale)),
    ]
    fh = enc_lvm.device(uuid, 4 * MB, MB, 5, areas)
    dev = LVM2Device(fh)
    ctx.state((first, second))
    if "current" in (first, second):
        meta = dict(dev.metadata)
        meta.pop("_raw", None)
        ctx.eq(meta, tree, "metadata")
        ctx.eq([v.name for v in LVM2(fh).vg.lv], ["all"], "volumes")
    else:
        ok, value = ctx.call(lambda: dev.metadata)
        ctx.true(not ok or not value, f"metadata of a device with unused areas: {value!r}")
        refused(ctx, lambda: LVM2(fh), "a group without metadata")
    ctx.outcome("current" if "current" in (first, second) else "nothing")


def devices(assign, present=None):
    n = len(assign)
    uuids = [enc_lvm.uuid_of(10 + i) for i in range(n)]
    tree = enc_lvm.group_tree(vg_tree(uuids, 10, lvs={"all": [(i, i) for i in range(n)], "first": [(0, 3)]}))
    old = enc_lvm.group_tree(vg_tree(uuids, 9, lvs={"stale": [(0, 0)]}), description="older", creation_time=2)
    text, stale = enc_lvm.text_bytes(tree), enc_lvm.text_bytes(old)
    out = []
    for i, kind in enumerate(assign):
        areas = [] if kind == "none" else [(4096, 65536, area(kind, 4096, 65536, text, stale))]
        out.append((uuids[i], enc_lvm.device(uuids[i], 2 * MB, MB, 100 + i, areas, label=i % 4)))
    return out, tree


def expect(devs, parts):
    return b"".join(devs[p][1].at(MB + e * 4096, 4096) for p, e in parts)


def run_group(ctx, LVM2Device, assign):
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    n = len(assign)
    devs, tree = devices(assign)
    if "current" not in assign:
        if "stale" not in assign:
            refused(ctx, lambda: LVM2([fh for _, fh in devs]), "a group without metadata")
            ctx.outcome("no metadata")
            return
        ctx.outcome("only stale metadata")
    for order in itertools.permutations(range(n)):
        for how in ("file", "device", "mixed", "single"):
            if how == "single" and n > 1:
                continue
            objs = [
                devs[i][1] if how in ("file", "single") or (how == "mixed" and k % 2) else LVM2Device(devs[i][1])
                for k, i in enumerate(order)
            ]
            lvm = LVM2(objs if how != "single" else objs[0])
            ctx.state((order, how))
            vg = lvm.vg
            ctx.eq(vg.name, "vg0", "group name")
            if "current" not in assign:
                ctx.eq([v.name for v in vg.lv], ["stale"], f"volumes in order {order}")
                ctx.eq(vg.seqno, 9, "sequence number")
                continue
            ctx.eq(vg.seqno, 10, f"sequence number in order {order}")
            ctx.eq([v.name for v in vg.lv], ["all", "first"], f"volumes in order {order}")
            ctx.eq([p.id for p in vg.pv], [enc_lvm.dashed(u) for u, _ in devs], "physical volumes")
            ctx.eq(lvm.description, "", "description")
            ctx.eq(lvm.creation_time, datetime.fromtimestamp(1600000000, tz=timezone.utc), "creation time")
            data = vg.logical_volumes["all"].open().read()
            ctx.eq(data, expect(devs, [(i, i) for i in range(n)]), f"volume data in order {order}")
            ctx.eq(vg.logical_volumes["first"].open().read(), expect(devs, [(0, 3)]), "data of the second volume")
    ctx.outcome(f"{n} devices")


def run_many(ctx, n, at):
    """The newest of many generations on the ``at``-th device, or of two generations with few copies."""
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    uuids = [enc_lvm.uuid_of(10 + i) for i in range(n)]
    parts = [(i, i % 4) for i in range(n)]
    texts = [
        enc_lvm.text_bytes(
            enc_lvm.group_tree(vg_tree(uuids, seq, lvs={f"gen{seq}": parts}), description=f"d{seq}", creation_time=seq)
        )
        for seq in range(3, n + 3)
    ]
    for how in ("rising", "falling", "two", "alone"):
        gens = {
            "rising": [(i - at - 1) % n for i in range(n)],
            "falling": [(at - i - 1) % n for i in range(n)],
            "two": [n - 1 if i == at else n - 2 for i in range(n)],
            "alone": [n - 1 if i == at else None for i in range(n)],
        }[how]
        devs = []
        for i, gen in enumerate(gens):
            areas = [] if gen is None else [(4096, 65536, enc_lvm.mda(4096, 65536, texts[gen], 512))]
            devs.append((uuids[i], enc_lvm.device(uuids[i], 2 * MB, MB, 100 + i, areas, label=i % 4)))
        lvm = LVM2([fh for _, fh in devs])
        ctx.state((how, at))
        ctx.eq(lvm.vg.seqno, n + 2, f"sequence number, {how}")
        ctx.eq(lvm.description, f"d{n + 2}", f"description, {how}")
        ctx.eq([v.name for v in lvm.vg.lv], [f"gen{n + 2}"], f"volumes, {how}")
        ctx.eq([p.id for p in lvm.vg.pv], [enc_lvm.dashed(u) for u in uuids], "physical volumes")
        ctx.eq(lvm.vg.lv[0].open().read(), expect(devs, parts), "volume data")
    ctx.outcome("many devices")


def run_partial(ctx, present):
    """Only some devices of the group supplied: its volumes are the same."""
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    devs, _ = devices(("current",) * len(present))
    have = [fh for (_, fh), p in zip(devs, present) if p]
    if not have:
        refused(ctx, lambda: LVM2([]), "no devices")
        ctx.outcome("no devices")
        return
    vg = LVM2(have).vg
    ctx.eq([v.name for v in vg.lv], ["all", "first"], "volumes")
    for pv, p in zip(vg.pv, present):
        if p:
            ctx.eq(pv.open().read(512), devs[int(pv.name[2:])][1].at(MB, 512), "physical volume data")
        else:
            refused(ctx, pv.open, "an absent physical volume")
    if present[0]:
        ctx.eq(vg.logical_volumes["first"].open().read(), expect(devs, [(0, 3)]), "volume data")
    else:
        refused(ctx, vg.logical_volumes["first"].open, "a volume on an absent device")
    ctx.outcome("partial")


def run_top(ctx, ct):
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    uuid = enc_lvm.uuid_of(8)
    for drop in ((), ("description",), ("creation_host",), ("description", "creation_host")):
        for name in ("vg0", "a-b.c", "x+y_z"):
            for version, desc in ((1, ""), (2, "Created *after* 'x' \"y\" # {")):
                tree = enc_lvm.group_tree(vg_tree([uuid]), name, version=version, description=desc, creation_time=ct)
                for key in drop:
                    tree.pop(key)
                if ct is None:
                    tree.pop("creation_time")
                fh = enc_lvm.device(
                    uuid, 2 * MB, MB, 5, [(4096, 65536, enc_lvm.mda(4096, 65536, enc_lvm.text_bytes(tree), 512))]
                )
                lvm = LVM2(fh)
                ctx.eq(lvm.contents, "Text Format Volume Group", "contents")
                ctx.eq(lvm.version, version, "version")
                ctx.eq(lvm.description, tree.get("description"), "description")
                ctx.eq(lvm.creation_host, tree.get("creation_host"), "host")
                if ct:
                    ctx.eq(lvm.creation_time, datetime.fromtimestamp(ct, tz=timezone.utc), "time")
                elif ct is None:
                    ctx.eq(lvm.creation_time, None, "time")
                ctx.eq((lvm.vg.name, lvm.volume_group.name), (name, name), "name")
                # Two groups in one text are refused
                both = {**tree, "other": vg_tree([uuid])}
                fh = enc_lvm.device(
                    uuid, 2 * MB, MB, 5, [(4096, 65536, enc_lvm.mda(4096, 65536, enc_lvm.text_bytes(both), 512))]
                )
                refused(ctx, lambda fh=fh: LVM2(fh), "two groups in one text")
    ctx.outcome("top level")
