"""C30: objects describe themselves with their identifying values."""

from __future__ import annotations

import io
import re
import uuid
from itertools import product
from types import SimpleNamespace

from vlib import enc_ddf, enc_vss, zoo
from vlib.src import mem, pattern

from checks import c10_ddf_data as c10
from checks import c16_lvm_text as c16

PROPERTY = "C30"
BOUNDS = (
    "objects: everything reachable from the 50 opened image sets and their streams; partitions: number x offset x size x "
    "type x name over boundary values; DDF: references and names over boundary values; LVM: groups, physical, logical and "
    "historical volumes with every subset of optional fields of the typed checks and every segment kind; shadow copies: "
    "0-5 snapshots x volume identifiers"
)
ASSUMPTIONS = ["the layout of the text is free; the values have to be in it, numbers in decimal or hexadecimal"]

EDGES = (0, 1, 255, 2**31, 2**32 - 1, 2**40 + 1)


def cases(tier):
    for inner, variant in product(zoo.MAKERS, (0, 1)):
        yield ("objects", inner, variant)
    for number, offset in product((0, 1, 5, 128), EDGES):
        yield ("partition", number, offset)
    for ref in (0, 1, 0x40001000, 0xFFFFFFFE):
        for name in (b"", b"vol", b"a b", b"0123456789abcdef"):
            yield ("ddf", ref, name)
    for what in ("vg", "pv", "lv", "hlv"):
        yield ("lvm", what)
    for kind in c16.SEGMENTS:
        yield ("segment", kind)
    for n in range(6):
        yield ("vss", n)


def run(case, ctx):
    globals()[f"run_{case[0]}"](ctx, *case[1:])
    ctx.outcome(case[0])


def text(ctx, obj, what):
    ok, value = ctx.call(lambda: (repr(obj), str(obj), f"{obj}"))
    ctx.true(ok, f"{what}: no representation: {value!r}")
    for v in value:
        ctx.true(isinstance(v, str) and v, f"{what}: representation {v!r}")
    return value[0]


def shows(ctx, obj, what, **values):
    got = text(ctx, obj, what)
    for key, value in values.items():
        if isinstance(value, int):
            found = re.search(rf"(?<!\w)(0x)?0*({value}|{value:x})(?!\w)", got, re.IGNORECASE)
        else:
            found = str(value) in got or repr(value) in got
        ctx.true(found, f"{what}: {key} {value!r} is not in {got}")


def run_objects(ctx, inner, variant):
    it = zoo.item(inner, variant)
    root = it.root([io.BytesIO(s) for s in it.sources])
    seen = {}

    def walk(obj, path):
        if id(obj) in seen:
            return
        seen[id(obj)] = obj
        if type(obj).__module__.startswith("dissect.volume"):
            text(ctx, obj, path)
            ctx.state((inner, path))
            for name, value in list(getattr(obj, "__dict__", {}).items()):
                walk(value, f"{path}.{name}")
        elif isinstance(obj, (list, tuple)):
            for i, value in enumerate(obj):
                walk(value, f"{path}[{i}]")
        elif isinstance(obj, dict):
            for key, value in obj.items():
                walk(value, f"{path}[{key!r}]")

    walk(root, inner)
    for label, opener in it.volumes(root).items():
        walk(opener(), f"{inner} {label}")
    # and again, now that everything has been opened
    seen.clear()
    walk(root, inner)


def run_partition(ctx, number, offset):
    from dissect.volume.disk.partition import Partition  # noqa: PLC0415

    disk = SimpleNamespace(fh=io.BytesIO(b""))
    kinds = (0, 0x83, 0xFF, "Apple_HFS", "", uuid.UUID(int=0), uuid.UUID("0fc63daf-8483-4772-8e79-3d69d8477de4"))
    for size, kind, name in product(EDGES, kinds, (None, "", "root", "a b", "café", "it's")):
        part = Partition(disk, number, offset, size, kind, name)
        shows(ctx, part, "partition", number=number, offset=offset, size=size, kind=part.type_str, name=name)
        ctx.state((number, offset, size, kind, name))


def run_ddf(ctx, ref, name):
    from dissect.volume.ddf.ddf import DDF  # noqa: PLC0415

    e = enc_ddf
    for number in (0, 1, 63, 0xFFFE):
        record = e.vdcr(vguid=e.guid("VD-0"), refs=[ref], starts=[0], max_elements=8, prl=0x1F, rlq=0, strip=0, block_count=16,
                        vd_size=16)  # fmt: skip
        image = e.disk_image(
            group=c10.GROUP, data=pattern(1, 0, 64 * 512), pdes=[e.pde(e.guid("PD-0"), ref, 64)], records=[record],
            vdes=[e.vde(e.guid("VD-0"), number, name)], pguid=e.guid("PD-0"), ref=ref,
        )  # fmt: skip
        conf = DDF([mem(image)]).configurations[0]
        pd = conf.physical_disks[0]
        shows(ctx, pd, "disk", guid=e.guid("PD-0"), ref=ref, size=64 * 512)
        shows(ctx, pd.controller_data, "controller", guid=b"CTRL" * 6)
        shows(ctx, pd.physical_disk_data, "disk data", guid=e.guid("PD-0"), ref=ref)
        shows(ctx, pd.physical_disk_records[0], "disk record", guid=e.guid("PD-0"), ref=ref)
        shows(ctx, pd.virtual_disk_records[0], "volume record", guid=e.guid("VD-0"), number=number, name=name.decode())
        shows(ctx, pd.virtual_disk_configuration_records[0], "configuration record", guid=e.guid("VD-0"))
        vd = conf.virtual_disks[0]
        ctx.eq(vd.virtual_disk_configuration_record.guid, e.guid("VD-0"), "record of a volume")
        ctx.eq(vd.virtual_disk_record.number, number, "entry of a volume")
        ctx.state(number)


SEGMENT = {"start_extent": 0, "extent_count": 3, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 0]}


def run_lvm(ctx, what):
    if what == "vg":
        for keys in c16.subsets(c16.VG_OPT):
            vg = c16.load(ctx, c16.group(extra={k: c16.VG_OPT[k] for k in keys}))
            shows(ctx, vg, "group", name="vg0", id="VGid")
            ctx.state(keys)
    elif what == "pv":
        for keys in c16.subsets(c16.PV_OPT):
            vg = c16.load(ctx, c16.group(pvs={"pv7": c16.pv({k: c16.PV_OPT[k] for k in keys})}))
            shows(ctx, vg.physical_volumes["pv7"], "physical volume", name="pv7", id="PV-id")
            ctx.state(keys)
    elif what == "lv":
        for keys in c16.subsets(c16.LV_OPT):
            for n in range(4):
                segs = {f"segment{i + 1}": dict(SEGMENT, start_extent=3 * i) for i in range(n)}
                vg = c16.load(ctx, c16.group({"home": c16.lv(segs, {k: c16.LV_OPT[k] for k in keys})}))
                shows(ctx, vg.logical_volumes["home"], "logical volume", name="home", id="LV-id", segments=n)
                ctx.state((keys, n))
    else:
        for keys in c16.subsets(c16.HLV_OPT):
            opt = {k: c16.HLV_OPT[k] for k in keys}
            vg = c16.load(ctx, c16.group(hlv={"h1": {"id": "H1", **opt}}))
            shows(ctx, vg.historical_logical_volumes["h1"], "historical volume", name=opt.get("name", "h1"), id="H1")
            ctx.state(keys)


def run_segment(ctx, kind):
    required, optional = c16.SEGMENTS[kind]
    for keys in c16.subsets(optional):
        opt = {k: optional[k] for k in keys}
        seg = {"start_extent": 3, "extent_count": 517, "type": kind, **required, **opt}
        vg = c16.load(ctx, c16.group({"root": c16.lv({"segment1": seg})}))
        shows(ctx, vg.logical_volumes["root"].segments[0], f"segment {kind}", extents=517, kind=kind)
        ctx.state(keys)


def run_vss(ctx, n):
    from dissect.volume.vss import VSS  # noqa: PLC0415

    vol = enc_vss.Volume(4, meta=6)
    for _ in range(n):
        vol.snapshot()
        vol.write(1)
    vss = VSS(vol.image())
    own = (uuid.UUID(bytes_le=bytes(range(16))), uuid.UUID(bytes_le=bytes(range(16, 32))))
    shows(ctx, vss, "volume", volume=own[0], store=own[1])
    shows(ctx, vss.catalog, "catalog", stores=n)
    for store in vss.catalog.stores:
        text(ctx, store, "snapshot")
    ctx.state(n)
