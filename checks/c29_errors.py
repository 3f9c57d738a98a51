"""C29: sets that cannot be used are refused with the error of their kind."""

from __future__ import annotations

import io
import struct
from functools import lru_cache
from itertools import combinations, product

from vlib import enc_ddf, enc_disk, enc_dm, enc_lvm, enc_md, enc_vinum, enc_vss, ref_raid, zoo
from vlib.src import mem, pattern

from checks import c10_ddf_data as c10
from checks import c18_lvm_data as c18
from checks import c22_vinum as c22

PROPERTY = "C29"
BOUNDS = (
    "signatures: every single-bit change of every signature of 19 kinds of metadata blocks, each also set to zeroes and "
    "ones; raid: levels linear, 0, 4, 5, 6 with 2-7 members and every subset missing beyond the redundancy, levels -6 to "
    "70 and four large ones, layouts 0-40 of level 5 and 6; DDF: every primary level 0-255 x qualifier 0-6 x 1-4 members, "
    "every secondary level; disks without an entry of their own among 1-4; MD: mixtures of 2-3 sets, levels -16 to 64; LVM: every subset of 4 devices, 0-3 groups, every "
    "segment kind; thin: identifiers -2 to 70; vinum: every subset of 4 drives; VSS: every block kind 0-8, entry kind 4-70; "
    "GPT: every entry size below 128"
)
ASSUMPTIONS = [
    "a RAID 4, 5, 6 or 10 set within its redundancy may raise any error where it cannot return data (C06)",
    "errors are compared by class: the documented class or one derived from it",
]

K = 1024
S = 512


def errors():
    from dissect.volume import exceptions as ex  # noqa: PLC0415

    return ex


def cases(tier):
    for name in SIGNATURES:
        yield ("signature", name)
    for level, n in product((-1, 0, 4, 5, 6), range(2, 8)):
        if n >= {4: 3, 5: 3, 6: 4}.get(level, 2):
            yield ("missing", level, n)
    for level in (*range(-6, 71), 127, 255, 0xFFFF, 0xFFFFFFFF):
        if level not in (-1, 0, 1, 4, 5, 6, 10):
            yield ("level", level)
    for level, layout in product((5, 6), range(41)):
        yield ("layout", level, layout)
    for prl in range(256):
        yield ("ddf", prl)
    for n in (2, 3):
        yield ("mixed", n)
    for n in (1, 2, 3, 4):
        yield ("entry", n)
    for version, level in product(("0.90", "1.0", "1.1", "1.2"), (*range(-16, 65), -(2**31), 2**31 - 1)):
        if level not in (-1, 0, 1, 4, 5, 6, 10):
            yield ("md", version, level)
    for k in range(5):
        for present in combinations(range(4), k):
            yield ("lvm", present)
            yield ("vinum", present)
    for groups in (0, 2, 3):
        yield ("groups", groups)
    for kind in KINDS:
        yield ("kind", kind)
    yield ("thin",)
    yield ("vss",)
    yield ("gpt",)


def run(case, ctx):
    globals()[f"run_{case[0]}"](ctx, *case[1:])
    ctx.outcome(case[0])


# ---------------------------------------------------------------------------------------------------- signatures


@lru_cache(maxsize=None)
def image(name):
    if name == "thin":
        fh = enc_dm.pool({1: {0: 1}}, 2, 3, 4096)
        return fh.at(0, fh.length)
    if name == "vinum":
        fh = c22.system().fh(0)
        return fh.at(0, fh.length if hasattr(fh, "length") else 1 << 20)
    return zoo.item(name).sources[0]


def disk(cls, name, at, size):
    def opener(data):
        import dissect.volume.disk.schemes as schemes  # noqa: PLC0415

        return getattr(schemes, cls)(io.BytesIO(data))

    return name, lambda _: [at], size, opener, "DiskError"


def detect(name, at, size):
    def opener(data):
        from dissect.volume.disk import Disk  # noqa: PLC0415

        return Disk(io.BytesIO(data))

    return name, lambda _: [at], size, opener, "DiskError"


def md_member(version):
    def opener(data):
        from dissect.volume.md.md import MD  # noqa: PLC0415

        return MD([io.BytesIO(data)])

    return f"md-{version}", lambda d: [enc_md.sector_of(version, len(d)) * S], 4, opener, ValueError


def ddf(section):
    def opener(data):
        from dissect.volume.ddf.ddf import DDF  # noqa: PLC0415

        return DDF([io.BytesIO(data)])

    def places(data):
        anchor = data[-S:]
        if section == "anchor":
            return [len(data) - S]
        at = {"controller": 0, "pdr": 1, "vdr": 2, "pdd": 4}[section]
        (off,) = struct.unpack_from(">I", anchor, 192 + 8 * at)
        heads = struct.unpack_from(">QQ", anchor, 96)
        # both copies, so that it does not matter which one is used
        return [(head + off) * S for head in heads if head != enc_ddf.NONE64]

    return "ddf", places, 4, opener, "DDFError"


def lvm_label(data):
    return [at for at in range(0, 4 * S, S) if data[at : at + 8] == b"LABELONE"]


def lvm_open(data):
    from dissect.volume.lvm.physical import LVM2Device  # noqa: PLC0415

    return LVM2Device(io.BytesIO(data))


def thin_open(data):
    from dissect.volume.dm.thin import ThinPool  # noqa: PLC0415

    return ThinPool(io.BytesIO(data), io.BytesIO(bytes(1 << 16)))


def vinum_open(data):
    from dissect.volume.vinum.vinum import VinumPhysicalDisk  # noqa: PLC0415

    return VinumPhysicalDisk(io.BytesIO(data))


def vss_open(data):
    from dissect.volume.vss import VSS  # noqa: PLC0415

    vss = VSS(io.BytesIO(data))
    for store in vss.catalog.stores:
        fh = store.open()
        fh.read(store.volume_size)
    return vss


def vss_place(kind):
    """Where the blocks of this kind lie."""

    def places(data):
        (catalog,) = struct.unpack_from("<Q", data, enc_vss.HDR + 48)
        if kind == "volume":
            return [enc_vss.HDR]
        if kind == "catalog":
            return [catalog]
        field = {"list": 8, "header": 32, "bitmap": 48}[kind]
        return [struct.unpack_from("<Q", data, catalog + 128 + 256 * i + 128 + field)[0] for i in range(3)]

    return places


SIGNATURES = {
    "mbr": disk("MBR", "mbr", 510, 2),
    "mbr as disk": detect("mbr", 510, 2),
    "gpt": disk("GPT", "gpt", 512, 8),
    "gpt as disk": detect("gpt", 512, 8),
    "gpt boot sector": disk("GPT", "gpt", 510, 2),
    "apm": disk("APM", "apm", 512, 2),
    "apm as disk": detect("apm", 512, 2),
    "bsd": disk("BSD", "bsd", 512, 4),
    "bsd second": disk("BSD", "bsd", 512 + 132, 4),
    "bsd as disk": detect("bsd", 512, 4),
    "bsd64": disk("BSD", "bsd64", 512, 4),
    **{f"md-{v}": md_member(v) for v in ("0.90", "1.0", "1.1", "1.2")},
    **{f"ddf {s}": ddf(s) for s in ("anchor", "controller", "pdr", "vdr", "pdd")},
    "lvm": ("lvm", lvm_label, 8, lvm_open, "LVM2Error"),
    "thin": ("thin", lambda _: [32], 8, thin_open, "DMError"),
    "vinum": ("vinum", lambda _: [4096], 8, vinum_open, ValueError),
    **{f"vss {k}": ("vss", vss_place(k), 16, vss_open, "Error") for k in ("volume", "catalog", "header", "list", "bitmap")},
}


def run_signature(ctx, name):
    which, places, size, opener, error = SIGNATURES[name]
    if isinstance(error, str):
        error = getattr(errors(), error)
    data = image(which)
    found = places(data)
    assert found, name
    ok, value = ctx.call(opener, data)
    ctx.true(ok, f"{name}: unchanged refused: {value!r}")
    want = data[found[0] : found[0] + size]
    masks = [1 << bit for bit in range(size * 8)]
    values = [(int.from_bytes(want, "little") ^ m).to_bytes(size, "little") for m in masks]
    for value in [*values, bytes(size), b"\xff" * size, bytes(reversed(want))]:
        if value == want or (which == "vinum" and value in VINUM):
            continue
        bad = bytearray(data)
        for at in found:
            assert bad[at : at + size] == want, (name, at)
            bad[at : at + size] = value
        ctx.raises(opener, bytes(bad), what=f"{name}: {value.hex()}", exc=error)
        ctx.state((name, value))


VINUM = {struct.pack(">Q", 0x494E2056494E4F00), struct.pack(">Q", 0x56494E554D2D312D)}

# ---------------------------------------------------------------------------------------------------- RAID


def members(n, size=16 * K, without=()):
    from dissect.volume.raid.raid import PhysicalDisk  # noqa: PLC0415

    return {i: (0, PhysicalDisk(mem(pattern(i, 0, size)), 0, size)) for i in range(n) if i not in without}


def volume(level, layout, n, without=(), chunk=S):
    from dissect.volume.raid.raid import VirtualDisk  # noqa: PLC0415

    return VirtualDisk("v", "u", 16 * K, level, layout, chunk, n, members(n, without=without))


def run_missing(ctx, level, n):
    spare = {4: 1, 5: 1, 6: 2}.get(level, 0)
    for k in range(spare + 1, n + 1):
        for without in combinations(range(n), k):
            vd = volume(level, {6: 8}.get(level, 0), n, without)
            ctx.raises(vd.open, what=f"level {level} without {without} of {n}", exc=errors().RAIDError)
            ctx.state((level, n, without))


def run_level(ctx, level):
    vd = volume(level, 0, 4)
    ctx.raises(vd.open, what=f"level {level}", exc=NotImplementedError)
    ctx.state(level)


def run_layout(ctx, level, layout):
    if layout in (ref_raid.LEVEL5_LAYOUTS if level == 5 else ref_raid.LEVEL6_LAYOUTS):
        return
    for n, (at, length) in product((4, 5, 6), ((0, 1), (0, 4096), (5000, 100))):

        def use(n=n, at=at, length=length):
            fh = volume(level, layout, n).open()
            fh.seek(at)
            return fh.read(length)

        ctx.raises(use, what=f"level {level} layout {layout}", exc=errors().RAIDError)
        ctx.state((level, layout, n))


# ---------------------------------------------------------------------------------------------------- DDF and MD


def ddf_set(prl, rlq, srl, pec, sec):
    e = enc_ddf
    refs = [0x100 + i for i in range(pec * sec)]
    pdes = [e.pde(e.guid(f"PD-{r:x}"), r, 64) for r in refs]
    out = []
    for i, r in enumerate(refs):
        s = i // pec
        record = e.vdcr(
            vguid=e.guid("VD-0"), refs=refs[s * pec : (s + 1) * pec], starts=[0] * pec, max_elements=8, prl=prl, rlq=rlq,
            srl=srl, strip=0, block_count=64, vd_size=64, sec_count=sec, sec_seq=s,
        )  # fmt: skip
        out.append(
            e.disk_image(
                group=c10.GROUP, data=bytes(64 * S), pdes=pdes, vdes=[e.vde(e.guid("VD-0"), 0, b"vol0")], records=[record],
                pguid=e.guid(f"PD-{r:x}"), ref=r,
            )
        )  # fmt: skip
    return out


def run_ddf(ctx, prl):
    from dissect.volume.ddf.ddf import DDF  # noqa: PLC0415

    combos = [(rlq, 0xFF, pec, 1) for rlq in range(7) for pec in (1, 2, 3, 4)]
    if prl != c10.RAID1:
        combos += [(0, srl, 2, 2) for srl in (*range(6), 0xFF)]
    else:
        combos += [(0, srl, 2, 2) for srl in range(256)]
    for rlq, srl, pec, sec in combos:
        if c10.is_supported(prl, rlq, srl, pec, sec):
            continue
        # spanned and striped mirrors of another shape have no layout, but are not told apart here
        if prl == c10.RAID1 and sec > 1 and srl in (0, 3):
            continue
        images = ddf_set(prl, rlq, srl, pec, sec)
        ctx.raises(DDF, [mem(i) for i in images], what=f"DDF {prl:#x}/{rlq}/{srl}, {pec} x {sec}", exc=ValueError)
        ctx.state((prl, rlq, srl, pec, sec))


def run_entry(ctx, n):
    """A disk whose own entry is not in the table of physical disks."""
    from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk  # noqa: PLC0415

    e = enc_ddf
    refs = [0x100 + i for i in range(n)]
    for gone in range(n):
        for kept in (False, True):
            pdes = [e.pde(e.guid(f"PD-{r:x}"), r, 64) for r in refs]
            if kept:
                pdes[gone] = e.pde(e.guid(f"PD-{gone}"), 0x200, 64)
            else:
                pdes[gone] = e.UNUSED_PDE
            image = e.disk_image(
                group=c10.GROUP, data=bytes(64 * S), pdes=pdes, vdes=[], records=[], pguid=e.guid(f"PD-{refs[gone]:x}"), ref=refs[gone]
            )
            for opener in (DDFPhysicalDisk, DDF):
                ctx.raises(opener, mem(image), what=f"entry {gone} of {n} is missing", exc=errors().DDFError)
            ctx.state((gone, kept))


def md_image(tag, level=1, version="1.2", role=0):
    data = bytearray(pattern(tag, 0, 1 << 17))
    ident = bytes([tag]) * 16
    at = enc_md.sector_of(version, len(data)) * S
    if version == "0.90":
        raw = enc_md.super_0(set_uuid=ident, level=level, size_kib=8, raid_disks=2, number=role, disks={role: (role, 6)})
    else:
        raw = enc_md.super_1(
            set_uuid=ident, level=level, raid_disks=2, data_size=16, data_offset=32, size=16, super_offset=at // S, roles=(0, 1),
            dev_number=role,
        )  # fmt: skip
    data[at : at + len(raw)] = raw
    return bytes(data)


def run_mixed(ctx, n):
    from dissect.volume.md.md import MDConfiguration, MDPhysicalDisk  # noqa: PLC0415

    for tags in product((1, 2, 3), repeat=n):
        disks = [MDPhysicalDisk(mem(md_image(t, role=i % 2))) for i, t in enumerate(tags)]
        if len(set(tags)) == 1:
            ok, value = ctx.call(MDConfiguration, disks)
            ctx.true(ok, f"one set refused: {value!r}")
        else:
            ctx.raises(MDConfiguration, disks, what=f"sets {tags} as one", exc=ValueError)
        ctx.state(tags)


def run_md(ctx, version, level):
    from dissect.volume.md.md import MD  # noqa: PLC0415

    ctx.raises(MD, mem(md_image(1, level & 0xFFFFFFFF if version == "0.90" else level, version)),
               what=f"MD {version} level {level}", exc=ValueError)  # fmt: skip
    ctx.state((version, level))


# ---------------------------------------------------------------------------------------------------- LVM


def run_lvm(ctx, present):
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    if not present:
        ctx.raises(LVM2, [], what="no devices", exc=ValueError)
        return
    group = c18.Group(16)
    for i in range(4):
        group.add(f"l{i}", [("linear", 1, i, 2)])
        group.add(f"leg{i}", [("linear", 1, i, 3)])
    for a, b in product(range(4), repeat=2):
        group.add(f"c{a}{b}", [("linear", 1, a, 8), ("linear", 1, b, 9)])
        if a != b:
            group.add(f"s{a}{b}", [("striped", 2, 8, ((a, 6), (b, 7)))])
            group.add(f"m{a}{b}", [("mirror", 1, ((f"leg{a}", 0), (f"leg{b}", 0)))])
    lvm = group.open(present)
    for name in group.lvs:
        lv = lvm.vg.logical_volumes[name]
        need = {int(c) for c in name if c.isdigit()}
        if name[0] == "m":
            usable = bool(need & set(present))
        else:
            usable = need <= set(present)
        if usable:
            ok, value = ctx.call(lambda lv=lv: lv.open().read(1))
            ctx.true(ok, f"{name} with {present}: {value!r}")
        else:
            ctx.raises(lv.open, what=f"{name} with {present}", exc=errors().LVM2Error)
        ctx.state((present, name))
    for i, pv in enumerate(lvm.vg.physical_volumes.values()):
        if i not in present:
            ctx.raises(pv.open, what=f"device {i}", exc=errors().LVM2Error)


def text_device(tree):
    text = enc_lvm.text_bytes(tree)
    return enc_lvm.device(enc_lvm.uuid_of(1), 40 * K, 16 * K, 1, mdas=[(4096, 8192, enc_lvm.mda(4096, 8192, text, 512))])


def plain_group(segment):
    return {
        "id": "vgid", "seqno": 1, "format": "lvm2", "status": ["READ"], "flags": [], "extent_size": 2, "max_lv": 0, "max_pv": 0,
        "physical_volumes": {
            "pv0": {"id": enc_lvm.dashed(enc_lvm.uuid_of(1)), "device": "/dev/x", "status": [], "flags": [], "pe_start": 32,
                    "pe_count": 16},
        },
        "logical_volumes": {
            "lv0": {"id": "lvid", "status": ["READ", "VISIBLE"], "flags": [], "segment_count": 1, "segment1": segment},
        },
    }  # fmt: skip


LINEAR = {"start_extent": 0, "extent_count": 1, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 0]}


def run_groups(ctx, groups):
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    tree = enc_lvm.group_tree(plain_group(LINEAR), "vg0")
    if not groups:
        blank = enc_lvm.device(enc_lvm.uuid_of(1), 40 * K, 16 * K, 1, mdas=[(4096, 8192, enc_lvm.mda_header(4096, 8192, []))])
        bare = enc_lvm.device(enc_lvm.uuid_of(2), 40 * K, 16 * K, 1, mdas=[])
        for n, devices in enumerate(([blank], [bare], [blank, bare], [bare, blank])):
            ctx.raises(LVM2, devices, what="no metadata", exc=errors().LVM2Error)
            ctx.state(n)
        only = {k: v for k, v in tree.items() if k != "vg0"}
        ctx.raises(LVM2, text_device(only), what="no group", exc=errors().LVM2Error)
        return
    for i in range(1, groups):
        tree[f"vg{i}"] = plain_group(LINEAR)
    ctx.raises(LVM2, text_device(tree), what=f"{groups} groups", exc=errors().LVM2Error)


KINDS = {
    "zero": {},
    "error": {},
    "snapshot": {"chunk_size": 8, "origin": "lv0", "cow_store": "lv0"},
    "raid1": {"device_count": 2, "raids": ["lv0", "lv0"]},
    "raid4": {"device_count": 2, "raids": ["lv0", "lv0"]},
    "raid5_ls": {"device_count": 2, "raids": ["lv0", "lv0"]},
    "raid6_nc": {"device_count": 2, "raids": ["lv0", "lv0"]},
    "raid10": {"device_count": 2, "raids": ["lv0", "lv0"]},
    "cache": {"cache_pool": "lv0", "origin": "lv0"},
    "writecache": {"origin": "lv0", "writecache": "lv0", "writecache_block_size": 4096},
    "vdo": {"vdo_pool": "lv0", "vdo_offset": 0},
}


def run_kind(ctx, kind):
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

    segment = {"start_extent": 0, "extent_count": 1, "type": kind, **KINDS[kind]}
    lvm = LVM2(text_device(enc_lvm.group_tree(plain_group(segment), "vg0")))
    ctx.raises(lvm.vg.logical_volumes["lv0"].open, what=f"segment of kind {kind}", exc=NotImplementedError)
    ctx.state(kind)


# ---------------------------------------------------------------------------------------------------- the others


def run_thin(ctx):
    from dissect.volume.dm.thin import ThinPool  # noqa: PLC0415

    for known in ((), (1,), (0, 5), (3, 4, 63)):
        meta = enc_dm.pool({d: {0: d} for d in known}, 8, 3, 4096)
        for d in (*range(-2, 71), 1 << 24, 1 << 32, 1 << 63):
            if d in known:
                continue
            pool = ThinPool(mem(meta.at(0, meta.length)), mem(bytes(1 << 16)))
            ctx.raises(pool.open, d, what=f"device {d} of {known}", exc=errors().DMError)
            ctx.raises(pool.open, d, 4096, what=f"device {d} of {known}", exc=errors().DMError)
            ctx.state((known, d))


def run_vinum(ctx, present):
    s = c22.system()
    if not present:
        ctx.raises(c22.vinum, [], what="no drives", exc=ValueError)
        return
    fhs = [s.fh(i) for i in present]
    have = set(present)
    found = c22.vds(c22.vinum(fhs))
    for name, vd in found.items():
        if not any(alt <= have for alt in c22.NEED[name]):
            ctx.raises(vd.open, what=f"{name} with {present}", exc=errors().RAIDError)
        ctx.state((present, name))
    # a plex that does not say how it is organised
    for drop in (b"org concat ", b"org striped 8s "):
        odd = c22.Set([b"a", b"b"])
        odd.plex(b"two", b"two.p0", drop.split()[1], None if drop.split()[1] == b"concat" else 4096, [(0, 0, 16 * K), (1, 0, 16 * K)])
        text = odd.text()
        assert drop in text, text
        text = text.replace(drop, b"")
        ctx.raises(c22.vinum, [odd.fh(i, text=text) for i in range(2)], what="no organisation", exc=ValueError)
    # only a volume that lies on none of the drives
    lone = c22.Set([b"a", b"b"])
    lone.plex(b"one", b"one.p0", b"concat", None, [(0, 0, 16 * K)])
    ctx.raises(c22.vinum, [lone.fh(1)], what="nothing usable", exc=ValueError)


def run_vss(ctx):
    error = errors().Error

    def vol():
        v = enc_vss.Volume(4, tail=512, meta=6, tag=60)
        v.snapshot()
        v.write(1)
        return v

    def reading(fh):
        from dissect.volume.vss import VSS  # noqa: PLC0415

        stream = VSS(fh).catalog.stores[0].open()
        stream.seek(2 * enc_vss.B)
        return stream.read(enc_vss.B)

    from dissect.volume.vss import VSS  # noqa: PLC0415

    ctx.raises(VSS, vol().image(catalog_offset=0), what="no catalog", exc=error)
    for kind in (*range(4, 71), 1 << 32, 1 << 63):
        entry = struct.pack("<Q", kind).ljust(128, b"\x01")
        ctx.raises(VSS, vol().image(lambda e, entry=entry: [*e[0], entry]), what=f"entry of kind {kind}", exc=error)
        ctx.state(kind)
    ctx.raises(VSS, vol().image(lambda e: [e[0][0]]), what="half a snapshot", exc=NotImplementedError)
    for name, own in (("list0.0", 3), ("bitmap0.0", 6)):
        for kind in range(9):
            v = vol()
            fh = v.image()
            fh.put(v.places[name] + 20, struct.pack("<I", kind))
            if kind == own:
                ok, value = ctx.call(reading, fh)
                ctx.true(ok, f"{name}: {value!r}")
            else:
                ctx.raises(reading, fh, what=f"{name} of kind {kind}", exc=error)
            ctx.state((name, kind))


def run_gpt(ctx):
    from dissect.volume.disk import Disk  # noqa: PLC0415
    from dissect.volume.disk.schemes import GPT  # noqa: PLC0415

    data = bytearray(zoo.item("gpt").sources[0])
    for size in range(128):
        struct.pack_into("<I", data, 512 + 84, size)
        for opener in (GPT, Disk):
            ctx.raises(opener, io.BytesIO(data), what=f"entries of {size} bytes", exc=errors().DiskError)
        ctx.state(size)
