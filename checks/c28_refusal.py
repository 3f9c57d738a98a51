"""C28: every opener takes its own format for what it is and refuses all others with its own error."""

from __future__ import annotations

import io
from functools import lru_cache
from itertools import combinations

from vlib import enc_ddf, enc_disk, enc_dm, enc_lvm, enc_md, enc_vinum, zoo
from vlib.src import pattern

PROPERTY = "C28"
BOUNDS = (
    "foreign: 14 openers x every source of 50 image sets of other formats, whole, cut at every sector boundary of the "
    "first 16 sectors and near the end, and moved by 1-8, 16 and 128 sectors, and images of its own format moved by 1-19 sectors; blank: sources of 20 lengths filled "
    "with each of the 256 byte values; marked: every subset of the marks of 16 kinds of formats that fit on one device together, "
    "each opener asked for each"
)
ASSUMPTIONS = [
    "a source that is cut off, or too short to hold the metadata of a format, may also be refused with an end-of-file "
    "error, except by the detection of partition schemes",
    "a device carries at most one MD superblock",
    "a DDF header of another kind in the place of the anchor may serve as one",
]

S = 512


@lru_cache(maxsize=None)
def openers():
    from dissect.volume import exceptions as ex  # noqa: PLC0415
    from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk  # noqa: PLC0415
    from dissect.volume.disk import Disk  # noqa: PLC0415
    from dissect.volume.disk.schemes import APM, BSD, GPT, MBR  # noqa: PLC0415
    from dissect.volume.dm.thin import ThinPool  # noqa: PLC0415
    from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415
    from dissect.volume.lvm.physical import LVM2Device  # noqa: PLC0415
    from dissect.volume.md.md import MD, MDPhysicalDisk  # noqa: PLC0415
    from dissect.volume.vinum.vinum import Vinum  # noqa: PLC0415
    from dissect.volume.vss import VSS  # noqa: PLC0415

    # name: (open, documented error, bytes the metadata needs at least, own formats)
    return {
        "disk": (Disk, ex.DiskError, 0, {"mbr", "gpt", "apm", "bsd", "bsd64"}),
        "mbr": (MBR, ex.DiskError, 512, {"mbr", "gpt"}),
        "gpt": (GPT, ex.DiskError, 1024, {"gpt"}),
        "apm": (APM, ex.DiskError, 1024, {"apm"}),
        "bsd": (BSD, ex.DiskError, 1024, {"bsd", "bsd64"}),
        "md": (lambda fh: MD([fh]), ValueError, 4096, {"md"}),
        "md-member": (MDPhysicalDisk, ValueError, 4096, {"md"}),
        "ddf": (lambda fh: DDF([fh]), ex.DDFError, 512, {"ddf"}),
        "ddf-member": (DDFPhysicalDisk, ex.DDFError, 512, {"ddf"}),
        "lvm": (LVM2, ex.LVM2Error, 2048, {"lvm"}),
        "pv": (LVM2Device, ex.LVM2Error, 2048, {"lvm"}),
        "thin": (lambda fh: ThinPool(fh, io.BytesIO(bytes(1 << 16))), ex.DMError, 512, {"thin"}),
        "vinum": (lambda fh: Vinum([fh]), ValueError, 5120, {"vinum"}),
        "vss": (VSS, ex.Error, 8192, {"vss"}),
    }


NAMES = ("disk", "mbr", "gpt", "apm", "bsd", "md", "md-member", "ddf", "ddf-member", "lvm", "pv", "thin", "vinum", "vss")
LENGTHS = (0, 1, 3, 4, 100, 511, 512, 513, 1024, 1536, 2048, 4095, 4096, 5120, 8191, 8192, 65536, 65537, 131072, 200000)


def cases(tier):
    for inner in zoo.MAKERS:
        for variant in (0, 1):
            yield ("foreign", inner, variant)
    for value in range(256):
        yield ("blank", value)
    for k in range(len(MARKS) + 1):
        for subset in combinations(range(len(MARKS)), k):
            if compatible(subset):
                yield ("marked", subset)


def family(inner):
    return inner.split("-")[0]


def run(case, ctx):
    if case[0] == "foreign":
        foreign(ctx, *case[1:])
    elif case[0] == "blank":
        blank(ctx, case[1])
    else:
        marked(ctx, tuple(case[1]))


def refuse(ctx, name, data, what, cut=False):
    opener, error, need, _ = openers()[name]
    allowed = (error, EOFError) if name != "disk" and (cut or len(data) < need) else (error,)
    ctx.raises(opener, io.BytesIO(data), what=f"{name}: {what}", exc=allowed)


def md_found(data):
    """Whether one of the places of a superblock happens to hold one."""
    places = [enc_md.sector_of(v, len(data)) for v in ("0.90", "1.0", "1.1", "1.2")]
    magic = enc_md.MAGIC.to_bytes(4, "little")
    return any(at >= 0 and data[at * S : at * S + 4] == magic for at in places)


def foreign(ctx, inner, variant):
    for n, source in enumerate(zoo.item(inner, variant).sources):
        own = family(inner)
        if own == "thin" and n:
            own = "thin data"
        for name in NAMES:
            if own in openers()[name][3]:
                if not variant and own != "gpt":
                    opener = openers()[name][0]
                    ok, value = ctx.call(opener, io.BytesIO(source))
                    ctx.true(ok, f"{name}: {inner} source {n} refused: {value!r}")
                for move in range(1, 20):
                    moved = pattern(77, 0, move * S) + source
                    if not (own == "lvm" and move < 3) and not (own == "md" and md_found(moved)):
                        refuse(ctx, name, moved, f"{inner} source {n} moved by {move}")
                    left = source[: -move * S]
                    if own == "ddf" and left[-S:][:4] == enc_ddf.SIGNATURE or own == "md" and md_found(left):
                        continue
                    if own in ("ddf", "md"):
                        refuse(ctx, name, left, f"{inner} source {n} cut by {move}")
                continue
            refuse(ctx, name, source, f"{inner} source {n}")
            for cut in sorted({*range(1, 17), len(source) // S - 1, len(source) // S - 2, len(source) // 2 // S}):
                if cut * S < len(source):
                    refuse(ctx, name, source[: cut * S], f"{inner} source {n} cut at {cut}", cut=True)
                    if name not in ("disk", "mbr", "gpt", "apm", "bsd"):
                        refuse(ctx, name, source[cut * S :], f"{inner} source {n} from {cut}")
            for move in (1, 2, 3, 4, 5, 6, 7, 8, 16, 128):
                refuse(ctx, name, pattern(77, 0, move * S) + source, f"{inner} source {n} moved by {move}")
            ctx.state((inner, variant, n, name))
    ctx.outcome("foreign")


def blank(ctx, value):
    for n in LENGTHS:
        for name in NAMES:
            refuse(ctx, name, bytes([value]) * n, f"{n} bytes of {value:#x}")
        ctx.state((value, n))
    ctx.outcome("blank")


# ---------------------------------------------------------------------------------------------------- several marks

SIZE = 5 * 65536 + 40 * 1024


def lvm_mark(label):
    group = {
        "id": "vgid", "seqno": 1, "format": "lvm2", "status": ["READ"], "flags": [], "extent_size": 2, "max_lv": 0, "max_pv": 0,
        "physical_volumes": {
            "pv0": {"id": enc_lvm.dashed(enc_lvm.uuid_of(1)), "device": "/dev/x", "status": [], "flags": [],
                    "pe_start": 400, "pe_count": 16},
        },
        "logical_volumes": {
            f"lv{label}": {"id": "lvid", "status": ["READ", "VISIBLE"], "flags": [], "segment_count": 1,
                    "segment1": {"start_extent": 0, "extent_count": 3, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 2]}},
        },
    }  # fmt: skip
    text = enc_lvm.text_bytes(enc_lvm.group_tree(group))
    area = enc_lvm.mda(160 * 1024, 8192, text, 512)
    return {
        label * S: enc_lvm.label_sector(label, enc_lvm.uuid_of(1), SIZE, [(200 * 1024, 0)], [(160 * 1024, 8192)]),
        160 * 1024: area,
    }


def md_mark(version):
    at = enc_md.sector_of(version, SIZE)
    if version == "0.90":
        return {at * S: enc_md.super_0(set_uuid=bytes(range(16)), level=1, size_kib=128, raid_disks=1, number=0, disks={0: (0, 6)})}
    return {
        at * S: enc_md.super_1(
            set_uuid=bytes(range(16)), name=b"set", level=1, size=128, raid_disks=1, data_offset=160, data_size=128,
            super_offset=at, roles=(0,),
        )
    }  # fmt: skip


def ddf_mark():
    data = bytes(64 * S)
    image = enc_ddf.disk_image(
        group=enc_ddf.guid("G"), data=data, pdes=[enc_ddf.pde(enc_ddf.guid("P"), 7, 64)],
        vdes=[enc_ddf.vde(enc_ddf.guid("V"), 0, b"vol")],
        records=[
            enc_ddf.vdcr(vguid=enc_ddf.guid("V"), refs=[7], starts=[400], max_elements=8, prl=0x1F, rlq=0, strip=0,
                         block_count=16, vd_size=16)
        ],
        pguid=enc_ddf.guid("P"), ref=7, block=S,
    )  # fmt: skip
    # the headers hold block numbers: the image is made as large as the device
    tail = len(image) - len(data)
    image = enc_ddf.disk_image(
        group=enc_ddf.guid("G"), data=bytes(SIZE - tail), pdes=[enc_ddf.pde(enc_ddf.guid("P"), 7, 64)],
        vdes=[enc_ddf.vde(enc_ddf.guid("V"), 0, b"vol")],
        records=[
            enc_ddf.vdcr(vguid=enc_ddf.guid("V"), refs=[7], starts=[400], max_elements=8, prl=0x1F, rlq=0, strip=0,
                         block_count=16, vd_size=16)
        ],
        pguid=enc_ddf.guid("P"), ref=7, block=S,
    )  # fmt: skip
    assert len(image) == SIZE
    return {SIZE - tail: image[SIZE - tail :]}


def vinum_mark():
    lines = [enc_vinum.volume(b"v"), enc_vinum.plex(b"v.p0", b"concat", b"v"),
             enc_vinum.sd(b"v.p0.s0", b"a", 8192, enc_vinum.START + 65536, b"v.p0", 0)]  # fmt: skip
    fh = enc_vinum.drive(b"a", b"\n".join(lines) + b"\n", SIZE, 3)
    return {4096: fh.at(4096, enc_vinum.START - 4096)}


def apm_mark():
    return {0: enc_disk.apm_driver_block(512)[:512], 512: enc_disk.apm_entry(1, 410, 16, b"n", b"Apple_HFS")}


def gpt_mark():
    entry = enc_disk.gpt_entry(bytes(range(16)), bytes([3] * 16), 420, 440)
    return {
        0: enc_disk.mbr_sector([enc_disk.mbr_entry(0xEE, 1, 0xFFFFFFFF)]),
        512: enc_disk.gpt_header(array_lba=300, count=1),
        300 * S: entry.ljust(512, b"\0"),
    }


MARKS = {
    "mbr": lambda: {0: enc_disk.mbr_sector([enc_disk.mbr_entry(0x83, 410, 16), enc_disk.mbr_entry(0x07, 430, 8)], serial=5)},
    "gpt": gpt_mark,
    "apm": apm_mark,
    "bsd": lambda: {512: enc_disk.bsd32_label([(8, 410, 7), (0, 0, 0), (500, 0, 0)])},
    "bsd64": lambda: {512: enc_disk.bsd64_label([(8 * S, 410 * S, 7, bytes(16))])},
    "lvm-0": lambda: lvm_mark(0),
    "lvm-1": lambda: lvm_mark(1),
    "lvm-2": lambda: lvm_mark(2),
    "lvm-3": lambda: lvm_mark(3),
    "md-0.90": lambda: md_mark("0.90"),
    "md-1.0": lambda: md_mark("1.0"),
    "md-1.1": lambda: md_mark("1.1"),
    "md-1.2": lambda: md_mark("1.2"),
    "ddf": ddf_mark,
    "vinum": vinum_mark,
    "thin": lambda: {0: enc_dm.pool({1: {0: 1}}, 2, 3, 4096).at(0, 512)},
}
KINDS = list(MARKS)


@lru_cache(maxsize=None)
def mark(i):
    return {at: bytes(data) for at, data in MARKS[KINDS[i]]().items()}


@lru_cache(maxsize=None)
def clash(i, j):
    if any(KINDS[i].startswith(k) and KINDS[j].startswith(k) for k in ("md", "lvm")):
        return True
    return any(a < b + len(db) and b < a + len(da) for a, da in mark(i).items() for b, db in mark(j).items())


def compatible(subset):
    return not any(clash(i, j) for i, j in combinations(subset, 2))


def device(subset):
    img = bytearray(pattern(91, 0, SIZE))
    img[: 4 * S] = bytes(4 * S)
    for i in subset:
        for at, data in mark(i).items():
            img[at : at + len(data)] = data
    return bytes(img)


def report(name, root):
    if name in ("mbr", "gpt", "apm", "bsd"):
        return [(p.number, p.offset, p.size, p.type, p.type_str, p.name) for p in root.partitions]
    if name in ("disk", "md", "ddf", "lvm", "vinum"):
        return zoo.describe(root)
    if name == "md-member":
        return [str(root.set_uuid), root.raid_disk, root.offset, root.size]
    if name == "ddf-member":
        return [root.reference, root.size, root.guid]
    if name == "pv":
        return [root.id, root.size, root.metadata]
    return [type(root).__name__]


def expected(name, kinds):
    """Which of the marks on a device this opener goes by."""
    if name == "disk":
        # in order of precedence
        for own in ("gpt", "mbr", "apm", "bsd", "bsd64"):
            if own in kinds:
                return own
        return None
    own = openers()[name][3]
    found = [k for k in kinds if family(k) in own]
    return found[0] if found else None


@lru_cache(maxsize=None)
def alone(name, kind):
    return report(name, openers()[name][0](io.BytesIO(device((KINDS.index(kind),)))))


def marked(ctx, subset):
    kinds = [KINDS[i] for i in subset]
    data = device(subset)
    for name in NAMES:
        if name == "vss":
            continue
        own = expected(name, kinds)
        if own is None:
            refuse(ctx, name, data, f"device with {', '.join(kinds) or 'nothing'}")
        elif name == "thin":
            ok, value = ctx.call(openers()[name][0], io.BytesIO(data))
            ctx.true(ok, f"thin: device with {kinds}: {value!r}")
        else:
            ctx.eq(report(name, openers()[name][0](io.BytesIO(data))), alone(name, own), f"{name}: device with {kinds}")
    ctx.state(subset)
    ctx.outcome(f"{len(subset)} marks")
