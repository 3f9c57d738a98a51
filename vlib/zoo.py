"""One small image set per format and volume kind, with the expected bytes of every volume in it.

Used by the checks that quantify over formats (access histories, damage, isolation).
"""

from __future__ import annotations

from functools import lru_cache
from typing import NamedTuple

from checks import c08_md_assembly as c08
from checks import c10_ddf_data as c10
from checks import c18_lvm_data as c18
from checks import c22_vinum as c22
from vlib import enc_disk, enc_dm, enc_vss, ref_raid, src

K = 1024


class Item(NamedTuple):
    name: str
    sources: list[bytes]
    root: object  # (file objects) -> the library's object for the whole set
    volumes: object  # root -> {label: opener}
    wants: dict[str, bytes]  # label -> expected bytes; a stream may end earlier (sizes are other properties)

    def open(self, fhs):
        return self.volumes(self.root(fhs))


# ---------------------------------------------------------------------------------------------------- partitions


def disk_item(name, img, parts, sector=512):
    def root(fhs):
        from dissect.volume.disk.disk import Disk  # noqa: PLC0415

        return Disk(fhs[0], sector)

    wants = {f"p{i}": bytes(img[off : off + size]) for i, (off, size) in enumerate(parts)}
    return Item(name, [bytes(img)], root, lambda disk: {f"p{i}": p.open for i, p in enumerate(disk.partitions)}, wants)


def mbr(v=0):
    s = 512
    img = bytearray(src.pattern(11 + 1000 * v, 0, 200 * s))
    e = enc_disk.mbr_entry
    img[0:512] = enc_disk.mbr_sector([e(0x83, 10 + v, 39), e(0x0F, 60, 130), e(0x07, 50, 9)], serial=0xCAFE)
    img[60 * s : 61 * s] = enc_disk.mbr_sector([e(0x83, 2 + v, 35), e(0x05, 50, 50)])
    img[110 * s : 111 * s] = enc_disk.mbr_sector([e(0x82, 1, 45)])
    return disk_item("mbr", img, [((10 + v) * s, 39 * s), ((62 + v) * s, 35 * s), (111 * s, 45 * s), (50 * s, 9 * s)])


def gpt(v=0):
    s = 512
    img = bytearray(src.pattern(12 + 1000 * v, 0, 160 * s))
    img[0:512] = enc_disk.mbr_sector([enc_disk.mbr_entry(0xEE, 1, 0xFFFFFFFF)])
    img[s : s + 512] = enc_disk.gpt_header(array_lba=2, count=4)
    kind = bytes(range(100, 116))
    table = enc_disk.gpt_entry(kind, bytes([1] * 16), 40 + v, 80) + enc_disk.gpt_entry(kind, bytes([2] * 16), 90, 150)
    img[2 * s : 2 * s + 512] = table.ljust(512, b"\0")
    return disk_item("gpt", img, [((40 + v) * s, (41 - v) * s), (90 * s, 61 * s)])


def apm(v=0):
    s = 512
    img = bytearray(src.pattern(13 + 1000 * v, 0, 120 * s))
    img[0:512] = enc_disk.apm_driver_block(512)
    places = [(20 + v, 33), (60, 44 + v)]
    for i, (at, n) in enumerate(places):
        img[512 * (i + 1) : 512 * (i + 2)] = enc_disk.apm_entry(2, at, n, b"name", f"Apple_{i}".encode())
    return disk_item("apm", img, [(at * s, n * s) for at, n in places])


def bsd(v=0):
    s = 512
    img = bytearray(src.pattern(14 + 1000 * v, 0, 120 * s))
    body = enc_disk.bsd32_label([(33, 20 + v, 7), (0, 0, 0), (120, 0, 0), (40, 70, 27)])
    img[s : s + len(body)] = body
    return disk_item("bsd", img, [((20 + v) * s, 33 * s), (70 * s, 40 * s)])


def dragonfly(v=0):
    s = 512
    img = bytearray(src.pattern(15 + 1000 * v, 0, 120 * s))
    uid = bytes(range(16))
    body = enc_disk.bsd64_label([(33 * s, (20 + v) * s, 7, uid), (0, 0, 0, uid), (0, 0, 0, uid), (40 * s, 70 * s, 22, uid)])
    img[s : s + len(body)] = body
    return disk_item("bsd64", img, [((20 + v) * s, 33 * s), (70 * s, 40 * s)])


# ---------------------------------------------------------------------------------------------------- RAID


def raid_item(name, level, layout, chunk, members, volume, order=None):
    """A volume over members stored at different offsets of their sources."""
    n = len(members)
    offs = [(512 * (i + 1), 512 * (2 * i % 3)) for i in range(n)]
    if level == -1:
        offs = [(off, 0) for off, _ in offs]
    sources = [
        src.pattern(300 + i, 0, off + data) + bytes(m) + src.pattern(400 + i, 0, 700)
        for i, (m, (off, data)) in enumerate(zip(members, offs))
    ]

    def root(fhs):
        from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk  # noqa: PLC0415

        disks = {
            i: (data, PhysicalDisk(fh, off, data + len(m)))
            for i, (fh, m, (off, data)) in enumerate(zip(fhs, members, offs))
        }
        return VirtualDisk("v", "u", len(volume), level, layout, chunk, n, disks)

    return Item(name, sources, root, lambda vd: {"v": vd.open}, {"v": volume})


def linear(v=0):
    members = [src.pattern(20 + i + 1000 * v, 0, n) for i, n in enumerate((9000, 512, 20000))]
    return raid_item("linear", -1, 0, 0, members, b"".join(members))


def raid0(v=0):
    sizes, chunk = [12 * K, 20 * K, 13 * K], K
    members = [src.pattern(30 + i + 1000 * v, 0, n) for i, n in enumerate(sizes)]
    volume = b"".join(members[d][o : o + chunk] for d, o in ref_raid.raid0_places(sizes, chunk, False))
    # with differing start offsets the zones would differ: members start at their data area
    item = raid_item("raid0", 0, 2, chunk, members, volume)

    def root(fhs):
        from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk  # noqa: PLC0415

        disks = {i: (0, PhysicalDisk(fh, 512 * (i + 1) + 512 * (2 * i % 3), sizes[i])) for i, fh in enumerate(fhs)}
        return VirtualDisk("v", "u", len(volume), 0, 2, chunk, 3, disks)

    return item._replace(root=root)


def raid1(v=0):
    volume = src.pattern(41 + 1000 * v, 0, 30 * K)
    return raid_item("raid1", 1, 0, 0, [volume] * 3, volume)


def parity(v, level, layout, n, chunk):
    dd = ref_raid.parity_data_disks(level, n)
    rows = max(1, 30 * K // chunk // dd)
    volume = src.pattern(50 + level + 1000 * v, 0, dd * rows * chunk)
    members = ref_raid.parity_scatter(level, layout, n, chunk, rows, volume)
    return raid_item(f"raid{level}", level, layout, chunk, members, volume)


def raid10(v, layout, n, chunk=K):
    dev_chunks = 16
    places = ref_raid.raid10_places(layout, n, dev_chunks)
    volume = src.pattern(60 + 1000 * v, 0, len(places) * chunk)
    members = [bytearray(src.pattern(70 + i, 0, dev_chunks * chunk)) for i in range(n)]
    for k, copies in enumerate(places):
        for dev, row in copies:
            members[dev][row * chunk : (row + 1) * chunk] = volume[k * chunk : (k + 1) * chunk]
    return raid_item(f"raid10-{layout:x}", 10, layout, chunk, members, volume)


def raid_root(cls_path, fhs, *args):
    import importlib  # noqa: PLC0415

    module, cls = cls_path.rsplit(".", 1)
    return getattr(importlib.import_module(module), cls)(list(fhs), *args)


def raid_volumes(raid):
    return {vd.name: vd.open for conf in raid.configurations for vd in conf.virtual_disks}


def md(v, version, geo):
    volume, members, component = c08.volume_for(version, geo, 3000 * v)
    n = len(members)
    sources = [
        c08.make_device(
            version, geo, members[i], component, uuid=c08.UUID_A, role=i, number=(i + 1) % n, events=100, index=i + v
        )
        for i in range(n)
    ]  # fmt: skip

    def volumes(raid):
        return {"arr": vd.open for conf in raid.configurations for vd in conf.virtual_disks}

    return Item(f"md-{version}-{geo}", sources, lambda fhs: raid_root("dissect.volume.md.md.MD", fhs), volumes, {"arr": volume})


def ddf(v, geos):
    volumes, at = [], {}
    for vi, geo in enumerate(geos):
        n = c10.SUPPORTED[geo][3] * c10.SUPPORTED[geo][4]
        disks = [(i + vi + v) % n for i in range(n)]
        _, members = c10.lay_out(geo, 512 << vi, 1)
        starts = []
        for m, d in enumerate(disks):
            starts.append(at.get(d, 0) + 2 * v)
            at[d] = at.get(d, 0) + len(members[m]) // 512 + 3 + 2 * v
        volumes.append((geo, vi, starts, disks, 0))
    images, wants = c10.build(volumes, 512, 1)
    return Item(
        "ddf-" + "-".join(map(str, geos)), images, lambda fhs: raid_root("dissect.volume.ddf.ddf.DDF", fhs, 512),
        raid_volumes, {f"vol{i}": w for i, w in enumerate(wants)},
    )  # fmt: skip


def vinum(v=0):
    s = c22.Set([b"a", b"b", b"c", b"d"], size=256 * K, tag=30 + 1000 * v, fill="comment")
    s.plex(b"cat", b"cat.p0", b"concat", None, [(0, 512 * v, 9 * K), (1, 512, 20 * K)])
    s.plex(b"str", b"str.p0", b"striped", 2 * K, [(0, 20 * K, 12 * K), (1, 30 * K, 12 * K), (2, 0, 12 * K)])
    s.plex(b"r5", b"r5.p0", b"raid5", K, [(0, 40 * K, 12 * K), (2, 20 * K, 12 * K), (3, 0, 12 * K)])
    s.plex(b"mir", b"mir.p0", b"concat", None, [(3, 30 * K, 21 * K)])
    s.plex(b"mir", b"mir.p1", b"concat", None, [(2, 60 * K, 21 * K)])
    sources = []
    for i in range(4):
        fh = s.fh(i)
        if i == 2:
            fh.put(c22.ev.START + 60 * K, s.expect(b"mir.p0"))
        sources.append(fh.at(0, fh.length))
    wants = {v.decode(): s.expect(v + b".p0") for v in s.vols}
    return Item("vinum", sources, lambda fhs: raid_root("dissect.volume.vinum.vinum.Vinum", fhs), raid_volumes, wants)


# ---------------------------------------------------------------------------------------------------- LVM, thin, VSS


def lvm(v=0):
    group = c18.Group(8, 40, npv=3, pe_start=160, tag=50 + 1000 * v)
    chunk = 4
    mapping = {0: 3, 2: 0 + v, 3: 1 - v, 6: 9}
    meta = enc_dm.pool({1: mapping, 7: {1: 2}}, chunk, 3, 512)
    meta = meta.at(0, meta.length)
    assert len(meta) <= 3 * 4096
    meta = meta.ljust(3 * 4096, b"\0")
    group.add("lin", [("linear", 2, 0, v), ("linear", 1, 1, 3), ("linear", 3, 2, 5)])
    group.add("str", [("striped", 4, 4, ((0, 6), (1, 7))), ("linear", 1, 2, 20)])
    group.add("leg0", [("linear", 5, 0, 30)], False)
    group.add("leg1", [("linear", 2, 1, 30), ("linear", 3, 2, 30)], False)
    group.add("mir", [("mirror", 5, (("leg0", 0), ("leg1", 0)))])
    leg = group.expect("leg0")
    group.puts += [(1, 30 * group.es, leg[: 2 * group.es]), (2, 30 * group.es, leg[2 * group.es :])]
    group.add("meta", [("linear", 3, 0, 15)], False)
    group.puts.append((0, 15 * group.es, meta))
    group.add("tdata", [("linear", 4, 1, 15), ("linear", 2, 2, 10)], False)
    spec = {"type": "thin-pool", "metadata": "meta", "pool": "tdata", "transaction_id": 3, "chunk_size": chunk}
    group.add("pool", [("other", 6, spec)], False)
    group.add("thin", [("other", 5, {"type": "thin", "thin_pool": "pool", "transaction_id": 0, "device_id": 1})])
    wants = {n: group.expect(n) for n in ("lin", "str", "mir", "leg1", "tdata", "meta")}
    bs = chunk * 512
    data = wants["tdata"]
    wants["thin"] = b"".join(
        data[mapping[b] * bs : mapping[b] * bs + bs] if b in mapping else bytes(bs) for b in range(5 * group.es // bs)
    )
    devices = group.devices()
    for i in range(3):
        wants[f"pv{i}"] = devices[i].at(160 * 512, 40 * group.es)

    def root(fhs):
        from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

        return LVM2(list(fhs))

    def volumes(lvm2):
        vg = lvm2.vg
        out = {n: vg.logical_volumes[n].open for n in ("lin", "str", "mir", "leg1", "tdata", "meta", "thin")}
        for i in range(3):
            out[f"pv{i}"] = vg.physical_volumes[f"pv{i}"].dev.open
        return out

    # The stream of a physical volume is as long as the device, although it starts behind the metadata: back all of it
    sources = [d.at(0, d.length) + src.pattern(90 + i, 0, 160 * 512) for i, d in enumerate(devices)]
    return Item("lvm", sources, root, volumes, wants)


def thin(v=0):
    sectors = 4
    bs = sectors * 512
    maps = {3: {b: (b * 7 + v) % 11 for b in (0, 1, 2, 5, 6, 9, 12)}, 4: {0: 2, 13: 5}}
    meta = enc_dm.pool(maps, sectors, 3, 512)
    data = src.pattern(80 + 1000 * v, 0, 12 * bs)
    wants = {}
    for dev, m in maps.items():
        wants[f"t{dev}"] = b"".join(data[m[b] * bs : (m[b] + 1) * bs] if b in m else bytes(bs) for b in range(14))

    def root(fhs):
        from dissect.volume.dm.thin import ThinPool  # noqa: PLC0415

        return ThinPool(fhs[0], fhs[1])

    def volumes(pool):
        return {f"t{dev}": lambda dev=dev: pool.open(dev, 14 * bs) for dev in maps}

    return Item("thin", [meta.at(0, meta.length), data], root, volumes, wants)


def vss(v=0):
    vol = enc_vss.Volume(6, tail=512, meta=8, tag=60 + 1000 * v)
    for i in range(3):
        vol.snapshot()
        vol.write(1 + i % 2)
        vol.overlay(i, 2, 0x11 << (i + v))
    vol.write(3)
    # Block 4 is marked in both bitmaps of the newest snapshot (nothing in it), block 5 in one only
    vol.stores[-1].clear, vol.stores[-1].prev_clear = {4, 5}, {4}
    fh = vol.image()
    raw = fh.at(0, fh.length)
    wants = {}
    for k in range(3):
        wants[f"s{k}"] = (raw[: enc_vss.B] + vol.expect(k, 1, 3) + bytes(enc_vss.B) + vol.expect(k, 5, 1))[: vol.size]

    def root(fhs):
        from dissect.volume.vss import VSS  # noqa: PLC0415

        return VSS(fhs[0])

    def volumes(vss):
        return {f"s{i}": s.open for i, s in enumerate(vss.catalog.stores)}

    return Item("vss", [raw], root, volumes, wants)


MAKERS = {
    "mbr": mbr,
    "gpt": gpt,
    "apm": apm,
    "bsd": bsd,
    "bsd64": dragonfly,
    "linear": linear,
    "raid0": raid0,
    "raid1": raid1,
    "raid4": lambda v: parity(v, 4, 0, 3, K),
    "raid5": lambda v: parity(v, 5, 2, 4, K),
    "raid5-big": lambda v: parity(v, 5, 0, 3, 16 * K),
    "raid6": lambda v: parity(v, 6, 10, 5, 512),
    "raid10-near": lambda v: raid10(v, 0x102, 3),
    "raid10-far": lambda v: raid10(v, 0x201, 4),
    "raid10-offset": lambda v: raid10(v, 0x10201, 3, 3 * 512),
    "md-0.90": lambda v: md(v, "0.90", 12),
    "md-1.0": lambda v: md(v, "1.0", 4),
    "md-1.1": lambda v: md(v, "1.1", 1),
    "md-1.2": lambda v: md(v, "1.2", 14),
    "ddf": lambda v: ddf(v, (1, 26)),
    "ddf-concat": lambda v: ddf(v, (39, 4)),
    "vinum": vinum,
    "lvm": lvm,
    "thin": thin,
    "vss": vss,
}


@lru_cache(maxsize=None)
def item(name: str, variant: int = 0) -> Item:
    """Variants have the same names, identities and structure but other places and contents."""
    return MAKERS[name](variant)


def describe(root) -> list[str]:
    """What an opened set reports about itself, as text."""
    out = [type(root).__name__]

    def fields(obj, *names):
        out.append(" ".join(f"{n}={getattr(obj, n)!r}" for n in names if hasattr(obj, n)))

    if hasattr(root, "partitions"):
        fields(root, "serial", "sector_size")
        out.append(type(root.scheme).__name__)
        for p in root.partitions:
            fields(p, "number", "offset", "size", "type", "type_str", "guid", "name", "flags")
    elif hasattr(root, "configurations"):
        for conf in root.configurations:
            out.append(f"{len(conf.physical_disks)} disks")
            for pd in conf.physical_disks:
                fields(pd, "offset", "size", "id", "name", "active", "config_time", "guid", "events", "raid_disk")
            for vd in conf.virtual_disks:
                volume(fields, out, vd)
    elif hasattr(root, "disk_map"):
        volume(fields, out, root)
    elif hasattr(root, "vg"):
        vg = root.vg
        fields(vg, "name", "id", "seqno", "format", "status", "flags", "extent_size", "max_lv", "max_pv")
        for name, pv in vg.physical_volumes.items():
            out.append(name)
            fields(pv, "id", "device", "status", "flags", "dev_size", "pe_start", "pe_count", "size")
        for name, lv in vg.logical_volumes.items():
            out.append(name)
            fields(lv, "id", "status", "flags", "segment_count", "creation_time", "is_visible", "type")
            for seg in lv.segments:
                fields(seg, "start_extent", "extent_count", "type", "stripes", "mirrors", "device_id")
    elif hasattr(root, "catalog"):
        fields(root, "volume_identifier", "store_volume_identifier")
        for st in root.catalog.stores:
            fields(st, "index", "volume_size", "size", "creation_time", "copy_identifier", "copy_set_identifier")
    return out


def volume(fields, out, vd):
    fields(vd, "name", "uuid", "size", "level", "layout", "stripe_size", "num_disks")
    for idx, (off, disk) in sorted(vd.disk_map.items()):
        out.append(f"{idx}: {off} {getattr(disk, 'offset', None)} {disk.size}")


def contents(it: Item, root) -> dict[str, str]:
    """Digest of every volume."""
    import hashlib  # noqa: PLC0415

    return {label: hashlib.sha1(opener().read()).hexdigest() for label, opener in sorted(it.volumes(root).items())}
