"""Containers: image sets of one format whose volumes hold given byte strings.

``LAYERS[name](blobs)`` returns ``(images, opener)``; ``opener(file objects)`` returns one stream per byte string, in
order. Every byte string is a multiple of 512 bytes long. Streams are exactly as long as the byte string, except for
the layers in ``LONGER``, whose streams may go on behind it.
"""

from __future__ import annotations

from checks import c18_lvm_data as c18
from vlib import enc_ddf, enc_disk, enc_dm, enc_lvm, enc_md, enc_vinum, ref_raid
from vlib.src import pattern

S = 512
LONGER = {"gpt", "lvm-striped"}


def sectors(blob):
    assert len(blob) % S == 0
    return len(blob) // S


def layout(blobs, start, gap):
    """Sector of every byte string, one behind the other."""
    out, at = [], start
    for i, b in enumerate(blobs):
        out.append(at)
        at += sectors(b) + gap + i % 2
    return out, at


def compose(size, tag, pieces):
    img = bytearray(pattern(tag, 0, size))
    for off, data in pieces:
        assert off + len(data) <= size
        img[off : off + len(data)] = data
    return bytes(img)


# ---------------------------------------------------------------------------------------------------- partitions


def disk_opener(places):
    """Open the partitions that start at these byte offsets."""

    def opener(fhs):
        from dissect.volume.disk.disk import Disk  # noqa: PLC0415

        parts = {p.offset: p for p in Disk(fhs[0]).partitions}
        return [parts[at].open() for at in places]

    return opener


def mbr(blobs):
    """The first one in a primary partition, the others in logical ones."""
    e = enc_disk.mbr_entry
    first = 7
    at = first + sectors(blobs[0]) + 1
    pieces, places = [(first * S, blobs[0])], [first * S]
    base = at
    records = []
    for b in blobs[1:]:
        records.append((at, sectors(b)))
        pieces.append(((at + 2) * S, b))
        places.append((at + 2) * S)
        at += 2 + sectors(b) + 1
    for i, (pos, n) in enumerate(records):
        entries = [e(0x83, 2, n)]
        if i + 1 < len(records):
            entries.append(e(0x05, records[i + 1][0] - base, 2 + records[i + 1][1]))
        pieces.append((pos * S, enc_disk.mbr_sector(entries)))
    primary = [e(0xFD, first, sectors(blobs[0]))]
    if records:
        primary.append(e(0x0F, base, at - base))
    pieces.append((0, enc_disk.mbr_sector(primary, serial=1)))
    return [compose((at + 1) * S, 501, pieces)], disk_opener(places)


def gpt(blobs):
    at, end = layout(blobs, 40, 3)
    entries = b"".join(
        enc_disk.gpt_entry(bytes(range(50, 66)), bytes([i + 1] * 16), p, p + sectors(b))
        for i, (p, b) in enumerate(zip(at, blobs))
    )
    pieces = [
        (0, enc_disk.mbr_sector([enc_disk.mbr_entry(0xEE, 1, 0xFFFFFFFF)])),
        (S, enc_disk.gpt_header(array_lba=2, count=len(blobs))),
        (2 * S, entries),
        *[(p * S, b) for p, b in zip(at, blobs)],
    ]
    return [compose((end + 2) * S, 502, pieces)], disk_opener([p * S for p in at])


def apm(blobs):
    at, end = layout(blobs, 30, 1)
    pieces = [(0, enc_disk.apm_driver_block(512))]
    for i, (p, b) in enumerate(zip(at, blobs)):
        pieces.append(((1 + i) * S, enc_disk.apm_entry(len(blobs), p, sectors(b), b"part", b"Apple_Free")))
        pieces.append((p * S, b))
    return [compose(end * S, 503, pieces)], disk_opener([p * S for p in at])


def bsd(blobs):
    at, end = layout(blobs, 20, 1)
    parts = [(sectors(b), p, 7) for p, b in zip(at, blobs)]
    parts = [*parts[:2], *[(0, 0, 0)] * (2 - len(parts[:2])), (end, 0, 0), *parts[2:]]
    pieces = [(0, bytes(S)), (S, enc_disk.bsd32_label(parts)), *[(p * S, b) for p, b in zip(at, blobs)]]
    return [compose(end * S, 504, pieces)], disk_opener([p * S for p in at])


def nested_bsd(blobs):
    """A slice with a label inside an MBR."""
    (inner,), _ = bsd(blobs)
    at, _ = layout(blobs, 20, 1)
    start = 11
    img = compose(
        (start + sectors(inner)) * S,
        505,
        [(0, enc_disk.mbr_sector([enc_disk.mbr_entry(0xA5, start, sectors(inner))])), (start * S, inner)],
    )

    def opener(fhs):
        from dissect.volume.disk.disk import Disk  # noqa: PLC0415

        parts = {p.offset: p for p in Disk(fhs[0]).partitions}
        return [parts[p * S].open() for p in at]

    return [img], opener


# ---------------------------------------------------------------------------------------------------- RAID


def plain_raid(level, lay, chunk, n, scatter):
    """Each byte string in a RAID set of its own."""

    def layer(blobs):
        images, sizes = [], []
        for i, b in enumerate(blobs):
            members = scatter(b)
            sizes.append([len(m) for m in members])
            for j, m in enumerate(members):
                images.append(pattern(510 + i, 0, S * (j + 1)) + bytes(m) + pattern(520 + j, 0, S))

        def opener(fhs):
            from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk  # noqa: PLC0415

            out, at = [], 0
            for i, b in enumerate(blobs):
                disks = {
                    j: (0, PhysicalDisk(fhs[at + j], S * (j + 1), size)) for j, size in enumerate(sizes[i])
                }
                at += len(sizes[i])
                out.append(VirtualDisk("v", f"u{i}", len(b), level, lay, chunk, len(disks), disks).open())
            return out

        return images, opener

    return layer


def cut(b):
    third = sectors(b) // 3 * S
    return [p for p in (b[:third], b[third : third + S], b[third + S :]) if p]


def deal(n, chunk):
    def scatter(b):
        rows = -(-len(b) // (n * chunk))
        b = b.ljust(rows * n * chunk, b"\xee")
        return [b"".join(b[(r * n + i) * chunk : (r * n + i + 1) * chunk] for r in range(rows)) for i in range(n)]

    return scatter


def par(level, lay, n, chunk):
    def scatter(b):
        dd = ref_raid.parity_data_disks(level, n)
        rows = -(-len(b) // (dd * chunk))
        return ref_raid.parity_scatter(level, lay, n, chunk, rows, b.ljust(rows * dd * chunk, b"\xee"))

    return scatter


def ten(lay, n, chunk):
    def scatter(b):
        rows = 2
        while len(ref_raid.raid10_places(lay, n, rows)) * chunk < len(b):
            rows += max(2, rows // 8 * 2)
        places = ref_raid.raid10_places(lay, n, rows)
        members = [bytearray(rows * chunk) for _ in range(n)]
        b = b.ljust(len(places) * chunk, b"\xee")
        for k, copies in enumerate(places):
            for dev, row in copies:
                members[dev][row * chunk : (row + 1) * chunk] = b[k * chunk : (k + 1) * chunk]
        return members

    return scatter


# ---------------------------------------------------------------------------------------------------- MD, DDF, vinum


def md(version, level):
    """Sets of two members, all in one MD call; a size is exact to the sector."""

    def layer(blobs):
        images = []
        for i, b in enumerate(blobs):
            if level == 1:
                members, size = [b, b], sectors(b)
            elif level == -1:
                half = sectors(b) // 2 * S
                members, size = [b[:half], b[half:]], 0
            else:
                parts = deal(2, S)(b)
                if sectors(b) % 2:
                    parts[1] = parts[1][:-S]
                members, size = parts, 0
            for j, m in enumerate(members):
                images.append(md_device(version, level, m, size, i, j))

        def opener(fhs):
            from dissect.volume.md.md import MD  # noqa: PLC0415

            vds = {}
            for i in range(len(blobs)):
                for conf in MD([fhs[2 * i + 1], fhs[2 * i]]).configurations:
                    for vd in conf.virtual_disks:
                        vds[vd.name.split(":")[-1] if vd.name else vd.uuid] = vd
            return [vds[f"set{i}"].open() for i in range(len(blobs))]

        return images, opener

    return layer


def md_device(version, level, data, size, index, role):
    """A member that has a superblock in one place only, whatever it contains."""
    head = {"1.0": 12, "1.1": 12, "1.2": 20}[version] + 8 * role
    for tail in range(24, 1000, 8):
        total = (head + sectors(data) + tail) * S
        at = {"1.0": enc_md.sector_of("1.0", total), "1.1": 0, "1.2": 8}[version]
        block = enc_md.super_1(
            set_uuid=bytes([7] * 15 + [index]), name=b"host:set%d" % index, level=level, size=size,
            chunk=1 if level == 0 else 0, raid_disks=2, data_offset=head, data_size=sectors(data), super_offset=at,
            dev_number=role, events=5, roles=(0, 1),
        )  # fmt: skip
        img = compose(total, 530 + role, [(head * S, data), (at * S, block)])
        places = {v: enc_md.sector_of(v, total) for v in ("0.90", "1.0", "1.1", "1.2")}
        magic = enc_md.MAGIC.to_bytes(4, "little")
        if all(v == version or at < 0 or img[at * S : at * S + 4] != magic for v, at in places.items()):
            return img
    raise AssertionError("no place for the superblock")


def ddf(blobs):
    """All byte strings as concatenations over the same two disks."""
    refs = [0x7001, 0x7002]
    data = [bytearray(pattern(540 + i, 0, S * (i + 1))) for i in range(2)]
    records, vdes = [], []
    for i, b in enumerate(blobs):
        # the members of a concatenation have equal sizes
        half = len(b) if sectors(b) % 2 else len(b) // 2
        starts = []
        for j, part in enumerate(p for p in (b[:half], b[half:]) if p):
            starts.append(len(data[j]) // S)
            data[j] += part
        vdes.append(enc_ddf.vde(enc_ddf.guid(f"S-{i}"), i, f"set{i}".encode()))
        records.append(
            enc_ddf.vdcr(
                vguid=enc_ddf.guid(f"S-{i}"), refs=refs[: len(starts)], starts=starts, max_elements=8, prl=0x1F, rlq=0, strip=0,
                block_count=half // S, vd_size=sectors(b),
            )
        )  # fmt: skip
    pdes = [enc_ddf.pde(enc_ddf.guid(f"P-{r:x}"), r, len(d) // S) for r, d in zip(refs, data)]
    images = [
        enc_ddf.disk_image(
            group=enc_ddf.guid("STACK"), data=bytes(d), pdes=pdes, vdes=vdes, records=records,
            pguid=enc_ddf.guid(f"P-{r:x}"), ref=r,
        )
        for r, d in zip(refs, data)
    ]  # fmt: skip

    def opener(fhs):
        from dissect.volume.ddf.ddf import DDF  # noqa: PLC0415

        vds = {vd.name: vd for conf in DDF(fhs[:2]).configurations for vd in conf.virtual_disks}
        return [vds[f"set{i}"].open() for i in range(len(blobs))]

    return images, opener


def vinum(blobs):
    """Concatenations over two drives."""
    lines, data = [], [b"", b""]
    names = [b"d0", b"d1"]
    for i, b in enumerate(blobs):
        half = sectors(b) // 2 * S
        vol, plx = b"set%d" % i, b"set%d.p0" % i
        lines += [enc_vinum.volume(vol), enc_vinum.plex(plx, b"concat", vol)]
        pos = 0
        for j, part in enumerate((b[:half], b[half:])):
            if part:
                lines.append(enc_vinum.sd(plx + b".s%d" % j, names[j], len(part), enc_vinum.START + len(data[j]), plx, pos))
                data[j] += part
                pos += len(part)
    images = []
    for j in range(2):
        fh = enc_vinum.drive(names[j], b"\n".join(lines) + b"\n", enc_vinum.START + len(data[j]), 550 + j)
        fh.put(enc_vinum.START, data[j])
        images.append(fh.at(0, fh.length))

    def opener(fhs):
        from dissect.volume.vinum.vinum import Vinum  # noqa: PLC0415

        vds = {vd.name: vd for conf in Vinum(fhs[:2]).configurations for vd in conf.virtual_disks}
        return [vds[f"set{i}"].open() for i in range(len(blobs))]

    return images, opener


# ---------------------------------------------------------------------------------------------------- LVM, thin


def lvm(striped):
    def layer(blobs):
        total = sum(sectors(b) + 1 for b in blobs)
        group = c18.Group(1, total + 4, npv=2, pe_start=160, tag=560)
        at = 1
        for i, b in enumerate(blobs):
            if striped:
                padded = b + pattern(561, 0, len(b) % (2 * S))
                half = len(padded) // 2 // S
                parts = deal(2, S)(padded)
                group.add(f"set{i}", [("striped", 2 * half, 1, ((1, at), (0, at)))])
                group.puts += [(1, at * S, parts[0]), (0, at * S, parts[1])]
                at += half + 1
            else:
                half = sectors(b) // 2
                group.add(f"set{i}", [("linear", half, 0, at), ("linear", sectors(b) - half, 1, at)])
                group.puts += [(0, at * S, b[: half * S]), (1, at * S, b[half * S :])]
                at += sectors(b) - half + 1
        images = [d.at(0, d.length) for d in group.devices()]

        def opener(fhs):
            from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

            vg = LVM2(list(fhs[:2])).vg
            return [vg.logical_volumes[f"set{i}"].open() for i in range(len(blobs))]

        return images, opener

    return layer


def thin(blobs):
    """One device each in one pool, blocks stored backwards; zero blocks are left out."""
    sec = 2
    bs = sec * S
    maps, blocks = {}, [b"\xdd" * bs]
    for i, b in enumerate(blobs):
        maps[i + 1] = {}
        for k in reversed(range(-(-len(b) // bs))):
            part = b[k * bs : (k + 1) * bs].ljust(bs, b"\xee")
            if any(part):
                maps[i + 1][k] = len(blocks)
                blocks.append(part)
    meta = enc_dm.pool(maps, sec, 60, 4096)

    def opener(fhs):
        from dissect.volume.dm.thin import ThinPool  # noqa: PLC0415

        pool = ThinPool(fhs[0], fhs[1])
        return [pool.open(i + 1, len(b)) for i, b in enumerate(blobs)]

    return [meta.at(0, meta.length), b"".join(blocks)], opener


def pv(blobs):
    """Each byte string is the data area of a physical volume of its own."""
    images = []
    for i, b in enumerate(blobs):
        start = (16 + 3 * i) * S
        fh = enc_lvm.device(f"{i:032x}", start + len(b), start, 570 + i, device_size=len(b))
        fh.put(start, b)
        images.append(fh.at(0, fh.length))

    def opener(fhs):
        from dissect.volume.lvm.physical import LVM2Device  # noqa: PLC0415

        return [LVM2Device(fh).open() for fh in fhs[: len(blobs)]]

    return images, opener


# ---------------------------------------------------------------------------------------------------- other sources


class Bare:
    """A source with nothing but what is needed to read it."""

    def __init__(self, fh):
        self.read = fh.read
        self.seek = fh.seek
        self.tell = fh.tell


def bare(blobs):
    return blobs, lambda fhs: [Bare(fh) for fh in fhs[: len(blobs)]]


def runs(blobs):
    """Pieces of the byte string in another order, as a file in a file system has them."""
    images, lists = [], []
    for i, b in enumerate(blobs):
        step = 3 + i % 2
        cuts = [(at, min(step, sectors(b) - at)) for at in range(0, sectors(b), step)]
        img, where = bytearray(pattern(580 + i, 0, S)), {}
        for at, n in cuts[1::2] + cuts[::2]:
            where[at] = len(img) // S
            img += b[at * S : (at + n) * S]
        images.append(bytes(img))
        lists.append([(where[at], n) for at, n in cuts])
    return images, lists


def runlist(blobs):
    images, lists = runs(blobs)

    def opener(fhs):
        from dissect.util.stream import RunlistStream  # noqa: PLC0415

        return [RunlistStream(fh, lst, len(b), S) for fh, lst, b in zip(fhs, lists, blobs)]

    return images, opener


def mapping(blobs):
    images, lists = runs(blobs)

    def opener(fhs):
        from dissect.util.stream import MappingStream  # noqa: PLC0415

        out = []
        for fh, lst, b in zip(fhs, lists, blobs):
            stream, pos = MappingStream(len(b)), 0
            for at, n in lst:
                stream.add(pos * S, n * S, fh, at * S)
                pos += n
            out.append(stream)
        return out

    return images, opener


def shifted(cls, sized):
    """The byte string behind something else."""

    def layer(blobs):
        images = [pattern(585 + i, 0, S * (i + 1)) + b for i, b in enumerate(blobs)]

        def opener(fhs):
            import dissect.util.stream as streams  # noqa: PLC0415

            make = getattr(streams, cls)
            return [make(fh, S * (i + 1), len(b) if sized else None) for i, (fh, b) in enumerate(zip(fhs, blobs))]

        return images, opener

    return layer


LAYERS = {
    "bare": bare,
    "runlist": runlist,
    "mapping": mapping,
    "range": shifted("RangeStream", True),
    "relative": shifted("RelativeStream", False),
    "pv": pv,
    "mbr": mbr,
    "gpt": gpt,
    "apm": apm,
    "bsd": bsd,
    "bsd-slice": nested_bsd,
    "linear": plain_raid(-1, 0, 0, 3, cut),
    "raid0": plain_raid(0, 2, 1024, 3, deal(3, 1024)),
    "raid5": plain_raid(5, 2, 1024, 3, par(5, 2, 3, 1024)),
    "raid6": plain_raid(6, 8, 1536, 4, par(6, 8, 4, 1536)),
    "raid10": plain_raid(10, 0x102, 1024, 3, ten(0x102, 3, 1024)),
    "md-linear": md("1.2", -1),
    "md-raid0": md("1.1", 0),
    "md-raid1": md("1.0", 1),
    "ddf": ddf,
    "vinum": vinum,
    "lvm": lvm(False),
    "lvm-striped": lvm(True),
    "thin": thin,
}


def pad(blob):
    return bytes(blob) + pattern(590, 0, -len(blob) % S)
