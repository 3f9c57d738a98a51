"""C07: MD superblocks are found and decoded wherever their version places them."""

from __future__ import annotations

import struct
from datetime import datetime, timedelta, timezone
from itertools import product
from uuid import UUID

from dissect.volume.md.md import MDPhysicalDisk, find_super_block

from vlib.enc_md import FAULTY, JOURNAL, MAGIC, SPARE, sector_of, super_0, super_1, time_v1
from vlib.src import PatternFile, SizedPatternFile, mem, pattern

PROPERTY = "C07"
BOUNDS = (
    "versions 0.90/1.0/1.1/1.2; device sizes: every residue of 128 sectors (0.90) and of 16 sectors (1.0) on 6 bases "
    "up to 2^41 sectors, with sub-sector tails 0/1/511, without a size attribute, with one and with an empty one; every header field over its "
    "boundary values; names of every length 0-32 over 4 alphabets; every role kind x device numbers up to 383 (1.x) "
    "and 26 (0.90); absent, misplaced and foreign magics on every one of the first and last 40 sectors"
)
ASSUMPTIONS = [
    "times up to 5e9 seconds; beyond, dissect.util rounds microseconds and year 9999 is the last representable",
    "the identity may be rendered in either UUID byte order, but must be injective",
]

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
VERSIONS = ("0.90", "1.0", "1.1", "1.2")
U8 = (0, 1, 2, 127, 128, 255)
U32 = (0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF)
U64 = (*U32, 0x100000000, 0x1FFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF)
SECONDS = (0, 1, 1700000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 5000000000)
MICROS = (0, 1, 999999, 0xFFFF, 0x10000, 0xFFFFFF)


def cases(tier):
    thorough = tier == "thorough"
    # placement
    for sized in (0, 1, 2):
        for residue, base, tail in product(range(128), (128, 256, 1024, 1 << 22, (1 << 32) - 128, 1 << 41), (0, 1, 511)):
            yield ("place", "0.90", base + residue, tail, sized)
        for residue, base, tail in product(range(128 if thorough else 32), (24, 64, 1000, 1 << 22, (1 << 32) - 8, 1 << 41), (0, 1, 511)):
            yield ("place", "1.0", base + residue, tail, sized)
        for sectors, tail in product((16, 17, 24, 127, 128, 129, 2048, 1 << 41), (0, 1, 511)):
            yield ("place", "1.1", sectors, tail, sized)
            yield ("place", "1.2", sectors, tail, sized)
    # fields
    for version in VERSIONS:
        for field, values in fields(version):
            for v in values:
                yield ("field", version, field, v)
    for version in VERSIONS[1:]:
        for n in range(33):
            for alphabet in range(4):
                yield ("name", version, n, alphabet)
        for dev_number in (*range(0, 10), 127, 128, 255, 256, 382, 383):
            for max_dev in sorted({dev_number + 1, dev_number + 2, 128, 256, 384}):
                if max_dev <= dev_number:
                    continue
                for role in (0, 1, 2, 7, 26, 127, 255, 256, 0xFEFF, 0xFF00, SPARE, FAULTY, JOURNAL):
                    yield ("role1", version, dev_number, max_dev, role)
    for number in range(27):
        for raid_disk in (0, 1, 2, number, 26):
            for state in (6, 6 | 1 << 9, 6 | 1 << 10, 0, 1, 8, 9, 7):
                yield ("role0", number, raid_disk, state)
    for byte in range(16):
        for bit in range(8):
            for version in VERSIONS:
                yield ("uuid", version, byte, bit)
    # negative: no superblock, or a magic elsewhere
    for sectors in (0, 1, 8, 9, 15, 16, 24, 127, 128, 129, 255, 256, 300):
        yield ("none", sectors, 0)
        yield ("none", sectors, 11)
    for sectors in (200, 256, 300, 383):
        for sector in [*range(40), *range(sectors - 40, sectors), 71, 72, 73, 127, 128, 129]:
            for version in ("0.90", "1.2"):
                yield ("stray", sectors, sector, version)
    for version in VERSIONS:
        for magic in (0, MAGIC ^ 1, MAGIC ^ 0x80000000, 0xFC4E2BA9, MAGIC ^ 0x100, MAGIC ^ 0x10000):
            yield ("magic", version, magic)
        for major in (2, 3, 0x100, 0x10000, 0xFFFFFFFF):
            yield ("major", version, major)


def fields(version):
    if version == "0.90":
        return [
            ("ctime", U32),
            ("utime", U32),
            ("level", (-5, -4, -1, 0, 1, 4, 5, 6, 10)),
            ("raid_disks", U32),
            ("events", U64),
            ("layout", U32),
            ("chunk", U32),
        ]
    times = [(s, m) for s in SECONDS for m in MICROS]
    return [
        ("ctime", times),
        ("utime", times),
        ("level", (-5, -4, -1, 0, 1, 4, 5, 6, 10, 0x7FFFFFFF, -0x80000000)),
        ("raid_disks", U32),
        ("events", U64),
        ("layout", U32),
        ("chunk", U32),
        ("data_offset", U64),
        ("data_size", U64),
        ("device_uuid", tuple(range(16))),
        ("feature_map", U32),
    ]


def device(version, size, block, sized=0, tag=900):
    cls = SizedPatternFile if sized == 1 else PatternFile
    fh = cls(size, tag).put(sector_of(version, size) * 512, block)
    if sized == 2:
        # streams of unknown length carry the attribute without a value
        fh.size = None
    return fh


def when(v):
    if isinstance(v, tuple):
        return EPOCH + timedelta(seconds=v[0], microseconds=v[1])
    return EPOCH + timedelta(seconds=v)


BASE1 = dict(
    set_uuid=bytes(range(1, 17)),
    name=b"host:7",
    ctime=time_v1(1600000001, 5),
    utime=time_v1(1700000002, 9),
    level=5,
    layout=2,
    size=4096,
    chunk=128,
    raid_disks=3,
    data_offset=2048,
    data_size=8192,
    dev_number=1,
    device_uuid=bytes(range(64, 80)),
    events=77,
    roles=(0, 2, 1),
)
BASE0 = dict(
    set_uuid=bytes(range(1, 17)),
    ctime=1600000001,
    utime=1700000002,
    level=5,
    layout=2,
    size_kib=2048,
    chunk_bytes=65536,
    raid_disks=3,
    number=1,
    events=77,
    disks={0: (0, 6), 1: (2, 6), 2: (1, 6)},
)


def check_disk(ctx, disk, version, dev_size, **want):
    exp = dict(
        level=5,
        layout=2,
        raid_disks=3,
        dev_number=1,
        raid_disk=2,
        events=77,
        creation_time=when((1600000001, 5) if version != "0.90" else 1600000001),
        update_time=when((1700000002, 9) if version != "0.90" else 1700000002),
    )
    if version == "0.90":
        data = sector_of(version, dev_size)
        exp.update(set_name=None, chunk_size=65536, chunk_sectors=128, data_offset=0, data_size=data)
        exp.update(offset=0, size=data * 512, device_uuid=None)
        ctx.eq(disk.device_uuid, None, "device_uuid")
    else:
        exp.update(set_name="host:7", chunk_size=65536, chunk_sectors=128, data_offset=2048, data_size=8192)
        exp.update(offset=2048 * 512, size=8192 * 512)
        raw = bytes(range(64, 80))
        ctx.true(disk.device_uuid in (UUID(bytes_le=raw), UUID(bytes=raw)) or "device_uuid" in want, "device_uuid")
    raw = bytes(range(1, 17))
    ctx.true(disk.set_uuid in (UUID(bytes_le=raw), UUID(bytes=raw)) or "set_uuid" in want, "set_uuid")
    exp.update(want)
    for name, value in exp.items():
        if name in ("device_uuid", "set_uuid"):
            continue
        ctx.eq(getattr(disk, name), value, f"{version} {name}")


def build(version, **kw):
    if version == "0.90":
        return super_0(**{**BASE0, **kw})
    return super_1(**{**BASE1, **kw})


def run(case, ctx):
    kind = case[0]
    if kind == "place":
        _, version, sectors, tail, sized = case
        size = sectors * 512 + tail
        fh = device(version, size, build(version), sized)
        sector, major, _ = find_super_block(fh)
        ctx.eq((sector, major), (sector_of(version, size), 0 if version == "0.90" else 1), "find_super_block")
        disk = MDPhysicalDisk(fh)
        check_disk(ctx, disk, version, size)
    elif kind == "field":
        _, version, field, v = case
        size = 1 << 21
        kw, want = {field: v}, {}
        if field in ("ctime", "utime"):
            kw = {field: time_v1(*v) if isinstance(v, tuple) else v}
            want = {{"ctime": "creation_time", "utime": "update_time"}[field]: when(v)}
        elif field == "chunk":
            if version == "0.90":
                kw = {"chunk_bytes": v}
                want = {"chunk_size": v, "chunk_sectors": v // 512}
            else:
                want = {"chunk_size": v * 512, "chunk_sectors": v}
        elif field == "device_uuid":
            raw = bytearray(range(64, 80))
            raw[v] ^= 0xFF
            kw = {"device_uuid": bytes(raw)}
            want = {"device_uuid": 1}
        elif field == "data_offset":
            want = {"data_offset": v, "offset": v * 512}
        elif field == "data_size":
            want = {"data_size": v, "size": v * 512}
        elif field == "feature_map":
            want = {}
        else:
            want = {field: v}
        disk = MDPhysicalDisk(device(version, size, build(version, **kw)))
        check_disk(ctx, disk, version, size, **want)
        if field == "device_uuid":
            ctx.true(disk.device_uuid in (UUID(bytes_le=kw[field]), UUID(bytes=kw[field])), "device_uuid")
    elif kind == "name":
        _, version, n, alphabet = case
        raw = ((b"abcdefghijklmnopqrstuvwxyz0123456789" * 2)[:n], "é:ü/漢字€".encode() * 4, bytes(range(255, 200, -1)), b"x\0" + b"y" * 40)[alphabet][:n]
        disk = MDPhysicalDisk(device(version, 1 << 21, build(version, name=raw)))
        check_disk(ctx, disk, version, 1 << 21, set_name=raw.split(b"\0")[0].decode("utf-8", "surrogateescape"))
    elif kind == "role1":
        _, version, dev_number, max_dev, role = case
        roles = [(i * 3 + 1) & 0xFF for i in range(max_dev)]
        roles[dev_number] = role
        block = build(version, dev_number=dev_number, roles=tuple(roles))
        disk = MDPhysicalDisk(device(version, 1 << 21, block))
        check_disk(
            ctx, disk, version, 1 << 21, dev_number=dev_number, raid_disk=None if role in (SPARE, FAULTY, JOURNAL) else role
        )
    elif kind == "role0":
        _, number, raid_disk, state = case
        disks = {i: ((i * 3 + 1) % 27, 6) for i in range(27)}
        disks[number] = (raid_disk, state)
        disk = MDPhysicalDisk(device("0.90", 1 << 21, build("0.90", number=number, disks=disks)))
        active = bool(state & 4) and not state & 1
        check_disk(ctx, disk, "0.90", 1 << 21, dev_number=number, raid_disk=raid_disk if active else None)
    elif kind == "uuid":
        _, version, byte, bit = case
        raw = bytearray(range(1, 17))
        raw[byte] ^= 1 << bit
        disk = MDPhysicalDisk(device(version, 1 << 21, build(version, set_uuid=bytes(raw))))
        check_disk(ctx, disk, version, 1 << 21, set_uuid=1)
        ctx.true(disk.set_uuid in (UUID(bytes_le=bytes(raw)), UUID(bytes=bytes(raw))), "set_uuid")
    elif kind == "none":
        _, sectors, tail = case
        fh = mem(pattern(900, 0, sectors * 512 + tail))
        ctx.eq(find_super_block(fh), (None, None, None), "find_super_block")
        ctx.raises(MDPhysicalDisk, fh, what="device without superblock")
    elif kind == "stray":
        _, sectors, sector, version = case
        size = sectors * 512
        block = build(version)
        fh = PatternFile(size, 900).put(sector * 512, block[: size - sector * 512])
        hits = {sector_of(v, size) for v in VERSIONS}
        if sector in hits:
            return
        # a superblock that is not where any version places it is no superblock
        ctx.eq(find_super_block(fh), (None, None, None), "find_super_block")
        ctx.raises(MDPhysicalDisk, fh, what="stray superblock")
    elif kind == "magic":
        _, version, magic = case
        fh = device(version, 1 << 21, build(version, magic=magic))
        ctx.raises(MDPhysicalDisk, fh, what="wrong magic")
    elif kind == "major":
        _, version, major = case
        fh = device(version, 1 << 21, build(version, major=major))
        ctx.raises(MDPhysicalDisk, fh, what="unknown major version")
