"""Writer for Linux MD superblocks (md_p.h), 0.90 and 1.x, independent of the library."""

from __future__ import annotations

import struct

MAGIC = 0xA92B4EFC
SPARE, FAULTY, JOURNAL = 0xFFFF, 0xFFFE, 0xFFFD


def time_v1(seconds: int, micro: int = 0) -> int:
    return seconds | micro << 40


def super_1(
    *,
    set_uuid: bytes,
    name: bytes = b"",
    ctime: int = 0,
    utime: int = 0,
    level: int = 0,
    layout: int = 0,
    size: int = 0,
    chunk: int = 0,
    raid_disks: int = 1,
    data_offset: int = 0,
    data_size: int = 0,
    super_offset: int = 0,
    dev_number: int = 0,
    device_uuid: bytes = bytes(16),
    events: int = 0,
    roles: tuple[int, ...] = (0,),
    feature_map: int = 0,
    major: int = 1,
    magic: int = MAGIC,
) -> bytes:
    """Sizes and offsets in 512-byte sectors."""
    head = struct.pack("<IIII", magic, major, feature_map, 0)
    head += set_uuid + name.ljust(32, b"\0")
    head += struct.pack("<QiIQ", ctime, level, layout, size)
    head += struct.pack("<III", chunk, raid_disks, 0x11223344)
    head += struct.pack("<iQiIII", -7, 0x0102030405060708, -2, 0xA5A5A5A5, 0x5A5A, 0x77)
    assert len(head) == 128, len(head)
    dev = struct.pack("<QQQQ", data_offset, data_size, super_offset, 0xFFFFFFFFFFFFFFFF)
    dev += struct.pack("<II", dev_number, 3) + device_uuid + struct.pack("<BBHi", 0, 9, 8, -16)
    assert len(dev) == 64
    state = struct.pack("<QQQII", utime, events, 0x1234567890, 0xDEADBEEF, len(roles)) + bytes(32)
    assert len(state) == 64
    return head + dev + state + b"".join(struct.pack("<H", r) for r in roles)


def super_0(
    *,
    set_uuid: bytes,
    ctime: int = 0,
    utime: int = 0,
    level: int = 1,
    size_kib: int = 0,
    raid_disks: int = 1,
    events: int = 0,
    layout: int = 0,
    chunk_bytes: int = 0,
    number: int = 0,
    disks: dict[int, tuple[int, int]] | None = None,
    minor: int = 90,
    this: tuple[int, int] | None = None,
    major: int = 0,
    magic: int = MAGIC,
) -> bytes:
    """``disks``: number -> (raid_disk, state bits). ``this``: the own copy of the descriptor."""
    words = [0] * 1024
    u = struct.unpack("<4I", set_uuid)
    disks = disks or {}
    words[0:5] = [magic, major, minor, 0, 0]
    words[5] = u[0]
    words[6] = ctime
    words[7] = level & 0xFFFFFFFF
    words[8] = size_kib
    words[9] = len(disks)
    words[10] = raid_disks
    words[11] = 127
    words[12] = 0
    words[13], words[14], words[15] = u[1], u[2], u[3]
    words[32] = utime
    words[33] = 1
    words[34:38] = [raid_disks, raid_disks, 0, 0]
    words[38] = 0xDEADBEEF
    words[39] = events & 0xFFFFFFFF
    words[40] = events >> 32
    words[41], words[42] = 0x31313131, 0x32323232
    words[43] = 0xFFFFFFFF
    words[64] = layout
    words[65] = chunk_bytes

    def descriptor(base: int, num: int, raid_disk: int, state: int) -> None:
        words[base : base + 5] = [num, 8, 16 * num + 1, raid_disk & 0xFFFFFFFF, state]

    for num, (raid_disk, state) in disks.items():
        descriptor(128 + 32 * num, num, raid_disk, state)
    own = this or disks.get(number, (0, 6))
    descriptor(992, number, *own)
    return struct.pack("<1024I", *words)


def sector_of(version: str, size_bytes: int) -> int:
    """Sector of the superblock for a device of this size."""
    sectors = size_bytes // 512
    if version == "0.90":
        return (sectors // 128) * 128 - 128
    if version == "1.0":
        return (sectors - 16) // 8 * 8
    return {"1.1": 0, "1.2": 8}[version]
