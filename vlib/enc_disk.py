"""Writers for partition tables: MBR, GPT, Apple partition map, BSD disklabels."""

from __future__ import annotations

import struct
import zlib

EXTENDED = (0x05, 0x0F, 0x85)


# -- MBR -------------------------------------------------------------------------------


def mbr_entry(kind: int = 0, start: int = 0, count: int = 0, boot: int = 0) -> bytes:
    return struct.pack("<BBHBBHII", boot, 0xFE, 0xFFC1, kind, 0xFD, 0xFFC2, start, count)


EMPTY_ENTRY = bytes(16)


def mbr_sector(entries: list[bytes], serial: int = 0, code: bytes = b"", signature: int = 0xAA55) -> bytes:
    entries = list(entries) + [EMPTY_ENTRY] * (4 - len(entries))
    out = code.ljust(0x1B8, b"\x90")[:0x1B8] + struct.pack("<IH", serial, 0) + b"".join(entries)
    return out + struct.pack("<H", signature)


# -- GPT -------------------------------------------------------------------------------


def gpt_header(
    *,
    array_lba: int = 2,
    count: int = 128,
    entry_size: int = 128,
    my_lba: int = 1,
    backup_lba: int = 99,
    guid: bytes = bytes(range(16)),
    signature: bytes = b"EFI PART",
    first_usable: int = 34,
    last_usable: int = 1 << 40,
) -> bytes:
    out = signature + struct.pack("<IIII", 0x10000, 92, 0, 0)
    out += struct.pack("<QQQQ", my_lba, backup_lba, first_usable, last_usable) + guid
    out += struct.pack("<QIII", array_lba, count, entry_size, 0)
    out = out[:16] + struct.pack("<I", zlib.crc32(out[:92])) + out[20:]
    return out.ljust(512, b"\0")


def gpt_entry(
    kind: bytes,
    guid: bytes,
    first: int,
    last: int,
    flags: int = 0,
    name: bytes = b"",
    size: int = 128,
) -> bytes:
    out = kind + guid + struct.pack("<QQQ", first, last, flags) + name.ljust(72, b"\0")[:72]
    # what follows a 128 byte entry is reserved
    return out + b"\xee" * (size - 128)


# -- Apple partition map ---------------------------------------------------------------


def apm_driver_block(block_size: int, blocks: int = 1000) -> bytes:
    return (b"ER" + struct.pack(">HIHHIH", block_size, blocks, 1, 1, 0, 0)).ljust(512, b"\0")


def apm_entry(count: int, start: int, size: int, name: bytes, kind: bytes, signature: bytes = b"PM", status: int = 0x33) -> bytes:
    out = signature + struct.pack(">HIII", 0, count, start, size) + name.ljust(32, b"\0")[:32] + kind.ljust(32, b"\0")[:32]
    out += struct.pack(">III", 0, size, status)
    return out.ljust(512, b"\0")


# -- BSD disklabels --------------------------------------------------------------------

BSD_MAGIC = 0x82564557
BSD_MAGIC64 = 0xC4464C59


def bsd32_label(
    parts: list[tuple[int, int, int]],
    *,
    count: int | None = None,
    magic: int = BSD_MAGIC,
    magic2: int = BSD_MAGIC,
    secsize: int = 512,
    slots: int = 8,
) -> bytes:
    """``parts``: (size sectors, offset sectors, file-system type) per slot."""
    out = struct.pack("<IHH", magic, 4, 0) + b"amnesiac".ljust(16, b"\0") + b"fictitious".ljust(16, b"\0")
    out += struct.pack("<6I", secsize, 63, 255, 1000, 16065, 16065000)
    out += struct.pack("<HHI", 0, 0, 0) + struct.pack("<4H", 3600, 1, 0, 0) + struct.pack("<3I", 0, 0, 0)
    out += bytes(20) + bytes(20) + struct.pack("<I", magic2)
    out += struct.pack("<HH", 0, len(parts) if count is None else count) + struct.pack("<II", 8192, 0)
    assert len(out) == 148, len(out)
    for size, offset, kind in parts:
        out += struct.pack("<IIIBBH", size, offset, 2048, kind, 8, 28552)
    return out + bytes(16 * max(0, slots - len(parts)))


def bsd64_label(
    parts: list[tuple[int, int, int, bytes]],
    *,
    count: int | None = None,
    magic: int = BSD_MAGIC64,
    slots: int = 16,
) -> bytes:
    """``parts``: (size bytes, offset bytes, file-system type, storage uuid) per slot."""
    out = struct.pack("<4I", magic, 0, 0x100000, len(parts) if count is None else count) + bytes(range(16))
    out += struct.pack("<5Q", 1 << 40, 32256, 0x100000, 1 << 40, 0) + bytes(64) + bytes(64)
    assert len(out) == 200, len(out)
    for size, offset, kind, uuid in parts:
        out += struct.pack("<QQB3B3I", offset, size, kind, 0, 0, 0, 0, 0, 0) + bytes(range(100, 116)) + uuid
    return out + bytes(64 * max(0, slots - len(parts)))
