"""Writer for SNIA DDF metadata (big endian), independent of the library."""

from __future__ import annotations

import struct

NONE32 = 0xFFFFFFFF
NONE64 = 0xFFFFFFFFFFFFFFFF

CONTROLLER_SIG = 0xAD111111
PDR_SIG = 0x22222222
VDR_SIG = 0xDDDDDDDD
VDCR_SIG = 0xEEEEEEEE
PDD_SIG = 0x33333333
SPARE_SIG = 0x55555555
VENDOR_SIG = 0x88888888


SIGNATURE = struct.pack(">I", 0xDE11DE11)


def guid(tag: str) -> bytes:
    return tag.encode().ljust(24, b"-")[:24]


def header(
    *,
    group: bytes,
    primary: int,
    secondary: int,
    kind: int,
    record_blocks: int,
    max_elements: int,
    sections: dict[str, tuple[int, int]],
    signature: int = 0xDE11DE11,
    sequence: int = 5,
    max_pd: int = 63,
    max_vd: int = 64,
    max_part: int = 16,
) -> bytes:
    out = struct.pack(">II", signature, 0x12345678) + group + b"01.02.00"
    out += struct.pack(">IIBBB", sequence, 0x51FD0000, 0xFF, 0, 1) + b"\xff" * 13 + b"\xff" * 32
    out += struct.pack(">QQB", primary, secondary, kind) + b"\xff" * 3
    out += struct.pack(">IQ", 32768, 7777)
    out += struct.pack(">HHHHH", max_pd, max_vd, max_part, record_blocks, max_elements)
    out += struct.pack(">I", NONE32) + b"\xff" * 50
    assert len(out) == 192, len(out)
    for name in ("controller", "pdr", "vdr", "config", "pdd", "bbm", "diag", "vendor"):
        out += struct.pack(">II", *sections.get(name, (NONE32, NONE32)))
    out += b"\xff" * 256
    assert len(out) == 512
    return out


def controller(cguid: bytes = b"CTRL" * 6) -> bytes:
    out = struct.pack(">II", CONTROLLER_SIG, 1) + cguid + bytes(range(8)) + b"product".ljust(16, b" ")
    return out + b"\xff" * 8 + b"\0" * 448


def pde(
    pguid: bytes,
    ref: int,
    size_blocks: int,
    block_size: int = 0xFFFF,
    kind: int = 2,
    state: int = 1,
    path: bytes = bytes(range(18)),
) -> bytes:
    out = pguid + struct.pack(">IHHQ", ref, kind, state, size_blocks) + path + struct.pack(">H", block_size) + b"\xff" * 4
    assert len(out) == 64
    return out


UNUSED_PDE = b"\xff" * 64
UNUSED_VDE = b"\xff" * 64


def pdr(entries: list[bytes], populated: int | None = None, maximum: int | None = None) -> bytes:
    """``entries``: slot by slot, unused ones included."""
    count = sum(e != UNUSED_PDE for e in entries) if populated is None else populated
    return (
        struct.pack(">IIHH", PDR_SIG, 2, count, len(entries) if maximum is None else maximum)
        + b"\xff" * 52
        + b"".join(entries)
    )


def vde(vguid: bytes, number: int, name: bytes, kind: int = 0, state: int = 0, init: int = 2) -> bytes:
    out = vguid + struct.pack(">H", number) + b"\xff\xff" + struct.pack(">IBBB", kind, state, init, 0xFF)
    out += b"\xff" * 13 + name.ljust(16, b"\0")[:16]
    assert len(out) == 64
    return out


def vdr(entries: list[bytes], populated: int | None = None, maximum: int | None = None) -> bytes:
    count = sum(e != UNUSED_VDE for e in entries) if populated is None else populated
    return (
        struct.pack(">IIHH", VDR_SIG, 3, count, len(entries) if maximum is None else maximum)
        + b"\xff" * 52
        + b"".join(entries)
    )


def vdcr(
    *,
    vguid: bytes,
    refs: list[int],
    starts: list[int],
    max_elements: int,
    prl: int,
    rlq: int,
    strip: int,
    block_count: int,
    vd_size: int,
    sequence: int = 1,
    timestamp: int = 0x12345,
    sec_count: int = 1,
    sec_seq: int = 0,
    srl: int = 0xFF,
    block_size: int = 0xFFFF,
    count: int | None = None,
    rotate: int = 0xFF,
    signature: int = VDCR_SIG,
) -> bytes:
    out = struct.pack(">II", signature, 4) + vguid + struct.pack(">II", timestamp, sequence) + b"\xff" * 24
    out += struct.pack(">HBBBBBB", len(refs) if count is None else count, strip, prl, rlq, sec_count, sec_seq, srl)
    out += struct.pack(">QQHB", block_count, vd_size, block_size, rotate) + b"\xff" * 5
    out += b"\xff" * 32 + struct.pack(">QB", 0, 0) + b"\xff" * 3 + b"\xff" + b"\xff\xff" + b"\xff" + b"\xff"
    out += b"\xff" * 47 + b"\xff" * 192 + b"\xff" * 128
    assert len(out) == 512, len(out)
    out += b"".join(struct.pack(">I", r) for r in refs) + b"\xff" * 4 * (max_elements - len(refs))
    out += b"".join(struct.pack(">Q", s) for s in starts) + b"\xff" * 8 * (max_elements - len(starts))
    return out


def pdd(pguid: bytes, ref: int) -> bytes:
    return struct.pack(">II", PDD_SIG, 5) + pguid + struct.pack(">IBB", ref, 1, 1) + b"\xff" * 32 + b"\xff" * 442


def spare_record(vguid: bytes) -> bytes:
    return (
        struct.pack(">III", SPARE_SIG, 6, 7)
        + b"\xff" * 7
        + struct.pack(">BHH", 1, 1, 8)
        + b"\xff" * 8
        + vguid
        + struct.pack(">H", 0)
        + b"\xff" * 6
    )


def vendor_record(vguid: bytes) -> bytes:
    return struct.pack(">II", VENDOR_SIG, 8) + vguid


def disk_image(
    *,
    group: bytes,
    data: bytes,
    pdes: list[bytes],
    vdes: list[bytes],
    records: list[bytes],
    pguid: bytes,
    ref: int,
    block: int = 512,
    record_blocks: int = 2,
    max_elements: int = 8,
    gap: int = 0,
    secondary: bool = True,
    order: tuple[str, ...] = ("controller", "pdr", "vdr", "config", "pdd"),
    pad: int = 0,
    sequence: int = 5,
    populated: tuple[int | None, int | None] = (None, None),
) -> bytes:
    """Return a whole disk: data, primary header and sections, secondary copy, anchor in the last block.

    ``gap``: unused blocks between data and the primary header. ``pad``: blocks between sections.
    """
    bodies = {
        "controller": controller(),
        "pdr": pdr(pdes, populated[0]),
        "vdr": vdr(vdes, populated[1]),
        "config": b"".join(r.ljust(record_blocks * block, b"\xff") for r in records),
        "pdd": pdd(pguid, ref),
    }

    def blocks(n: int) -> int:
        return -(-n // block)

    sections = {}
    at = 1 + pad
    for name in order:
        length = blocks(len(bodies[name]))
        if name == "config":
            length = len(records) * record_blocks
        sections[name] = (at, length)
        at += length + pad
    copy_blocks = at
    primary = blocks(len(data)) + gap
    second = primary + copy_blocks + 3 if secondary else NONE64
    total = primary + copy_blocks + (3 + copy_blocks if secondary else 0) + 2 + 1

    image = bytearray(b"\xa5" * (total * block))
    image[: len(data)] = data
    common = dict(
        group=group,
        primary=primary,
        secondary=second,
        record_blocks=record_blocks,
        max_elements=max_elements,
        sections=sections,
        sequence=sequence,
    )
    for base, kind in ((primary, 1),) + (((second, 2),) if secondary else ()):
        image[base * block : base * block + 512] = header(kind=kind, **common)
        for name, (off, _) in sections.items():
            start = (base + off) * block
            image[start : start + len(bodies[name])] = bodies[name]
    image[-block:] = header(kind=0, **common).ljust(block, b"\xff")
    return bytes(image)
