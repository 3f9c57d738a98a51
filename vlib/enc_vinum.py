"""Encoder for vinum drives."""

from __future__ import annotations

import struct

from vlib.src import PatternFile

HDR = 4096
CFG = 4608
CFG_LEN = 65536
START = CFG + 2 * CFG_LEN  # 135680
MAGICS = {"old": 0x494E2056494E4F00, "old-off": 0x4E4F2056494E4F00, "new": 0x56494E554D2D3100, "new-off": 0x56494E554D2D2D00}


def header(name: bytes, sec: int, usec: int, drive_size: int, magic: int, config_length=CFG_LEN, sysname=b"host") -> bytes:
    return struct.pack(
        ">QQ32s32sQQQQQ", magic, config_length, sysname, name, 1_500_000_000, 1, sec, usec, drive_size
    )


def drive(name: bytes, config: bytes, size: int, tag: int, sec=1_700_000_000, usec=0, magic="new", drive_size=None,
          config2=None, cls=PatternFile, fill="zero"):  # fmt: skip
    """``size``: bytes of the whole drive; ``fill``: zeroes (as written by vinum, slow to parse) or a comment behind the text."""
    pad = (lambda text: text.ljust(CFG_LEN, b"\x00")) if fill == "zero" else (lambda text: (text + b"\n#").ljust(CFG_LEN, b"x"))
    fh = cls(size, tag)
    fh.put(0, bytes(HDR))
    fh.put(HDR, header(name, sec, usec, size if drive_size is None else drive_size, MAGICS.get(magic, magic)).ljust(512, b"\x00"))
    fh.put(CFG, pad(config))
    fh.put(CFG + CFG_LEN, pad(config if config2 is None else config2))
    return fh


def volume(name, state=b"up") -> bytes:
    return b"volume " + name + (b" state " + state if state else b"")


def plex(name, org, vol, stripe=None, state=b"up") -> bytes:
    out = b"plex name " + name + b" org " + org
    if stripe is not None:
        out += b" %ds" % (stripe // 512)
    out += b" vol " + vol
    return out + (b" state " + state if state else b"")


def sd(name, drv, length, driveoffset, plx, plexoffset, state=b"up") -> bytes:
    out = b"sd name " + name + b" drive " + drv
    out += b" len %ds driveoffset %ds plex " % (length // 512, driveoffset // 512) + plx
    out += b" plexoffset %ds" % (plexoffset // 512)
    return out + (b" state " + state if state else b"")
