"""Encoder for LVM2 physical volumes and metadata text (written from the on-disk format description)."""

from __future__ import annotations

import struct
import zlib

SECTOR = 512
MDA_HEADER = 512  # the circular text buffer starts behind the metadata area header
MDA_MAGIC = b" LVM2 x[5A%r0N*>"


# -- text ---------------------------------------------------------------------------------
class Style:
    """One way of laying out metadata text."""

    FIELDS = ("indent", "eq", "brace", "comment", "own", "blank", "lists", "sep", "trail", "gap")

    def __init__(self, **kw):
        self.indent = "\t"
        self.eq = " = "
        self.brace = " {"
        self.comment = None  # comment text behind every value
        self.own = None  # comment text on its own line before every item
        self.blank = 0  # blank lines before every item
        self.lists = "single"  # single | lvm (two per line) | item (one per line) | commented
        self.sep = ", "
        self.trail = ""  # trailing white space
        self.gap = "\t"  # in front of a comment behind a value
        self.__dict__.update(kw)


def quote(value: str) -> str:
    return '"' + value.replace("\\", "\\\\").replace('"', '\\"') + '"'


def scalar(value) -> str:
    return quote(value) if isinstance(value, str) else str(value)


def render(tree: dict, style: Style | None = None, depth: int = 0) -> str:
    style = style or Style()
    ind = style.indent * depth
    out = []
    for key, value in tree.items():
        out.extend([style.trail] * style.blank)
        if style.own is not None:
            out.append(f"{ind}#{style.own}")
        behind = style.trail if style.comment is None else f"{style.gap}#{style.comment}"
        if isinstance(value, dict):
            out.append(f"{ind}{key}{style.brace}{style.trail}")
            body = render(value, style, depth + 1)
            if body:
                out.append(body[:-1])
            out.append(f"{ind}}}{style.trail}")
        elif isinstance(value, list) and style.lists != "single" and value:
            per = 2 if style.lists == "lvm" else 1
            inner = " # in" if style.lists == "commented" else ""
            out.append(f"{ind}{key}{style.eq}[{inner}")
            items = [scalar(v) for v in value]
            for i in range(0, len(items), per):
                part = style.sep.join(items[i : i + per])
                comma = "," if i + per < len(items) else ""
                out.append(f"{ind}{style.indent}{part}{comma}{inner}")
                if style.lists == "commented":
                    out.append("# own line")
                    out.append("")
            out.append(f"{ind}]{behind if style.lists == 'commented' else ''}")
        elif isinstance(value, list):
            out.append(f"{ind}{key}{style.eq}[{style.sep.join(scalar(v) for v in value)}]{behind}")
        else:
            out.append(f"{ind}{key}{style.eq}{scalar(value)}{behind}")
    return "".join(line + "\n" for line in out)


# -- devices ------------------------------------------------------------------------------
def crc(data: bytes) -> int:
    """The LVM2 checksum (reflected CRC-32 with its own start value, no final xor)."""
    return zlib.crc32(data, 0xF597A6CF ^ 0xFFFFFFFF) ^ 0xFFFFFFFF


def label_sector(sector, uuid, device_size, data_areas, metadata_areas, header_offset=32, kind=b"LVM2 001") -> bytes:
    body = uuid.encode().ljust(32, b"\x00")[:32] + struct.pack("<Q", device_size)
    for areas in (data_areas, metadata_areas):
        for off, size in areas:
            body += struct.pack("<QQ", off, size)
        body += bytes(16)
    body += struct.pack("<II", 2, 1) + bytes(16)  # header extension
    sec = bytearray(512)
    sec[0:8] = b"LABELONE"
    struct.pack_into("<Q", sec, 8, sector)
    struct.pack_into("<I", sec, 20, header_offset)
    sec[24:32] = kind
    sec[header_offset : header_offset + len(body)] = body
    struct.pack_into("<I", sec, 16, crc(bytes(sec[20:512])))
    return bytes(sec[: max(512, header_offset + len(body))])


def mda_header(start, size, locns) -> bytes:
    """locns: (offset, size, checksum, flags)."""
    body = MDA_MAGIC + struct.pack("<IQQ", 1, start, size)
    for loc in locns:
        body += struct.pack("<QQII", *loc)
    body = body.ljust(508, b"\x00")
    return struct.pack("<I", crc(body)) + body


def mda(start, size, text: bytes, text_off, flags=0, second=None, fill=b"\xa5") -> bytes:
    """A whole metadata area with ``text`` at ``text_off``, wrapping around the circular buffer."""
    buf = bytearray(fill * size)
    locns = [(text_off, len(text), crc(text), flags)] if text is not None else []
    if second is not None:
        off2, text2 = second
        locns.append((off2, len(text2), 0, 0))
        _circ(buf, off2, text2, size)
    if text is not None:
        _circ(buf, text_off, text, size)
    buf[0:512] = mda_header(start, size, locns)
    return bytes(buf)


def _circ(buf, off, text, size):
    head = min(len(text), size - off)
    buf[off : off + head] = text[:head]
    buf[MDA_HEADER : MDA_HEADER + len(text) - head] = text[head:]


def dashed(uuid: str) -> str:
    """32 characters -> the 6-4-4-4-4-4-6 form used in the text."""
    out, i = [], 0
    for n in (6, 4, 4, 4, 4, 4, 6):
        out.append(uuid[i : i + n])
        i += n
    return "-".join(out)


def uuid_of(n: int) -> str:
    alphabet = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    return "".join(alphabet[(n * 7 + i * (n + 3)) % 62] for i in range(32))


def device(
    uuid,
    size,
    data_offset,
    tag,
    mdas=(),
    label=1,
    device_size=None,
    data_size=0,
    header_offset=32,
    data_areas=None,
    file_cls=None,
):
    """A physical volume. ``mdas``: (start, size, area bytes or None for no header)."""
    from vlib.src import PatternFile  # noqa: PLC0415

    fh = (file_cls or PatternFile)(size, tag)
    fh.put(0, bytes(4 * SECTOR))
    fh.put(
        label * SECTOR,
        label_sector(
            label,
            uuid,
            size if device_size is None else device_size,
            [(data_offset, data_size)] if data_areas is None else data_areas,
            [(start, length) for start, length, _ in mdas],
            header_offset,
        ),
    )
    for start, _, data in mdas:
        fh.put(start, data)
    return fh


def text_bytes(tree, style=None) -> bytes:
    return render(tree, style).encode() + b"\x00"


def group_tree(vg, name="vg0", **top) -> dict:
    head = {"contents": "Text Format Volume Group", "version": 1, "description": "", "creation_host": "host",
            "creation_time": 1600000000}  # fmt: skip
    head.update(top)
    # LVM writes the group first and the description of the file behind it
    return {name: vg, **head}
