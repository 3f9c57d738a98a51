"""C12: GPT entries are reported completely and exactly, including hybrid MBRs."""

from __future__ import annotations

from itertools import combinations, product
from uuid import UUID

from dissect.volume.disk.schemes.gpt import GPT

from vlib import enc_disk as e
from vlib.src import PatternFile, mem

PROPERTY = "C12"
BOUNDS = (
    "every occupancy of up to 10 slots (sector size by occupancy); 7 occupancies of 16, 64, 128, 129, 256, 300, 1000, 1024 "
    "and 4096 slots x sector sizes 512/1024/2048/4096; 8 slots with 3 occupancies x sector sizes x entry sizes "
    "128/136/200/256/384/512/1024 x 5 array positions; arrays at up to 2^54 sectors; every protective/data/empty/extended assignment of "
    "the 4 MBR slots with at most one extended x header positions 1, 2; boundary values up to 2^64-1 of every field; every "
    "flag bit; every identifier byte; names of every length in 1-, 2-unit and mixed characters and with blanks around them with and without filler; "
    "damaged signatures"
)
ASSUMPTIONS = [
    "known finding: the reported size is one sector short, contents of the range are checked through C15",
    "the protective MBR entry starts at the sector of the primary header",
    "a used entry has a type and a first LBA other than zero",
]

U64 = (0, 1, 2, 0xFFFF, 0x10000, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF)
SECTORS = (512, 1024, 2048, 4096)


def guid_bytes(tag, i):
    """16 bytes, all different, unique to tag and index."""
    return bytes(((tag * 37 + i * 11 + k * 17) % 251) + 1 for k in range(16))


def uuid_text(raw):
    """Mixed-endian textual form, spelled out."""
    h = raw.hex()
    b = [h[i : i + 2] for i in range(0, 32, 2)]
    return "-".join(
        ["".join(reversed(b[0:4])), "".join(reversed(b[4:6])), "".join(reversed(b[6:8])), "".join(b[8:10]), "".join(b[10:16])]
    )


def cases(tier):
    for n in range(0, 11):
        for r in range(n + 1):
            for used in combinations(range(n), r):
                yield ("slots", n, used, SECTORS[len(used) % 4], 128, 2)
    for n in (16, 64, 128, 129, 256, 300, 1000, 1024, 4096):
        for used in ((), (0,), (n - 1,), (0, n - 1), tuple(range(n)), tuple(range(0, n, 7)), (n // 2,)):
            for sector in SECTORS:
                yield ("slots", n, used, sector, 128, 2)
    for sector, entry, array in product(SECTORS, (128, 136, 200, 256, 384, 512, 1024), (2, 3, 5, 34, 100)):
        for used in ((0, 1, 2, 3), (1, 5), (0, 7)):
            yield ("slots", 8, used, sector, entry, array)
    for sector, array in product(SECTORS, (1 << 20, 1 << 32, (1 << 32) + 7, 1 << 40, (1 << 54) - 1)):
        yield ("far", sector, array)
    # hybrid shapes: p = protective, d = data, e = empty, x = extended with logical partitions
    for kinds in product("pdex", repeat=4):
        if kinds.count("x") <= 1:
            for start in (1, 2):
                for sector in (512, 4096):
                    yield ("hybrid", "".join(kinds), start, sector)
    for field in ("first", "last", "flags"):
        for v in U64:
            yield ("field", field, v)
    for bit in range(64):
        yield ("field", "flags", 1 << bit)
    for pos, v in product(range(16), (0, 1, 0x80, 0xFF)):
        yield ("guid", pos, v)
    for n in range(0, 37):
        for kind in ("a", "w", "s", "m", "b"):
            for fill in (0, 1, 2):
                yield ("name", n, kind, fill)
    for pos in range(8):
        for bit in (0, 5, 7):
            yield ("sig", pos, bit)
    for kinds in product("de", repeat=4):
        yield ("noprot", "".join(kinds))
    yield ("nosig",)


def entry(i, first, last, size=128, flags=0, name=b""):
    return e.gpt_entry(guid_bytes(1, i), guid_bytes(2, i), first, last, flags, name, size)


def want_of(i, first, last, sector, flags=0, name=""):
    return (i + 1, first * sector, last - first + 1, uuid_text(guid_bytes(1, i)), uuid_text(guid_bytes(2, i)), flags, name)


def compare(ctx, partitions, want, sector):
    got = []
    for p in partitions:
        if isinstance(p.type, UUID):
            got.append((p.number, p.offset, p.size, str(p.type), str(p.guid), p.flags, p.name))
        else:
            got.append((p.number, p.offset, p.size, p.type))
    ctx.eq(len(got), len(want), f"number of partitions ({got} / {want})")
    for g, w in zip(got, want):
        if len(w) == 4:
            ctx.eq(g, w, "MBR partition")
            continue
        ctx.eq(g[:2] + g[3:], w[:2] + w[3:], "GPT partition")
        if g[2] != w[2] * sector:
            if g[2] == (w[2] - 1) * sector:
                ctx.known("gpt-size-one-sector-short", f"size {g[2]}, expected {w[2] * sector}")
            else:
                ctx.fail(f"size {g[2]}, expected {w[2] * sector}")


def image(sector, entries, *, entry_size=128, array=2, count=None, mbr=None, header_lba=1, signature=b"EFI PART"):
    need = max((array * sector) + len(entries) * entry_size, (header_lba + 1) * sector, 512)
    buf = bytearray(b"\x00" * (need + 4096))
    buf[0:512] = mbr or e.mbr_sector([e.mbr_entry(0xEE, header_lba, 0xFFFFFFFF)])
    header = e.gpt_header(array_lba=array, count=len(entries) if count is None else count, entry_size=entry_size, signature=signature)
    buf[header_lba * sector : header_lba * sector + 512] = header
    for i, data in enumerate(entries):
        at = array * sector + i * entry_size
        buf[at : at + len(data)] = data
    return bytes(buf)


def run(case, ctx):
    kind = case[0]
    globals()[f"run_{kind}"](ctx, *case[1:])


def run_slots(ctx, n, used, sector, entry_size, array):
    entries = [bytes(128) + b"\xee" * (entry_size - 128)] * n
    want = []
    for i in used:
        first, last = 100 + 10 * i, 103 + 11 * i
        entries[i] = entry(i, first, last, entry_size, i, f"p{i}".encode("utf-16-le"))
        want.append(want_of(i, first, last, sector, i, f"p{i}"))
    # an entry right behind the array that is not part of it
    extra = entry(200, 5000, 6000, entry_size)
    data = image(sector, entries + [extra], entry_size=entry_size, array=array, count=n)
    compare(ctx, GPT(mem(data), sector).partitions, want, sector)
    ctx.state((n, used, sector, entry_size, array))


def run_far(ctx, sector, array):
    fh = PatternFile(1 << 70)
    fh.put(0, e.mbr_sector([e.mbr_entry(0xEE, 1, 0xFFFFFFFF)]))
    fh.put(sector, e.gpt_header(array_lba=array, count=3))
    fh.put(array * sector, entry(0, 40, 50) + bytes(128) + entry(2, 60, 60))
    compare(ctx, GPT(fh, sector).partitions, [want_of(0, 40, 50, sector), want_of(2, 60, 60, sector)], sector)


def run_hybrid(ctx, kinds, start, sector):
    entries = []
    mbr_want = []
    logical = {}
    for slot, k in enumerate(kinds):
        if k == "e":
            entries.append(e.EMPTY_ENTRY)
        elif k == "p":
            first_p = "p" not in kinds[:slot]
            entries.append(e.mbr_entry(0xEE, start if first_p else 900 + slot, 100))
            mbr_want.append("gpt" if first_p else None)
        elif k == "d":
            entries.append(e.mbr_entry(0x0C, 500 + slot, 10 + slot))
            mbr_want.append((slot + 1, (500 + slot) * sector, (10 + slot) * sector, 0x0C))
        else:
            entries.append(e.mbr_entry(0x05, 200, 10))
            logical[200] = e.mbr_sector([e.mbr_entry(0x83, 3, 4), e.mbr_entry(0x05, 20, 8)])
            logical[220] = e.mbr_sector([e.mbr_entry(0x82, 5, 6)])
            mbr_want.append((slot + 1, 203 * sector, 4 * sector, 0x83))
            mbr_want.append((slot + 2, 225 * sector, 6 * sector, 0x82))
    gpt_entries = [entry(0, 300, 310), bytes(128), entry(2, 320, 320)]
    data = bytearray(image(sector, gpt_entries, array=start + 1, mbr=e.mbr_sector(entries), header_lba=start))
    if len(data) < 230 * sector:
        data.extend(bytes(230 * sector - len(data)))
    for at, rec in logical.items():
        data[at * sector : at * sector + 512] = rec
    if "p" not in kinds:
        ctx.raises(GPT, mem(data), sector, what="no protective entry")
        return
    want = []
    for w in mbr_want:
        if w == "gpt":
            want += [want_of(0, 300, 310, sector), want_of(2, 320, 320, sector)]
        elif w:
            want.append(w)
    compare(ctx, GPT(mem(data), sector).partitions, want, sector)
    ctx.state((kinds, start, sector))


def run_field(ctx, field, v):
    first, last, flags = 1000, 2000, 0
    if field == "first":
        if v == 0:
            return
        first, last = v, v + 5 if v + 5 < 1 << 64 else v
    elif field == "last":
        first, last = max(1, min(v, v - 3)) if v > 3 else 1, max(v, 1)
    else:
        flags = v
    for sector in (512, 4096):
        data = image(sector, [entry(0, 40, 50), entry(1, first, last, flags=flags)])
        compare(ctx, GPT(mem(data), sector).partitions, [want_of(0, 40, 50, sector), want_of(1, first, last, sector, flags)], sector)


def run_guid(ctx, pos, v):
    kind = bytearray(guid_bytes(5, 1))
    kind[pos] = v
    other = bytearray(guid_bytes(6, 1))
    other[pos] = v ^ 0x55
    data = image(512, [e.gpt_entry(bytes(kind), bytes(other), 40, 50)])
    p = GPT(mem(data)).partitions[0]
    ctx.eq((str(p.type), str(p.guid)), (uuid_text(bytes(kind)), uuid_text(bytes(other))), "identifiers")


def run_name(ctx, n, kind, fill):
    text = ""
    units = 0
    i = 0
    while units < n:
        wide = kind == "s" or (kind == "m" and i % 2)
        if wide and units + 2 > n:
            break
        text += chr(0x1F300 + i) if wide else chr(0x4E00 + i) if kind == "w" else chr(0x41 + i % 26)
        units += 2 if wide else 1
        i += 1
    if kind == "b" and text:
        # blanks at both ends belong to the name
        text = (" \t\u3000"[n % 3] + text[1:-1] + " \u00a0\n"[n % 3])[:n]
    raw = text.encode("utf-16-le")
    if fill == 1:
        raw = raw.ljust(72, b"\xff")
    elif fill == 2 and len(raw) < 70:
        # terminated, followed by leftovers
        raw = (raw + b"\0\0" + "old name of the partition, leftover".encode("utf-16-le"))[:72]
    data = image(512, [entry(0, 40, 50, name=raw), entry(1, 60, 70, name="next".encode("utf-16-le"))])
    compare(ctx, GPT(mem(data)).partitions, [want_of(0, 40, 50, 512, 0, text), want_of(1, 60, 70, 512, 0, "next")], 512)


def run_sig(ctx, pos, bit):
    sig = bytearray(b"EFI PART")
    sig[pos] ^= 1 << bit
    ctx.raises(GPT, mem(image(512, [entry(0, 40, 50)], signature=bytes(sig))), what="header signature")


def run_noprot(ctx, kinds):
    entries = [e.mbr_entry(7, 5, 6) if k == "d" else e.EMPTY_ENTRY for k in kinds]
    ctx.raises(GPT, mem(image(512, [entry(0, 40, 50)], mbr=e.mbr_sector(entries))), what="no protective entry")


def run_nosig(ctx):
    mbr = e.mbr_sector([e.mbr_entry(0xEE, 1, 100)], signature=0)
    ctx.raises(GPT, mem(image(512, [entry(0, 40, 50)], mbr=mbr)), what="no boot signature")
