"""Boring reference models of RAID layouts: where every volume chunk lives.

Written as row pictures (which device holds P, Q and which data chunk), from the
documentation of the layouts in md(4), raid5.c/raid10.c/raid0.c comments and the SNIA DDF
specification. Nothing here is shared with the library.
"""

from __future__ import annotations

from functools import lru_cache

LEVEL5_LAYOUTS = (0, 1, 2, 3, 4, 5)
LEVEL6_LAYOUTS = (0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20)

LA, RA, LS, RS, P0, PN = 0, 1, 2, 3, 4, 5


def _row5(layout: int, n: int, s: int) -> list:
    row: list = [None] * n
    if layout in (LA, LS):
        p = (n - 1) - s % n
    elif layout in (RA, RS):
        p = s % n
    elif layout == P0:
        p = 0
    elif layout == PN:
        p = n - 1
    row[p] = "P"
    if layout in (LS, RS):
        order = [(p + 1 + i) % n for i in range(n)]
    else:
        order = list(range(n))
    d = 0
    for dev in order:
        if row[dev] is None:
            row[dev] = d
            d += 1
    return row


def parity_row(level: int, layout: int, n: int, s: int) -> list:
    """Return what every device holds in stripe row ``s``: "P", "Q" or the data chunk index within the row."""
    if level == 4:
        return [*range(n - 1), "P"]
    if level == 5:
        return _row5(layout, n, s)
    if level != 6:
        raise ValueError(level)
    if layout >= 16:
        return [*_row5(layout - 16, n - 1, s), "Q"]

    row: list = [None] * n
    restart = True
    if layout in (LA, LS):
        p = (n - 1) - s % n
        q = (p + 1) % n
        restart = layout == LA
        start = q + 1
    elif layout in (RA, RS, 8):
        p = s % n
        q = (p + 1) % n
        restart = layout != RS
        start = q + 1
    elif layout == P0:
        p, q = 0, 1
    elif layout == PN:
        p, q = n - 2, n - 1
    elif layout == 9:
        p = (n - 1) - (s + 1) % n
        q = (p + 1) % n
    elif layout == 10:
        p = (n - 1) - s % n
        q = (p - 1) % n
        restart = False
        start = p + 1
    else:
        raise ValueError(layout)
    row[p], row[q] = "P", "Q"
    order = list(range(n)) if restart else [(start + i) % n for i in range(n)]
    d = 0
    for dev in order:
        if row[dev] is None:
            row[dev] = d
            d += 1
    return row


def parity_data_disks(level: int, n: int) -> int:
    return n - (2 if level == 6 else 1)


def parity_locate(level: int, layout: int, n: int, k: int) -> tuple[int, int]:
    """Return (device, stripe row) of volume chunk ``k``."""
    s, d = divmod(k, parity_data_disks(level, n))
    return parity_row(level, layout, n, s).index(d), s


# -- parity arithmetic -----------------------------------------------------------------


@lru_cache(maxsize=64)
def _gf_table(power: int) -> bytes:
    def mul2(x: int) -> int:
        x <<= 1
        return (x ^ 0x11D) & 0xFF if x & 0x100 else x

    out = []
    for v in range(256):
        for _ in range(power):
            v = mul2(v)
        out.append(v)
    return bytes(out)


def xor(blocks: list[bytes], size: int) -> bytes:
    acc = 0
    for b in blocks:
        acc ^= int.from_bytes(b, "little")
    return acc.to_bytes(size, "little")


def parity_scatter(level: int, layout: int, n: int, chunk: int, rows: int, volume: bytes) -> list[bytearray]:
    """Lay ``volume`` out on ``n`` members with true P and Q chunks."""
    dd = parity_data_disks(level, n)
    assert len(volume) == dd * rows * chunk
    members = [bytearray(rows * chunk) for _ in range(n)]
    for s in range(rows):
        row = parity_row(level, layout, n, s)
        data = {d: volume[(s * dd + d) * chunk : (s * dd + d + 1) * chunk] for d in range(dd)}
        for dev, what in enumerate(row):
            if what == "P":
                content = xor(list(data.values()), chunk)
            elif what == "Q":
                ddf = layout in (8, 9, 10)
                q = row.index("Q")
                first = 0 if ddf or q == n - 1 else q + 1
                blocks = []
                slot = 0
                for i in range(n):
                    idx = (first + i) % n
                    if isinstance(row[idx], int):
                        blocks.append(bytes(data[row[idx]]).translate(_gf_table(slot)))
                        slot += 1
                    elif ddf:
                        slot += 1
                content = xor(blocks, chunk)
            else:
                content = data[what]
            members[dev][s * chunk : (s + 1) * chunk] = content
    return members


# -- RAID 0 ----------------------------------------------------------------------------


def raid0_places(sizes: list[int], chunk: int, orig: bool) -> list[tuple[int, int]]:
    """Return [(device, byte offset)] for every volume chunk, dealing chunks one at a time.

    ``orig``: the rotation within a later zone counts volume chunks instead of zone chunks.
    """
    chunks = [s // chunk for s in sizes]
    places: list[tuple[int, int]] = []
    start = 0
    while True:
        devs = [i for i, c in enumerate(chunks) if c > start]
        if not devs:
            return places
        end = min(chunks[i] for i in devs)
        zone_first = len(places)
        for j in range((end - start) * len(devs)):
            row, col = divmod(j, len(devs))
            if orig:
                col = (zone_first + j) % len(devs)
            places.append((devs[col], (start + row) * chunk))
        start = end


# -- RAID 10 ---------------------------------------------------------------------------


def raid10_geometry(layout: int, n: int) -> tuple[int, int, bool, int]:
    near, far, offset = layout & 0xFF, (layout >> 8) & 0xFF, bool(layout & (1 << 16))
    sets = layout >> 17
    set_size = {0: n, 1: n // far if far else 0, 2: near * far}[sets]
    return near, far, offset, set_size


def raid10_places(layout: int, n: int, dev_chunks: int) -> list[list[tuple[int, int]]] | None:
    """Return, for every volume chunk, the (device, device chunk) of each copy; None if copies collide."""
    near, far, offset, set_size = raid10_geometry(layout, n)
    if near * far > n or not set_size or (layout >> 17 == 2 and n % set_size and set_size > n):
        return None
    total = dev_chunks // far * n // near
    used = -(-total * near * far // n)
    stride = 1 if offset else used // far
    last_start = (n // set_size - 1) * set_size
    last_size = set_size + n % set_size
    places = []
    taken = set()
    for k in range(total):
        row, dev = divmod(k * near, n)
        base = row * far if offset else row
        copies = []
        for _ in range(near):
            d, s = dev, base
            copies.append((d, s))
            for _ in range(1, far):
                which = d // set_size
                d += near
                if n % set_size and d > last_start:
                    d = (d - last_start) % last_size + last_start
                else:
                    d = d % set_size + set_size * which
                s += stride
                copies.append((d, s))
            dev += 1
            if dev >= n:
                dev = 0
                base += 1
        for c in copies:
            if c in taken or c[1] >= dev_chunks:
                return None
            taken.add(c)
        places.append(copies)
    return places
