"""C18: LVM logical volumes return the bytes their segments map."""

from __future__ import annotations

import itertools

from vlib import enc_dm, enc_lvm, src

PROPERTY = "C18"
BOUNDS = (
    "segments: every sequence of 1-3 segments over 15 kinds (linear on 3 physical volumes, 2-3 stripes at 3 stripe sizes, "
    "one volume used twice, mirrors with leg offsets) with a fixed extent size of 8 KiB; stripes: every stripe count 2-4 "
    "x every assignment of 4 physical volumes (extents of 64 KiB and 4 stripes: all equal or all different) x stripe sizes "
    "of 1-128 sectors in powers of two (without 32) up to the extent x 1-3 extents per stripe x extents of 1, 4, 8, 64 KiB, "
    "and two sets with 4 MiB; many: 5-40 physical volumes, segments and stripes; absent: every subset of 4 physical volumes "
    "in every supply order, all volumes of one group tried; mirrors: 1-3 legs x every set of openable legs x leg offsets; thin: pool data and metadata on linear, split and "
    "striped volumes x mapping patterns; 1-4 pools in every order of declaration x 5 device ids; kinds: every unsupported kind next to readable volumes; sizes: header sizes "
    "smaller than, equal to and larger than the recorded ones; far: extents beyond 2^32 bytes and sectors; windows between "
    "all pairs of boundary points"
)
ASSUMPTIONS = [
    "stripe areas are physical volumes, mirror legs are logical volumes, as LVM writes them for these kinds",
    "a volume group is supplied with at least one device that carries metadata",
    "thin volumes with an external origin are outside the claim (unmapped blocks of these read as zeroes)",
]

MB = 1 << 20
NPV = 4


class Group:
    """Builds a group and knows the expected bytes of its volumes."""

    def __init__(self, extent_sectors, extents=64, npv=NPV, tag=50, pe_start=2048, **pvopts):
        self.es = extent_sectors * 512
        self.extent_sectors = extent_sectors
        self.extents = extents
        self.npv = npv
        self.tag = tag
        self.pe_start = pe_start
        self.pvopts = pvopts
        self.lvs: dict[str, dict] = {}
        self.puts: list[tuple[int, int, bytes]] = []

    def pv_at(self, pv, off, length):
        data = bytearray(src.pattern(self.tag + pv, self.pe_start * 512 + off, length))
        for p, o, d in self.puts:
            if p == pv:
                lo, hi = max(o, off), min(o + len(d), off + length)
                if lo < hi:
                    data[lo - off : hi - off] = d[lo - o : hi - o]
        return bytes(data)

    # Segments: ("linear", count, pv, ext) ("striped", count, stripe_sectors, ((pv, ext), ...)) ("mirror", count, legs)
    def add(self, name, segs, visible=True, shuffle=None):
        body, at = [], 0
        for i, seg in enumerate(segs):
            item = {"start_extent": at, "extent_count": seg[1]}
            if seg[0] == "linear":
                item.update(type="striped", stripe_count=1, stripes=[f"pv{seg[2]}", seg[3]])
            elif seg[0] == "striped":
                item.update(type="striped", stripe_count=len(seg[3]), stripe_size=seg[2], stripes=[])
                for p, e in seg[3]:
                    item["stripes"] += [f"pv{p}", e]
            elif seg[0] == "mirror":
                item.update(type="mirror", mirror_count=len(seg[2]), region_size=1024, mirrors=[])
                for leg, e in seg[2]:
                    item["mirrors"] += [leg, e]
            else:
                item.update(seg[2])
            body.append((f"segment{i + 1}", item))
            at += seg[1]
        if shuffle:
            body = [body[i] for i in shuffle]
        self.lvs[name] = {
            "segs": segs, "body": dict(body), "visible": visible, "size": at * self.es,
        }  # fmt: skip

    def expect(self, name) -> bytes:
        out = b""
        for seg in self.lvs[name]["segs"]:
            if seg[0] == "linear":
                out += self.pv_at(seg[2], seg[3] * self.es, seg[1] * self.es)
            elif seg[0] == "striped":
                out += self.striped(seg)
            elif seg[0] == "mirror":
                leg, ext = seg[2][0]
                out += self.expect(leg)[ext * self.es : (ext + seg[1]) * self.es]
        return out

    def striped(self, seg):
        _, count, ss, areas = seg
        ss *= 512
        size = count * self.es
        parts = [self.pv_at(p, e * self.es, size // len(areas)) for p, e in areas]
        out = []
        for k in range(0, size // ss):
            row, col = divmod(k, len(areas))
            out.append(parts[col][row * ss : (row + 1) * ss])
        return b"".join(out)

    def needs(self, name) -> set[int]:
        """Physical volumes needed; a mirror needs its first leg only when it is the only one."""
        out = set()
        for seg in self.lvs[name]["segs"]:
            if seg[0] == "linear":
                out.add(seg[2])
            elif seg[0] == "striped":
                out |= {p for p, _ in seg[3]}
        return out

    def openable(self, name, present) -> bool:
        for seg in self.lvs[name]["segs"]:
            if seg[0] == "mirror":
                if not any(self.openable(leg, present) for leg, _ in seg[2]):
                    return False
            elif seg[0] not in ("linear", "striped"):
                return False
        return self.needs(name) <= set(present)

    def tree(self):
        pvs = {}
        for i in range(self.npv):
            pvs[f"pv{i}"] = {
                "id": enc_lvm.dashed(enc_lvm.uuid_of(20 + i)), "device": f"/dev/sd{i}", "status": ["ALLOCATABLE"],
                "flags": [], "pe_start": self.pe_start, "pe_count": self.extents,
            }  # fmt: skip
            if self.pvopts.get("dev_size", True):
                pvs[f"pv{i}"]["dev_size"] = self.pe_start + self.extents * self.extent_sectors
        lvs = {
            name: {
                "id": f"id-{name}", "status": ["READ", "WRITE"] + (["VISIBLE"] if d["visible"] else []), "flags": [],
                "segment_count": len(d["body"]), **d["body"],
            }
            for name, d in self.lvs.items()
        }  # fmt: skip
        vg = {
            "id": "vgid", "seqno": 3, "format": "lvm2", "status": ["RESIZEABLE"], "flags": [],
            "extent_size": self.extent_sectors, "max_lv": 0, "max_pv": 0, "physical_volumes": pvs, "logical_volumes": lvs,
        }  # fmt: skip
        return enc_lvm.group_tree(vg)

    def devices(self):
        text = enc_lvm.text_bytes(self.tree())
        size = max(65536, (len(text) + 2048) // 512 * 512)
        real = self.pe_start * 512 + self.extents * self.es
        head = self.pvopts.get("header")
        out = []
        for i in range(self.npv):
            area = enc_lvm.mda(4096, size, text, 512)
            assert 4096 + size <= self.pe_start * 512
            fh = enc_lvm.device(
                enc_lvm.uuid_of(20 + i), real, self.pe_start * 512, self.tag + i, [(4096, size, area)],
                device_size=real if head is None else head(real),
            )  # fmt: skip
            for p, o, d in self.puts:
                if p == i:
                    fh.put(self.pe_start * 512 + o, d)
            out.append(fh)
        return out

    def open(self, present=None):
        from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

        devs = self.devices()
        return LVM2([devs[i] for i in (present if present is not None else range(self.npv))])


def points(es, size, step=None):
    out = {0, 1, size, size - 1, size - 513}
    for k in range(0, size + 1, step or es):
        out |= {k, k + 1}
        if len(out) > 60:
            break
    return out


def verify(ctx, lvm, group, name, pts, key=None):
    want = group.expect(name)
    fh = lvm.vg.logical_volumes[name].open()
    src.check_edges(ctx, fh, want, name, key)
    src.check_windows(ctx, fh, want, pts, name, key)


ALPHABET = [
    ("linear", 1, 0, 0), ("linear", 2, 0, 5), ("linear", 1, 1, 3), ("linear", 3, 2, 1), ("linear", 1, 3, 63),
    ("striped", 2, 8, ((0, 10), (1, 10))), ("striped", 4, 16, ((1, 11), (0, 14))), ("striped", 2, 2, ((2, 9), (3, 2))),
    ("striped", 3, 8, ((0, 20), (1, 21), (2, 22))), ("striped", 6, 4, ((2, 30), (0, 31), (3, 32))),
    ("striped", 2, 8, ((1, 40), (1, 45))), ("striped", 4, 1, ((3, 40), (2, 45), (1, 50), (0, 55))),
    ("mirror", 2, (("leg0", 0), ("leg1", 0))), ("mirror", 1, (("leg0", 1), ("leg1", 1))),
    ("mirror", 3, (("leg1", 2), ("leg0", 2))),
]  # fmt: skip


def legs(group):
    """Two identical mirror legs on different physical volumes, five extents each."""
    group.add("leg0", [("linear", 2, 0, 48), ("linear", 3, 2, 40)], False)
    group.add("leg1", [("linear", 5, 1, 56)], False)
    body = group.expect("leg0")
    group.puts.append((1, 56 * group.es, body))


def cases(tier: str):
    n = len(ALPHABET)
    for r in (1, 2, 3):
        for seq in itertools.product(range(n), repeat=r):
            yield ("seq", seq)
    for ext in (2, 8, 16, 128) if tier == "quick" else (2, 8, 16, 32, 128, 256):
        sizes = [s for s in (1, 2, 4, 8, 16, 64, 128, 256) if s <= ext]
        for ss in sizes:
            for count in (1, 2, 3):
                for width in (2, 3, 4):
                    yield ("stripe", ext, ss, count, width)
    yield ("stripe", 8192, 128, 1, 2)
    yield ("stripe", 8192, 8192, 1, 3)
    for ext in (1, 2, 3, 6, 8, 64, 8192):
        for dev_size in (True, False):
            yield ("linear", ext, dev_size)
    for r in range(0, 5):
        for present in itertools.permutations(range(4), r):
            yield ("absent", present)
    for nlegs in (1, 2, 3):
        for mask in range(1 << nlegs):
            yield ("mirror", nlegs, mask)
    for layout in ("linear", "split", "striped"):
        for mask in range(16):
            yield ("thin", layout, mask)
    for n in (1, 2, 3, 4):
        for order in itertools.permutations(range(n)):
            yield ("pools", order)
    yield ("kinds",)
    for order in itertools.permutations(range(3)):
        yield ("shuffle", order)
    for head in ("zero", "small", "half", "exact", "double"):
        for dev_size in (False, True):
            for ext in (8, 512, 1024):
                yield ("sizes", head, dev_size, ext)
    for ext, at in ((8192, 1 << 10), (8192, (1 << 20) - 3), (2, 2**22), (65536, 2**18), (8, 2**32 - 2)):
        yield ("far", ext, at)
    for pe_start in (2048, 2056, 4096, 16384):
        yield ("start", pe_start)
    for n in range(5, 41):
        yield ("many", n)


def run(case, ctx):
    kind = case[0]
    if kind == "seq":
        group = Group(16)
        legs(group)
        segs = [ALPHABET[i] for i in case[1]]
        group.add("data", segs)
        size = group.lvs["data"]["size"]
        pts = {0, 1, size, size - 1}
        at = 0
        for seg in segs:
            pts |= {at, at + 512, at + 4096 - 1, at + 9000}
            at += seg[1] * group.es
        lvm = group.open()
        verify(ctx, lvm, group, "data", pts, tuple(case[1]))
        if len(segs) == 1:
            verify(ctx, lvm, group, "leg0", points(group.es, 5 * group.es), "leg")
            verify(ctx, lvm, group, "leg1", points(group.es, 5 * group.es), "leg")
        ctx.outcome("+".join(sorted({s[0] for s in segs})))
    elif kind == "stripe":
        _, ext, ss, count, width = case
        group = Group(ext, 48)
        small = ext < 1024
        for i, areas in enumerate(itertools.product(range(NPV), repeat=width)):
            if not small and i not in (0b0001, 6, 9):
                continue
            if width == 4 and ext > 16 and len(set(areas)) not in (1, 4):
                continue
            place = tuple((p, 3 + 4 * k) for k, p in enumerate(areas))
            group.add(f"d{i}", [("striped", count * width, ss, place)])
        lvm = group.open()
        for name in group.lvs:
            size = group.lvs[name]["size"]
            pts = {0, 1, ss * 512 - 1, ss * 512, ss * 512 * width, ss * 512 * width + 3, group.es, group.es * width - 1,
                   size // 2, size - 1, size}  # fmt: skip
            verify(ctx, lvm, group, name, pts, name)
        ctx.outcome(f"{width} stripes")
    elif kind == "linear":
        _, ext, dev_size = case
        group = Group(ext, 16, dev_size=dev_size)
        for i in range(NPV):
            group.add(f"a{i}", [("linear", 1, i, 0)])
            group.add(f"b{i}", [("linear", 16, i, 0)])
            group.add(f"c{i}", [("linear", 1, i, 15), ("linear", 2, (i + 1) % NPV, 14), ("linear", 1, i, 0)])
        lvm = group.open()
        for name in group.lvs:
            verify(ctx, lvm, group, name, points(group.es, group.lvs[name]["size"]) if ext < 1000 else {0, 1, group.es}, name)
        ctx.outcome("linear")
    elif kind == "absent":
        absent(ctx, tuple(case[1]))
    elif kind == "mirror":
        mirror(ctx, case[1], case[2])
    elif kind == "pools":
        pools(ctx, case[1])
    elif kind == "thin":
        thin(ctx, case[1], case[2])
    elif kind == "kinds":
        kinds(ctx)
    elif kind == "shuffle":
        group = Group(16)
        segs = [("linear", 1, 0, 4), ("striped", 2, 8, ((1, 2), (2, 7))), ("linear", 2, 3, 9)]
        group.add("data", segs, shuffle=case[1])
        verify(ctx, group.open(), group, "data", points(group.es, 5 * group.es))
        ctx.outcome("shuffled text")
    elif kind == "sizes":
        sizes(ctx, *case[1:])
    elif kind == "far":
        _, ext, at = case
        group = Group(ext, at + 8)
        group.add("data", [("linear", 1, 0, at), ("linear", 1, 1, at + 2), ("striped", 2, ext // 2, ((2, at), (3, at + 5)))])
        lvm = group.open()
        fh = lvm.vg.logical_volumes["data"].open()
        es = group.es
        n = min(es, 3000)
        for off, (pv, pos) in ((0, (0, at * es)), (es, (1, (at + 2) * es)), (2 * es, (2, at * es)),
                               (2 * es + es // 2, (3, (at + 5) * es)), (3 * es, (2, at * es + es // 2))):  # fmt: skip
            length = min(n, es // 2)
            fh.seek(off)
            ctx.eq(fh.read(length), group.pv_at(pv, pos, length), f"at {off}")
            ctx.state(off)
        ctx.eq(fh.size, 4 * es, "size")
        ctx.outcome("far extents")
    elif kind == "start":
        group = Group(16, 16, pe_start=case[1])
        group.add("data", [("linear", 2, 0, 1), ("striped", 2, 8, ((1, 0), (2, 3))), ("linear", 1, 3, 15)])
        verify(ctx, group.open(), group, "data", points(group.es, 5 * group.es))
        ctx.outcome("start of extents")
    elif kind == "many":
        n = case[1]
        group = Group(2, 64, npv=n)
        # Segments and physical volumes past ten: names must not be compared as text
        group.add("data", [("linear", 1, i, i) for i in range(n)])
        group.add("wide", [("striped", n, 1, tuple((i, 3) for i in range(n)))])
        lvm = group.open(tuple(reversed(range(n))))
        for name in ("data", "wide"):
            verify(ctx, lvm, group, name, points(group.es, n * group.es, 512), name)
        ctx.outcome("many")


def absent(ctx, present):
    if not present:
        from dissect.volume.lvm.lvm2 import LVM2  # noqa: PLC0415

        ctx.raises(LVM2, [], what="no devices")
        return
    group = Group(16)
    legs(group)
    for i in range(NPV):
        group.add(f"l{i}", [("linear", 1, i, 2)])
    for a, b in itertools.permutations(range(NPV), 2):
        group.add(f"s{a}{b}", [("striped", 2, 8, ((a, 6), (b, 7)))])
        group.add(f"c{a}{b}", [("linear", 1, a, 8), ("linear", 1, b, 9)])
    group.add("m", [("mirror", 5, (("leg0", 0), ("leg1", 0)))])
    group.add("n", [("mirror", 2, (("leg1", 0), ("leg0", 0))), ("linear", 1, 3, 0)])
    lvm = group.open(present)
    ctx.eq([v.name for v in lvm.vg.lv], list(group.lvs), "volumes")
    # Failing ones first and last: a failure must not disturb the others
    for names in (list(group.lvs), list(reversed(group.lvs))):
        for name in names:
            if group.openable(name, present):
                verify(ctx, lvm, group, name, {0, 1, 8192, 8193, 12000}, name)
            else:
                ctx.raises(lvm.vg.logical_volumes[name].open, what=f"{name} with devices {present}")
                ctx.state((name, "absent"))
    ctx.outcome(f"{len(present)} present")


def mirror(ctx, nlegs, mask):
    """Leg i lies on physical volume i and is present when bit i of mask is set. PV 3 is always there."""
    for offset in (0, 1, 2):
        for bad in ("absent", "kind"):
            group = Group(16)
            for i in range(nlegs):
                if bad == "kind" and not mask >> i & 1:
                    group.add(f"leg{i}", [("other", 6, {"type": "zero"})], False)
                else:
                    group.add(f"leg{i}", [("linear", 6, i, 3 + i)], False)
            # All legs hold the same bytes
            base = src.pattern(999, 0, 6 * group.es)
            for i in range(nlegs):
                group.puts.append((i, (3 + i) * group.es, base))
            group.add("data", [("mirror", 4, tuple((f"leg{i}", offset) for i in range(nlegs)))])
            group.add("tail", [("linear", 1, 3, 0), ("mirror", 2, tuple((f"leg{i}", offset) for i in range(nlegs)))])
            group.add("plain", [("linear", 2, 3, 5)])
            present = [i for i in range(NPV) if i >= nlegs or mask >> i & 1] if bad == "absent" else range(NPV)
            lvm = group.open(tuple(present))
            want = base[offset * group.es : (offset + 4) * group.es]
            lvs = lvm.vg.logical_volumes
            if mask:
                fh = lvs["data"].open()
                src.check_edges(ctx, fh, want, "mirror", (offset, bad))
                src.check_windows(ctx, fh, want, points(group.es, len(want)), "mirror", (offset, bad))
                two = group.pv_at(3, 0, group.es) + want[: 2 * group.es]
                fh = lvs["tail"].open()
                src.check_windows(ctx, fh, two, points(group.es, len(two)), "mirror behind linear", (offset, bad, 1))
            else:
                ctx.raises(lvs["data"].open, what="a mirror without legs")
                ctx.raises(lvs["tail"].open, what="a mirror without legs behind a linear segment")
            verify(ctx, lvm, group, "plain", {0, 1, 5000}, "plain")
    ctx.outcome("some legs" if mask else "no legs")


def pools(ctx, order):
    """Several pools with chunks of their own and the same device ids, declared in ``order``, read alternately."""
    ids = (0, 1, 2, 255, 2**24 - 1)
    group = Group(16, 64)
    want = {}
    thins = []
    for k in order:
        chunk = (8, 16, 4, 24)[k]
        bs = chunk * 512
        maps = {dev: {b: (b * 2 + i + k) % 7 for b in range(3) if (b + i + k) % 3} for i, dev in enumerate(ids)}
        meta = enc_dm.pool(maps, chunk, 3)
        meta = meta.at(0, meta.length).ljust(9 * 8192, b"\x00")
        assert len(meta) <= 9 * 8192
        group.add(f"meta{k}", [("linear", 9, k, 10)], False)
        group.puts.append((k, 10 * 8192, meta))
        group.add(f"data{k}", [("linear", 12, (k + 1) % 4, 30)], False)
        body = {"type": "thin-pool", "metadata": f"meta{k}", "pool": f"data{k}", "transaction_id": 3, "chunk_size": chunk}
        thins.append((f"pool{k}", [("other", 12, body)], False))
        for dev in ids:
            body = {"type": "thin", "thin_pool": f"pool{k}", "transaction_id": 0, "device_id": dev}
            thins.append((f"t{k}-{dev}", [("other", 3, body)], True))
    for item in thins if order[0] % 2 else reversed(thins):
        group.add(*item)
    for k in order:
        bs = (8, 16, 4, 24)[k] * 512
        data = group.expect(f"data{k}")
        for i, dev in enumerate(ids):
            m = {b: (b * 2 + i + k) % 7 for b in range(3) if (b + i + k) % 3}
            blocks = -(-3 * group.es // bs)
            full = b"".join(data[m[b] * bs : m[b] * bs + bs] if b in m else bytes(bs) for b in range(blocks))
            want[f"t{k}-{dev}"] = (full[: 3 * group.es], bs)
    lvs = group.open().vg.logical_volumes
    streams = {name: lvs[name].open() for name in want}
    for at in (0, 1, 4096, 9000, 3 * group.es - 700):
        for name, fh in streams.items():
            fh.seek(at)
            ctx.eq(fh.read(700), want[name][0][at : at + 700], f"{name} at {at}")
    for name, (data, bs) in want.items():
        src.check_edges(ctx, lvs[name].open(), data, name, name)
        src.check_windows(ctx, lvs[name].open(), data, points(bs, len(data)), name, name)
    ctx.outcome(f"{len(order)} pools")


def thin(ctx, layout, mask):
    group = Group(16, 64)
    chunk = 8  # sectors
    mapping = {b: (5 - b) if b % 2 else b + 6 for b in range(4) if mask >> b & 1}
    other = {0: 11, 3: 2, 9: 1}
    meta = enc_dm.pool({1: mapping, 7: other}, chunk, 2)
    meta = meta.at(0, meta.length).ljust(8 * 8192, b"\x00")
    assert len(meta) <= 8 * 8192
    group.add("meta", [("linear", 4, 0, 10), ("linear", 4, 1, 30)], False)
    group.puts += [(0, 10 * 8192, meta[: 4 * 8192]), (1, 30 * 8192, meta[4 * 8192 :])]
    if layout == "linear":
        group.add("tdata", [("linear", 8, 2, 4)], False)
    elif layout == "split":
        group.add("tdata", [("linear", 3, 2, 4), ("linear", 1, 0, 1), ("linear", 4, 3, 7)], False)
    else:
        group.add("tdata", [("striped", 8, 4, ((2, 4), (3, 8)))], False)
    group.add(
        "pool", [("other", 8, {
            "type": "thin-pool", "metadata": "meta", "pool": "tdata", "transaction_id": 3, "chunk_size": chunk,
        })], False,
    )  # fmt: skip
    for name, dev, count in (("t1", 1, 2), ("t7", 7, 6), ("tshort", 7, 1)):
        group.add(name, [("other", count, {"type": "thin", "thin_pool": "pool", "transaction_id": 0, "device_id": dev})])
    group.add("tbad", [("other", 2, {"type": "thin", "thin_pool": "pool", "transaction_id": 0, "device_id": 2})])
    group.add("plain", [("linear", 2, 3, 50)])
    data = group.expect("tdata")
    bs = chunk * 512
    lvm = group.open()
    lvs = lvm.vg.logical_volumes
    for rounds in range(2):
        for name, dev, count in (("t1", mapping, 2), ("t7", other, 6), ("tshort", other, 1)):
            size = count * group.es
            want = b"".join(
                data[dev[b] * bs : dev[b] * bs + bs] if b in dev else bytes(bs) for b in range(size // bs)
            )
            fh = lvs[name].open()
            src.check_edges(ctx, fh, want, name, (name, rounds))
            src.check_windows(ctx, fh, want, points(bs, size), name, (name, rounds))
        ctx.raises(lvs["tbad"].open, what="a thin volume that is not in the pool")
        ctx.raises(lvs["pool"].open, what="a thin pool")
        verify(ctx, lvm, group, "plain", {0, 1, 9000}, "plain")
        verify(ctx, lvm, group, "tdata", {0, 1, 9000}, "tdata")
    # Without a physical volume under the pool only the other volumes are left
    for gone in range(NPV):
        lvm = group.open(tuple(i for i in range(NPV) if i != gone))
        lvs = lvm.vg.logical_volumes
        under = group.needs("tdata") | group.needs("meta")
        if gone in under:
            ctx.raises(lvs["t1"].open, what=f"a thin volume without physical volume {gone}")
        else:
            ctx.call(lvs["t1"].open)
        if gone != 3:
            verify(ctx, lvm, group, "plain", {0, 1, 9000}, "plain")
        else:
            ctx.raises(lvs["plain"].open, what="absent")
    ctx.outcome(f"thin {layout}")


def kinds(ctx):
    from checks.c16_lvm_text import SEGMENTS  # noqa: PLC0415

    for kind, (required, optional) in SEGMENTS.items():
        if kind in ("striped", "linear", "mirror", "thin"):
            continue
        for opt in ({}, optional):
            group = Group(16)
            group.add("a", [("linear", 2, 0, 1)])
            group.add("bad", [("other", 2, {"type": kind, **required, **opt})])
            group.add("mixed", [("linear", 1, 1, 1), ("other", 1, {"type": kind, **required, **opt})])
            group.add("z", [("linear", 2, 2, 1), ("striped", 2, 8, ((0, 3), (1, 3)))])
            lvm = group.open()
            lvs = lvm.vg.logical_volumes
            for name in ("bad", "mixed"):
                ok, value = ctx.call(lvs[name].open)
                # A kind that becomes supported one day must give data, nothing else
                if ok and kind not in ("zero",):
                    ctx.fail(f"volume of kind {kind} opened as {value!r}")
                if ok:
                    want = bytes(2 * group.es) if name == "bad" else group.pv_at(1, group.es, group.es) + bytes(group.es)
                    ctx.eq(value.read(), want, kind)
                ctx.state((kind, name, len(opt)))
            for name in ("a", "z"):
                verify(ctx, lvm, group, name, {0, 1, 8192}, name)
            ctx.outcome("other kind")


def sizes(ctx, head, dev_size, ext):
    """The device size in the header differs from what the group needs."""
    heads = {
        "zero": lambda real: 0, "small": lambda real: 4096, "half": lambda real: real // 2 // 512 * 512,
        "exact": lambda real: real, "double": lambda real: real * 2,
    }  # fmt: skip
    extents = 16
    group = Group(ext, extents, dev_size=dev_size, header=heads[head])
    group.add("all", [("linear", extents, 0, 0)])
    group.add("end", [("linear", 1, 1, extents - 1)])
    lvm = group.open()
    es = group.es
    for name, first, count, pv in (("all", 0, extents, 0), ("end", extents - 1, 1, 1)):
        fh = lvm.vg.logical_volumes[name].open()
        ctx.eq(fh.size, count * es, f"{name} size")
        for off in {0, es - 512, (count - 1) * es, count * es - 512}:
            fh.seek(off)
            got = fh.read(512)
            want = group.pv_at(pv, first * es + off, 512)
            ctx.state((name, off))
            if got != want:
                # Recorded size times extent size instead of sector size: reads stop short of the recorded end
                limit = max(heads[head](2048 * 512 + extents * es), (2048 + extents * ext) * ext)
                if dev_size and first * es + off >= limit and not got:
                    ctx.known("lvm-pv-size-in-extents", f"{name} at {off}: nothing read, the volume ends at {limit}")
                    continue
                ctx.eq(got, want, f"{name} at {off}")
    ctx.outcome(f"header {head}")
