"""C22: vinum volumes assemble from the newest configuration and return their data."""

from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from vlib import enc_vinum as ev
from vlib import src

PROPERTY = "C22"
BOUNDS = (
    "data: concat (1-4 subdisks of equal and different lengths), striped (1-4) and RAID 5 (3-5) x stripe sizes 512, 4 KiB and "
    "16 KiB x subdisk offsets on the drive (start, shifted, different per drive, two subdisks on one drive) x all declaration "
    "orders x supply orders (all up to 3 members and for 4 at 4 KiB, else two) x drives of different sizes, alone and as mirrors of 2-3 plexes with every present/usable set; "
    "states: every state of volume, plex and each subdisk; newest: every assignment of 3 versions to 3 drives x supply "
    "orders, time differing by seconds or 1 microsecond; missing: every set of absent and inactive drives; headers: 4 "
    "magics and near misses, sizes recorded or not; several volumes sharing drives; wide: 5-24 subdisks; windows between boundary "
    "points"
)
ASSUMPTIONS = [
    "declarations of the same time stamp do not contradict each other",
    "subdisks of a striped or RAID 5 plex have equal lengths that are multiples of the stripe size",
    "concatenated plexes have no holes",
    "a mirror whose first usable plex lacks a drive may fail with an error",
]

K = 1024
T = 1_700_000_000


class Set:
    """A vinum system: drives, one configuration text, expected volumes."""

    def __init__(self, drives, size=1024 * K, tag=30, sizes=None, fill="zero"):
        self.drives = list(drives)
        self.tag = tag
        self.sizes = sizes or {}
        self.size = size
        self.fill = fill
        self.lines: list[bytes] = []
        self.plexes: dict[bytes, tuple] = {}
        self.vols: dict[bytes, list[bytes]] = {}

    def plex(self, vol, name, org, stripe, sds, state=b"up", sd_states=None, sd_order=None, vol_line=True, overrides=None):
        """sds: (drive index, drive offset behind the start of the data, length)."""
        if vol_line and vol not in self.vols:
            self.lines.append(ev.volume(vol))
        self.vols.setdefault(vol, []).append(name)
        self.lines.append(ev.plex(name, org, vol, stripe, state))
        at = 0
        lines = []
        for i, (drv, off, length) in enumerate(sds):
            pos = at
            if org != b"concat":
                pos = i * (stripe or 512)
            st = (sd_states or {}).get(i, b"up")
            lines.append(ev.sd(name + b".s%d" % i, self.drives[drv], length, ev.START + off, name, pos, st))
            at += length
        for i in sd_order or range(len(lines)):
            self.lines.append(lines[i])
        self.plexes[name] = (org, stripe, sds)
        return self

    def data_at(self, drv, off, length):
        return src.pattern(self.tag + drv, ev.START + off, length)

    def expect(self, name) -> bytes:
        org, stripe, sds = self.plexes[name]
        parts = [self.data_at(d, off, length) for d, off, length in sds]
        if org == b"concat":
            return b"".join(parts)
        if org == b"striped":
            n, out = len(parts), []
            for k in range(n * len(parts[0]) // stripe):
                row, col = divmod(k, n)
                out.append(parts[col][row * stripe : (row + 1) * stripe])
            return b"".join(out)
        return raid5(parts, stripe)

    def text(self):
        return b"\n".join(self.lines) + b"\n"

    def fh(self, i, text=None, sec=T, usec=0, magic="new", **kw):
        size = self.sizes.get(i, self.size)
        text = self.text() if text is None else text
        return ev.drive(self.drives[i], text, size, self.tag + i, sec, usec, magic, fill=self.fill, **kw)

    def open(self, order=None, **kw):
        return vinum([self.fh(i, **kw) for i in (order if order is not None else range(len(self.drives)))])


def raid5(parts, stripe):
    """Data of a left-asymmetric RAID 5 (the parity rotates down from the last member)."""
    n, out = len(parts), []
    for row in range(len(parts[0]) // stripe):
        parity = (n - 1) - row % n
        for member in range(n):
            if member != parity:
                out.append(parts[member][row * stripe : (row + 1) * stripe])
    return b"".join(out)


def vinum(fhs):
    from dissect.volume.vinum.vinum import Vinum  # noqa: PLC0415

    return Vinum(fhs)


def vds(v):
    return {vd.name: vd for c in v.configurations for vd in c.virtual_disks}


def points(stripe, size):
    unit = stripe or 4 * K
    return {0, 1, 511, unit - 1, unit, unit + 1, 2 * unit, 3 * unit + 7, size // 2, size - unit, size - 1, size}


def check_volume(ctx, vd, want, stripe, key):
    ctx.eq(vd.size, len(want), f"{key}: size")
    fh = vd.open()
    src.check_windows(ctx, fh, want, points(stripe, len(want)), str(key), key)
    fh.seek(0)
    ctx.eq(fh.read(len(want)), want, f"{key}: everything")


OFFSETS = {
    "start": lambda i: 0,
    "shift": lambda i: 64 * K,
    "differ": lambda i: (3 - i % 4) * 32 * K + 512,
}


def layouts(tier):
    stripes = (512, 4 * K, 16 * K)
    for n in (1, 2, 3, 4):
        yield (b"concat", n, 0)
        for s in stripes:
            yield (b"striped", n, s)
    for n in (3, 4, 5):
        for s in stripes:
            yield (b"raid5", n, s)


def cases(tier: str):
    for org, n, stripe in layouts(tier):
        for off in OFFSETS:
            for var in ("equal", "drives", "lengths"):
                yield ("data", org.decode(), n, stripe, off, var)
    for org, n, stripe in layouts(tier):
        for first in range(n):
            yield ("order", org.decode(), n, stripe, first)
    for org in ("concat", "striped", "raid5"):
        yield ("same", org)
        yield ("long", org)
        for n in range(5 if org != "raid5" else 6, 25):
            yield ("wide", org, n)
    for nplex in (2, 3):
        for org, n, stripe in ((b"concat", 1, 0), (b"concat", 2, 0), (b"striped", 2, 4 * K), (b"raid5", 3, 4 * K)):
            for usable in itertools.product((0, 1), repeat=nplex):
                yield ("mirror", nplex, org.decode(), n, stripe, usable)
    states = ["up", "down", "initializing", "degraded", "growable", "stale", ""]
    for org in ("concat", "striped", "raid5"):
        for vs, ps in itertools.product(states, repeat=2):
            yield ("states", org, vs, ps)
        for ss in itertools.product(states, repeat=3):
            yield ("sdstates", org, ss)
    for versions in itertools.product(range(3), repeat=3):
        for step in ("second", "usec", "hour"):
            yield ("newest", versions, step)
    for r in range(0, 5):
        for present in itertools.permutations(range(4), r):
            yield ("missing", present)
    for r in range(0, 4):
        for off in itertools.combinations(range(4), r):
            yield ("inactive", off)
    for magic in ("old", "new", "old-off", "new-off", 0, 0x494E2056494E4F01, 0x56494E554D2D3101, 2**64 - 1, 0x00312D4D554E4956):
        yield ("header", magic)
    for secs in (0, 1, T, 2**31, 2**32):
        for usec in (0, 1, 653168, 999999):
            yield ("time", secs, usec)
    yield ("several",)
    yield ("orphans",)
    for size in range(0, 4097 + 512, 128):
        yield ("short", size)


def run(case, ctx):
    globals()["run_" + case[0]](ctx, *case[1:])
    ctx.outcome(case[0] + (" " + case[1] if len(case) > 1 and isinstance(case[1], str) else ""))


def build(org, n, stripe, off, var, drives=None, fill="zero", **kw):
    org = org if isinstance(org, bytes) else org.encode()
    s = Set(drives or [b"drv%d" % i for i in range(n)], fill=fill)
    rows = 96 * K
    lengths = [rows] * n
    if var == "lengths" and org == b"concat":
        lengths = [rows + 512 * (i * 3 + 1) for i in range(n)]
    if var == "drives":
        s.sizes = {i: (1024 + 300 * ((i * 2) % 3)) * K for i in range(n)}
    s.plex(b"vol", b"vol.p0", org, stripe or None, [(i, OFFSETS[off](i), lengths[i]) for i in range(n)], **kw)
    return s


def run_data(ctx, org, n, stripe, off, var):
    s = build(org, n, stripe, off, var)
    want = s.expect(b"vol.p0")
    for recorded in (None, 0):
        v = s.open(drive_size=recorded)
        ctx.eq(list(vds(v)), ["vol"], "volumes")
        vd = vds(v)["vol"]
        ctx.eq(vd.uuid, "vol.p0", "plex name")
        ctx.eq(vd.num_disks, n, "subdisks")
        ctx.eq(vd.stripe_size, stripe, "stripe size")
        check_volume(ctx, vd, want, stripe, (org, n, stripe, off, var))


def run_order(ctx, org, n, stripe, first):
    """Every declaration order of the subdisks x every supply order of the drives."""
    for rest in itertools.permutations(sorted({*range(n)} - {first})):
        sd_order = (first, *rest)
        s = build(org, n, stripe, "differ", "equal", fill="comment", sd_order=sd_order)
        want = s.expect(b"vol.p0")
        orders = itertools.permutations(range(n)) if n < 4 or (n == 4 and stripe in (0, 4 * K)) else [tuple(range(n)), tuple(reversed(range(n)))]
        for order in orders:
            vd = vds(s.open(order))["vol"]
            ctx.state((sd_order, order))
            ctx.eq(vd.open().read(len(want)), want, f"subdisks {sd_order}, drives {order}")


def run_same(ctx, org):
    """Two subdisks on one drive."""
    stripe = 0 if org == "concat" else 4 * K
    for offs in ((0, 128 * K), (128 * K, 0), (64 * K, 200 * K)):
        for drives in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, 0)):
            s = Set([b"a", b"b"])
            rows = 48 * K
            used = {0: list(offs) + [300 * K], 1: [16 * K]}
            s.plex(b"vol", b"vol.p0", org.encode(), stripe or None, [(d, used[d].pop(0), rows) for d in drives])
            want = s.expect(b"vol.p0")
            check_volume(ctx, vds(s.open())["vol"], want, stripe, (offs, drives))


def run_long(ctx, org):
    """More than ten subdisks: order is by plex offset, not by name."""
    stripe = 0 if org == "concat" else 4 * K
    s = Set([b"d%d" % i for i in range(12)])
    s.plex(b"vol", b"vol.p0", org.encode(), stripe or None, [(i, 512 * i, 32 * K) for i in range(12)], sd_order=list(range(11, -1, -1)))
    want = s.expect(b"vol.p0")
    check_volume(ctx, vds(s.open())["vol"], want, stripe, org)
    # Far away on a big drive
    s = Set([b"x", b"y", b"z"], size=1 << 45)
    s.plex(b"vol", b"vol.p0", org.encode(), stripe or None, [(i, (1 << (33 + 4 * i)) + 512, 64 * K) for i in range(3)])
    want = s.expect(b"vol.p0")
    check_volume(ctx, vds(s.open())["vol"], want, stripe, org)
    # Big volume
    s = Set([b"x", b"y", b"z"], size=1 << 43)
    big = 1 << 41
    s.plex(b"vol", b"vol.p0", org.encode(), stripe or None, [(i, 0, big) for i in range(3)])
    vd = vds(s.open())["vol"]
    ctx.eq(vd.size, big * (2 if org == "raid5" else 3), "size of a big volume")
    fh = vd.open()
    for off in (0, 1 << 32, (1 << 40) + 4 * K, big - 4 * K, big, vd.size - 4 * K):
        unit = off // (4 * K)
        if org == "concat":
            drv, pos = divmod(off, big)
        elif org == "striped":
            pos, drv = divmod(unit, 3)
            pos *= 4 * K
        else:
            row, k = divmod(unit, 2)
            parity = 2 - row % 3
            drv = [m for m in range(3) if m != parity][k]
            pos = row * 4 * K
        fh.seek(off)
        ctx.eq(fh.read(4 * K), s.data_at(drv, pos, 4 * K), f"{org} at {off:#x}")


def run_wide(ctx, org, n):
    """Many subdisks, declared and supplied in orders of their own."""
    stripe = 0 if org == "concat" else 4 * K
    s = Set([b"d%d" % i for i in range(n)])
    order = [(i + n // 2) % n for i in reversed(range(n))]
    s.plex(b"vol", b"vol.p0", org.encode(), stripe or None, [(i, 512 * i, 16 * K) for i in range(n)], sd_order=order)
    vd = vds(s.open())["vol"]
    ctx.eq(vd.num_disks, n, "subdisks")
    check_volume(ctx, vd, s.expect(b"vol.p0"), stripe, (org, n))


def run_mirror(ctx, nplex, org, n, stripe, usable):
    """Plexes on their own drives holding the same volume; plex i is down when not usable."""
    for gone in [None, *range(nplex)] if all(usable) else [None]:
        s = Set([b"p%dd%d" % (p, i) for p in range(nplex) for i in range(n)])
        for p in range(nplex):
            s.plex(
                b"vol", b"vol.p%d" % p, org.encode(), stripe or None, [(p * n + i, 4 * K * p, 64 * K) for i in range(n)],
                state=b"up" if usable[p] else b"down",
            )  # fmt: skip
        wants = [s.expect(b"vol.p%d" % p) for p in range(nplex)]
        present = [p for p in range(nplex) if p != gone]
        order = [p * n + i for p in present for i in range(n)]
        for supply in (order, order[::-1]):
            good = [p for p in present if usable[p]]
            fhs = [s.fh(i) for i in supply]
            if not good:
                ctx.raises(vinum, fhs, what="a volume without usable plexes")
                continue
            vd = vds(vinum(fhs))["vol"]
            ctx.eq(vd.size, len(wants[0]), "size")
            got = vd.open().read(len(wants[0]))
            # Every plex is a mirror: here each holds its own pattern, any of the good ones will do
            ctx.true(any(got == wants[p] for p in good), f"the data is not that of a usable plex (good: {good})")
            fh = vd.open()
            want = got
            src.check_windows(ctx, fh, want, points(stripe, len(want)), "mirror", (tuple(supply), gone))
            ctx.eq(vd.name, "vol", "name")


def make_usable(org, ps, states):
    """Does the volume exist with these states?"""
    if ps == "down" or ps == "stale":
        return False
    return any(st not in ("down", "degraded", "initializing", "stale") for st in states)


def run_states(ctx, org, vs, ps):
    stripe = 0 if org == "concat" else 4 * K
    s = Set([b"a", b"b", b"c"])
    s.vols[b"vol"] = []
    s.lines.append(ev.volume(b"vol", vs.encode() or None))
    s.plex(b"vol", b"vol.p0", org.encode(), stripe or None, [(i, 0, 64 * K) for i in range(3)], state=ps.encode() or None)
    s.plex(b"good", b"good.p0", b"concat", None, [(0, 256 * K, 8 * K)])
    want = s.expect(b"vol.p0")
    found = vds(s.open())
    ctx.eq(found["good"].open().read(8 * K), s.expect(b"good.p0"), "other volume")
    if make_usable(org, ps, ["up"] * 3):
        ctx.eq(sorted(found), ["good", "vol"], "volumes")
        ctx.eq(found["vol"].open().read(len(want)), want, "data")
    else:
        ctx.eq(sorted(found), ["good"], "volumes")
    ctx.state((vs, ps))


def run_sdstates(ctx, org, ss):
    stripe = 0 if org == "concat" else 4 * K
    s = Set([b"a", b"b", b"c"], fill="comment" if "down" in ss else "zero")
    s.plex(
        b"vol", b"vol.p0", org.encode(), stripe or None, [(i, 0, 64 * K) for i in range(3)],
        sd_states={i: (x.encode() or None) for i, x in enumerate(ss)},
    )  # fmt: skip
    s.plex(b"good", b"good.p0", b"concat", None, [(0, 256 * K, 8 * K)])
    # RAID 5 members must agree for reconstruction: give the third the parity
    found = vds(s.open())
    ctx.eq(found["good"].open().read(8 * K), s.expect(b"good.p0"), "other volume")
    bad = [i for i, x in enumerate(ss) if x in ("down", "degraded", "initializing", "stale")]
    ctx.state(tuple(ss))
    if len(bad) == 3:
        ctx.eq(sorted(found), ["good"], "volumes")
        return
    ctx.eq(sorted(found), ["good", "vol"], "volumes")
    want = s.expect(b"vol.p0")
    vd = found["vol"]
    ctx.eq(vd.size, len(want), "size")
    if not bad:
        ctx.eq(vd.open().read(len(want)), want, "data")
        return
    if org == "raid5" and len(bad) == 1:
        ok, got = ctx.call(lambda: vd.open().read(len(want)))
        if ok:
            parts = [s.data_at(i, 0, 64 * K) for i in range(3)]
            others = [p for i, p in enumerate(parts) if i != bad[0]]
            parts[bad[0]] = bytes(x ^ y for x, y in zip(*others))
            ctx.eq(got, raid5(parts, stripe), "data rebuilt from the other two members")
        return
    # Too many unusable subdisks: an error, not data
    ctx.raises(lambda: vd.open().read(len(want)), what=f"{org} with unusable subdisks {bad}")


def run_newest(ctx, versions, step):
    """Three versions of the configuration; drive i carries version versions[i]."""
    base = [b"a", b"b", b"c"]
    stamps = {"second": [(T, 5), (T + 1, 4), (T + 2, 3)], "usec": [(T, 7), (T, 8), (T, 9)],
              "hour": [(T, 999999), (T + 3600, 0), (T + 7200, 1)]}[step]  # fmt: skip
    sets = []
    for ver in range(3):
        s = Set(base, fill="comment")
        # Where the volume lies, its size, its organisation and what else there is depends on the version
        s.plex(b"vol", b"vol.p0", b"concat" if ver != 1 else b"striped", None if ver != 1 else 4 * K,
               [(i, 32 * K * ver, (16 + 8 * ver) * K) for i in range(3)])  # fmt: skip
        s.plex(b"extra%d" % ver, b"extra%d.p0" % ver, b"concat", None, [(ver, 512 * K, 4 * K)])
        sets.append(s)
    newest = max(versions)
    for order in itertools.permutations(range(3)):
        fhs = [sets[versions[i]].fh(i, sec=stamps[versions[i]][0], usec=stamps[versions[i]][1]) for i in order]
        found = vds(vinum(fhs))
        want = sets[newest].expect(b"vol.p0")
        ctx.eq(found["vol"].size, len(want), f"size, order {order}")
        ctx.eq(found["vol"].open().read(len(want)), want, f"data, order {order}")
        ctx.eq(sorted(found), sorted(["vol"] + [f"extra{v}" for v in set(versions)]), "volumes")
        for v in set(versions):
            ctx.eq(found[f"extra{v}"].open().read(4 * K), sets[v].expect(b"extra%d.p0" % v), "extra volume")
        ctx.state((versions, order))


def system():
    s = Set([b"a", b"b", b"c", b"d"])
    s.plex(b"one", b"one.p0", b"concat", None, [(0, 0, 16 * K)])
    s.plex(b"cat", b"cat.p0", b"concat", None, [(1, 0, 16 * K), (2, 0, 8 * K)])
    s.plex(b"str", b"str.p0", b"striped", 4 * K, [(2, 64 * K, 16 * K), (3, 0, 16 * K)])
    s.plex(b"mir", b"mir.p0", b"concat", None, [(0, 64 * K, 16 * K)])
    s.plex(b"mir", b"mir.p1", b"concat", None, [(3, 64 * K, 16 * K)])
    return s


NEED = {"one": [{0}], "cat": [{1, 2}], "str": [{2, 3}], "mir": [{0}, {3}]}


def check_system(ctx, s, fhs, have, what):
    have = set(have)
    listed = [v for v, alts in NEED.items() if any(alt & have for alt in alts)]
    if not listed:
        ctx.raises(vinum, fhs, what=f"{what}: nothing usable")
        return
    found = vds(vinum(fhs))
    ctx.eq(sorted(found), sorted(listed), f"{what}: volumes")
    for name, vd in found.items():
        whole = [i for i, alt in enumerate(NEED[name]) if alt <= have]
        plexes = [f"{name}.p{i}".encode() for i in range(len(NEED[name]))]
        wants = [s.expect(p) for p in plexes]
        ctx.eq(vd.size, len(wants[0]), f"{what}: size of {name}")
        if whole:
            got = vd.open().read(len(wants[0]))
            ctx.true(any(got == wants[i] for i in whole), f"{what}: data of {name}")
        else:
            ctx.raises(lambda vd=vd: vd.open().read(1), what=f"{what}: {name} lacks drives")


def run_missing(ctx, present):
    s = system()
    if not present:
        ctx.raises(vinum, [], what="no drives")
        return
    check_system(ctx, s, [s.fh(i) for i in present], present, f"drives {present}")
    ctx.state(present)


def run_inactive(ctx, off):
    """Inactive drives contribute neither data nor configuration, however new."""
    s = system()
    other = Set([b"a", b"b", b"c", b"d"])
    other.plex(b"one", b"one.p0", b"concat", None, [(1, 300 * K, 8 * K)])
    other.plex(b"ghost", b"ghost.p0", b"concat", None, [(1, 300 * K, 8 * K)])
    for magic in ("new-off", "old-off"):
        for order in itertools.permutations(range(4)):
            fhs = [
                s.fh(i, text=other.text(), sec=T + 100, magic=magic) if i in off else s.fh(i, magic=["new", "old"][i % 2])
                for i in order
            ]
            check_system(ctx, s, fhs, [i for i in range(4) if i not in off], f"inactive {off}")
            ctx.state((magic, order))


def run_header(ctx, magic):
    from dissect.volume.vinum.vinum import VinumPhysicalDisk  # noqa: PLC0415

    for name in (b"a", b"drive-name.0", b"x" * 31, b"y" * 32):
        s = Set([name])
        s.plex(b"vol", b"vol.p0", b"concat", None, [(0, 0, 8 * K)])
        for drive_size in (0, 1024 * K, 1024 * K - 100, 1000 * K + 1, 1 << 40):
            fh = s.fh(0, magic=magic, drive_size=drive_size, config2=b"volume second\n")
            if magic in ("old", "new"):
                disk = VinumPhysicalDisk(fh)
                ctx.eq(disk.active, True, "active")
                ctx.eq(bytes(disk.id), name, "id")
                ctx.eq(disk.name, name.decode(), "name")
                ctx.eq(disk.size, drive_size or 1024 * K, "size")
                ctx.eq(disk.config, s.text().ljust(65536, b"\x00"), "configuration")
                ctx.eq(disk.config2, b"volume second\n".ljust(65536, b"\x00"), "second configuration")
                for arg in (fh, [fh], disk, [disk]):
                    ctx.eq(vds(vinum(arg))["vol"].open().read(8 * K), s.expect(b"vol.p0"), "data")
            elif magic in ("old-off", "new-off"):
                ctx.eq(VinumPhysicalDisk(fh).active, False, "active")
                ctx.raises(vinum, [fh], what="an inactive drive alone")
            else:
                ctx.raises(VinumPhysicalDisk, fh, what="not a vinum drive")
                ctx.raises(vinum, [fh], what="not a vinum drive")
            ctx.state((name, drive_size))


def run_time(ctx, secs, usec):
    from dissect.volume.vinum.vinum import VinumPhysicalDisk  # noqa: PLC0415

    s = Set([b"a"])
    s.plex(b"vol", b"vol.p0", b"concat", None, [(0, 0, 8 * K)])
    disk = VinumPhysicalDisk(s.fh(0, sec=secs, usec=usec))
    want = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=secs, microseconds=usec)
    ctx.eq(disk.config_time, want, "time of the configuration")


def run_several(ctx):
    """Volumes of every organisation sharing the same drives."""
    s = Set([b"d%d" % i for i in range(4)])
    at = 0
    for i, (org, n, stripe) in enumerate(layouts("quick")):
        if n > 4:
            continue
        s.plex(b"v%d" % i, b"v%d.p0" % i, org, stripe or None, [(k, at, 16 * K) for k in range(n)])
        at += 16 * K
    for order in itertools.permutations(range(4)):
        found = vds(s.open(order))
        ctx.eq(sorted(found), sorted(v.decode() for v in s.vols), "volumes")
        for name in s.vols:
            want = s.expect(name + b".p0")
            vd = found[name.decode()]
            ctx.eq(vd.size, len(want), f"{name}: size")
            ctx.eq(vd.open().read(len(want)), want, f"{name}: data")
        ctx.state(order)


def run_orphans(ctx):
    """Plexes without a volume, subdisks without a plex and volumes without plexes are left out."""
    for bad in (
        [ev.plex(b"x.p0", b"concat", b"nowhere")],
        [ev.plex(b"x.p0", b"concat", b"nowhere"), ev.sd(b"x.p0.s0", b"a", 8 * K, ev.START, b"x.p0", 0)],
        [ev.sd(b"lost.s0", b"a", 8 * K, ev.START, b"lost", 0)],
        [ev.volume(b"empty")],
        [ev.volume(b"empty"), ev.plex(b"empty.p0", b"concat", b"empty")],
        [ev.volume(b"x"), ev.plex(b"x.p0", b"weird", b"x"), ev.sd(b"x.p0.s0", b"a", 8 * K, ev.START, b"x.p0", 0)],
        [ev.volume(b"x"), ev.plex(b"x.p0", b"concat", b"x"), ev.sd(b"x.p0.s0", b"gone", 8 * K, ev.START, b"x.p0", 0)],
    ):
        for first in (True, False):
            s = Set([b"a", b"b"])
            if first:
                s.lines += bad
            s.plex(b"vol", b"vol.p0", b"striped", 4 * K, [(0, 16 * K, 16 * K), (1, 0, 16 * K)])
            if not first:
                s.lines += bad
            found = vds(s.open())
            ctx.eq(list(found), ["vol"], "volumes")
            ctx.eq(found["vol"].open().read(32 * K), s.expect(b"vol.p0"), "data")
            only = Set([b"a", b"b"])
            only.lines += bad
            ctx.raises(vinum, [only.fh(0), only.fh(1)], what="nothing usable")
    # A malformed line drops what follows it
    s = Set([b"a"])
    s.plex(b"vol", b"vol.p0", b"concat", None, [(0, 0, 8 * K)])
    s.lines.append(b"sd name broken")
    s.plex(b"late", b"late.p0", b"concat", None, [(0, 16 * K, 8 * K)])
    ctx.eq(list(vds(s.open())), ["vol"], "volumes in front of a malformed line")


def run_short(ctx, size):
    from dissect.volume.vinum.vinum import VinumPhysicalDisk  # noqa: PLC0415

    ctx.raises(VinumPhysicalDisk, src.mem(bytes(size)), what=f"{size} zero bytes")
    if size < 4096:
        s = system()
        ctx.raises(VinumPhysicalDisk, src.mem(s.fh(0).at(0, size)), what=f"{size} bytes of a drive")


