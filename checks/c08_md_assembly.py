"""C08: MD sets assemble independently of device order, strays and stale members."""

from __future__ import annotations

from itertools import permutations, product

from dissect.volume.md.md import MD, MDPhysicalDisk

from vlib.enc_md import FAULTY, JOURNAL, SPARE, sector_of, super_0, super_1
from vlib.ref_raid import parity_data_disks, parity_scatter, raid0_places, raid10_places
from vlib.src import mem, pattern

PROPERTY = "C08"
BOUNDS = (
    "versions 0.90/1.0/1.1/1.2 x 21 geometries of levels linear/0/1/4/5/6/10 with 2-4 members, equal and different member "
    "sizes, chunks that are powers of two and not x 16 mixtures of {spare, faulty, journal (1.x), stale duplicates of roles "
    "0 and 1 with older parameters, member of another set, whole other set} x every supply order of up to 5 devices (6 "
    "thorough; rotations, their reversals and swaps with the first above); versions 0.90 and 1.2: 4 further event count "
    "triples around 2^32, 2^40 and 2^63 with stale devices, device objects and mixed inputs in every order; single "
    "devices; wide: every member count 5-26 of six levels in every version, 3 orders, complete and (below 25 members) with a "
    "stale device; every chunk (of large volumes every 8 KiB) and chunk edge of the assembled volume, up to the reported size"
)
ASSUMPTIONS = [
    "known finding: the size of level 4/5/6/10 volumes is the component size (and KiB count for 0.90), contents are "
    "compared up to the reported size",
]

UUID_A = bytes(range(1, 17))
UUID_B = bytes(range(1, 16)) + b"\x11"

# (level, layout, members, chunk sectors, extra)
GEOMETRIES = (
    (-1, 0, 2, 0, "eq"),
    (-1, 0, 3, 0, "ne"),
    (-1, 0, 3, 8, "ne"),
    (0, 0, 2, 8, "eq"),
    (0, 2, 3, 2, "ne"),
    (0, 1, 3, 2, "ne"),
    (0, 0, 2, 3, "ne"),
    (0, 2, 4, 3, "ne"),
    (1, 0, 2, 0, "eq"),
    (1, 0, 3, 0, "eq"),
    (4, 0, 3, 2, "eq"),
    (5, 2, 3, 2, "eq"),
    (5, 0, 4, 8, "eq"),
    (5, 1, 3, 2, "eq"),
    (6, 2, 4, 2, "eq"),
    (6, 18, 4, 2, "eq"),
    (10, 0x102, 2, 2, "eq"),
    (10, 0x102, 3, 2, "eq"),
    (10, 0x102, 4, 2, "eq"),
    (10, 0x201, 2, 2, "eq"),
    (10, 0x10201, 3, 2, "eq"),
)

MIXTURES = (
    (),
    ("spare",),
    ("faulty",),
    ("journal",),
    ("stale0",),
    ("stale1",),
    ("other",),
    ("spare", "stale0"),
    ("journal", "stale0"),
    ("spare", "spare"),
    ("other", "stale1"),
    ("other", "spare"),
    ("faulty", "journal"),
    ("stale0", "stale1"),
    ("stale0", "stale0older"),
    ("otherset",),
)

EVENTS = ((100, 99, 98), (1 << 32, (1 << 32) - 1, 5), ((1 << 63) + 5, (1 << 63) + 4, (1 << 63)), (1 << 40, 0xFFFFFFFF, 1), (1, 0, 0))

# many members
WIDE = tuple(
    geometry
    for n in range(5, 27)
    for geometry in (
        (-1, 0, n, 0, "ne"),
        (0, 2, n, 2, "ne"),
        (1, 0, n, 0, "eq"),
        (5, 2, n, 2, "eq"),
        (6, 2, n, 2, "eq"),
        (10, 0x102, n, 2, "eq"),
    )
)
ALL = GEOMETRIES + WIDE


def orders(n, limit):
    if n <= limit:
        yield from permutations(range(n))
        return
    base = list(range(n))
    for k in range(n):
        rot = base[k:] + base[:k]
        yield tuple(rot)
        yield tuple(reversed(rot))
    for k in range(1, n):
        swapped = base[:]
        swapped[0], swapped[k] = swapped[k], swapped[0]
        yield tuple(swapped)


def cases(tier):
    limit = 6 if tier == "thorough" else 5
    for version, geo, mix in product(("0.90", "1.0", "1.1", "1.2"), range(len(GEOMETRIES)), range(len(MIXTURES))):
        level, _, n, _, _ = GEOMETRIES[geo]
        if version == "0.90" and any(m in ("journal",) for m in MIXTURES[mix]):
            continue
        count = n + len(MIXTURES[mix]) + (1 if "otherset" in MIXTURES[mix] else 0)
        for order in orders(count, limit):
            yield ("mix", version, geo, mix, 0, order, 0)
    # event counts, input forms
    for version, geo in product(("0.90", "1.2"), range(len(GEOMETRIES))):
        n = GEOMETRIES[geo][2]
        for events in range(1, len(EVENTS)):
            for mix in (4, 5, 13, 14):
                count = n + len(MIXTURES[mix])
                for order in orders(count, 3):
                    yield ("mix", version, geo, mix, events, order, 0)
        for form in (1, 2):
            for order in permutations(range(n)):
                yield ("mix", version, geo, 0, 0, order, form)
    for version, geo in product(("0.90", "1.0", "1.1", "1.2"), range(len(GEOMETRIES), len(ALL))):
        for mix in (0, 5):
            n = ALL[geo][2] + len(MIXTURES[mix])
            if n > 26 or (mix and n > 25):
                continue
            up = tuple(range(n))
            for order in (up, up[::-1], up[n // 2 :] + up[: n // 2]):
                yield ("mix", version, geo, mix, 0, order, 0)
    for version, level in product(("0.90", "1.0", "1.2"), (-5, -4, 2, 3, 7, 8, 9, 11, 100)):
        yield ("level", version, level)
    for version in ("0.90", "1.0", "1.1", "1.2"):
        yield ("single", version)


def geometry_members(geo, salt):
    """Return (volume bytes, [member data bytes]) for a geometry. ``salt`` gives another volume."""
    level, layout, n, chunk_s, extra = ALL[geo]
    chunk = chunk_s * 512
    if level == -1:
        sizes = [8192 + (1536 * i if extra == "ne" else 0) for i in range(n)]
        members = [pattern(salt + 10 + i, 0, s) for i, s in enumerate(sizes)]
        if chunk:
            volume = b"".join(m[: len(m) // chunk * chunk] for m in members)
        else:
            volume = b"".join(members)
        return volume, members, 0
    if level == 0:
        sizes = [chunk * (4 + (i % 3 if extra == "ne" else 0)) + (512 * (i % 2) if extra == "ne" else 0) for i in range(n)]
        members = [pattern(salt + 10 + i, 0, s) for i, s in enumerate(sizes)]
        volume = b"".join(members[d][o : o + chunk] for d, o in raid0_places(sizes, chunk, layout == 1))
        return volume, members, 0
    if level == 1:
        volume = pattern(salt + 1, 0, 8192)
        return volume, [volume] * n, 8192
    if level in (4, 5, 6):
        dd = parity_data_disks(level, n)
        rows = (n + 1) * dd if n < 5 else n + 2
        volume = pattern(salt + 1, 0, dd * rows * chunk)
        return volume, [bytes(m) for m in parity_scatter(level, layout, n, chunk, rows, volume)], rows * chunk
    dev_chunks = 12
    places = raid10_places(layout, n, dev_chunks)
    volume = pattern(salt + 1, 0, len(places) * chunk)
    members = [bytearray(pattern(salt + 50 + i, 0, dev_chunks * chunk)) for i in range(n)]
    for k, copies in enumerate(places):
        for dev, row in copies:
            members[dev][row * chunk : (row + 1) * chunk] = volume[k * chunk : (k + 1) * chunk]
    return volume, [bytes(m) for m in members], dev_chunks * chunk


DATA_OFFSET = {"1.0": 0, "1.1": 24, "1.2": 40}


def make_device(version, geo, data, component, *, uuid, role, number, events, index, name=b"arr", stale=False):
    """Return the bytes of one device. ``role``: int, or SPARE/FAULTY/JOURNAL."""
    level, layout, n, chunk_s, _ = ALL[geo]
    if stale:
        # parameters of an earlier life of the array
        layout, chunk_s, n, name = layout ^ 1, chunk_s + 2, n + 1, b"old"
    if version == "0.90":
        # the data area always ends at the superblock, at a multiple of 64 KiB; equal sizes only by padding
        area = (len(data) + 65535) // 65536 * 65536
        raw = data + pattern(700 + index, 0, area - len(data))
        disks = {}
        for i in range(27):
            disks[i] = (i, 0)
        if role in (SPARE, FAULTY):
            disks[number] = (number, 0 if role == SPARE else 1)
        else:
            disks[number] = (role, 6)
        block = super_0(
            set_uuid=uuid,
            level=level,
            layout=layout,
            size_kib=component // 1024,
            chunk_bytes=chunk_s * 512,
            raid_disks=n,
            events=events,
            number=number,
            disks=disks,
        )
        tail = 512 * (index % 5)
        image = raw + block + pattern(600 + index, 0, 65536 - 4096 + tail)
        assert sector_of("0.90", len(image)) * 512 == area
        return image
    offset = DATA_OFFSET[version] + (8 * index if version != "1.0" else 0)
    roles = [i for i in range(max(16, n + 2))]
    roles[number] = role
    block = super_1(
        set_uuid=uuid,
        name=name,
        level=level,
        layout=layout,
        size=component // 512,
        chunk=chunk_s,
        raid_disks=n,
        data_offset=offset,
        data_size=len(data) // 512,
        dev_number=number,
        events=events,
        roles=tuple(roles),
    )
    if version == "1.0":
        body = data + pattern(600 + index, 0, (-len(data)) % 4096)
        size = len(body) + 8192 + 512 * (index % 8)
        image = bytearray(pattern(650 + index, 0, size))
        image[: len(body)] = body
        at = sector_of("1.0", size) * 512
        assert at >= len(data)
        image[at : at + len(block)] = block
        return bytes(image)
    image = bytearray(pattern(650 + index, 0, offset * 512)) + data + pattern(600 + index, 0, 16384 + 512 * index)
    at = sector_of(version, len(image)) * 512
    image[at : at + len(block)] = block
    return bytes(image)


def pad090(geo, members, component):
    """With 0.90 the data area is everything before the superblock: linear and RAID 0 members are 64 KiB multiples."""
    level = ALL[geo][0]
    if level > 0:
        return members
    return [m + pattern(700 + i, 0, (-len(m)) % 65536) for i, m in enumerate(members)]


def volume_for(version, geo, salt):
    volume, members, component = geometry_members(geo, salt)
    if version == "0.90" and ALL[geo][0] <= 0:
        level, layout, n, chunk_s, extra = ALL[geo]
        chunk = chunk_s * 512
        members = [m + pattern(salt + 90 + i, len(m), (-len(m)) % 65536 + (65536 if extra == "ne" and i == 1 else 0)) for i, m in enumerate(members)]
        if level == -1:
            volume = b"".join(m[: len(m) // chunk * chunk] if chunk else m for m in members)
        else:
            places = raid0_places([len(m) for m in members], chunk, layout == 1)
            volume = b"".join(members[d][o : o + chunk] for d, o in places)
    return volume, members, component


_CACHE: dict = {}


def build(version, geo, mix, ev):
    key = (version, geo, mix, ev)
    if key in _CACHE:
        return _CACHE[key]
    n = ALL[geo][2]
    new, old, older = EVENTS[ev]
    volume, members, component = volume_for(version, geo, 0)
    _, stale_members, _ = volume_for(version, geo, 5000)
    devices = [
        ("A", make_device(version, geo, members[i], component, uuid=UUID_A, role=i, number=(i + 1) % n, events=new, index=i))
        for i in range(n)
    ]
    free = n
    index = n
    for what in MIXTURES[mix]:
        kw = dict(uuid=UUID_A, number=free, events=new, index=index)
        if what in ("spare", "faulty", "journal"):
            role = {"spare": SPARE, "faulty": FAULTY, "journal": JOURNAL}[what]
            data = pattern(8000 + index, 0, len(members[0]))
            devices.append(("A", make_device(version, geo, data, component, role=role, **kw)))
        elif what.startswith("stale"):
            role = int(what[5])
            kw["events"] = older if what.endswith("older") else old
            data = stale_members[role]
            devices.append(("A", make_device(version, geo, data, component, role=role, stale=True, **kw)))
        elif what == "other":
            other = 8  # a RAID 1 of another identity
            _, data, comp = volume_for(version, other, 7000)
            kw.update(uuid=UUID_B, number=0, events=7)
            devices.append(("B", make_device(version, other, data[0], comp, role=0, name=b"other", **kw)))
        elif what == "otherset":
            other = 8
            _, data, comp = volume_for(version, other, 7000)
            for r in (0, 1):
                kw.update(uuid=UUID_B, number=r, events=7, index=index + r)
                devices.append(("B", make_device(version, other, data[r], comp, role=r, name=b"other", **kw)))
        free += 1
        index += 1
    result = (volume, component, devices)
    if len(_CACHE) > 40:
        _CACHE.clear()
    _CACHE[key] = result
    return result


def run(case, ctx):
    if case[0] == "level":
        _, version, level = case
        _, members, component = geometry_members(8, 0)
        block = dict(set_uuid=UUID_A, level=level, layout=0, raid_disks=2)
        if version == "0.90":
            image = bytes(65536) + super_0(size_kib=8, **block) + bytes(65536 - 4096)
        else:
            image = bytearray(1 << 17)
            raw = super_1(data_size=16, data_offset=32, **block)
            at = sector_of(version, len(image)) * 512
            image[at : at + len(raw)] = raw
        ctx.raises(MD, mem(image), what=f"level {level}")
        return
    if case[0] == "single":
        # a single member, given as the object itself instead of a list
        version = case[1]
        volume, component, devices = build(version, 8, 0, 0)
        for dev in (mem(devices[1][1]), MDPhysicalDisk(mem(devices[0][1]))):
            md = MD(dev)
            ctx.eq(len(md.configurations), 1, "configurations")
            check_volume(ctx, version, 8, md.configurations[0], volume, component)
        return
    _, version, geo, mix, ev, order, form = case
    volume, component, devices = build(version, geo, mix, ev)
    fhs = [mem(devices[i][1]) for i in order]
    given = list(fhs)
    if form:
        given = [MDPhysicalDisk(fh) if form == 1 or i % 2 else fh for i, fh in enumerate(fhs)]
    md = MD(given)
    owners = [devices[i][0] for i in order]
    ctx.eq(len(md.configurations), len(set(owners)), "number of configurations")
    for conf in md.configurations:
        found = {id(d.fh) for d in conf.physical_disks}
        groups = {o for o, fh in zip(owners, fhs) if id(fh) in found}
        ctx.eq(len(groups), 1, "devices of several sets in one configuration")
        owner = groups.pop()
        ctx.eq(found, {id(fh) for o, fh in zip(owners, fhs) if o == owner}, "devices of the configuration")
        ctx.eq(len(conf.physical_disks), owners.count(owner), "every device once")
        if owner == "A":
            check_volume(ctx, version, geo, conf, volume, component)
        else:
            vol, _, comp = volume_for(version, 8, 7000)
            check_volume(ctx, version, 8, conf, vol, comp, name="other")


def check_volume(ctx, version, geo, conf, volume, component, name="arr"):
    level, layout, n, chunk_s, _ = ALL[geo]
    ctx.eq(len(conf.virtual_disks), 1, "virtual disks")
    vd = conf.virtual_disks[0]
    ctx.eq(vd.level, level, "level")
    ctx.eq(vd.layout, layout, "layout")
    ctx.eq(vd.stripe_size, chunk_s * 512, "chunk size")
    ctx.eq(vd.num_disks, n, "member count")
    ctx.eq(vd.name, None if version == "0.90" else name, "name")
    ctx.eq(sorted(vd.disk_map), list(range(n)) if name == "arr" and len(conf.physical_disks) >= n else sorted(vd.disk_map), "roles")
    size = vd.size
    ctx.step()
    if size != len(volume):
        if version == "0.90" and level >= 1 and size == component // 2:
            ctx.known("md-090-size-in-kib", f"size {size}, expected {len(volume)}")
        elif level in (4, 5, 6, 10) and size == component:
            ctx.known("md-size-is-component-size", f"size {size}, expected {len(volume)}")
        else:
            ctx.fail(f"volume size {size}, expected {len(volume)}")
    want = volume[:size]
    stream = vd.open()
    if level == 1:
        # a mirror may be longer than the volume
        ctx.true(stream.size >= size, "mirror shorter than the volume")
        want = volume if stream.size >= len(volume) else want
    else:
        ctx.eq(stream.size, size, "stream size")
    stream.seek(0)
    ctx.eq(stream.read(len(want)), want, "contents")
    step = chunk_s * 512 or 2048
    if len(want) > 40000:
        step = max(step, 8192 // step * step if step < 8192 else step)
    for a in range(0, len(want), step):
        ctx.state(a)
        stream.seek(a)
        ctx.eq(stream.read(step), want[a : a + step], f"chunk at {a}")
        if a:
            stream.seek(a - 3)
            ctx.eq(stream.read(9), want[a - 3 : a + 6], f"edge at {a}")
