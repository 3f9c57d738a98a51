"""C09: DDF metadata is decoded and grouped into configurations independently of order."""

from __future__ import annotations

from itertools import combinations, permutations, product

from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk

from vlib import enc_ddf as e
from vlib.src import mem, pattern

PROPERTY = "C09"
BOUNDS = (
    "block sizes 512/1024/2048/4096; primary header gaps 0-2, with and without secondary copy, every order "
    "of the five sections, padding 0-1; physical/virtual entry tables of up to 5 slots with every used/unused pattern, "
    "tables of 6-20, 63-66, 127-129, 255-257 and 300 slots with every, every second and every 17th slot used from every of the "
    "first 3 slots on; identifiers with 0-24 leading set bytes; "
    "configuration sections of up to 5 slots with every arrangement of 0-3 records, unused, zeroed, spare "
    "and vendor records, in up to 3 slots also with records of 3 and 4 blocks; every supply order of 1-4 disks with "
    "1-3 volumes and 3 forms of input; stale copies of a record on every disk subset of 2 and 3; two groups in every order "
    "of 4 disks; groups of 5-24 disks with 1 and 7 and of 4 disks with 4-40 volumes, 3 orders; every decoded field over its boundary values; names of every length, "
    "also terminated and followed by leftovers"
)
ASSUMPTIONS = ["a configuration record of a virtual disk is the same on all its disks except for stale copies"]

U8 = (0, 1, 0x7F, 0x80, 0xFE, 0xFF)
U16 = (0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE)
U32 = (0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE)
U64 = (*U32, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFE)

GROUP_A = e.guid("GROUP-A")
GROUP_B = e.guid("GROUP-B")


def cases(tier):
    sizes = (512, 1024, 2048, 4096)
    for block, gap, secondary, order, pad in product(
        sizes, (0, 1, 2), (0, 1), permutations(("controller", "pdr", "vdr", "config", "pdd")), (0, 1)
    ):
        yield ("place", block, gap, secondary, order, pad)
    # tables with holes
    for slots in range(1, 6):
        for used in range(1, slots + 1):
            for where in combinations(range(slots), used):
                for own in range(used):
                    yield ("pde", slots, where, own)
    for slots in range(0, 6):
        for used in range(0, slots + 1):
            for where in combinations(range(slots), used):
                yield ("vde", slots, where)
    for slots in (*range(6, 21), *range(63, 67), *range(127, 130), *range(255, 258), 300):
        for step, first in product((1, 2, 17), (0, 1, 2)):
            if first < slots:
                yield ("table", slots, step, first)
    # a slot is unused when its whole identifier is set, whatever else it holds
    for ones in range(25):
        for rest in range(3):
            yield ("ones", ones, rest)
    for count, seq in product((0, 1), (0, 1, 2, 3, 0x80, 0xFF)):
        yield ("secseq", count, seq)
    # configuration section: every arrangement of records
    for slots in range(1, 6):
        for content in product("ABCuzsv", repeat=slots):
            if any(content.count(x) > 1 for x in "ABC"):
                continue
            if ("B" in content and "A" not in content) or ("C" in content and "B" not in content):
                continue
            yield ("config", "".join(content), 1)
            if slots <= 3:
                yield ("config", "".join(content), 2)
                yield ("config", "".join(content), 3)
    # supply orders, groups, input forms
    for n in range(1, 5):
        for order in permutations(range(n)):
            for vds in (1, 2, 3):
                for form in (0, 1, 2):
                    yield ("order", n, order, vds, form)
    for n, vds in [(n, v) for n in range(5, 25) for v in (1, 7)] + [(4, v) for v in range(4, 41)]:
        up = tuple(range(n))
        for order in (up, up[::-1], up[n // 2 :] + up[: n // 2]):
            yield ("wide", n, vds, order)
    for order in permutations(range(4)):
        yield ("groups", order)
    # stale copies
    for n in (2, 3):
        for r in range(1, n):
            for stale in combinations(range(n), r):
                for order in permutations(range(n)):
                    for seqs in ((2, 1), (0x80000000, 0x7FFFFFFF), (0xFFFFFFFF, 0), (0x10000, 0xFFFF), (256, 255)):
                        for secondary in (0, 1):
                            yield ("stale", n, stale, order, seqs, secondary)
    # fields
    for field, values in FIELDS.items():
        for v in values:
            yield ("field", field, v)
    for n in range(0, 17):
        for kind in (0, 1, 2, 4, 5, 6, 7, 8, 12):
            yield ("name", n, kind, b"")
            if n < 16:
                yield ("name", n, kind, b"\0x")
                yield ("name", n, kind, b"\0\0old")
    for size in (0, 1, 100, 511, 512, 513, 1024, 4096):
        yield ("none", size)
    for sig in (0, 0xDE11DE10, 0x11DE11DE, 0x5E11DE11, 0xDE11DE51):
        yield ("sig", sig)
    for section in ("controller", "pdr", "vdr", "pdd"):
        yield ("badsection", section)


FIELDS = {
    "pde_kind": U16,
    "pde_state": U16,
    "pde_size": U64[:-3],
    "pde_ref": U32,
    "pde_block": (512, 520, 1024, 4096, 0xFFFF),
    "vde_number": U16,
    "vde_kind": (0, 1, 8, 0x10000001, 0xFF000000),
    "vde_state": U8,
    "vde_init": U8,
    "vd_size": U64,
    "vd_block": (512, 1024, 4096, 0xFFFF),
    "strip": tuple(range(0, 20)),
    "timestamp": U32,
    "sequence": (*U32, 0xFFFFFFFF),
    "start": U64,
    "max_elements": (2, 3, 8, 16, 127, 128, 255, 256, 1000),
}


def simple_record(tag="A", refs=(0x1001, 0x1002), **kw):
    args = dict(
        vguid=e.guid(f"VD-{tag}"),
        refs=list(refs),
        starts=[16 * (i + 1) for i in range(len(refs))],
        max_elements=8,
        prl=0,
        rlq=0,
        strip=3,
        block_count=64,
        vd_size=64 * len(refs),
        sequence=9,
    )
    args.update(kw)
    return e.vdcr(**args)


def simple_disk(ref=0x1001, refs=(0x1001, 0x1002), vds="A", records=None, **kw):
    pguid = e.guid(f"PD-{ref:x}")
    args = dict(
        group=GROUP_A,
        data=pattern(ref & 0xFF, 0, 4096),
        pdes=[e.pde(e.guid(f"PD-{r:x}"), r, 512) for r in refs],
        vdes=[e.vde(e.guid(f"VD-{v}"), i, f"vol-{v}".encode()) for i, v in enumerate(vds)],
        records=records if records is not None else [simple_record(v, refs) for v in vds],
        pguid=pguid,
        ref=ref,
    )
    args.update(kw)
    return e.disk_image(**args)


def check_pd(ctx, pd, ref, refs, block=512, vds="A"):
    ctx.eq(pd.reference, ref, "own reference")
    ctx.eq(pd.guid, e.guid(f"PD-{ref:x}"), "own guid")
    ctx.eq([r.reference for r in pd.physical_disk_records], list(refs), "physical disk records")
    ctx.eq([r.guid for r in pd.physical_disk_records], [e.guid(f"PD-{r:x}") for r in refs], "physical disk guids")
    ctx.eq([r.name for r in pd.virtual_disk_records], [f"vol-{v}" for v in vds], "virtual disk names")
    ctx.eq([r.guid for r in pd.virtual_disk_records], [e.guid(f"VD-{v}") for v in vds], "virtual disk guids")
    ctx.eq([r.guid for r in pd.virtual_disk_configuration_records], [e.guid(f"VD-{v}") for v in vds], "records")
    ctx.eq(pd.size, 512 * block, "disk size")
    ctx.eq(pd.block_size, block, "block size")
    ctx.eq(pd.controller_data.guid, b"CTRL" * 6, "controller guid")


def by_uuid(conf):
    return {vd.uuid: vd for vd in conf.virtual_disks}


def check_vd(ctx, vd, tag, refs, block=512, pds=None, **want):
    exp = dict(name=f"vol-{tag}", level=0, size=64 * len(refs) * block, stripe_size=8 * block, num_disks=len(refs))
    starts = want.pop("starts", [16 * (i + 1) for i in range(len(refs))])
    exp.update(want)
    for name, value in exp.items():
        ctx.eq(getattr(vd, name), value, f"vd {name}")
    ctx.eq(vd.uuid, e.guid(f"VD-{tag}").hex(), "vd uuid")
    got = {i: (start, pd.reference) for i, (start, pd) in vd.disk_map.items()}
    exp = {i: (starts[i] * block, r) for i, r in enumerate(refs) if pds is None or r in pds}
    ctx.eq(got, exp, "members")


def run(case, ctx):
    kind = case[0]
    globals()[f"run_{kind}"](ctx, *case[1:])


def run_place(ctx, block, gap, secondary, order, pad):
    image = simple_disk(block=block, gap=gap, secondary=bool(secondary), order=order, pad=pad)
    pd = DDFPhysicalDisk(mem(image), block)
    check_pd(ctx, pd, 0x1001, (0x1001, 0x1002), block)
    ddf = DDF(mem(image), block)
    ctx.eq(len(ddf.configurations), 1, "configurations")
    vds = ddf.configurations[0].virtual_disks
    ctx.eq(len(vds), 1, "virtual disks")
    check_vd(ctx, vds[0], "A", (0x1001, 0x1002), block, pds=(0x1001,))


def run_pde(ctx, slots, where, own):
    refs = [0x2000 + w for w in where]
    entries = [e.UNUSED_PDE] * slots
    for r, w in zip(refs, where):
        entries[w] = e.pde(e.guid(f"PD-{r:x}"), r, 512)
    image = simple_disk(refs[own], refs[:1], pdes=entries)
    pd = DDFPhysicalDisk(mem(image))
    check_pd(ctx, pd, refs[own], refs)


def run_table(ctx, slots, step, first):
    """Long tables, the disk itself in the last used slot."""
    where = list(range(first, slots, step))
    refs = [0x2000 + w for w in where]
    pdes = [e.UNUSED_PDE] * slots
    vdes = [e.UNUSED_VDE] * slots
    for r, w in zip(refs, where):
        pdes[w] = e.pde(e.guid(f"PD-{r:x}"), r, 512)
        vdes[w] = e.vde(e.guid(f"VD-{w}"), w, f"vol-{w}".encode())
    image = simple_disk(refs[-1], refs[:1], pdes=pdes, vdes=vdes, records=[simple_record(w, refs[-1:]) for w in where])
    pd = DDFPhysicalDisk(mem(image))
    check_pd(ctx, pd, refs[-1], refs, vds=where)
    ctx.eq([r.number for r in pd.virtual_disk_records], where, "virtual disk numbers")
    conf = DDF(mem(image)).configurations[0]
    ctx.eq(sorted(vd.name for vd in conf.virtual_disks), sorted(f"vol-{w}" for w in where), "virtual disks")
    ctx.state((slots, step, first))


def run_ones(ctx, ones, rest):
    """Entries whose identifier starts with ``ones`` set bytes, in front of ordinary ones."""
    tail = (b"\xff", b"\0", b"\x5a")[rest]
    special = b"\xff" * ones + bytes(range(1, 25 - ones))
    name = b"vol-S"
    if ones == 24:
        pdes = [special + tail * 40]
        vdes = [special + tail * 40]
    else:
        pdes = [e.pde(special, 0x5005, 512)]
        vdes = [e.vde(special, 7, name)]
    populated = int(ones < 24)
    pdes += [e.pde(e.guid("PD-1001"), 0x1001, 512), e.pde(e.guid("PD-1002"), 0x1002, 512)]
    vdes += [e.vde(e.guid("VD-A"), 1, b"vol-A")]
    pd = DDFPhysicalDisk(mem(simple_disk(pdes=pdes, vdes=vdes, populated=(2 + populated, 1 + populated))))
    want = [special] * populated
    ctx.eq([r.guid for r in pd.physical_disk_records], [*want, e.guid("PD-1001"), e.guid("PD-1002")], "physical disks")
    ctx.eq([r.guid for r in pd.virtual_disk_records], [*want, e.guid("VD-A")], "virtual disks")
    ctx.eq(pd.reference, 0x1001, "own reference")


def run_secseq(ctx, count, seq):
    """The position among secondary elements means nothing without secondary elements."""
    refs = [0x1001, 0x1002, 0x1003]
    record = simple_record("A", refs, sec_count=1, sec_seq=seq)
    images = [simple_disk(r, refs, records=[record]) for r in refs]
    conf = DDF([mem(i) for i in (images if count else reversed(images))]).configurations[0]
    ctx.eq(len(conf.virtual_disks), 1, "virtual disks")
    check_vd(ctx, conf.virtual_disks[0], "A", refs)


def run_vde(ctx, slots, where):
    tags = "ABCDE"[: len(where)]
    entries = [e.UNUSED_VDE] * slots
    for t, w in zip(tags, where):
        entries[w] = e.vde(e.guid(f"VD-{t}"), w, f"vol-{t}".encode())
    records = [simple_record(t) for t in tags]
    image = simple_disk(vdes=entries, records=records)
    pd = DDFPhysicalDisk(mem(image))
    check_pd(ctx, pd, 0x1001, (0x1001, 0x1002), vds=tags)
    ctx.eq([r.number for r in pd.virtual_disk_records], list(where), "virtual disk numbers")
    conf = DDF(mem(image)).configurations[0]
    ctx.eq(sorted(vd.name for vd in conf.virtual_disks), [f"vol-{t}" for t in tags], "virtual disks")


def run_config(ctx, content, record_blocks):
    tags = [c for c in content if c in "ABC"]
    records = []
    for c in content:
        records.append(
            {
                "u": b"\xff" * 600,
                "z": bytes(600),
                "s": e.spare_record(e.guid("VD-A")),
                "v": e.vendor_record(e.guid("VD-A")),
            }.get(c)
            or simple_record(c, starts=[100 + ord(c), 200 + ord(c)])
        )
    image = simple_disk(records=records, vds="ABC"[: len(tags)], record_blocks=record_blocks + 1)
    pd = DDFPhysicalDisk(mem(image))
    ctx.eq(
        [(r.guid, list(r.starting_block), list(r.physical_disk_sequence)) for r in pd.virtual_disk_configuration_records],
        [(e.guid(f"VD-{t}"), [100 + ord(t), 200 + ord(t)], [0x1001, 0x1002]) for t in tags],
        "configuration records",
    )
    conf = DDF(mem(image)).configurations[0]
    ctx.eq(len(conf.virtual_disks), len(tags), "virtual disks")
    vds = by_uuid(conf)
    for t in tags:
        check_vd(ctx, vds[e.guid(f"VD-{t}").hex()], t, (0x1001, 0x1002), pds=(0x1001,), starts=[100 + ord(t), 200 + ord(t)])


def run_order(ctx, n, order, count, form):
    refs = [0x1001 + 0x11 * i for i in range(n)]
    tags = "ABC"[:count]
    # every volume uses the disks in another order
    seqs = {t: refs[i % n :] + refs[: i % n] for i, t in enumerate(tags)}
    images = []
    for r in refs:
        records = [simple_record(t, seqs[t]) for t in tags]
        images.append(simple_disk(r, refs, vds=tags, records=records))
    given = [mem(images[i]) for i in order]
    if form:
        given = [DDFPhysicalDisk(fh) if form == 1 or i % 2 else fh for i, fh in enumerate(given)]
    ddf = DDF(given if n > 1 or form else given[0])
    ctx.eq(len(ddf.configurations), 1, "configurations")
    conf = ddf.configurations[0]
    ctx.eq(sorted(p.reference for p in conf.physical_disks), sorted(refs), "physical disks")
    ctx.eq(len(conf.virtual_disks), count, "virtual disks")
    vds = by_uuid(conf)
    for t in tags:
        check_vd(ctx, vds[e.guid(f"VD-{t}").hex()], t, seqs[t])


def run_wide(ctx, n, count, order):
    """Many disks and volumes; volume ``v`` has its members in an order of its own."""
    refs = [0x1001 + 3 * i for i in range(n)]
    tags = [f"{v:02d}" for v in range(count)]
    seqs = {t: refs[v % n :] + refs[: v % n] for v, t in enumerate(tags)}
    records = [simple_record(t, seqs[t], max_elements=32) for t in tags]
    images = [simple_disk(r, refs, vds=tags, records=records, max_elements=32) for r in refs]
    ddf = DDF([mem(images[i]) for i in order])
    ctx.eq(len(ddf.configurations), 1, "configurations")
    conf = ddf.configurations[0]
    ctx.eq(sorted(pd.reference for pd in conf.physical_disks), refs, "disks")
    for pd in conf.physical_disks:
        check_pd(ctx, pd, pd.reference, refs, vds=tags)
    vds = by_uuid(conf)
    ctx.eq(len(conf.virtual_disks), count, "volumes")
    for t in tags:
        check_vd(ctx, vds[e.guid(f"VD-{t}").hex()], t, seqs[t])
    ctx.state((n, count, order))


def run_groups(ctx, order):
    images = []
    for group, name in ((GROUP_A, "A"), (GROUP_B, "B")):
        for r in (0x1001, 0x1002):
            # the same references in both groups
            images.append((name, r, simple_disk(r, group=group, vds=name)))
    ddf = DDF([mem(images[i][2]) for i in order])
    ctx.eq(len(ddf.configurations), 2, "configurations")
    seen = set()
    for conf in ddf.configurations:
        groups = {pd.anchor.DDF_Header_GUID for pd in conf.physical_disks}
        ctx.eq(len(groups), 1, "one group per configuration")
        name = {GROUP_A: "A", GROUP_B: "B"}[groups.pop()]
        seen.add(name)
        ctx.eq(len(conf.physical_disks), 2, "disks of the configuration")
        ctx.eq(len(conf.virtual_disks), 1, "virtual disks")
        check_vd(ctx, conf.virtual_disks[0], name, (0x1001, 0x1002))
        for _, pd in conf.virtual_disks[0].disk_map.values():
            ctx.true(pd in conf.physical_disks, "member of another group")
    ctx.eq(seen, {"A", "B"}, "groups")


def run_stale(ctx, n, stale, order, seqs, secondary):
    """Some disks carry an older copy of the configuration record with other parameters."""
    refs = [0x1001 + i for i in range(n)]
    new, old = seqs
    sec = dict(sec_count=1, sec_seq=0)
    images = []
    for i, r in enumerate(refs):
        if i in stale:
            record = simple_record(
                "A", refs[::-1], sequence=old, strip=1, vd_size=77, starts=[1000 + k for k in range(n)], timestamp=0x99999
            )
        else:
            record = simple_record("A", refs, sequence=new, **sec)
        other = simple_record("B", refs, sequence=old if secondary else new)
        images.append(simple_disk(r, refs, vds="AB", records=[record, other] if not secondary else [other, record]))
    ddf = DDF([mem(images[i]) for i in order])
    vds = by_uuid(ddf.configurations[0])
    check_vd(ctx, vds[e.guid("VD-A").hex()], "A", refs)
    check_vd(ctx, vds[e.guid("VD-B").hex()], "B", refs)


def run_field(ctx, field, v):
    pde_kw, vde_kw, rec, refs, ref, want = {}, {}, {}, [0x1001, 0x1002], 0x1001, {}
    image_kw = {}
    if field.startswith("pde_"):
        key = {"kind": "kind", "state": "state", "size": "size_blocks", "ref": "ref", "block": "block_size"}[field[4:]]
        pde_kw[key] = v
        if field == "pde_ref":
            ref, refs = v, [v, 0x1002]
    elif field.startswith("vde_"):
        vde_kw[field[4:]] = v
    elif field == "max_elements":
        rec["max_elements"] = v
        image_kw = dict(max_elements=v, record_blocks=-(-(512 + 12 * v) // 512))
    elif field == "vd_block":
        rec["block_size"] = v
    elif field == "start":
        rec["starts"] = [v, v]
    else:
        rec[field] = v
    mine = dict(pguid=e.guid(f"PD-{ref:x}"), ref=ref, size_blocks=512, block_size=0xFFFF, kind=2, state=1)
    mine.update(pde_kw)
    pdes = [
        e.pde(e.guid("PD-1002"), 0x1002, 512),
        e.pde(**mine),
    ]
    vde_args = dict(number=0, kind=0, state=0, init=2)
    vde_args.update(vde_kw)
    entry = e.vde(e.guid("VD-A"), name=b"vol-A", **vde_args)
    image = simple_disk(ref, refs, pdes=pdes, vdes=[entry], records=[simple_record("A", refs, **rec)], **image_kw)
    pd = DDFPhysicalDisk(mem(image))
    own = pd.physical_disk_records[1]
    ctx.eq(
        (own.guid, own.reference, own.type, own.state, own.size, own.block_size, own.path_information),
        (mine["pguid"], mine["ref"], mine["kind"], mine["state"], mine["size_blocks"], mine["block_size"], bytes(range(18))),
        "physical disk record",
    )
    block = 512 if mine["block_size"] == 0xFFFF else mine["block_size"]
    ctx.eq((pd.reference, pd.type, pd.state, pd.block_size), (ref, mine["kind"], mine["state"], block), "disk")
    ctx.eq(pd.size, mine["size_blocks"] * block, "disk size")
    vr = pd.virtual_disk_records[0]
    ctx.eq(
        (vr.guid, vr.number, vr.type, vr.state, vr.init_state, vr.name),
        (e.guid("VD-A"), vde_args["number"], vde_args["kind"], vde_args["state"], vde_args["init"], "vol-A"),
        "virtual disk record",
    )
    cr = pd.virtual_disk_configuration_records[0]
    starts = rec.get("starts", [16, 32])
    ctx.eq(
        (cr.guid, cr.sequence_number, cr.primary_element_count, cr.strip_size, cr.primary_raid_level, cr.raid_level_qualifier),
        (e.guid("VD-A"), rec.get("sequence", 9), 2, rec.get("strip", 3), 0, 0),
        "record",
    )
    ctx.eq(
        (cr.size, cr.block_size, list(cr.physical_disk_sequence), list(cr.starting_block)),
        (rec.get("vd_size", 128), rec.get("block_size", 0xFFFF), refs, starts),
        "record",
    )
    epoch_1980 = 315532800
    ctx.eq(int(cr.timestamp.timestamp()), epoch_1980 + rec.get("timestamp", 0x12345), "timestamp")
    vd = DDF(mem(image)).configurations[0].virtual_disks[0]
    vblock = block if rec.get("block_size", 0xFFFF) == 0xFFFF else rec["block_size"]
    ctx.eq(
        (vd.size, vd.stripe_size, vd.num_disks, vd.level, vd.name),
        (rec.get("vd_size", 128) * vblock, 2 ** rec.get("strip", 3) * vblock, 2, 0, "vol-A"),
        "virtual disk",
    )
    start_blocks = starts[0]
    ctx.true(vd.disk_map[0][0] in (start_blocks * block, start_blocks * vblock), f"member start {vd.disk_map[0][0]}")


def run_name(ctx, n, kind, leftover):
    raw = b"abcdefghijklmnopq"[:n]
    if kind & 4:
        raw = "é漢üöß€x".encode()
        raw = raw[:n].decode("utf-8", "ignore").encode()
    image = simple_disk(vdes=[e.vde(e.guid("VD-A"), 0, raw + leftover, kind=kind)])
    vd = DDF(mem(image)).configurations[0].virtual_disks[0]
    ctx.eq(vd.name, raw.decode(), "name")


def run_none(ctx, size):
    ctx.raises(DDF, mem(pattern(5, 0, size)), what="no DDF disk")


def run_sig(ctx, sig):
    image = bytearray(simple_disk())
    image[-512:-508] = sig.to_bytes(4, "big")
    ctx.raises(DDF, mem(image), what="wrong anchor signature")


def run_badsection(ctx, section):
    image = bytearray(simple_disk(secondary=False))
    sig = {"controller": e.CONTROLLER_SIG, "pdr": e.PDR_SIG, "vdr": e.VDR_SIG, "pdd": e.PDD_SIG}[section]
    at = image.index(sig.to_bytes(4, "big") + (0).to_bytes(3, "big"))
    image[at] ^= 0xFF
    ctx.raises(DDF, mem(image), what=f"wrong {section} signature")
