"""C16: LVM metadata text is parsed to exactly the tree it denotes."""

from __future__ import annotations

import itertools
from datetime import datetime, timezone

from vlib import enc_lvm

PROPERTY = "C16"
BOUNDS = (
    "shapes: every ordered tree of sections and values to depth 4, width 3 and up to 10 nodes, "
    "each in 3 layouts (all layouts thorough), values rotating through the alphabet; values: every value alone, and every "
    "ordered pair of values, in every layout; layouts: full product of indentation, equals, brace, comment, own-line "
    "comment, blank line, list layout, trailing space over a 3-item tree; typed: every segment kind, group, physical, "
    "logical and historical volume with no, all, each single and each missing optional field; lists of 1-33 stripes, mirrors "
    "and RAID members"
)
ASSUMPTIONS = [
    "text is what LVM writes: one item per line, double-quoted strings with backslash-escaped quotes and backslashes, "
    "decimal integers, no nested lists",
    "keys are LVM names (letters, digits, + _ . -) and do not repeat in one section",
]

VALUES = [
    0, 1, -1, 7, 8192, 2**31, 2**32, 2**63 - 1, 2**64 - 1,
    "", "a", "#", "a # b", "#c", "{", "}", "x {", "} y", "[", "]", "[x]", "x]", "=", "a = b", 'say "hi"', '"', '""',
    "\\", "a\\", 'a\\"b', "it's", "\\n", "café", "5", "a,b", "/dev/disk/by-id/x#1", "# \"q\" #", " lead", "tail ",
    [], [1], [0, -1, 2**64 - 1], ["a"], ["a", "b"], ["pv0", 0], ["pv0", 0, "pv1", 5], ["#", "]", "["], ["x]"],
    ['q"', "\\"], ["RESIZEABLE", "READ", "WRITE"], ["}", "{"], ["a#b", 3], [""], ["=", "a = b"], list(range(40)),
    ["]", 1], [1, "]"],
]  # fmt: skip

COMMENTS = [None, " 4 Megabytes", " Linux host 5.4.0 #1 SMP = {x} [y]", ' say "hi"', "", ' odd " quote']
OWN = [None, " Generated by LVM2: Wed", " } ", ' a = "b', "", " x {", " [ ]"]


def layouts():
    for indent, eq, brace in itertools.product(("\t", "", "    "), (" = ", "="), (" {", "{")):
        for comment, own in itertools.product(COMMENTS, OWN):
            for blank, lists, trail in itertools.product((0, 2), ("single", "lvm", "item", "commented"), ("", " \t")):
                yield {
                    "indent": indent, "eq": eq, "brace": brace, "comment": comment, "own": own, "blank": blank,
                    "lists": lists, "trail": trail, "sep": ", " if eq == " = " else ",",
                }  # fmt: skip


SOME = [
    {},
    {"comment": COMMENTS[2], "own": OWN[1], "blank": 1, "lists": "lvm"},
    {"indent": "", "eq": "=", "brace": "{", "lists": "item", "sep": ",", "comment": COMMENTS[3]},
    {"comment": "", "own": "", "blank": 2, "lists": "commented"},
    {"indent": "    ", "trail": "  ", "own": OWN[3], "lists": "commented", "comment": COMMENTS[5]},
    {"own": OWN[5], "lists": "lvm", "comment": " 4 Megabytes"},
    {"comment": "tight", "gap": "", "lists": "commented"},
    {"comment": COMMENTS[2], "gap": " "},
]


def shapes(depth: int, budget: int, width: int = 3):
    """All ordered lists of children: 0 = value, tuple = section."""
    yield ()
    if budget <= 0:
        return
    for first, used in _child(depth, budget, width):
        for rest in _rest(depth, budget - used, width, width - 1):
            yield (first, *rest)


def _child(depth, budget, width):
    yield 0, 1
    if depth > 1:
        for sub in shapes(depth - 1, budget - 1, width):
            used = 1 + count(sub)
            yield sub, used


def _rest(depth, budget, width, left):
    yield ()
    if left and budget > 0:
        for first, used in _child(depth, budget, width):
            for rest in _rest(depth, budget - used, width, left - 1):
                yield (first, *rest)


def count(shape) -> int:
    return sum(1 + (count(c) if c != 0 else 0) for c in shape)


NAMES = ["id", "a", "vg-1", "pv0", "lv.x", "b+c", "tags", "_n", "Z9", "creation_time", "k-"]


def build(shape, rot):
    state = [rot]

    def walk(items):
        out = {}
        for i, item in enumerate(items):
            name = NAMES[(state[0] + i * 3) % len(NAMES)]
            while name in out:
                name += "x"
            if item == 0:
                out[name] = VALUES[state[0] * 7 % len(VALUES)]
                state[0] += 1
            else:
                out[name] = walk(item)
        return out

    return walk(shape)


# -- typed objects -------------------------------------------------------------------------
SEG_COMMON = ({"reshape_count": 3, "data_copies": 2, "tags": ["t1", "t#2"]})
SEGMENTS = {
    # kind: (required, optional)
    "striped": ({"stripe_count": 1, "stripes": ["pv0", 0]}, {"stripe_size": 128}),
    "linear": ({"stripe_count": 1, "stripes": ["pv0", 7]}, {"stripe_size": 128}),
    "mirror": (
        {"mirror_count": 2},
        {"extents_moved": 4, "region_size": 1024, "mirror_log": "x_mlog", "mirrors": ["m0", 0, "m1", 3]},
    ),
    "snapshot": ({"chunk_size": 8}, {"merging_store": "ms", "cow_store": "cow", "origin": "root"}),
    "thin": (
        {"thin_pool": "pool0", "transaction_id": 5},
        {"origin": "root", "merge": "m", "device_id": 9, "external_origin": "eo"},
    ),
    "thin-pool": (
        {"metadata": "tmeta", "pool": "tdata", "transaction_id": 5, "chunk_size": 128},
        {"discards": "passdown", "zero_new_blocks": 1, "crop_metadata": 1},
    ),
    "cache": (
        {"cache_pool": "cp", "origin": "root"},
        {"cleaner": 1, "chunk_size": 128, "cache_mode": "writethrough", "policy": "smq",
         "policy_settings": {"migration_threshold": 2048}, "metadata_format": 2, "metadata_start": 1, "metadata_len": 2,
         "data_start": 3, "data_len": 4, "metadata_id": "mid", "data_id": "did"},
    ),
    "cache-pool": (
        {"data": "cdata", "metadata": "cmeta"},
        {"metadata_format": 2, "chunk_size": 128, "cache_mode": "writeback", "policy": "mq",
         "policy_settings": {"a": 1, "b": 2}},
    ),
    "writecache": (
        {"origin": "root", "writecache": "wc", "writecache_block_size": 4096},
        {"high_watermark": 1, "low_watermark": 2, "writeback_jobs": 3, "autocommit_blocks": 4, "autocommit_time": 5,
         "fua": 1, "nofua": 1, "cleaner": 1, "max_age": 6, "metadata_only": 1, "pause_writeback": 7,
         "writecache_setting_key": "k", "writecache_setting_val": "v"},
    ),
    "integrity": (
        {"origin": "root", "data_sectors": 99, "mode": "B", "tag_size": 4, "block_size": 512, "internal_hash": "crc32c"},
        {"meta_dev": "md", "recalculate": 1, "journal_sectors": 2, "interleave_sectors": 3, "buffer_sectors": 4,
         "journal_watermark": 5, "commit_time": 6, "bitmap_flush_interval": 7, "sectors_per_bit": 8},
    ),
    "error": ({}, {}),
    "free": ({}, {}),
    "zero": ({}, {}),
    "vdo": ({"vdo_pool": "vp", "vdo_offset": 0}, {}),
    "vdo-pool": (
        {"data": "vdata", "header_size": 1024, "virtual_extents": 100, "minimum_io_size": 4096,
         "block_map_cache_size_mb": 128, "block_map_era_length": 16380, "index_memory_size_mb": 256, "max_discard": 1,
         "slab_size_mb": 2048, "ack_threads": 1, "bio_threads": 4, "bio_rotation": 64, "cpu_threads": 2,
         "hash_zone_threads": 1, "logical_threads": 1, "physical_threads": 1},
        {"use_compression": 1, "use_deduplication": 1, "use_metadata_hints": 1, "use_sparse_index": 1,
         "write_policy": "auto"},
    ),
    "unheard-of": ({}, {}),
}  # fmt: skip
RAIDS = [
    "raid0", "raid0_meta", "raid1", "raid10", "raid10_near", "raid4", "raid5", "raid5_n", "raid5_la", "raid5_ls",
    "raid5_ra", "raid5_rs", "raid6", "raid6_nc", "raid6_nr", "raid6_zr", "raid6_la_6", "raid6_ls_6", "raid6_ra_6",
    "raid6_rs_6", "raid6_n_6",
]  # fmt: skip
RAID_OPT = {"region_size": 4096, "stripe_size": 128, "writebehind": 3, "min_recovery_rate": 4, "max_recovery_rate": 5,
            "data_copies": 2, "data_offset": 6}  # fmt: skip
for _r in RAIDS:
    if _r.startswith("raid0"):
        SEGMENTS[_r] = ({"stripe_count": 2}, {"stripe_size": 128, "raid0_lvs": ["ri_0", "ri_1"]})
    else:
        SEGMENTS[_r] = ({"device_count": 2}, {**RAID_OPT, "raids": ["rm_0", "ri_0", "rm_1", "ri_1"]})

PAIRED = {"stripes", "mirrors", "raids"}

VG_OPT = {
    "system_id": "host", "allocation_policy": "normal", "profile": "p", "metadata_copies": 2, "tags": ["a", "b]"],
    "format": "lvm2", "lock_type": "none", "lock_args": "x",
}  # fmt: skip
PV_OPT = {
    "dev_size": 2097152, "device": "/dev/sd#a", "device_id": "wwn", "device_id_type": "sys_wwid", "ba_start": 1,
    "ba_size": 2, "tags": ["x"],
}  # fmt: skip
LV_OPT = {
    "creation_time": 1600000000, "creation_host": "h", "lock_args": "l", "allocation_policy": "cling", "profile": "p",
    "read_ahead": 256, "tags": ["lv"],
}  # fmt: skip
HLV_OPT = {"name": "old", "creation_time": 1500000000, "removal_time": 1600000001, "origin": "o", "descendants": ["d"]}


def subsets(opt):
    keys = list(opt)
    yield ()
    yield tuple(keys)
    for k in keys:
        yield (k,)
        yield tuple(x for x in keys if x != k)


def cases(tier: str):
    n = 10
    for i, shape in enumerate(shapes(4, n)):
        yield ("shape", shape, i)
    for vi in range(len(VALUES)):
        yield ("value", vi)
    for part in range(64):
        yield ("layout", part)
    for kind in SEGMENTS:
        yield ("segment", kind)
    for what in ("vg", "pv", "lv", "hlv", "groups", "many", "pairs"):
        yield ("typed", what)


def _freeze(x):
    return tuple(_freeze(i) for i in x) if isinstance(x, (list, tuple)) else x


def same(ctx, got, want, path="root"):
    """Equality including types and order."""
    if isinstance(want, dict):
        ctx.true(isinstance(got, dict), f"{path}: not a section: {got!r}")
        ctx.eq(list(got), list(want), f"{path}: names")
        for k in want:
            same(ctx, got[k], want[k], f"{path}.{k}")
    elif isinstance(want, list):
        ctx.true(isinstance(got, list), f"{path}: not a list: {got!r}")
        ctx.eq(len(got), len(want), f"{path}: list length")
        for i, w in enumerate(want):
            same(ctx, got[i], w, f"{path}[{i}]")
    else:
        ctx.true(type(got) is type(want) and got == want, f"{path}: got {got!r}, expected {want!r}")


def parse(ctx, tree, style):
    from dissect.volume.lvm.physical import parse_metadata  # noqa: PLC0415

    text = enc_lvm.render(tree, enc_lvm.Style(**style))
    ctx.state(text)
    got = parse_metadata(text)
    got = dict(got)
    got.pop("_raw", None)
    try:
        same(ctx, got, tree)
    except Exception as e:
        raise type(e)(f"{e}\n--- text\n{text}") from None
    return got


def run(case, ctx):
    kind = case[0]
    if kind == "shape":
        shape, rot = _freeze(case[1]), case[2]
        tree = build(shape, rot)
        todo = SOME if ctx.thorough else [SOME[0], SOME[1 + rot % 7], SOME[1 + (rot // 7) % 7]]
        for style in todo:
            parse(ctx, tree, style)
        ctx.outcome(f"depth {depth(shape)}")
    elif kind == "value":
        v = VALUES[case[1]]
        for style in SOME:
            parse(ctx, {"k": v}, style)
            parse(ctx, {"s": {"k": v}}, style)
            for w in VALUES:
                parse(ctx, {"k": v, "l": w}, style)
                parse(ctx, {"k": v, "s": {"l": w}, "m": v}, style)
        ctx.outcome("value pairs")
    elif kind == "layout":
        tree = {"x": "a # b", "s": {"l": ["p]", 0, "q#", 5], "t": {"n": 1, "e": []}}, "i": 12}
        for i, style in enumerate(layouts()):
            if i % 64 == case[1]:
                parse(ctx, tree, style)
        ctx.outcome("layouts")
    elif kind == "segment":
        run_segment(ctx, case[1])
    else:
        run_typed(ctx, case[1])


def depth(shape):
    return 1 + max([depth(c) for c in shape if c != 0], default=0)


# -- typed ---------------------------------------------------------------------------------
def group(lvs=None, pvs=None, extra=None, hlv=None):
    out = {
        "id": "VGid", "seqno": 4, "status": ["RESIZEABLE", "READ"], "flags": ["F"], "extent_size": 8192, "max_lv": 3,
        "max_pv": 2,
    }  # fmt: skip
    out.update(extra or {})
    out["physical_volumes"] = pvs if pvs is not None else {"pv0": pv()}
    if lvs:
        out["logical_volumes"] = lvs
    if hlv:
        out["historical_logical_volumes"] = hlv
    return out


def pv(extra=None):
    return {"id": "PV-id", "status": ["ALLOCATABLE"], "pe_start": 2048, "pe_count": 255, "flags": [], **(extra or {})}


def lv(segs, extra=None):
    return {
        "id": "LV-id", "status": ["READ", "VISIBLE"], "flags": ["G"], "segment_count": len(segs), **(extra or {}), **segs,
    }  # fmt: skip


def load(ctx, vg, style=None):
    """Through the text, as the library does."""
    from dissect.volume.lvm.metadata import VolumeGroup  # noqa: PLC0415

    tree = {"contents": "Text Format Volume Group", "version": 1, "vg0": vg}
    got = parse(ctx, tree, style or SOME[1])
    return VolumeGroup.from_dict(got["vg0"], name="vg0")


def fields(ctx, obj, given, optional, what):
    for k, v in given.items():
        if k in PAIRED:
            v = [tuple(v[i : i + 2]) for i in range(0, len(v), 2)]
            ctx.eq([tuple(p) for p in getattr(obj, k)], v, f"{what}.{k}")
        elif k in ("creation_time", "removal_time"):
            ctx.eq(getattr(obj, k), datetime.fromtimestamp(v, tz=timezone.utc), f"{what}.{k}")
        else:
            ctx.eq(getattr(obj, k), v, f"{what}.{k}")
    for k in optional:
        if k not in given:
            ctx.true(not getattr(obj, k), f"{what}.{k} is {getattr(obj, k)!r} but the text has no such field")


def run_segment(ctx, kind):
    required, optional = SEGMENTS[kind]
    everything = {**optional, **SEG_COMMON} if kind != "unheard-of" else {**SEG_COMMON}
    classes = set()
    for keys in subsets(everything):
        opt = {k: everything[k] for k in keys}
        for suffix in ("", "+FLAG", "+A+B"):
            seg = {"start_extent": 3, "extent_count": 5, "type": kind + suffix, **required, **opt}
            other = {"start_extent": 0, "extent_count": 3, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 0]}
            # The segment alone, and behind another one
            for segs in ({"segment1": seg}, {"segment1": other, "segment2": seg}):
                vg = load(ctx, group({"root": lv(segs)}))
                volume = vg.logical_volumes["root"]
                ctx.eq(len(volume.segments), len(segs), "segments")
                got = volume.segments[-1]
                classes.add(type(got).__name__)
                ctx.eq(got.type, kind, "kind")
                ctx.eq(list(got.flags), suffix.split("+")[1:], "segment flags")
                ctx.eq((got.start_extent, got.extent_count), (3, 5), "extents")
                ctx.eq(got.name, list(segs)[-1], "segment name")
                ctx.true(got.lv is volume and got.logical_volume is volume, "segment's volume")
                fields(ctx, got, {**required, **opt}, everything, kind)
                ctx.eq(volume.type, "striped" if len(segs) == 2 else kind, "volume type")
    ctx.eq(len(classes), 1, f"kinds of object for {kind}: {classes}")
    ctx.outcome(f"segment {kind}")


def run_typed(ctx, what):
    seg = {"start_extent": 0, "extent_count": 3, "type": "striped", "stripe_count": 1, "stripes": ["pv0", 0]}
    if what == "vg":
        for keys in subsets(VG_OPT):
            opt = {k: VG_OPT[k] for k in keys}
            for lvs in (None, {"root": lv({"segment1": seg})}):
                raw = group(lvs, extra=opt)
                vg = load(ctx, raw)
                ctx.eq(vg.name, "vg0", "group name")
                want = {k: v for k, v in raw.items() if not k.endswith("volumes")}
                fields(ctx, vg, want, VG_OPT, "group")
                ctx.eq([v.name for v in vg.lv], list(lvs or {}), "logical volumes")
                ctx.eq([p.name for p in vg.pv], ["pv0"], "physical volumes")
    elif what == "pv":
        for keys in subsets(PV_OPT):
            opt = {k: PV_OPT[k] for k in keys}
            raw = pv(opt)
            raw.pop("flags")
            vg = load(ctx, group(pvs={"pv0": pv(), "pv1": {**pv(opt)}}))
            ctx.eq([p.name for p in vg.pv], ["pv0", "pv1"], "physical volumes")
            got = vg.physical_volumes["pv1"]
            ctx.true(got.vg is vg and got.volume_group is vg, "group of a physical volume")
            fields(ctx, got, raw, PV_OPT, "pv")
    elif what == "lv":
        for keys in subsets(LV_OPT):
            opt = {k: LV_OPT[k] for k in keys}
            for status in [*map(list, itertools.permutations(("READ", "WRITE", "VISIBLE"))), ["READ"], ["VISIBLE"], []]:
                raw = lv({"segment1": seg}, opt)
                raw["status"] = status
                vg = load(ctx, group({"a": lv({"segment1": seg}), "b": raw}))
                ctx.eq([v.name for v in vg.lv], ["a", "b"], "logical volumes")
                got = vg.logical_volumes["b"]
                ctx.true(got.vg is vg and got.volume_group is vg, "group of a logical volume")
                ctx.eq(got.is_visible, "VISIBLE" in status, "visible")
                fields(ctx, got, {k: v for k, v in raw.items() if k != "segment1"}, LV_OPT, "lv")
    elif what == "hlv":
        for keys in subsets(HLV_OPT):
            opt = {k: HLV_OPT[k] for k in keys}
            vg = load(ctx, group(hlv={"h1": {"id": "H1", **opt}, "h2": {"id": "H2"}}))
            got = vg.historical_logical_volumes["h1"]
            ctx.true(got.vg is vg and got.volume_group is vg, "group of a historical volume")
            ctx.eq(got.name, opt.get("name", "h1"), "historical name")
            fields(ctx, got, {"id": "H1", **{k: v for k, v in opt.items() if k != "name"}},
                   [k for k in HLV_OPT if k != "name"], "hlv")  # fmt: skip
            ctx.eq(vg.historical_logical_volumes["h2"].name, "h2", "second historical name")
    elif what == "groups":
        # Orders of the sections and of the keys in a group
        base = group({"root": lv({"segment1": seg})}, extra={"format": "lvm2"})
        keys = list(base)
        for i in range(len(keys)):
            order = keys[i:] + keys[:i]
            vg = load(ctx, {k: base[k] for k in order})
            fields(ctx, vg, {k: v for k, v in base.items() if not k.endswith("volumes")}, (), "group")
            ctx.eq([v.name for v in vg.lv], ["root"], "logical volumes")
    elif what == "pairs":
        for n in range(1, 34):
            pairs = [x for i in range(n) for x in (f"a{i}", n + i)]
            names = [x for i in range(n) for x in (f"rmeta_{i}", f"rimage_{i}")]
            single = [f"rimage_{i}" for i in range(n)]
            segs = {
                "segment1": {**seg, "stripe_count": n, "stripes": pairs},
                "segment2": {**seg, "type": "mirror", "mirror_count": n, "mirrors": pairs},
                "segment3": {**seg, "type": "raid6", "device_count": n, "raids": names},
                "segment4": {**seg, "type": "raid0", "stripe_count": n, "raid0_lvs": single},
            }
            for style in SOME:
                got = load(ctx, group({"root": lv(segs)}), style).logical_volumes["root"].segments
                fields(ctx, got[0], {"stripe_count": n, "stripes": pairs}, (), "striped")
                fields(ctx, got[1], {"mirror_count": n, "mirrors": pairs}, (), "mirror")
                fields(ctx, got[2], {"device_count": n, "raids": names}, (), "raid")
                fields(ctx, got[3], {"stripe_count": n, "raid0_lvs": single}, (), "raid0")
    else:
        segs = {
            f"segment{i + 1}": {**seg, "start_extent": i, "extent_count": 1, "stripes": [f"pv{i % 12}", i]}
            for i in range(30)
        }
        lvs = {f"lv{i}": lv(dict(list(segs.items())[: i + 1])) for i in range(30)}
        pvs = {f"pv{i}": pv({"dev_size": i}) for i in range(12)}
        vg = load(ctx, group(lvs, pvs))
        ctx.eq([v.name for v in vg.lv], list(lvs), "logical volumes")
        for i, volume in enumerate(vg.lv):
            ctx.eq(
                [(s.name, s.start_extent, [tuple(p) for p in s.stripes]) for s in volume.segments],
                [(f"segment{k + 1}", k, [(f"pv{k % 12}", k)]) for k in range(i + 1)],
                f"segments of lv{i}",
            )
        ctx.eq([p.dev_size for p in vg.pv], list(range(12)), "device sizes")
    ctx.outcome(f"typed {what}")
