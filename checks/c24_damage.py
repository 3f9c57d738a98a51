"""C24: damaged or truncated metadata always ends in a result or an error."""

from __future__ import annotations

import contextlib
import io
import re
import resource
import signal
import struct
import uuid
from functools import lru_cache

from checks import c18_lvm_data as c18
from vlib import core, enc_disk, enc_dm, enc_lvm, enc_vinum, enc_vss, src, zoo

PROPERTY = "C24"
BOUNDS = (
    "one image set of each of 15 on-disk formats: every truncation of the first two members (LVM, thin pool and thorough: all) "
    "at a sector boundary (thorough: every byte of the metadata too); every byte of the first member's metadata x 5 values, every "
    "aligned 2-, 4- and 8-byte word of the first two members' metadata (LVM: the first; thorough: all) x extremes, its own "
    "sector, block and byte number and every other link target, in both byte orders; every line of the text configurations "
    "deleted, doubled or last; every number and name in them replaced; every graph of links over the chained structures with "
    "up to 3 nodes; then everything that is still reported is opened and read at 5 places"
)
ASSUMPTIONS = [
    "5 s of CPU time and 768 MB more memory than before stand for never ending and unbounded (images are under 1 MB)",
    "reading is judged at windows of at most 64 KB: a damaged size field may make a volume claim any size",
]
CASE_CPU_SECONDS = 300
STEP_SECONDS = 5
MEMORY = 768 << 20
FORMATS = ["mbr", "gpt", "apm", "bsd", "bsd64", "md-0.90", "md-1.0", "md-1.1", "md-1.2", "ddf", "ddf-concat", "vinum", "lvm", "thin", "vss"]
BLOCK = 64  # metadata bytes per case


# ---------------------------------------------------------------------------------------------------- images


class Recorder(io.BytesIO):
    def __init__(self, raw):
        super().__init__(raw)
        self.log = []

    def read(self, n=-1):
        at = self.tell()
        out = super().read(n)
        if out:
            self.log.append((at, at + len(out)))
        return out


@lru_cache(maxsize=None)
def image(name: str):
    it = zoo.item(name)
    if name == "vinum":
        # A shorter configuration area: the library looks at every byte of it
        sources = []
        for raw in it.sources:
            bad = bytearray(raw)
            struct.pack_into(">Q", bad, 4096 + 8, 2048)
            sources.append(bytes(bad))
        it = it._replace(sources=sources)
    return it


TEXT = {"vinum": (4608, 4608 + 4096), "lvm": (4608, 4608 + 4096)}


@lru_cache(maxsize=None)
def metadata(name: str) -> list[list[tuple[int, int]]]:
    """The ranges of each source that are read to open the set, and the on-disk structures read later."""
    it = image(name)
    fhs = [Recorder(raw) for raw in it.sources]
    root = it.root(fhs)
    zoo.describe(root)
    for opener in it.volumes(root).values():
        opener()
    out = []
    for i, (fh, raw) in enumerate(zip(fhs, it.sources)):
        log = list(fh.log)
        if name == "thin" and i == 0:
            log.append((0, len(raw)))
        if name == "vss":
            log = [(a, b) for a, b in log if b - a < 16384]
            log += [(at, at + 128 + 3 * 128) for at in range(0, len(raw), 16384) if raw[at : at + 16] == enc_vss.ID]
        if name == "lvm" and i == 0:
            log.append((160 * 512 + 15 * 4096, 160 * 512 + 18 * 4096))
        ranges = []
        for a, b in sorted(log):
            if ranges and a <= ranges[-1][1]:
                ranges[-1][1] = max(ranges[-1][1], b)
            else:
                ranges.append([a, b])
        # Of large areas, only what is filled in and a little after that
        slices = []
        for a, b in ranges:
            for at in range(a, b, 16):
                if any(raw[max(a, at - 32) : at + 16]):
                    if slices and slices[-1][1] == at:
                        slices[-1][1] = min(b, at + 16)
                    else:
                        slices.append([at, min(b, at + 16)])
        out.append([tuple(x) for x in slices])
    return out


def chunks(name, source):
    for a, b in metadata(name)[source]:
        for at in range(a, b, BLOCK):
            yield at, min(b, at + BLOCK)


def cases(tier: str):
    for name in FORMATS:
        it = image(name)
        for i, raw in enumerate(it.sources):
            if i >= 2 and tier == "quick" and name not in ("lvm", "thin"):
                continue
            for first in range(0, len(raw), 64 * 512):
                yield ("cut", name, i, first, min(len(raw), first + 64 * 512))
            for a, b in chunks(name, i):
                if name == "lvm" and a >= 160 * 512 and tier == "quick":
                    continue  # a thin pool; as in the format of that name
                if tier == "thorough":
                    yield ("cutbyte", name, i, a, b)
                if i == 0 or tier == "thorough":
                    yield ("sub", name, i, a, b)
                elif i == 1 and name != "lvm":
                    yield ("subword", name, i, a, b)
    lines = len(vinum_text().split(b"\n"))
    for i in range(lines):
        yield ("vinumtext", i)
    for i in range(len(lvm_text().split(b"\n"))):
        yield ("lvmtext", i)
    yield from links(tier)


# ---------------------------------------------------------------------------------------------------- one damage


def walk(root):
    """Everything a set reports that can be opened."""
    if hasattr(root, "partitions"):
        for p in root.partitions:
            yield p.open
    elif hasattr(root, "configurations"):
        for conf in root.configurations:
            for vd in conf.virtual_disks:
                yield vd.open
    elif hasattr(root, "vg"):
        for lv in root.vg.logical_volumes.values():
            yield lv.open
        for pv in root.vg.physical_volumes.values():
            yield lambda pv=pv: pv.dev.open()
    elif hasattr(root, "catalog"):
        for s in root.catalog.stores:
            yield s.open
    else:
        for dev, size in ((3, 28672), (4, 28672), (4, None), (9, 512)):
            yield lambda dev=dev, size=size: root.open(dev, size)


def look(ctx, fh):
    """Read a stream at several places; returns nothing, errors are fine."""
    size = getattr(fh, "size", None)
    places = {0, 4096}
    if isinstance(size, int) and size > 0:
        places |= {size // 2, max(0, size - 700), size, size + 5000}
    for at in sorted(places):
        try:
            fh.seek(at)
            fh.read(6000 if at else 65536)
        except Exception as e:
            check_error(ctx, e)
            ctx.outcomes[f"read {type(e).__name__}"] += 1
        else:
            ctx.outcomes["read"] += 1


def check_error(ctx, e):
    while e is not None:
        if isinstance(e, MemoryError):
            raise core.Violation("out of memory")
        e = e.__cause__ or e.__context__


@contextlib.contextmanager
def limits(what, ctx):
    """Time limit for one damaged image."""
    signal.setitimer(signal.ITIMER_VIRTUAL, STEP_SECONDS)
    try:
        yield
    except core.Hang:
        import traceback  # noqa: PLC0415

        raise core.Violation(f"{what}: no result after {STEP_SECONDS} s\n" + traceback.format_exc(limit=-6)) from None
    except MemoryError:
        import traceback  # noqa: PLC0415

        raise core.Violation(f"{what}: out of memory\n" + traceback.format_exc(limit=-6)) from None
    except core.Violation as e:
        raise core.Violation(f"{what}: {e}") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)


def attempt(ctx, it, sources, what, compare=None):
    """Open a damaged set and read what it reports."""
    with limits(what, ctx):
        ctx.transitions += 1
        try:
            root = it.root([src.mem(raw) for raw in sources])
        except Exception as e:
            check_error(ctx, e)
            ctx.outcomes[f"open {type(e).__name__}"] += 1
            return
        ctx.outcomes["opened"] += 1
        try:
            zoo.describe(root)
        except Exception as e:
            check_error(ctx, e)
        try:
            openers = list(walk(root))
        except Exception as e:
            check_error(ctx, e)
            openers = []
        for opener in openers:
            try:
                fh = opener()
            except Exception as e:
                check_error(ctx, e)
                ctx.outcomes[f"volume {type(e).__name__}"] += 1
                continue
            look(ctx, fh)
        if compare:
            compare(ctx, root)


def run(case, ctx):
    with open("/proc/self/statm") as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (min(hard, used + MEMORY) if hard > 0 else used + MEMORY, hard))
    try:
        globals()["run_" + case[0]](ctx, *case[1:])
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


# ---------------------------------------------------------------------------------------------------- truncation


@lru_cache(maxsize=None)
def undamaged(name: str):
    """{partition number: (offset, size)} of the intact image."""
    it = image(name)
    root = it.root([src.mem(raw) for raw in it.sources])
    if hasattr(root, "partitions"):
        numbers = [p.number for p in root.partitions]
        return {p.number: (p.offset, p.size) for p in root.partitions if numbers.count(p.number) == 1}
    return {}


def same_partitions(name, raw, numbers):
    """Partitions that have nothing to do with the damage are where and what they were."""
    places = undamaged(name)

    def compare(ctx, disk):
        for p in disk.partitions:
            if p.number not in numbers or p.number not in places:
                continue
            off, size = places[p.number]
            ctx.eq((p.offset, p.size), (off, size), f"place of partition {p.number}")
            got = p.open().read(size)
            want = raw[off : off + size]
            ctx.true(got == want[: len(got)] and len(got) >= min(len(want), size // 512 * 512 - 512), f"bytes of partition {p.number}")

    return compare


def same_volumes(labels, cut=None):
    """Volumes that have nothing to do with the damage still read as before, if they can be read at all."""

    def compare(ctx, root, it):
        try:
            found = it.volumes(root)
        except Exception:
            return
        for label in labels:
            if label not in found:
                continue
            try:
                got = found[label]().read()
            except Exception:
                continue
            want = it.wants[label]
            n = min(len(want), len(got))
            ctx.true(n and got[:n] == want[:n], f"bytes of {label}, which the damage does not touch")
            ctx.outcome("untouched volume read")

    return compare


def run_cut(ctx, name, i, first, last):
    it = image(name)
    raw = it.sources[i]
    for at in range(first, last, 512):
        cut(ctx, it, name, i, raw, at)


def run_cutbyte(ctx, name, i, a, b):
    it = image(name)
    for at in range(a, b):
        cut(ctx, it, name, i, it.sources[i], at)


def cut(ctx, it, name, i, raw, at):
    ctx.state(at)
    sources = list(it.sources)
    sources[i] = raw[:at]
    compare = None
    if name in ("mbr", "gpt", "apm", "bsd", "bsd64"):
        compare = same_partitions(name, raw[:at], undamaged(name))
    attempt(ctx, it, sources, f"member {i} cut to {at} bytes", compare)


# ---------------------------------------------------------------------------------------------------- substitution


def touched(name, source, at):
    """Labels of the volumes that bytes at ``at`` may matter to, or None for all of them."""
    if name == "gpt" and 1024 <= at < 1536:
        return {(at - 1024) // 128 + 1}
    if name == "mbr" and 446 <= at < 510:
        return {(at - 446) // 16 + 1, *range(2, 10)}
    if name == "apm" and 1024 <= at < 1536:
        return {2}
    if name == "bsd" and 512 + 148 <= at < 512 + 148 + 64 and not 512 + 148 + 32 <= at < 512 + 148 + 48:
        return {(at - 660) // 16 + 1}
    return None


def values(raw, at, size):
    """Replacement values of a word."""
    top = 1 << (8 * size)
    numbers = [0, 1, 2, top // 2 - 1, top // 2, top - 1, at, at // 512, at // 4096, at // 16384 * 16384]
    if size == 8:
        numbers += [0xFFFFFFFF, 1 << 32, 1 << 54, 1 << 40]
    seen = {raw[at : at + size]}
    for n in numbers:
        if n >= top:
            continue
        for order in ("little", "big"):
            word = n.to_bytes(size, order)
            if word not in seen:
                seen.add(word)
                yield word


def substitutes(raw, a, b, with_bytes, text):
    for at in range(a, b):
        if text:
            for v in b"\x00 9\xff{":
                if raw[at] != v:
                    yield at, bytes([v])
            continue
        if with_bytes:
            for v in (0, 1, 0x7F, 0x80, 0xFF):
                if raw[at] != v:
                    yield at, bytes([v])
        for size in (2, 4, 8):
            if at % min(size, 4) == 0 and at + size <= len(raw):
                for word in values(raw, at, size):
                    if size > 2 or word in (b"\xff\xff", b"\x00\x00", b"\x01\x00", b"\x00\x01"):
                        yield at, word


def substitute(ctx, name, i, a, b, with_bytes):
    it = image(name)
    raw = it.sources[i]
    numbers = undamaged(name)
    low, high = TEXT.get(name, (0, 0))
    for at, word in substitutes(raw, a, b, with_bytes, low <= a < high):
        sources = list(it.sources)
        bad = bytearray(raw)
        bad[at : at + len(word)] = word
        sources[i] = bytes(bad)
        compare = None
        if numbers:
            first, last = touched(name, i, at), touched(name, i, at + len(word) - 1)
            if first and last:
                compare = same_partitions(name, sources[i], set(numbers) - first - last)
        attempt(ctx, it, sources, f"member {i}: {word.hex()} at {at}", compare)
        ctx.state((at, word))


def run_sub(ctx, name, i, a, b):
    substitute(ctx, name, i, a, b, True)


def run_subword(ctx, name, i, a, b):
    substitute(ctx, name, i, a, b, False)


# ---------------------------------------------------------------------------------------------------- text


@lru_cache(maxsize=1)
def vinum_text() -> bytes:
    raw = image("vinum").sources[0]
    return raw[4608:].split(b"\x00")[0]


@lru_cache(maxsize=1)
def lvm_text() -> bytes:
    raw = image("lvm").sources[0]
    at = raw.index(b"vg0 {", 4608)
    return raw[at:].split(b"\x00")[0]


def edits(line: bytes, words: list[bytes], numbers: list[bytes], token: bytes):
    """All single edits of a line: (what, new lines)."""
    yield "deleted", []
    yield "doubled", [line, line]
    yield "empty", [b""]
    for m in re.finditer(token, line):
        olds = m.group()
        for new in numbers if re.fullmatch(rb"-?\d+[a-z]?", olds) else words:
            if new != olds:
                yield f"{olds!r} -> {new!r}", [line[: m.start()] + new + line[m.end() :]]
    for ch in (b"{", b"}", b"[", b"]", b'"', b"=", b","):
        for m in re.finditer(re.escape(ch), line):
            yield f"without {ch!r}", [line[: m.start()] + line[m.end() :]]
            yield f"double {ch!r}", [line[: m.start()] + ch + line[m.start() :]]


NUMBERS = [b"0", b"1", b"2", b"-1", b"4294967295", b"9223372036854775807", b"18446744073709551616", b"9" * 40]


def run_vinumtext(ctx, n):
    it = image("vinum")
    lines = vinum_text().split(b"\n")
    words = [b"", b"cat", b"cat.p0", b"str.p0", b"r5.p0.s0", b"a", b"nosuch", b"raid5", b"striped", b"concat", b"length", b"x" * 300]
    numbers = [*NUMBERS, b"0s", b"1k", b"99999999t", b"512s"]
    mine = lines[n].split()
    touching = owner(mine)
    for what, new in edits(lines[n], words, numbers, rb"[A-Za-z0-9_.-]+"):
        text(ctx, it, n, what, [*lines[:n], *new, *lines[n + 1 :]], touching)
        if what == "doubled":
            text(ctx, it, n, "last", lines[: n + 1], None)
            text(ctx, it, n, "cut in the middle", [*lines[:n], lines[n][: len(lines[n]) // 2]], None)


def owner(words) -> bytes | None:
    """The volume a vinum configuration line belongs to."""
    for w in words:
        m = re.match(rb"(cat|str|r5|mir)(\.|$)", w)
        if m:
            return m.group(1)
    return None


def text(ctx, it, n, what, lines, touching):
    raw = b"\n".join(lines)
    sources = []
    for s in it.sources:
        bad = bytearray(s)
        old = len(bytes(s[4608:]).split(b"\x00")[0])
        bad[4608 : 4608 + max(old, len(raw))] = raw.ljust(old, b"\x00")
        sources.append(bytes(bad))
    attempt(ctx, it, sources, f"line {n} {what}: {lines[n] if n < len(lines) else b''!r}")
    ctx.state((n, what))


def run_lvmtext(ctx, n):
    it = image("lvm")
    lines = lvm_text().split(b"\n")
    words = [b"", b"lin", b"mir", b"thin", b"pool", b"meta", b"tdata", b"pv0", b"pv9", b"segment1", b"striped", b"thin-pool", b"mirror", b"x" * 300]
    labels = untouched_lvm(lines, n)
    for what, new in edits(lines[n], words, NUMBERS, rb"[A-Za-z0-9_.-]+"):
        changed = [*lines[:n], *new, *lines[n + 1 :]]
        # A damaged brace moves the other sections
        keep = labels if b"{" not in lines[n] and b"}" not in lines[n] and "without" not in what and "double" not in what else ()
        lvm(ctx, it, n, what, changed, keep)
        if what == "doubled":
            lvm(ctx, it, n, "last", lines[: n + 1], ())
            lvm(ctx, it, n, "cut in the middle", [*lines[:n], lines[n][: len(lines[n]) // 2]], ())


def untouched_lvm(lines, n):
    """The plain volumes when line ``n`` is inside the section of another logical volume."""
    depth, names = 0, []
    for i, line in enumerate(lines):
        m = re.match(rb"\s*([\w.+-]+)\s*\{", line)
        if m:
            names.append(m.group(1))
        if i == n:
            break
        if re.match(rb"\s*\}", line):
            names.pop()
    if len(names) >= 3 and names[1] == b"logical_volumes":
        mine = names[2].decode()
        return [x for x in ("lin", "str", "leg1", "tdata", "meta") if x != mine]
    return ()


def lvm(ctx, it, n, what, lines, keep):
    raw = b"\n".join(lines)
    area = enc_lvm.mda(4096, 65536, raw, 512)
    sources = []
    for s in it.sources:
        bad = bytearray(s)
        bad[4096 : 4096 + len(area)] = area
        sources.append(bytes(bad))
    compare = None
    if keep:
        check = same_volumes(keep)
        compare = lambda ctx, root: check(ctx, root, it)  # noqa: E731
    attempt(ctx, it, sources, f"line {n} {what}: {lines[n] if n < len(lines) else b''!r}", compare)
    ctx.state((n, what))


# ---------------------------------------------------------------------------------------------------- link graphs


def links(tier):
    n = 3 if tier == "quick" else 4
    # Extended partition records: record i continues at link[i] (or ends); the table starts at record 0
    targets = [None, "mbr", *range(n)]
    for link in product(targets, n):
        yield ("ebr", link)
    # B-trees: node i is (flags, children); children among the nodes, the superblock and outside
    for flags in product((0, 1, 2, 3), 2):
        for kids in product((0, 1, 2, 3, 99), 4):
            yield ("btree", flags, kids)
    # Shadow copy chains: catalog, block list, bitmap and range list blocks
    for kind in ("catalog", "blocks", "bitmap", "ranges"):
        for link in product((0, 1, 2, 3, 9), n):
            yield ("vsschain", kind, link)
    for link in product(range(4), 3):
        for flags in product((0, 1, 2, 3), 3):
            yield ("vssforward", link, flags)
    for link in product(range(4), 3):
        for kind in product(("linear", "striped", "mirror"), 3):
            yield ("lvmref", link, kind)
    for meta in range(6):
        for data in range(6):
            for pool in range(6):
                yield ("lvmpool", meta, data, pool)


def product(values, n):
    if n == 0:
        yield ()
        return
    for head in values:
        for tail in product(values, n - 1):
            yield (head, *tail)


def run_ebr(ctx, link):
    s = 512
    img = bytearray(src.pattern(11, 0, 120 * s))
    e = enc_disk.mbr_entry
    base = 20
    img[0:512] = enc_disk.mbr_sector([e(0x83, 2, 9), e(0x05, base, 90)])
    for i, to in enumerate(link):
        entries = [e(0x83, 2, 3)]
        if to is not None:
            # relative to the first record; the table itself is reached by wrapping around
            rel = (-base) % (1 << 32) if to == "mbr" else 10 * to
            entries.append(e(0x05, rel, 10))
        at = base + 10 * i
        img[at * s : at * s + 512] = enc_disk.mbr_sector(entries)
    it = image("mbr")
    ctx.state(link)

    def compare(ctx, disk):
        got = [(p.offset, p.size) for p in disk.partitions if p.number == 1]
        ctx.eq(got, [(2 * s, 9 * s)], "first partition")
        ctx.eq(disk.partitions[0].open().read(), bytes(img[2 * s : 11 * s]), "bytes of the first partition")

    attempt(ctx, it, [bytes(img)], f"chain {link}", compare)


def run_btree(ctx, flags, kids):
    bs = 512
    blocks = {}
    for i, flag in enumerate(flags):
        pair = kids[2 * i : 2 * i + 2]
        blocks[i + 1] = enc_dm.node(flag, i + 1, [(0, struct.pack("<Q", pair[0])), (3, struct.pack("<Q", pair[1]))], 8, 3, bs)
    blocks[3] = enc_dm.node(enc_dm.LEAF, 3, [(0, enc_dm.details()), (3, enc_dm.details())], 24, 3, bs)
    img = bytearray(4 * bs)
    for nr, data in blocks.items():
        img[nr * bs : (nr + 1) * bs] = data
    head = enc_dm.superblock(1, 3, 4, 1)
    img[: len(head)] = head
    it = image("thin")
    ctx.state((flags, kids))
    attempt(ctx, it, [bytes(img), it.sources[1]], f"nodes {flags} {kids}")
    head = enc_dm.superblock(3, 1, 4, 1)
    img[: len(head)] = head
    attempt(ctx, it, [bytes(img), it.sources[1]], f"details in nodes {flags} {kids}")


def run_vsschain(ctx, kind, link):
    raw, places, starts = vss_image()
    bad = bytearray(raw)
    spare = vss_spare(raw)
    first = {"catalog": places["catalog"], "blocks": starts["blocks"], "bitmap": starts["bitmap"], "ranges": starts["ranges"]}[kind]
    nodes = [first, *spare][: len(link)]
    body = raw[first : first + 16384]
    for i, at in enumerate(nodes):
        bad[at : at + 16384] = body
        to = link[i]
        target = 0 if to == 0 else nodes[to - 1] if to <= len(nodes) else (1 << 40)
        # the link is the last field of the common part of the block headers
        struct.pack_into("<Q", bad, at + 40, target)
    it = image("vss")
    ctx.state((kind, link))
    attempt(ctx, it, [bytes(bad)], f"{kind} chain {link}")


@lru_cache(maxsize=1)
def vss_image():
    raw = image("vss").sources[0]
    (catalog,) = struct.unpack_from("<Q", raw, 0x1E00 + 48)
    entry = next(at for at in range(catalog + 128, catalog + 16384, 128) if raw[at] == 3)
    # the offsets in the entry of the first store: block list, then header, ranges, bitmap
    blocks, ident, header, ranges, bitmap = struct.unpack_from("<Q16sQQQ", raw, entry + 8)
    return raw, {"catalog": catalog}, {"blocks": blocks, "bitmap": bitmap, "ranges": ranges}


def vss_spare(raw):
    """Blocks behind the end that hold further links of a chain."""
    return [at for at in range(0, len(raw), 16384) if raw[at : at + 16] != enc_vss.ID][1:5]


def run_vssforward(ctx, link, flags):
    raw, places, starts = vss_image()
    bad = bytearray(raw)
    at = starts["blocks"] + 128
    for i, (to, flag) in enumerate(zip(link, flags)):
        bad[at + 32 * i : at + 32 * i + 32] = enc_vss.descriptor(i * 16384, to * 16384, to * 16384, flag, 0xFFFF0000 if flag & 2 else 0)
    it = image("vss")
    ctx.state((link, flags))
    attempt(ctx, it, [bytes(bad)], f"descriptors {link} {flags}")


def lvm_attempt(ctx, sections, what):
    group = c18.Group(8, 40, npv=3, pe_start=160, tag=50)
    group.add("lin", [("linear", 2, 0, 0)])
    tree = group.tree()
    vg = next(v for v in tree.values() if isinstance(v, dict))
    vg["logical_volumes"].update(sections)
    text = enc_lvm.text_bytes(tree)
    area = enc_lvm.mda(4096, 65536, text, 512)
    it = image("lvm")
    sources = []
    for s in it.sources:
        bad = bytearray(s)
        bad[4096 : 4096 + len(area)] = area
        sources.append(bytes(bad))
    want = it.wants["lin"][: 2 * group.es]

    def compare(ctx, root):
        got = root.vg.logical_volumes["lin"].open().read()
        ctx.eq(got, want, "the volume the damage does not touch")

    attempt(ctx, it, sources, what, compare)


def lv(i, segment):
    return {
        "id": enc_lvm.uuid_of(60 + i), "status": ["READ", "WRITE", "VISIBLE"], "flags": [], "segment_count": 1,
        "segment1": {"start_extent": 0, "extent_count": 2, **segment},
    }  # fmt: skip


def run_lvmref(ctx, link, kind):
    """Logical volumes whose segments are in logical volumes."""
    names = ["one", "two", "three", "lin"]
    sections = {}
    for i, (to, k) in enumerate(zip(link, kind)):
        if k == "mirror":
            seg = {"type": "mirror", "mirror_count": 2, "region_size": 1024, "mirrors": [names[to], 0, "lin", 0]}
        else:
            pairs = [names[to], 0] if k == "linear" else [names[to], 0, "lin", 0]
            seg = {"type": "striped", "stripe_count": len(pairs) // 2, "stripes": pairs}
            if k == "striped":
                seg["stripe_size"] = 8
        sections[names[i]] = lv(i, seg)
    ctx.state((link, kind))
    lvm_attempt(ctx, sections, f"references {link} {kind}")


def run_lvmpool(ctx, meta, data, pool):
    names = ["tm", "td", "tp", "tv", "lin", "nosuch"]
    sections = {
        "tm": lv(0, {"type": "striped", "stripe_count": 1, "stripes": ["pv0", 15]}),
        "td": lv(1, {"type": "striped", "stripe_count": 1, "stripes": ["pv1", 15]}),
        "tp": lv(2, {"type": "thin-pool", "metadata": names[meta], "pool": names[data], "transaction_id": 1, "chunk_size": 4}),
        "tv": lv(3, {"type": "thin", "thin_pool": names[pool], "transaction_id": 0, "device_id": 1}),
    }
    sections["tm"]["segment1"]["extent_count"] = 3
    ctx.state((meta, data, pool))
    lvm_attempt(ctx, sections, f"pool {names[meta]} {names[data]} {names[pool]}")
