"""C21: vinum configuration text is parsed with the documented strictness."""

from __future__ import annotations

import itertools
import re
from datetime import datetime, timezone

PROPERTY = "C21"
BOUNDS = (
    "lines: every token sequence of length 0-5 over 7 volume words, 0-5 over 14 plex words and 0-5 over 14 subdisk words "
    "(0-4 over 20 words each), each parsed between two good lines; sizes: every string of length 1-4 over 11 characters as "
    "stripe size, length, drive and plex offset, and every other byte around numerals and units; documents: every sequence of 1-3 lines over 22 lines and 4 separators; "
    "bytes: every string of length 0-6 over 10 bytes as a whole text and of length 0-5 behind the start of a line"
)
ASSUMPTIONS = [
    "a minus sign inside a number, and a stripe size kept from an earlier word when a line names its organisation twice, "
    "are not decided by the documentation and not compared",
]

T0 = datetime(2024, 9, 24, 12, 20, 54, 919756, tzinfo=timezone.utc)
START = 135680
ANY = object()

UNITS = {b"b": 512, b"s": 512, b"k": 1 << 10, b"m": 1 << 20, b"g": 1 << 30}


# -- reference: a table-driven reading of the documented grammar ------------------------------
def ref_size(word: bytes):
    m = re.match(rb"(-?)([0-9]*)(.?)", word, re.DOTALL)
    if not m.group(2):
        return 0
    n = int(m.group(2)) * (-1 if m.group(1) else 1)
    return n * UNITS.get(m.group(3).lower(), 1)


def ref_tokens(line: bytes):
    """The words of a line, or None when the line is malformed."""
    out = []
    for word in re.split(rb"[ \t]", line):
        if not word:
            continue
        if word[:1] == b"#":
            break
        if word[:1] in (b'"', b"'"):
            return None
        out.append(word)
    return out


STATES = {
    "volume": {b"up": "UP"},
    "plex": {b"up": "UP", b"initializing": "INITIALIZING", b"degraded": "DEGRADED", b"growable": "GROWABLE"},
    "sd": {b"up": "UP", b"initializing": "INITIALIZING", b"degraded": "DEGRADED", b"growable": "GROWABLE"},
}
ORGS = {b"concat": "CONCAT", b"striped": "STRIPED", b"raid5": "RAID5"}


def ref_line(kind, words):
    """Returns a dict of fields, or None when malformed."""
    out = {}
    words = list(words)
    while words:
        word = words.pop(0)

        def value():
            if not words:
                raise IndexError
            return words.pop(0)

        try:
            if word == b"state":
                out["state"] = STATES[kind].get(value(), "DOWN")
            elif kind == "volume":
                out["name"] = word
            elif word == b"name":
                out["name"] = value()
            elif kind == "plex" and word == b"org":
                org = ORGS.get(value(), "DISORG")
                twice = "stripesize" in out and out["stripesize"] is not None
                out["org"] = org
                if org in ("STRIPED", "RAID5"):
                    out["stripesize"] = ref_size(value())
                    if out["stripesize"] <= 0:
                        return None
                elif twice:
                    out["stripesize"] = ANY
            elif kind == "plex" and word in (b"vol", b"volume"):
                out["volume"] = value()
            elif kind == "sd" and word == b"drive":
                out["drive"] = value()
            elif kind == "sd" and word == b"plex":
                out["plex"] = value()
            elif kind == "sd" and word in (b"len", b"length"):
                out["length"] = max(-1, ref_size(value()))
            elif kind == "sd" and word == b"driveoffset":
                out["driveoffset"] = ref_size(value())
                if out["driveoffset"] and out["driveoffset"] < START:
                    return None
            elif kind == "sd" and word == b"plexoffset":
                out["plexoffset"] = ref_size(value())
                if out["plexoffset"] < 0:
                    return None
            else:
                return None
        except IndexError:
            return None
    if kind == "volume" and "name" not in out:
        return None
    if kind == "sd" and "drive" not in out:
        return None
    return out


def ref_parse(text: bytes):
    out = {"volumes": [], "plexes": [], "sds": []}
    for line in re.split(rb"[\n\x00]", text):
        words = ref_tokens(line)
        if words == []:
            continue
        if words is None or words[0] not in (b"volume", b"plex", b"sd"):
            break
        kind = words[0].decode()
        item = ref_line(kind, words[1:])
        if item is None:
            break
        out[{"volume": "volumes", "plex": "plexes", "sd": "sds"}[kind]].append(item)
    return out


FIELDS = {
    "volumes": ("name", "state"),
    "plexes": ("name", "org", "stripesize", "volume", "state"),
    "sds": ("name", "drive", "length", "driveoffset", "plex", "plexoffset", "state"),
}


def lib_parse(text):
    from dissect.volume.vinum.config import parse_vinum_config  # noqa: PLC0415

    return parse_vinum_config(T0, text)


def compare(ctx, text):
    """Compare the library and the reference on one text."""
    got = lib_parse(text)
    want = ref_parse(text)
    ctx.transitions += 1
    if set(got) != set(want):
        ctx.fail(f"{text!r}: sections {sorted(got)}")
    for section, items in want.items():
        mine = got[section]
        if len(mine) != len(items):
            ctx.fail(f"{text!r}: {section}: {mine!r}, expected {items!r}")
        for obj, item in zip(mine, items):
            if obj.timestamp != T0:
                ctx.fail(f"{text!r}: time {obj.timestamp}")
            for field in FIELDS[section]:
                value = getattr(obj, field)
                expected = item.get(field)
                if expected is ANY:
                    continue
                if field in ("state", "org") and value is not None:
                    value = value.name
                if value != expected or type(value) is not type(expected):
                    ctx.fail(f"{text!r}: {section} {field} is {value!r}, expected {expected!r}")
    return want


WORDS = {
    "volume": [b"v1", b"state", b"up", b"down", b"name", b"#x", b"'q"],
    "plex": [b"name", b"org", b"vol", b"volume", b"state", b"p1", b"concat", b"striped", b"raid5", b"64k", b"0", b"up",
             b"bogus", b"#"],
    "sd": [b"name", b"drive", b"len", b"driveoffset", b"plex", b"plexoffset", b"state", b"d1", b"265s", b"0", b"1000",
           b"-5", b"up", b"bogus"],
}  # fmt: skip
MORE = {
    "volume": [b"v1", b"state", b"up", b"down", b"volume", b"plex", b"sd", b"drive", b'"q"', b"a#b", b"a'b", b"UP", b"State"],
    "plex": [b"name", b"org", b"vol", b"state", b"degraded", b"growable", b"initializing", b"UP", b"Raid5", b"raid5",
             b"striped", b"disorg", b"-64k", b"1", b"512b", b"name=p", b'"', b"a#b", b"plex", b"len"],
    "sd": [b"name", b"drive", b"length", b"len", b"driveoffset", b"plexoffset", b"state", b"degraded", b"growable",
           b"initializing", b"down", b"135680", b"135679", b"132k", b"1g", b"vol", b"#", b"'", b"d#", b"0s"],
}  # fmt: skip
LINES = [
    b"volume a", b"volume b state up", b"volume", b"volume state up", b"plex name p org concat vol a state up",
    b"plex name p", b"plex", b"plex name", b"plex org striped", b"plex org striped 64k name q vol b",
    b"plex name r org raid5 0", b"sd name s drive d plex p len 10m driveoffset 265s plexoffset 0 state up", b"sd name s",
    b"sd drive d", b"sd drive d driveoffset 5", b"sd drive d len -3", b"# comment", b"   \t ", b"", b"drive x device y",
    b'volume "a"', b"volume c # state",
]  # fmt: skip
SEPS = [b"\n", b"\x00", b"\n\n", b"\x00 \t\n#c\n"]
BYTES = [b" ", b"\t", b"\n", b"\x00", b"#", b'"', b"a", b"\xff", b"\r", b"1"]
SIZE_CHARS = [b"-", b"0", b"1", b"9", b"b", b"S", b"k", b"M", b"g", b"x", b"."]


def cases(tier: str):
    deep = 5 if tier == "quick" else 6
    for kind in WORDS:
        yield ("line", kind, "words", deep, ())
        for a in range(len(WORDS[kind])):
            for b in range(len(WORDS[kind])):
                yield ("line", kind, "words", deep, (a, b))
        for a in range(len(MORE[kind])):
            yield ("line", kind, "more", 4, (a,))
    for a in range(len(SIZE_CHARS)):
        yield ("size", a)
    for byte in range(1, 256):
        if byte not in b" \t\n-0123456789":
            yield ("unit", byte)
    for i in range(len(LINES)):
        for sep in range(len(SEPS)):
            yield ("doc", i, sep)
    for a in range(len(BYTES)):
        for b in range(len(BYTES)):
            yield ("bytes", a, b)
    yield ("bytes", -1, -1)
    for prefix in range(8):
        yield ("tail", prefix)
    yield ("long",)


def run(case, ctx):
    kind = case[0]
    if kind == "line":
        _, what, which, depth, first = case
        words = (WORDS if which == "words" else MORE)[what]
        first = [words[i] for i in first]
        head = what.encode()
        rests = range(depth - len(first) + 1) if first or which == "more" else range(2)
        if not first:
            rests = range(2)
        for n in rests:
            for rest in itertools.product(words, repeat=n):
                line = b" ".join([head, *first, *rest])
                want = compare(ctx, b"volume first\n" + line + b"\nvolume last")
                ctx.states += 1
                ctx.outcomes["kept" if len(want["volumes"]) > 1 else "dropped"] += 1
    elif kind == "size":
        for n in range(4):
            for rest in itertools.product(SIZE_CHARS, repeat=n):
                word = b"".join([SIZE_CHARS[case[1]], *rest])
                if b"-" in word[1:] and re.match(rb"-?[0-9-]*-", word[1:]):
                    # a minus sign inside or behind the numerals
                    continue
                for line in (b"sd drive d len ", b"sd drive d driveoffset ", b"sd drive d plexoffset ",
                             b"plex org striped ", b"plex org raid5 "):  # fmt: skip
                    compare(ctx, line + word + b"\nvolume z")
                ctx.states += 1
        ctx.outcome("size")
    elif kind == "unit":
        # Every other character around the numerals and around a unit
        char = bytes([case[1]])
        for word in (char, char + b"12", char + b"12k", b"12" + char, b"-12" + char, b"12" + char + b"3", b"12" + char + b"k",
                     b"12k" + char, b"1" + char * 2, char + b"-12", b"-" + char + b"12"):  # fmt: skip
            for line in (b"sd drive d len ", b"sd drive d driveoffset ", b"sd drive d plexoffset ", b"plex org striped ",
                         b"plex org raid5 "):  # fmt: skip
                compare(ctx, line + word + b"\nvolume z")
            ctx.states += 1
        ctx.outcome("unit")
    elif kind == "doc":
        _, i, s = case
        for n in range(3):
            for rest in itertools.product(LINES, repeat=n):
                want = compare(ctx, SEPS[s].join([LINES[i], *rest]))
                ctx.states += 1
                ctx.outcomes[f"{sum(len(v) for v in want.values())} declarations"] += 1
                if n < 2:
                    for s2 in SEPS:
                        compare(ctx, s2 + SEPS[s].join([LINES[i], *rest]) + s2)
    elif kind == "bytes":
        _, a, b = case
        if a < 0:
            for n in range(2):
                for chars in itertools.product(BYTES, repeat=n):
                    compare(ctx, b"".join(chars))
        else:
            for n in range(5):
                for rest in itertools.product(BYTES, repeat=n):
                    compare(ctx, b"".join([BYTES[a], BYTES[b], *rest]))
                    ctx.states += 1
        ctx.outcome("bytes")
    elif kind == "tail":
        prefix = (b"volume", b"volume a", b"volume a ", b"plex", b"plex name p", b"sd drive d ", b"sd", b"volume a state ")
        for n in range(6):
            for rest in itertools.product(BYTES, repeat=n):
                compare(ctx, prefix[case[1]] + b"".join(rest) + b"\nvolume z")
                ctx.states += 1
        ctx.outcome("tail")
    else:
        # Long texts, as on disk: many declarations, padded with zeroes
        for count in (1, 50, 400):
            lines = []
            for i in range(count):
                lines.append(b"volume v%d state up" % i)
                lines.append(b"plex name v%d.p0 org striped %db vol v%d state up" % (i, i + 1, i))
                lines.append(b"sd name v%d.p0.s0 drive d%d len %ds driveoffset 265s plex v%d.p0 plexoffset %ds" % (i, i, i, i, i))
            text = b"\n".join(lines)
            for pad in (0, 1, 65536):
                want = compare(ctx, text + bytes(pad))
                ctx.eq(len(want["sds"]), count, "reference")
            for digits in (20, 4300, 5000):
                compare(ctx, b"volume a\nsd drive d len 1\n" + text)
                lib_parse(b"sd drive d len " + b"9" * digits)
        for byte in range(256):
            compare(ctx, b"volume " + bytes([byte]) + b"\nvolume z")
            compare(ctx, b"volume a" + bytes([byte]) + b"b\nvolume z")
            compare(ctx, bytes([byte]) + b"volume a\nvolume z")
            compare(ctx, b"volume a state " + bytes([byte]) + b"\nvolume z")
        ctx.outcome("long")
