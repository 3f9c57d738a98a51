"""C26: partitions are described by the documented name of their type."""

from __future__ import annotations

from itertools import product
from uuid import UUID

from dissect.volume.disk import Disk
from dissect.volume.disk.partition import translate_partition_type
from dissect.volume.disk.schemes import APM, BSD, GPT, MBR

from vlib import enc_disk as e
from vlib import partition_types as names
from vlib.src import mem

from checks.c12_gpt import uuid_text
from checks.c14_bsd import TYPE_NAMES as BSD_NAMES
from checks.c15_disk import guid_le

PROPERTY = "C26"
BOUNDS = (
    "all 256 MBR types as primary, logical and hybrid entries and on their own; all known GPT types, each with every "
    "single bit changed, each byte-order confusion, all-zero and all-one identifiers; all 256 BSD types in 32-bit and "
    "64-bit labels, on their own, inside MBR and inside GPT partitions; Apple types of every length 0-32; every ordered "
    "pair of schemes for the same number"
)
ASSUMPTIONS = ["the names are those of the lists in the library at the pinned revision, transcribed"]

GPT_KNOWN = list(names.GPT)


def cases(tier):
    for kind in range(256):
        yield ("mbr", kind)
        yield ("bsd", kind)
        yield ("int", kind)
    for kind in (0x100, 0x107, 0xFFFF, 1 << 40, -1):
        yield ("int", kind)
    for i in range(len(GPT_KNOWN)):
        yield ("gpt", i, -1)
        for bit in range(128):
            yield ("gpt", i, bit)
        yield ("swap", i)
    for fill in (0, 0xFF, 1):
        yield ("fill", fill)
    for n in range(33):
        for wide in (0, 1):
            yield ("apm", n, wide)
    for text in ("", "Apple_HFS", "7", "0x7", "Unknown", "c12a7328-f81f-11d2-ba4b-00a0c93ec93b"):
        yield ("text", text)


def describe(p):
    return (str(p.type), p.type_str, p.type_name)


def mbr_want(kind):
    name = names.MBR.get(kind, "Unknown")
    return (str(kind), f"{kind:#x} ({name})", name)


def gpt_want(text):
    name = names.GPT.get(text, "Unknown")
    return (text, f"{text} ({name})", name)


def bsd_want(kind):
    name = BSD_NAMES.get(kind, "?")
    return (str(kind), name, name)


def gpt_image(kinds, hybrid=None):
    img = bytearray(512 * 200)
    entries = [e.mbr_entry(0xEE, 1, 100)]
    if hybrid is not None:
        entries.append(e.mbr_entry(hybrid, 150, 2))
    img[0:512] = e.mbr_sector(entries)
    img[512:1024] = e.gpt_header(array_lba=2, count=8)
    table = b"".join(e.gpt_entry(k, bytes([i + 1] * 16), 40 + 30 * i, 60 + 30 * i) for i, k in enumerate(kinds))
    img[1024 : 1024 + len(table)] = table
    return img


def run(case, ctx):
    globals()[f"run_{case[0]}"](ctx, *case[1:])


def run_mbr(ctx, kind):
    if kind and kind not in e.EXTENDED:
        entries = [e.mbr_entry(kind, 5, 6), e.mbr_entry(0x05, 20, 30)]
        data = e.mbr_sector(entries).ljust(20 * 512, b"\0") + e.mbr_sector([e.mbr_entry(kind, 2, 3)]).ljust(8192, b"\0")
        ctx.eq([describe(p) for p in MBR(mem(data)).partitions], [mbr_want(kind)] * 2, "descriptions")
        if kind != 0xEE:
            efi = "c12a7328-f81f-11d2-ba4b-00a0c93ec93b"
            found = GPT(mem(gpt_image([guid_le(efi)], kind))).partitions
            ctx.eq([describe(p) for p in found], [gpt_want(efi), mbr_want(kind)], "hybrid descriptions")
    ctx.outcome("known" if kind in names.MBR else "unknown")


def run_int(ctx, kind):
    name = names.MBR.get(kind, "Unknown")
    ctx.eq(translate_partition_type(kind), f"{hex(kind)} ({name})", "description")
    ctx.eq(translate_partition_type(kind, True), f"{hex(kind)} ({name})", "description")
    ctx.eq(translate_partition_type(kind, False), name, "name")
    ctx.eq(translate_partition_type(kind, prepend_type=False), name, "name")


def run_bsd(ctx, kind):
    label32 = e.bsd32_label([(4, 10, kind), (0, 0, 0), (60, 0, 0), (3, 20, 7)])
    label64 = e.bsd64_label([(512, 8192, kind, bytes(16)), (0, 0, 0, bytes(16)), (0, 0, 0, bytes(16)), (512, 12288, 7, bytes(16))])
    want = [bsd_want(kind)] * bool(kind) + [bsd_want(7)]
    for label in (label32, label64):
        part = bytes(512) + label.ljust(40 * 512, b"\0")
        ctx.eq([describe(p) for p in BSD(mem(part)).partitions], want, "descriptions")
        entries = [e.mbr_entry(0xA5, 8, 41), e.mbr_entry(0x07, 60, 5)]
        disk = e.mbr_sector(entries).ljust(8 * 512, b"\0") + part.ljust(60 * 512, b"\0")
        ctx.eq([describe(p) for p in Disk(mem(disk)).partitions], [*want, mbr_want(7)], "descriptions inside an MBR")
        bsd = "516e7cb4-6ecf-11d6-8ff8-00022d09712b"
        efi = "c12a7328-f81f-11d2-ba4b-00a0c93ec93b"
        img = gpt_image([guid_le(bsd), guid_le(efi)])
        img[40 * 512 : 40 * 512 + len(part)] = part
        ctx.eq([describe(p) for p in Disk(mem(img)).partitions], [*want, gpt_want(efi)], "descriptions inside a GPT")
    ctx.outcome("known" if kind in BSD_NAMES else "unknown")


def check_gpt(ctx, raw):
    text = uuid_text(raw)
    want = gpt_want(text)
    if any(raw):
        ctx.eq([describe(p) for p in GPT(mem(gpt_image([raw]))).partitions], [want], "descriptions")
    ctx.eq(translate_partition_type(UUID(text)), want[1], "description")
    ctx.eq(translate_partition_type(UUID(text), False), want[2], "name")
    ctx.outcome("known" if text in names.GPT else "unknown")


def run_gpt(ctx, i, bit):
    raw = bytearray(guid_le(GPT_KNOWN[i]))
    if bit >= 0:
        raw[bit // 8] ^= 1 << bit % 8
    check_gpt(ctx, bytes(raw))


def run_swap(ctx, i):
    """The identifier stored in the other byte order is another identifier."""
    check_gpt(ctx, bytes.fromhex(GPT_KNOWN[i].replace("-", "")))


def run_fill(ctx, fill):
    check_gpt(ctx, bytes([fill] * 16))


def run_apm(ctx, n, wide):
    text = ("é" * 16 if wide else "Apple_HFSX partition map driver 43")[: n // 2 if wide else n].rstrip("\0")
    img = e.apm_entry(1, 20, 5, b"name", text.encode()).ljust(8192, b"\0")
    for scheme in (APM, Disk):
        ctx.eq([describe(p) for p in scheme(mem(img)).partitions], [(text, text, text)], "descriptions")


def run_text(ctx, text):
    for prepend in product((True, False)):
        ctx.eq(translate_partition_type(text, *prepend), text, "description")
