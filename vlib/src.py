"""Source file objects and position-unique contents."""

from __future__ import annotations

import bisect
import io
import struct
from functools import lru_cache

REC = 16


@lru_cache(maxsize=512)
def _pattern_cached(tag: int, first: int, count: int) -> bytes:
    pack = struct.Struct(">HHIQ").pack
    return b"".join(
        pack(tag & 0xFFFF, (i * 40503 + tag * 977) & 0xFFFF, (i * 2654435761 + tag) & 0xFFFFFFFF, i)
        for i in range(first, first + count)
    )


def pattern(tag: int, start: int, length: int) -> bytes:
    """Return ``length`` bytes at ``start`` of an infinite byte string unique to ``tag``.

    Every 16-byte record names the tag and its own position.
    """
    if length <= 0:
        return b""
    first = start // REC
    last = (start + length - 1) // REC
    data = _pattern_cached(tag, first, last - first + 1)
    skip = start - first * REC
    return data[skip : skip + length]


class PatternFile:
    """A read-only source of arbitrary size: a pattern (or zeroes) with some regions overlaid."""

    def __init__(self, size: int, tag: int | None = None, regions: dict[int, bytes] | None = None):
        self.length = size
        self.tag = tag
        self.pos = 0
        self.starts: list[int] = []
        self.datas: list[bytes] = []
        for off in sorted(regions or {}):
            self.starts.append(off)
            self.datas.append(bytes(regions[off]))

    def put(self, off: int, data: bytes) -> PatternFile:
        i = bisect.bisect(self.starts, off)
        self.starts.insert(i, off)
        self.datas.insert(i, bytes(data))
        return self

    def seekable(self) -> bool:
        return True

    def readable(self) -> bool:
        return True

    def seek(self, pos: int, whence: int = io.SEEK_SET) -> int:
        if whence == io.SEEK_CUR:
            pos += self.pos
        elif whence == io.SEEK_END:
            pos += self.length
        if pos < 0:
            raise ValueError("negative seek")
        self.pos = pos
        return pos

    def tell(self) -> int:
        return self.pos

    def at(self, off: int, length: int) -> bytes:
        length = max(0, min(length, self.length - off))
        if length > 1 << 28:
            raise MemoryError(f"read of {length} bytes from a sparse source")
        buf = bytearray(pattern(self.tag, off, length) if self.tag is not None else length)
        for start, data in zip(self.starts, self.datas):
            if start >= off + length:
                break
            lo = max(start, off)
            hi = min(start + len(data), off + length)
            if lo < hi:
                buf[lo - off : hi - off] = data[lo - start : hi - start]
        return bytes(buf)

    def read(self, n: int = -1) -> bytes:
        if n is None or n < 0:
            n = max(0, self.length - self.pos)
        data = self.at(self.pos, n)
        self.pos += len(data)
        return data

    def readinto(self, b) -> int:
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)


class SizedPatternFile(PatternFile):
    """The same with a ``size`` attribute, as dissect streams have."""

    @property
    def size(self) -> int:
        return self.length


class GuardedFile:
    """Wraps a source; records every call that is not a plain read/seek/tell and refuses it."""

    def __init__(self, inner):
        object.__setattr__(self, "inner", inner)
        object.__setattr__(self, "abuse", [])

    def read(self, n: int = -1) -> bytes:
        return self.inner.read(n)

    def readinto(self, b) -> int:
        return self.inner.readinto(b)

    def seek(self, *args) -> int:
        return self.inner.seek(*args)

    def tell(self) -> int:
        return self.inner.tell()

    def seekable(self) -> bool:
        return True

    def readable(self) -> bool:
        return True

    def writable(self) -> bool:
        return False

    @property
    def closed(self) -> bool:
        return False

    def _refuse(self, name):
        self.abuse.append(name)
        raise io.UnsupportedOperation(name)

    def write(self, *args):
        self._refuse("write")

    def writelines(self, *args):
        self._refuse("writelines")

    def truncate(self, *args):
        self._refuse("truncate")

    def close(self):
        self.abuse.append("close")


def mem(data: bytes) -> io.BytesIO:
    return io.BytesIO(bytes(data))


class Image:
    """A bytearray that grows on demand and is written at absolute positions."""

    def __init__(self, size: int, tag: int | None = None):
        self.buf = bytearray(pattern(tag, 0, size)) if tag is not None else bytearray(size)

    def put(self, off: int, data: bytes) -> Image:
        end = off + len(data)
        if end > len(self.buf):
            self.buf.extend(bytes(end - len(self.buf)))
        self.buf[off:end] = data
        return self

    def fh(self) -> io.BytesIO:
        return io.BytesIO(bytes(self.buf))

    def bytes(self) -> bytes:
        return bytes(self.buf)


def check_windows(ctx, stream, want: bytes, points, what: str = "window", key: object = None) -> None:
    """Read every window between two points and compare it with the reference bytes."""
    points = sorted({p for p in points if 0 <= p <= len(want)})
    seek = stream.seek
    read = stream.read
    n = 0
    for i, a in enumerate(points):
        ctx.state((key, a))
        for b in points[i + 1 :]:
            seek(a)
            got = read(b - a)
            n += 1
            if got != want[a:b]:
                ctx.eq(got, want[a:b], f"{what} [{a}:{b}]")
    ctx.step(n)


def check_edges(ctx, stream, want: bytes, what: str = "edge", key: object = None) -> None:
    """Whole stream, end of stream and reads past the end."""
    size = len(want)
    stream.seek(0)
    ctx.eq(stream.read(size + 4096), want, f"{what} read past end from 0")
    ctx.eq(stream.read(1), b"", f"{what} read at end")
    stream.seek(0)
    ctx.eq(stream.read(), want, f"{what} read()")
    if size > 3:
        stream.seek(size - 3)
        ctx.eq(stream.read(100), want[-3:], f"{what} tail")
    stream.seek(size + 5)
    ctx.eq(stream.read(10), b"", f"{what} read beyond end")
    ctx.eq(stream.size, size, f"{what} size")
