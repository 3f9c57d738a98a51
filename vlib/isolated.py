"""Describes every image set, each in a process of its own that did nothing before.  Prints JSON."""

from __future__ import annotations

import json
import os
import sys

from vlib import core


def main() -> None:
    core.import_library()
    from vlib import src, zoo  # noqa: PLC0415

    names = sys.argv[1:] or [f"{n}:{v}" for n in zoo.MAKERS for v in (0, 1)]
    out = {}
    for name in names:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            status = 1
            try:
                base, variant = name.rsplit(":", 1)
                it = zoo.item(base, int(variant))
                root = it.root([src.mem(raw) for raw in it.sources])
                result = [zoo.describe(root), zoo.contents(it, root)]
                with os.fdopen(w, "wb") as fh:
                    fh.write(json.dumps(result).encode())
                status = 0
            except Exception as e:
                os.write(w, json.dumps(f"{type(e).__name__}: {e}").encode())
                status = 0
            finally:
                os._exit(status)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        out[name] = json.loads(data) if data else "no result"
    print("ISOLATED " + json.dumps(out))


if __name__ == "__main__":
    main()
