"""Helper to write seeded/<id>/: turn textual edits into a patch against /repo HEAD and a demo script."""

import json
import os
import subprocess
from pathlib import Path

REPO = Path(os.environ.get("SEED_REPO", "/repo"))
BASE = "c1e4568"  # the commit the work started from
SEEDED = Path("/verif/seeded")

DEMO = """#!/bin/bash
# exit 0: behaves correctly; non-zero: the planted bug shows
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$HERE"
exec timeout 120 /opt/venv/bin/python -B "$HERE/demo.py"
"""


def added_lines(diff):
    """Lines touched by the patch that this repository's own fixes added (a planted bug may only change original ones)."""
    out, name, old = [], None, 0
    for line in diff.decode().splitlines():
        if line.startswith("--- a/"):
            name = line[6:]
            blame = subprocess.check_output(["git", "-C", REPO, "blame", "-s", f"{BASE}..HEAD", "--", name]).decode().splitlines()
        elif line.startswith("@@"):
            old = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-") and not line.startswith("---"):
            if not blame[old - 1].startswith("^"):
                out.append(f"{name}:{old}")
            old += 1
        elif line.startswith(" "):
            old += 1
    return out


def seed(ident, prop, needs, breaks, edits, demo, extra=()):
    """``edits``: [(file, old, new)]; ``demo``: python source exiting non-zero when broken."""
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain"])
    out = SEEDED / ident
    out.mkdir(parents=True, exist_ok=True)
    try:
        for name, old, new in edits:
            path = REPO / name
            text = path.read_text()
            assert text.count(old) == 1, (ident, name, text.count(old), old)
            path.write_text(text.replace(old, new))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"])
        (out / "patch.diff").write_bytes(diff)
        if bad := added_lines(diff):
            print(f"{ident}: NOT ORIGINAL {bad}")
        (out / "demo.py").write_text(demo)
        for src in extra:
            (out / Path(src).name).write_bytes(Path(src).read_bytes())
        (out / "demo.sh").write_text(DEMO)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(
            json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n"
        )
        patched = subprocess.run([str(out / "demo.sh")], cwd=REPO, capture_output=True).returncode
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    clean = subprocess.run([str(out / "demo.sh")], cwd=REPO, capture_output=True)
    flag = "ok" if clean.returncode == 0 and patched != 0 else "BAD DEMO"
    print(f"{ident} {prop}: demo unpatched={clean.returncode} patched={patched} {flag}")
    if clean.returncode:
        print(clean.stderr.decode()[-2000:])
