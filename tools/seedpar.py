"""Apply planted bugs to copies of the repository and run tests, demonstration and check on each copy.

usage: python3 tools/seedpar.py [--workers N] [--also C24,C25] [ID...]
"""

import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def work(args):
    seed, also, jobs = args
    meta = json.load(open(f"{HERE}/seeded/{seed}/meta.json"))
    base = tempfile.mkdtemp(prefix="seedpar-")
    try:
        repo, verif = f"{base}/repo", f"{base}/verif"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        os.makedirs(f"{verif}/evidence")
        core = f"{verif}/vlib/core.py"
        text = open(core).read()
        assert 'REPO = Path("/repo")' in text
        open(core, "w").write(text.replace('REPO = Path("/repo")', f'REPO = Path("{repo}")'))
        env = dict(os.environ, PYTHONHASHSEED="0", VERIF_TIER="quick", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo)
        r = subprocess.run(["git", "apply", f"{HERE}/seeded/{seed}/patch.diff"], cwd=repo, capture_output=True)
        if r.returncode:
            return f"{seed} {meta['property']} DOES-NOT-APPLY {r.stderr.decode()[:200]}"
        junit = f"{base}/junit.xml"
        subprocess.run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={junit}", "tests"],
            cwd=repo, env=env, capture_output=True,
        )
        subprocess.run([PY, "/opt/vp/results.py", f"{base}/t.json", f"junit:{junit}"], capture_output=True)
        bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(f"{base}/t.json"))["passed"])
        demo = subprocess.run(["bash", f"{HERE}/seeded/{seed}/demo.sh"], cwd=repo, env=env, capture_output=True, timeout=300).returncode
        out = []
        for prop in [meta["property"], *also]:
            try:
                r = subprocess.run([PY, "-B", "-m", "vlib", prop, "--jobs", str(jobs), "--tier", "quick"], cwd=verif, env=env, capture_output=True, timeout=1500)
                hit = r.returncode == 1 and f"VIOLATION property={prop}".encode() in r.stdout
                out.append(f"{prop}:{'caught' if hit else 'MISSED' if r.returncode == 0 else f'rc={r.returncode}'}")
            except subprocess.TimeoutExpired:
                out.append(f"{prop}:TIMEOUT")
        return f"{seed} {' '.join(out)} {'tests-pass' if not bad else f'tests-FAIL({len(bad)})'} demo={demo}"
    finally:
        shutil.rmtree(base, ignore_errors=True)


def record(line):
    """Keep which checks caught what, for DESIGN.md."""
    path = f"{HERE}/tools/caught.json"
    seen = json.load(open(path)) if os.path.exists(path) else {}
    seed, *words = line.split()
    now = {w.split(":")[0]: w.endswith(":caught") for w in words if ":" in w and w[0] == "C"}
    seen[seed] = sorted({c for c in seen.get(seed, []) if now.get(c, True)} | {c for c, hit in now.items() if hit})
    with open(path, "w") as f:
        json.dump(dict(sorted(seen.items())), f, indent=1)
        f.write("\n")


def main():
    args = sys.argv[1:]
    workers, also = 4, []
    while args and args[0].startswith("--"):
        if args[0] == "--workers":
            workers = int(args[1])
        elif args[0] == "--also":
            also = args[1].split(",")
        args = args[2:]
    seeds = args or sorted(os.listdir(f"{HERE}/seeded"))
    with multiprocessing.Pool(workers) as pool:
        for line in pool.imap(work, [(s, also, max(1, 8 // workers)) for s in seeds]):
            print(line, flush=True)
            record(line)


if __name__ == "__main__":
    main()
