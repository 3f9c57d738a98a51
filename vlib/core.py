"""Explorer: enumerate every case of a check, run it on the real library, count, report.

A check is a module ``checks.cNN_*`` with

    PROPERTY     "C01"
    BOUNDS       text: the alphabet and bound that is enumerated
    ASSUMPTIONS  list of text
    cases(tier)  generator of JSON-able cases; a fixed, finite, complete enumeration
    run(case, ctx)

``run`` raises ``Violation`` (through ``ctx.fail``/``ctx.eq``) when the property does not
hold. Any other exception that escapes from ``run`` is a violation too: the library raised
where the model says it must succeed.
"""

from __future__ import annotations

import argparse
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import re
import resource
import signal
import sys
import time
import traceback
import zlib
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
KNOWN_FILE = VERIF / "known_findings.txt"
REPO = Path("/repo")

CASE_CPU_SECONDS = 40
WORKER_MEMORY = 3 << 30
MAX_VIOLATIONS_PER_WORKER = 3
DEADLINE_S = {"quick": 780, "thorough": 6 * 3600}


class Violation(Exception):
    pass


class Hang(BaseException):
    """Raised by the CPU-time watchdog inside a case."""


def import_library() -> None:
    """Import the library from /repo's working tree."""
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import dissect.volume  # noqa: F401, PLC0415


def library_path() -> str:
    import dissect.volume.disk as m  # noqa: PLC0415

    path = Path(m.__file__).resolve()
    if REPO.resolve() not in path.parents:
        raise SystemExit(f"library is imported from {path}, not from {REPO}")
    return str(path)


def load_known(prop: str) -> dict[str, str]:
    """Return {key: text} of the known findings of a property."""
    result = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                result[m.group(2)] = m.group(3)
    return result


def show(data: object, limit: int = 96) -> str:
    if isinstance(data, (bytes, bytearray, memoryview)):
        data = bytes(data)
        return f"<{len(data)} bytes {data[:limit]!r}{'...' if len(data) > limit else ''}>"
    text = repr(data)
    return text if len(text) < 600 else text[:600] + "..."


class Ctx:
    def __init__(self, prop: str, tier: str, known: dict[str, str]):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self._known = known
        self.known_hits: Counter = Counter()
        self.transitions = 0
        self.states = 0
        self.traces = 0
        self.outcomes: Counter = Counter()
        self._local: set = set()
        self.trail: list = []

    # -- bookkeeping -----------------------------------------------------------------
    def begin(self) -> None:
        self._local = set()
        self.trail = []

    def end(self) -> None:
        self.states += len(self._local) or 1
        self.traces += 1

    def state(self, key: object) -> None:
        self._local.add(hash(key))

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def outcome(self, name: str) -> None:
        self.outcomes[name] += 1

    # -- verdicts --------------------------------------------------------------------
    def fail(self, msg: str) -> None:
        raise Violation(msg)

    def eq(self, got: object, want: object, what: str) -> None:
        self.transitions += 1
        if got != want:
            if isinstance(got, (bytes, bytearray)) and isinstance(want, (bytes, bytearray)):
                n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                raise Violation(
                    f"{what}: {len(got)} bytes, expected {len(want)}; first difference at +{n}: "
                    f"got {bytes(got[n:n+32])!r}, expected {bytes(want[n:n+32])!r}"
                )
            raise Violation(f"{what}: got {show(got)}, expected {show(want)}")

    def true(self, cond: object, what: str) -> None:
        self.transitions += 1
        if not cond:
            raise Violation(what)

    def call(self, fn, *args, **kwargs):
        """Call the library; return (True, value) or (False, exception)."""
        self.transitions += 1
        try:
            value = fn(*args, **kwargs)
        except Exception as e:
            self.outcomes[f"raises {type(e).__name__}"] += 1
            return False, e
        self.outcomes["returns"] += 1
        return True, value

    def raises(self, fn, *args, what: str = "", exc: type | tuple = Exception):
        ok, value = self.call(fn, *args)
        if ok:
            raise Violation(f"{what}: expected an error, got {show(value)}")
        if not isinstance(value, exc):
            raise Violation(f"{what}: expected {exc}, got {value!r}")
        return value

    def known(self, key: str, msg: str) -> None:
        """A failure that is recorded as a known finding under ``key``; a violation if it is not."""
        if key not in self._known:
            raise Violation(f"[{key}] {msg}")
        self.known_hits[key] += 1


def _alarm(signum, frame):
    raise Hang


def run_case(mod, case, ctx: Ctx) -> str | None:
    """Run one case; return the violation text or None."""
    ctx.begin()
    limit = getattr(mod, "CASE_CPU_SECONDS", CASE_CPU_SECONDS)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        mod.run(case, ctx)
    except Violation as e:
        return str(e)
    except Hang:
        return f"no result after {limit} s of CPU time\n" + traceback.format_exc(limit=-6)
    except RecursionError:
        return "RecursionError\n" + traceback.format_exc(limit=-4)
    except MemoryError:
        return "MemoryError\n" + traceback.format_exc(limit=-6)
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    ctx.end()
    return None


def by_turns(lists):
    """One of each kind of case after the other, so that a run that is cut short has seen something of all of them."""
    for row in itertools.zip_longest(*lists, fillvalue=(END := object())):
        yield from (case for case in row if case is not END)


def _worker(args):
    modname, tier, shard, shards, known, deadline = args
    mod = importlib.import_module(modname)
    sys.stdout = open(os.devnull, "w")  # the library prints here and there
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    ctx = Ctx(mod.PROPERTY, tier, known)
    violations = []
    samples = []
    seen = set()
    cases = 0
    capped = False
    kinds: dict[object, list] = {}
    for case in mod.cases(tier):
        key = repr(case).encode()
        if shards > 1 and zlib.crc32(key) % shards != shard:
            continue
        digest = hashlib.blake2b(key, digest_size=8).digest()
        if digest in seen:
            continue
        seen.add(digest)
        kinds.setdefault(repr(case[0]) if isinstance(case, tuple) else None, []).append(case)
    for case in by_turns(list(kinds.values())):
        cases += 1
        if len(samples) < 2:
            samples.append(case)
        text = run_case(mod, case, ctx)
        if text is not None:
            violations.append((case, text, ctx.trail))
            if len(violations) >= MAX_VIOLATIONS_PER_WORKER:
                capped = True
                break
        if time.monotonic() > deadline:
            capped = True
            break
    return {
        "cases": cases,
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "outcomes": ctx.outcomes,
        "known": ctx.known_hits,
        "violations": violations,
        "samples": samples,
        "capped": capped,
    }


def find_check(prop: str):
    names = sorted(p.stem for p in (VERIF / "checks").glob(f"{prop.lower()}_*.py"))
    if not names:
        raise SystemExit(f"no check for {prop}")
    return importlib.import_module(f"checks.{names[0]}")


def replay(mod, path: str) -> int:
    data = json.loads(Path(path).read_text())
    signal.signal(signal.SIGVTALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEMORY, WORKER_MEMORY))
    ctx = Ctx(mod.PROPERTY, data.get("tier", "quick"), load_known(mod.PROPERTY))
    text = run_case(mod, tuplify(data["case"]), ctx)
    if text is None:
        print(f"{mod.PROPERTY}: case passes")
        return 0
    print(text)
    print(f"VIOLATION property={mod.PROPERTY} replay={path}")
    return 1


def tuplify(value):
    """JSON turns tuples into lists (cases only ever contain tuples) and has no bytes."""
    if isinstance(value, list):
        return tuple(tuplify(v) for v in value)
    if isinstance(value, dict):
        if value.keys() == {"bytes"}:
            return bytes.fromhex(value["bytes"])
        return {k: tuplify(v) for k, v in value.items()}
    return value


def untuplify(value):
    """What JSON has no notation for."""
    return {"bytes": bytes(value).hex()} if isinstance(value, (bytes, bytearray)) else repr(value)


def main(argv: list[str] | None = None) -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", choices=("quick", "thorough"), default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    parser.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args(argv)

    sys.stdout.reconfigure(errors="backslashreplace")
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    import_library()
    library_path()
    prop = args.property.upper()
    mod = find_check(prop)
    if args.replay:
        return replay(mod, args.replay)

    known = load_known(prop)
    deadline = start + DEADLINE_S[args.tier]
    work = [(mod.__name__, args.tier, i, args.jobs, known, deadline) for i in range(args.jobs)]
    if args.jobs == 1:
        stdout = sys.stdout
        results = [_worker(work[0])]
        sys.stdout = stdout
    else:
        with multiprocessing.get_context("fork").Pool(args.jobs) as pool:
            results = pool.map(_worker, work, chunksize=1)

    outcomes: Counter = Counter()
    known_hits: Counter = Counter()
    violations = []
    samples = []
    for r in results:
        outcomes.update(r["outcomes"])
        known_hits.update(r["known"])
        violations.extend(r["violations"])
        samples.extend(r["samples"])
    total = {k: sum(r[k] for r in results) for k in ("cases", "states", "transitions", "traces")}
    capped = any(r["capped"] for r in results)

    replay_dir = EVIDENCE / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for old in replay_dir.glob(f"{prop}-*.json"):
        old.unlink()
    lines = []
    violations.sort(key=lambda v: (len(repr(v[0])), repr(v[0])))
    for i, (case, text, trail) in enumerate(violations[:10]):
        path = replay_dir / f"{prop}-{i}.json"
        path.write_text(
            json.dumps(
                {"property": prop, "tier": args.tier, "case": case, "violation": text, "trail": trail},
                indent=1,
                default=untuplify,
            )
        )
        lines.append((path, text, case))

    coverage = {
        "states": total["states"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "cases_enumerated": total["cases"],
        "exhaustive": not capped,
        "bounds": getattr(mod, "BOUNDS", ""),
        "outcomes": dict(outcomes.most_common(40)),
        "known_findings_hit": dict(known_hits),
        "samples": samples[:4],
    }
    wall = round(time.monotonic() - start, 2)
    (EVIDENCE / f"{prop}.json").write_text(
        json.dumps(
            {
                "property": prop,
                "tier": args.tier,
                "seed": seed,
                "level": "model_checking",
                "coverage": coverage,
                "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
                "wall_s": wall,
                "violations": len(violations),
            },
            indent=1,
            default=untuplify,
        )
    )
    print(
        f"{prop} tier={args.tier} cases={total['cases']} states={total['states']} transitions={total['transitions']} "
        f"traces={total['traces']} exhaustive={not capped} wall={wall}s"
    )
    for key, n in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[key]} ({n} cases)")
    if lines:
        for path, text, case in lines[:5]:
            print(f"--- case {show(case)}\n{text}")
        for path, _, _ in lines:
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0

