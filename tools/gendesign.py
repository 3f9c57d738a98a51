"""Fill the tables of DESIGN.md from evidence/, seeded/ and the results of tools/seedpar.py."""

import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def put(text, name, body):
    return re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n{body}<!-- /{name} -->", text, flags=re.S)


def evidence(pid):
    """Evidence of a complete, quiet run that is newer than the check, the library code and its last commit."""
    path = ROOT / "evidence" / f"{pid}.json"
    e = json.loads(path.read_text())
    assert e["violations"] == 0 and e["coverage"]["exhaustive"] and e["tier"] == "quick", f"{pid}: no complete quiet run"
    (check,) = ROOT.glob(f"checks/{pid.lower()}_*.py")
    sources = [check, *ROOT.glob("vlib/*.py"), *Path("/repo/dissect").rglob("*.py")]
    assert path.stat().st_mtime >= max(s.stat().st_mtime for s in sources), f"{pid}: evidence is older than the code"
    return e


def checks():
    out = "| id | property | cases | states | transitions | s |\n|---|---|---|---|---|---|\n"
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        e = evidence(p["id"])
        c = e["coverage"]
        out += f"| {p['id']} | {p['title']} | {c['cases_enumerated']} | {c['states']} | {c['transitions']} | {e['wall_s']:.0f} |\n"
    out += "\nBounds (quick):\n\n"
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        e = evidence(p["id"])
        out += f"* **{p['id']}** {e['coverage']['bounds']}\n"
    return out


def seeds():
    out = "| id | property | what it breaks | caught by |\n|---|---|---|---|\n"
    caught = {}
    log = ROOT / "tools" / "caught.json"
    if log.exists():
        caught = json.loads(log.read_text())
    for d in sorted((ROOT / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        out += f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {', '.join(caught.get(d.name, [])) or '-'} |\n"
    return out


path = ROOT / "DESIGN.md"
text = path.read_text()
text = put(text, "checks", checks())
text = put(text, "seeds", seeds())
path.write_text(text)
