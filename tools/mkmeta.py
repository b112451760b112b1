#!/usr/bin/env python3
"""Regenerates checks.json, MANIFEST.json and DESIGN.md from one description of the checks."""
import json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
PROPS = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
C = {}


def check(id, rule, technique, oracle, bounds, reach, **extra):
    C[id] = dict(rule=rule, technique=technique, oracle=oracle, bounds=bounds, reach=reach, extra=extra)


exec((V / "tools" / "checks_meta.py").read_text())

ASSUME = "github.com/indigo-web/utils and github.com/indigo-web/chunkedbody are not available offline; the checks build /repo against stand-ins with the same API (harness/standins), against which the repository's whole test suite passes"

checks = {"_assumptions": [ASSUME]}
manifest = dict(version=1, setup_cmd="bash bin/setup.sh", checks=[], not_applicable=[],
                notes="No hooks: every check drives the unmodified code of /repo through its API, an in-memory connection or loopback TCP. Known findings: known_findings.jsonl.")
design = (V / "tools" / "design_head.md").read_text()
for p in PROPS:
    id = p["id"]
    m = C[id]
    checks[id] = dict(rule=m["rule"], **m["extra"])
    built = (V / "harness" / "checks" / id.lower()).is_dir()
    if built:
        manifest["checks"].append(dict(
            property=id, quick_cmd="bin/check %s quick" % id, thorough_cmd="bin/check %s thorough" % id,
            evidence_file="evidence/%s.json" % id, technique=m["technique"], level="exploration",
            level_note="Generated-input search, no proof: %s. Bounds: %s. Trusts the stand-ins for the two unavailable modules and the oracle in harness/checks/%s." % (m["oracle"], m["bounds"], id.lower())))
    else:
        manifest["not_applicable"].append(dict(property=id, reason="the check is not built yet"))
    design += "\n### %s - %s\n\n" % (id, p["title"])
    design += "- *Generated*: %s\n- *Oracle*: %s\n- *Bounds and cost*: %s\n- *Why tests do not settle it*: %s\n" % (
        m["rule"], m["oracle"], m["bounds"], m["reach"])
    design += "- *Where*: harness/checks/%s\n" % id.lower()
design += (V / "tools" / "design_tail.md").read_text()
(V / "checks.json").write_text(json.dumps(checks, indent=1) + "\n")
(V / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
(V / "DESIGN.md").write_text(design)
