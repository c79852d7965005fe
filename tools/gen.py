"""Writes properties.jsonl and MANIFEST.json from the table in catalogue.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
sys.dont_write_bytecode = True
from catalogue import PROPERTIES, NOT_APPLICABLE  # noqa: E402

F = "pysrc/whenever/_pywhenever.py"
LEVEL_NOTE = (
    "Bounded: every value within the bounds of the check's evidence file, by solver verdict over "
    "symbolic execution of the current source; nothing outside them. Trusts the engine in sx/ "
    "(models of datetime, zoneinfo, re, struct; exact-real floats with stated rounding), z3, and "
    "CPython. Every explored path is replayed on the real code and compared; every "
    "counterexample is confirmed there before it is reported."
)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p.get("over", ["inputs"]), "text": p["all"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p.get("files", [F]),
                    "mechanism": [{"name": n, "where": p.get("files", [F])[0]} for n in p["mech"]],
                    "observe_at": p.get("observe", ["public API of the whenever package"]),
                    "hook_needed": None,
                },
            }
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    na = {i for i, _ in NOT_APPLICABLE}
    m = {
        "version": 1,
        "setup_cmd": "python3-vt tools/selftest.py",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3-vt run.py {p['id']} --tier quick",
                "thorough_cmd": f"python3-vt run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "bounded symbolic execution of the Python source, z3 deciding every "
                             "branch and assertion, counterexamples replayed",
                "level": "model_checking",
                "level_note": LEVEL_NOTE,
            }
            for p in PROPERTIES if p["id"] not in na
        ],
        "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
        "notes": "No hooks: the checks execute the unmodified source. known_findings.json lists "
                 "repaired defects (fixed) and defects left in place (findings).",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
