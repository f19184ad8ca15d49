"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DK = "diffmah/diffmah_kernels.py"
PK = "diffmah/diffmahpop_kernels/"
FH = "diffmah/fitting_helpers/"
DL = "diffmah/data_loaders/"
SC = "diffmah/fitting_helpers/fitting_scripts/"

TABLE = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, level="other"):
    assert len(title) <= 80, title
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, technique=technique, note=note, na=na, level=level))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "table.py")).read())


def main():
    TRUST = ("Trusts: the abstract interpreter's transfer functions for the Python/NumPy/JAX subset (sa/interp.py, sa/lib.py), exact real "
             "arithmetic instead of floating point, and the randomised value numbering (one-sided error below 2^-55 per comparison). "
             "Obligations outside the modelled language are reported as undecided in the evidence, never as held.")
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in TABLE:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {"version": 1,
           "setup_cmd": "python3-vt check.py --selftest",
           "checks": [], "not_applicable": [],
           "notes": "All checks are static: they parse /repo's current source with ast on every run and never import or execute it."}
    for p in TABLE:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({
                "property": p["id"],
                "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": p["level"],
                "level_note": (p["note"] + " " if p["note"] else "") + TRUST})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(man["checks"]), "checks", len(man["not_applicable"]), "n/a")


main()
