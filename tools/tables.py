""" Rewrites the tables at the end of DESIGN.md from seeded/, known_findings.json and evidence/ """
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- tables: tools/tables.py -->\n"


def load(path):
    with open(path) as f:
        return json.load(f)


def clean(text):
    return " ".join(str(text).split()).replace("|", "/")


out = [MARK]
out.append("## Planted bugs and the checks which catch them\n\n"
           "Each was written from the statement of a property and the code, confirmed (builds, stable tests pass, its demonstration fails with it only), and run against the check of its "
           "property. All are caught now; *first missed* says what the check lacked, which was added then.\n\n"
           "| planted bug | caught by | what it breaks | what it needs | first missed |\n|---|---|---|---|---|\n")
missed = load(os.path.join(ROOT, "tools", "missed.json"))
for meta in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")), key=lambda p: (load(p)["property"], p)):
    m = load(meta)
    name = os.path.basename(os.path.dirname(meta))
    out.append("| {} | {} | {} | {} | {} |\n".format(name, m["property"], clean(m["what_it_breaks"]), clean(m["needs"]), clean(missed.get(name, ""))))
known = load(os.path.join(ROOT, "known_findings.json"))
out.append("\n## Genuine defects\n\n{} commits `fix:` in /repo repair what the checks (or reading the code for them) found; each is listed in `known_findings.json` "
           "under `fixed` with its property. They suppress nothing: the check passes on the repaired tree and reports the violation again without the repair.\n\n"
           "| property | repaired |\n|---|---|\n".format(len(known["fixed"])))
by = {}
for line in known["fixed"]:
    text = line if isinstance(line, str) else line["what"]
    head, _, rest = text.partition("property=")
    prop, commit, what = rest.split(" ", 2)
    by.setdefault(prop, []).append(clean(what))
for prop in sorted(by):
    out.append("| {} | {} |\n".format(prop, "; ".join(by[prop])))
out.append("\nNot repaired, because the tests of the repository assert the behaviour (`KNOWN-FINDING` lines; each is found by its own probe, so that other violations are still reported):\n\n")
for f in known["findings"]:
    out.append("* {} ({}): {}\n".format(f["property"], f["id"], clean(f["what"])))
out.append("\n## Cost of the quick tier\n\nSeed 1, 8 cores, nothing else running.\n\n| check | cases | distinct non-trivial | seconds |\n|---|---|---|---|\n")
for path in sorted(glob.glob(os.path.join(ROOT, "evidence", "C*.json"))):
    e = load(path)
    if e["violations"] or e["tier"] != "quick":
        raise SystemExit("{}: not a clean quick run".format(path))
    out.append("| {} | {} | {} | {:.0f} |\n".format(e["property"], e["coverage"]["evaluations"], e["coverage"]["distinct_nontrivial"], e["wall_s"]))
design = os.path.join(ROOT, "DESIGN.md")
with open(design) as f:
    text = f.read()
with open(design, "w") as f:
    f.write(text.partition(MARK)[0].rstrip("\n") + "\n\n" + "".join(out))
