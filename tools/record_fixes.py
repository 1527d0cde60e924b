""" python3 tools/record_fixes.py C24 <from-commit>: adds the "fix:" commits of /repo made since as fixed for that property """
import json
import subprocess
import sys

prop, since = sys.argv[1:3]
path = __file__.rsplit("/", 2)[0] + "/known_findings.json"
data = json.load(open(path))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", since + "..HEAD"], text=True)
for line in log.splitlines():
    commit, _, subject = line.partition(" ")
    if subject.startswith("fix: ") and not any(" " + commit + " " in f for f in data["fixed"]):
        data["fixed"].append("fixed: property={} {} {}".format(prop, commit, subject[5:]))
        print(data["fixed"][-1])
json.dump(data, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
