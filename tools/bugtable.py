"""Writes section 7 of DESIGN.md (the table of planted bugs) from seeded/*/meta.json and tools/bugs."""
import glob, json, re
V = "/verif/"
rows = []
for m in sorted(glob.glob(V + "seeded/*/meta.json")):
    d = json.load(open(m))
    i = m.split("/")[-2]
    files = sorted(set(re.findall(r"^\+\+\+ b/(.*)$", open(m.replace("meta.json", "patch.diff")).read(), re.M)))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], ", ".join(f.split("/")[-1] for f in files), d["needs"], d["property"]))
s = open(V + "DESIGN.md").read().split("\n## 7.")[0].rstrip("\n")
s += """

## 7. Which check catches which planted bug

Each was confirmed in a scratch copy: the stable tests pass with it, its demonstration succeeds without and fails with it, and the quick check named
last exits 1 with it (`tools/plant.py FILE --tests`).

| bug | property | file | needs | caught by |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(V + "DESIGN.md", "w").write(s)
