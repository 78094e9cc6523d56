"""addfix.py PROP KEY COMMIT WHAT: appends a fixed entry to known_findings.json."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
pr, k, c, w = sys.argv[1:]
d["findings"].append({"property": pr, "key": k, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (pr, c, w)})
open(p, "w").write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
