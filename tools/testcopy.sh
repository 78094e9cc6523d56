#!/bin/bash
# testcopy.sh DIR: the repository's stable tests on a copy
R="$1"; T=$(mktemp -d)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$R" LANG=C.UTF-8
cd "$R" || exit 1
run() { /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore -n 8 --timeout=700 --continue-on-collection-errors -o junit_family=xunit2 --junit-prefix="$1" --junitxml="$T/$1.xml" monero_glue_test >$T/$1.log 2>&1; }
EC_BACKEND_FORCE=1 EC_BACKEND=1 run tcry
EC_BACKEND=0 SKIP_TREZOR_TSX=1 run py
/opt/venv/bin/python - $T <<'P'
import sys, json, xml.etree.ElementTree as E
st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ok = set(); seen=set()
for b in ("tcry", "py"):
    for c in E.parse(sys.argv[1] + "/%s.xml" % b).getroot().iter("testcase"):
        n = c.get("classname") + "::" + c.get("name")
        for k in (n, b + "." + n):
            seen.add(k)
            if not any(x.tag in ("failure", "error", "skipped") for x in c):
                ok.add(k)
miss = sorted(st - ok)
print("stable %d, not passing: %s" % (len(st), miss or "none"))
P
rm -rf "$T"
