"""plant.py FILE...: each FILE defines ID, PROP, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO (python text).
Writes /verif/seeded/<ID>/ and verifies it in a scratch copy; the repository's tests are run by --tests."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"


def main(path, tests):
    g = {}
    exec(open(path).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(w, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", r])
        subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
        for f, old, new in g["EDITS"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches of %r in %s" % (g["ID"], s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", r, "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        os.makedirs(os.path.join(d, "vl"))
        open(os.path.join(d, "vl", "__init__.py"), "w").close()
        for n in ("env", "txgen", "ref"):
            shutil.copy(os.path.join(V, "vlib", n + ".py"), os.path.join(d, "vl"))
        shutil.copy(os.path.join(V, "tools", "demo", "dlib.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from dlib import *\n" + g["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        b = subprocess.run([os.path.join(d, "demo.sh")], cwd=r, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        st = "demo clean=%d patched=%d" % (a.returncode, b.returncode)
        if a.returncode != 0:
            st += "\nCLEAN OUTPUT " + a.stdout.decode()[-1500:]
        if b.returncode == 0:
            st += "\nPATCHED OUTPUT " + b.stdout.decode()[-800:]
        else:
            st += " (" + b.stdout.decode().strip().split("\n")[-1][:150] + ")"
        for pr in [] if "--nochecks" in sys.argv else g.get("CHECKS", [g["PROP"]]):
            c = subprocess.run(["/opt/venv/bin/python", "checks/run.py", pr], cwd=V, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = [l for l in c.stdout.decode().split("\n") if l.startswith("  violation")][:1]
            st += "\n   check %s: exit %d %s" % (pr, c.returncode, (t or [c.stdout.decode().strip()[-300:]])[0][:250])
        if tests:
            t = subprocess.run(["bash", "/verif/tools/testcopy.sh", r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            st += "\n   tests: %s" % t.stdout.decode().strip().split("\n")[-1]
        print(g["ID"], st, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    t = "--tests" in sys.argv
    for p in sys.argv[1:]:
        if not p.startswith("--"):
            main(p, t)
