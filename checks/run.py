#!/usr/bin/env python3
"""run.py <PROPERTY>: decides one property on /repo's working tree.  VERIF_TIER, VERIF_SEED."""
import os, re, sys, traceback
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import report, tlc, procs, watch

REG = {}
for p in ("S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08"):
    REG[p] = ("vlib.devcheck", "check")


for p in ("H01", "H02"):
    REG[p] = ("vlib.host", "check")


REG["H03"] = ("vlib.hostfault", "check")


REG["K01"] = ("vlib.keysync", "check_k01")
REG["K02"] = ("vlib.keysync", "check_k02")


REG["A01"] = ("vlib.addrs", "check")


REG["A02"] = ("vlib.owner", "check")
REG["A03"] = ("vlib.seeds", "check")


REG["C01"] = ("vlib.wire", "check")
REG["C02"] = ("vlib.extra", "check")
REG["U01"] = ("vlib.cmds", "check")
REG["R01"] = ("vlib.rings", "check")
REG["R02"] = ("vlib.ranges", "check")
REG["W01"] = ("vlib.files", "check")
REG["P01"] = ("vlib.confirm", "check")
REG["B01"] = ("vlib.blocks", "check")
REG["X01"] = ("vlib.curve", "check")
REG["G01"] = ("vlib.walletgen", "check")
REG["V01"] = ("vlib.rpcproc", "check")
REG["M01"] = ("vlib.bridge", "check")
REG["D01"] = ("vlib.guard", "check")
REG["T01"] = ("vlib.hashing", "check")


REG["H04"] = ("vlib.recover", "check_h04")
REG["K03"] = ("vlib.recover", "check_k03")


def main(prop):
    import importlib
    c = report.Check(prop)
    mod, fn = REG[prop]

    def endless(name, text):
        c.fail("%s does not end" % name, "a call of %s does not end" % name, text)
        return c.finish()
    watch.hold(endless)
    try:
        getattr(importlib.import_module(mod), fn)(c)
    except (tlc.TlcError, tlc.SpecViolation):
        traceback.print_exc()
        return 3
    except Exception as e:
        traceback.print_exc()
        text, kind, inner = repr(e), type(e).__name__, [f.name for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(report.REPO)]
        far = str(getattr(e, "__cause__", None) or "")          # raised in a worker process
        if isinstance(e, procs.Died):
            far = e.text
        if far:
            inner += re.findall(r'File "%s/[^"]*", line \d+, in (\S+)' % re.escape(report.REPO), far)
            last = re.findall(r"^([A-Za-z_.]+)(?::.*)?$", far.strip().strip('"').strip(), re.M)
            if isinstance(e, procs.Died) and last:
                kind, text = last[-1], far.strip().split("\n")[-1]
        if isinstance(e, procs.Died) and e.code == 97:
            return endless(e.text.split("\n")[0].split()[-1], e.text)
        form = kind in ("TypeError", "IndexError", "KeyError", "ValueError") or (kind == "AttributeError" and "NoneType" in text)
        crash = isinstance(e, procs.Died) and e.code in (-11, -6, -4, -7, -8)
        if inner or crash:
            c.fail("uncaught %s in %s" % (kind, inner[-1] if inner else "the interpreter"),
                   "the code raises %s where the specification has an answer" % text, traceback.format_exc())
        elif form:
            c.fail("form of a result: %s" % kind, "the code returned something of a form the specification does not have: %s" % text,
                   traceback.format_exc())
        else:
            return 3
    return c.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
