ID, PROP = "b26-equal-x", "X01"
EDITS = [("monero_glue/xmr/core/backend/ed25519ietf.py", """    if (P[1] * Q[2] - Q[1] * P[2]) % p != 0:
        return False
    return True
""", """    return True
""")]
NEEDS = "the pure Python backend and a comparison of two points that differ only in their second coordinate"
BREAKS = "a point of small order counts as the neutral element, so checks for small order components pass it"
DEMO = '''
import os, subprocess, sys
code = """
from vl import env
from monero_glue.xmr import crypto
from vl import ref
two = crypto.decodepoint(ref.enc((0, ref.P - 1, 1, 0)))
one = crypto.identity()
assert crypto.point_eq(one, crypto.identity()) and crypto.point_eq(two, two)
assert not crypto.point_eq(two, one) and not crypto.point_eq(one, two)
"""
for ec in ("0", "1"):
    r = subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, EC_BACKEND=ec, PYTHONPATH=HERE), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    check(r.returncode == 0, "backend %s tells the neutral point from the point of order two %s" % (ec, r.stdout.decode()[-300:]))
'''
