ID, PROP = "b20-ragged-mlsag", "R01"
EDITS = [("monero_glue/xmr/mlsag2.py", """    for i in range(cols):
        if len(rv.ss[i]) != rows:
            raise ValueError("rv.ss is not rectangular")
    if dsRows > rows:
        raise ValueError("Bad dsRows value")

    return rows, cols
""", """    for i in range(cols):
        if len(rv.ss[i]) < rows:
            raise ValueError("rv.ss is not rectangular")
    if dsRows > rows:
        raise ValueError("Bad dsRows value")

    return rows, cols
""")]
NEEDS = "a ring signature with a response too many in one of its columns"
BREAKS = "a signature with unused surplus responses verifies, so signatures can be changed without becoming invalid"
DEMO = '''
from monero_glue.xmr import mlsag2
class CtKey:
    def __init__(self, dest, mask):
        self.dest, self.mask, self.commitment = dest, mask, mask
sc = lambda n: crypto.decodeint(ref.i2b(n))
x, m, a, v = 11, 22, 33, 44
ring = [CtKey(ref.enc(ref.gmul(100 + i)), ref.enc(ref.commit(7 + i, 9))) for i in range(3)]
ring[1] = CtKey(ref.enc(ref.gmul(x)), ref.enc(ref.commit(m, v)))
C = crypto.decodepoint(ref.enc(ref.commit(a, v)))
mg = mlsag2.prove_rct_mg_simple(bytes(32), ring, CtKey(sc(x), sc(m)), sc(a), C, None, None, 1)[0]
def ok():
    try:
        return bool(mlsag2.ver_rct_mg_simple(bytes(32), mg, ring, C))
    except Exception:
        return False
check(ok(), "an honest signature")
mg.ss[2] = list(mg.ss[2]) + [sc(5)]
check(not ok(), "a surplus response is refused")
'''
