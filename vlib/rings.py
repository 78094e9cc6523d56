"""R01: the verdicts of spec/RingSig.tla on signatures of the code and of an independent signer."""
import os, random, subprocess, sys, json, types
from . import env, tlc, ref
from monero_glue.xmr import crypto, mlsag2, ring_ct
from monero_serialize.xmrtypes import CtKey

L = ref.L
TAG = lambda t: t.ljust(32, b"\0")
T2 = ref.dec(ref.i2b(2 ** 255 - 20))        # the point of order two


def pt(P):
    return crypto.decodepoint(ref.enc(P))


def sc(n):
    return crypto.decodeint(ref.i2b(n % L))


def num(s):
    return ref.b2i(bytes(crypto.encodeint(s)))


def unpt(P):
    return ref.dec(bytes(crypto.encodepoint(P)))


class Pub:
    def __init__(self, d, c):
        self.dest, self.commitment = d, c


class Data:
    """Public data of one scenario with every discrete logarithm known to the harness."""
    def __init__(self, v, rng):
        self.v, self.rng = v, rng
        n, m, s = v["n"], v["m"], v["s"]
        r = self.r = v["r"] - 1
        rnd = lambda: rng.randrange(1, L)
        self.msg = bytes(rng.randrange(256) for _ in range(32))
        self.x = [[rnd() for _ in range(m)] for _ in range(n)]
        self.P = [[ref.gmul(x) for x in row] for row in self.x]
        self.amt = [rng.choice([0, 1, 2 ** 64 - 1, rng.randrange(2 ** 64)]) for _ in range(m)]
        self.mask = [rnd() for _ in range(m)]
        self.C = [[ref.gmul(rnd()) for _ in range(m)] for _ in range(n)]
        self.C[r] = [ref.commit(self.mask[j], self.amt[j]) for j in range(m)]
        if s == "mlsagfull":
            total, k = sum(self.amt), rng.choice([1, 2, 3])
            cuts = sorted(rng.randrange(total + 1) for _ in range(k))
            vals = [b - a for a, b in zip([0] + cuts[:-1], cuts)]
            self.outm = [rnd() for _ in range(k)]
            self.offs = [ref.commit(x, a) for x, a in zip(self.outm, vals)]
            self.fee = ref.pmul(ref.H, total - cuts[-1])
        else:
            self.outm, self.offs, self.fee = [rnd()], [], None
            self.offs = [ref.commit(self.outm[0], self.amt[0])]
        # wrong signers
        self.sec = list(self.x[r])
        self.place = r
        self.zd = 0
        w = v["w"]
        if w == "key":
            self.sec[0] += rng.choice([1, rnd()])
        if w == "place":
            self.place = (r + 1) % n
        if w == "mask":
            self.zd = rng.choice([1, rnd()])
        if w == "value":
            self.offs[0] = ref.padd(self.offs[0], ref.pmul(ref.H, rng.choice([1, 2 ** 64, rnd()])))
        self.I = []
        if s != "schnorr":
            self.I = [ref.pmul(ref.h2p(ref.enc(self.P[self.place][j])), self.sec[j] + (rnd() if w == "image" else 0)) for j in range(m)]
        self.D8 = None
        self.c0, self.cs, self.ss = 0, [], []

    def pubs(self):
        if self.v["s"] == "mlsagfull":
            return [[Pub(ref.enc(p), ref.enc(c)) for p, c in zip(a, b)] for a, b in zip(self.P, self.C)]
        return [Pub(ref.enc(a[0]), ref.enc(b[0])) for a, b in zip(self.P, self.C)]

    def z(self):
        return (sum(self.mask) - sum(self.outm) + self.zd) % L

    def copy(self):
        d = Data.__new__(Data)
        d.__dict__.update(self.__dict__)
        for k in ("P", "C", "ss"):
            setattr(d, k, [list(x) for x in getattr(self, k)])
        for k in ("I", "cs", "offs"):
            setattr(d, k, list(getattr(self, k)))
        return d


def sign_code(d, test=False):
    """Signs with the code under test; fills in c0, cs, ss, I, D8."""
    v, s = d.v, d.v["s"]
    if s == "schnorr":
        c, r, pub = crypto.generate_signature(d.msg, sc(d.sec[0]))
        assert unpt(pub) == d.P[0][0] or ref.peq(unpt(pub), d.P[0][0])
        d.cs, d.ss = [num(c)], [[num(r)]]
    elif s == "lsag":
        sig = ring_ct.generate_ring_signature(d.msg, pt(d.I[0]), [pt(p[0]) for p in d.P], sc(d.sec[0]), d.place, test)
        d.cs, d.ss = [num(x[0]) for x in sig], [[num(x[1])] for x in sig]
    elif s in ("mlsag", "mlsagfull"):
        kl = cb = None
        if v["w"] == "shared":
            k = d.rng.randrange(1, L)
            h = ref.h2p(ref.enc(d.P[d.place][0]))
            kl = types.SimpleNamespace(k=sc(k), L=pt(ref.gmul(k)), R=pt(ref.pmul(h, k)), ki=pt(ref.pmul(h, d.sec[0])))
            got = []
            cb = got.append
        if s == "mlsag":
            mg, c = mlsag2.prove_rct_mg_simple(d.msg, d.pubs(), CtKey(dest=sc(d.sec[0]), mask=sc(d.mask[0] + d.zd)), sc(d.outm[0]), pt(d.offs[0]), kl, cb, d.place)
        else:
            mk = list(d.mask)
            mk[-1] += d.zd
            mg, c = mlsag2.prove_rct_mg(d.msg, d.pubs(), [CtKey(dest=sc(x), mask=sc(k)) for x, k in zip(d.sec, mk)], [CtKey(mask=sc(x)) for x in d.outm],
                                        [CtKey(mask=ref.enc(o)) for o in d.offs], kl, cb, d.place, pt(d.fee))
        if cb:
            d.told = [num(x) for x in got]
        d.c0, d.ss = num(mg.cc), [[num(x) for x in row] for row in mg.ss]
        I = [unpt(x) for x in mg.II]
        d.I_made = I
        d.I = I
    else:
        buf = []
        out = mlsag2.generate_clsag_simple(d.msg, d.pubs(), CtKey(dest=sc(d.sec[0]), mask=sc(d.mask[0] + d.zd)), sc(d.outm[0]), pt(d.offs[0]), d.place, buf)
        assert out is buf
        if bytes(buf[0]) != ref.varint(len(d.P)) or len(buf) != len(d.P) + 3:
            raise ValueError("layout of the signature")
        d.ss = [[ref.b2i(bytes(x))] for x in buf[1:-2]]
        d.c0, d.D8 = ref.b2i(bytes(buf[-2])), ref.dec(bytes(buf[-1]))
    return d


def pre_clsag(d):
    de, ce = b"".join(ref.enc(p[0]) for p in d.P), b"".join(ref.enc(p[0]) for p in d.C)
    co = ref.enc(d.offs[0])
    mus = [ref.Hs(TAG(t), de, ce, ref.enc(d.I[0]), ref.enc(d.D8), co) for t in (b"CLSAG_agg_0", b"CLSAG_agg_1")]
    return mus, TAG(b"CLSAG_round") + de + ce + co + d.msg


def czero(d, k):
    C = ref.ID if hasattr(ref, "ID") else None
    for c in d.C[k]:
        C = ref.padd(C, c)
    for o in d.offs + ([d.fee] if d.fee is not None else []):
        C = ref.psub(C, o)
    return C


def item(d, k, c, ss, mus=None):
    """Reference transcript share of one member, as bytes."""
    s, out = d.v["s"], b""
    if s == "schnorr":
        return ref.enc(d.P[k][0]) + ref.enc(ref.padd(ref.gmul(ss[0]), ref.pmul(d.P[k][0], c)))
    if s == "clsag":
        Cz, p, D = czero(d, k), d.P[k][0], ref.pmul8(d.D8)
        A = ref.padd(ref.padd(ref.gmul(ss[0]), ref.pmul(p, c * mus[0] % L)), ref.pmul(Cz, c * mus[1] % L))
        B = ref.padd(ref.padd(ref.pmul(ref.h2p(ref.enc(p)), ss[0]), ref.pmul(d.I[0], c * mus[0] % L)), ref.pmul(D, c * mus[1] % L))
        return ref.enc(A) + ref.enc(B)
    for j, p in enumerate(d.P[k]):
        A = ref.padd(ref.gmul(ss[j]), ref.pmul(p, c))
        B = ref.padd(ref.pmul(ref.h2p(ref.enc(p)), ss[j]), ref.pmul(d.I[j], c))
        out += (b"" if s == "lsag" else ref.enc(p)) + ref.enc(A) + ref.enc(B)
    if s != "lsag":
        Cz = czero(d, k)
        out += ref.enc(Cz) + ref.enc(ref.padd(ref.gmul(ss[-1]), ref.pmul(Cz, c)))
    return out


def verify_ref(d):
    s = d.v["s"]
    if s in ("schnorr", "lsag"):
        return ref.Hs(d.msg, *[item(d, k, d.cs[k], d.ss[k]) for k in range(len(d.P))]) == sum(d.cs) % L
    mus, pre = pre_clsag(d) if s == "clsag" else (None, d.msg)
    c = d.c0
    for k in range(len(d.P)):
        c = ref.Hs(pre, item(d, k, c, d.ss[k], mus))
    return c == d.c0


def sign_ref(d):
    """Independent signer."""
    s, n, k, rng = d.v["s"], len(d.P), d.place, d.rng
    rnd = lambda: rng.randrange(1, L)
    rows = len(d.P[0]) + (s in ("mlsag", "mlsagfull"))
    d.ss = [[rnd() for _ in range(rows)] for _ in range(n)]
    if s == "clsag":
        d.D8 = ref.pmul(ref.h2p(ref.enc(d.P[k][0])), d.z() * pow(8, -1, L) % L)
    al = [rnd() for _ in range(rows)]
    # with challenge zero the item consists of the signer's commitments
    if s in ("schnorr", "lsag"):
        d.cs = [rnd() for _ in range(n)]
        h = ref.Hs(d.msg, *[item(d, i, 0, al) if i == k else item(d, i, d.cs[i], d.ss[i]) for i in range(n)])
        d.cs[k] = (h - sum(c for i, c in enumerate(d.cs) if i != k)) % L
        d.ss[k] = [(al[0] - d.cs[k] * d.sec[0]) % L]
        return d
    mus, pre = pre_clsag(d) if s == "clsag" else (None, d.msg)
    c, i = ref.Hs(pre, item(d, k, 0, al, mus)), (k + 1) % n
    if i == 0:
        d.c0 = c
    while i != k:
        c, i = ref.Hs(pre, item(d, i, c, d.ss[i], mus)), (i + 1) % n
        if i == 0:
            d.c0 = c
    if s == "clsag":
        sec = [mus[0] * d.sec[0] + mus[1] * d.z()]
    else:
        sec = d.sec + [d.z()]
    d.ss[k] = [(a - c * x) % L for a, x in zip(al, sec)]
    return d


def second(d):
    mus, pre = pre_clsag(d) if d.v["s"] == "clsag" else (None, d.msg)
    return ref.Hs(pre, item(d, 0, d.c0, d.ss[0], mus))


def change(d0, a, rng):
    d, k, i, j = d0.copy(), a["k"], a["i"] - 1, a["j"] - 1
    G = ref.G
    def swap(l, x, y):
        if l:
            l[x], l[y] = l[y], l[x]
    if k == "msg":
        b = rng.randrange(256)
        m = bytearray(d.msg)
        m[b // 8] ^= 1 << b % 8
        d.msg = bytes(m)
    elif k == "key other":
        d.P[i][j] = ref.gmul(rng.randrange(L))
    elif k == "key shift":
        d.P[i][j] = ref.padd(d.P[i][j], G)
    elif k == "com shift":
        d.C[i][j] = ref.padd(d.C[i][j], G)
    elif k == "com swap":
        swap(d.C, i, j)
    elif k == "off shift":
        if i == 0:
            x = rng.randrange(len(d.offs))
            d.offs[x] = ref.padd(d.offs[x], G)
        else:
            d.fee = ref.padd(d.fee, G)
    elif k == "value":
        d.offs[0] = ref.padd(d.offs[0], ref.H)
    elif k == "image shift":
        d.I[j] = ref.padd(d.I[j], G)
    elif k == "image small":
        d.I[j] = ref.padd(d.I[j], T2)
    elif k == "image neg":
        d.I[j] = ref.pneg(d.I[j])
    elif k == "image id":
        d.I[j] = ref.ID
    elif k == "image of":
        d.I[j] = ref.pmul(ref.h2p(ref.enc(d.P[i][j])), rng.randrange(1, L))
    elif k == "drop image":
        d.I.pop()
    elif k == "swap image":
        swap(d.I, 0, 1)
    elif k == "D shift":
        d.D8 = ref.padd(d.D8, G)
    elif k == "D neg":
        d.D8 = ref.pneg(d.D8)
    elif k == "D id":
        d.D8 = ref.ID
    elif k == "ss shift":
        d.ss[i][j] = (d.ss[i][j] + 1) % L
    elif k == "ss zero":
        d.ss[i][j] = 0
    elif k == "ss neg":
        d.ss[i][j] = -d.ss[i][j] % L
    elif k == "ss copy":
        d.ss[i] = list(d.ss[j])
    elif k == "cs shift":
        d.cs[i] = (d.cs[i] + 1) % L
    elif k == "cs zero":
        d.cs[i] = 0
    elif k == "cs move":
        d.cs[i], d.cs[j] = (d.cs[i] + 1) % L, (d.cs[j] - 1) % L
    elif k == "c0 shift":
        d.c0 = (d.c0 + 1) % L
    elif k == "c0 zero":
        d.c0 = 0
    elif k == "c0 at":
        d.c0 = second(d)
    elif k in ("swap", "swap ring", "swap ss"):
        if k != "swap ss":
            swap(d.P, i, j), swap(d.C, i, j)
        if k != "swap ring":
            swap(d.ss, i, j)
        if k == "swap":
            swap(d.cs, i, j)
    elif k == "rotate":
        d.c0 = second(d)
        d.P, d.C, d.ss = d.P[1:] + d.P[:1], d.C[1:] + d.C[:1], d.ss[1:] + d.ss[:1]
    elif k.startswith("drop"):
        if k != "drop ss":
            d.P.pop(), d.C.pop()
        if k != "drop ring":
            d.ss.pop()
            d.cs and d.cs.pop()
    elif k.startswith("more"):
        if k != "more ss":
            d.P.append(d.P[0]), d.C.append(d.C[0])
        if k != "more ring":
            d.ss.append(list(d.ss[0]))
            d.cs and d.cs.append(0)
    elif k == "all zero":
        d.c0, d.ss, d.cs, d.I = 0, [[0] * len(x) for x in d.ss], [0] * len(d.cs), [ref.ID] * len(d.I)
        if d.D8 is not None:
            d.D8 = ref.ID
    else:
        raise AssertionError(k)
    return d


def verify_code(d):
    s = d.v["s"]
    try:
        if s == "schnorr":
            if len(d.P) != 1 or len(d.ss) != 1:
                return False
            return bool(crypto.check_signature(d.msg, sc(d.cs[0]), sc(d.ss[0][0]), pt(d.P[0][0])))
        if s == "lsag":
            return bool(ring_ct.check_ring_singature(d.msg, pt(d.I[0]), [pt(p[0]) for p in d.P], [[sc(a), sc(b[0])] for a, b in zip(d.cs, d.ss)]))
        if s in ("mlsag", "mlsagfull"):
            mg = types.SimpleNamespace(II=[pt(x) for x in d.I], ss=[[sc(x) for x in r] for r in d.ss], cc=sc(d.c0))
            if s == "mlsag":
                return bool(mlsag2.ver_rct_mg_simple(d.msg, mg, d.pubs(), pt(d.offs[0])))
            return bool(mlsag2.ver_rct_mg(mg, d.pubs(), [CtKey(mask=ref.enc(o)) for o in d.offs], pt(d.fee), d.msg))
        r = mlsag2.verify_clsag(d.msg, [sc(x[0]) for x in d.ss], sc(d.c0), pt(d.I[0]), pt(d.D8), d.pubs(), pt(d.offs[0]))
        return r is None or bool(r)
    except Exception as e:
        d.err = e
        return False


def even(d):
    """All challenges are even: a point of order two vanishes in every item."""
    if d.cs:
        return all(c % 2 == 0 for c in d.cs)
    c = d.c0
    for k in range(len(d.P)):
        if c % 2:
            return False
        c = ref.Hs(d.msg, item(d, k, c, d.ss[k]))
    return True


def one(v, rng, cache, fails, c=None):
    key = (v["s"], v["n"], v["r"], v["m"])
    name = "%s ring %d real %d keys %d, signer %s, %s" % (v["s"], v["n"], v["r"], v["m"], v["w"], "%(k)s %(i)d %(j)d" % v["a"])
    def fail(what):
        fails.append((name, what, v))
    if v["w"] in ("ok", "shared") and v["a"]["k"] == "none":
        for mk in (sign_code, sign_ref) if v["w"] == "ok" else (sign_code,):
            d = Data(v, rng)
            want = [ref.pmul(ref.h2p(ref.enc(d.P[d.r][j])), d.x[d.r][j]) for j in range(v["m"])]
            try:
                mk(d)
            except Exception as e:
                fail("%s: signing fails with %r" % (name, e))
                continue
            if v["s"] != "schnorr" and [ref.enc(x) for x in d.I] != [ref.enc(x) for x in want]:
                fail("%s: the signature does not carry the key image of the key" % name)
            if not verify_ref(d):
                fail("%s: %s does not verify" % (name, "the signature" if mk is sign_code else "REFERENCE"))
            if v["w"] == "shared" and len(d.told) != 1:
                fail("%s: the co-signer is told %d challenges" % (name, len(d.told)))
            if not verify_code(d):
                fail("%s: a valid signature (%s) is refused: %r" % (name, mk.__name__, getattr(d, "err", None)))
        return
    if v["w"] != "ok":
        for test in ((False, True) if v["s"] == "lsag" else (False,)):
            d = Data(v, rng)
            if v["s"] == "mlsag" or v["s"] == "mlsagfull":
                pass
            try:
                sign_code(d, test)
            except ValueError:
                continue
            except Exception as e:
                fail("%s: %r" % (name, e))
                continue
            if test:
                fail("%s: the signer signs although it checks the secret" % name)
            if verify_code(d):
                fail("%s: the signature is valid" % name)
        return
    small = v["a"]["k"] == "image small"
    if small and v["s"] in ("mlsagfull", "clsag") and v["n"] > 2 or small and v["n"] > 3:
        return
    if small and v["s"] != "clsag":
        for _ in range(2 ** (v["n"] + 4)):
            d = Data(v, rng)
            sign_code(d) if v["n"] < 3 else sign_ref(d)
            if even(d):
                break
    else:
        if key not in cache:
            cache[key] = [sign_ref(Data(dict(v, w="ok"), rng)), sign_code(Data(dict(v, w="ok"), rng))]
        d = rng.choice(cache[key])
    e = change(d, v["a"], rng)
    if verify_code(e):
        fail("%s: the altered signature is valid" % name)


def replay(vecs, seed):
    rng, cache, fails = random.Random(seed), {}, []
    for v in vecs:
        if v["free"]:
            continue
        one(v, rng, cache, fails)
    return fails


def wide(fails):
    """Responses and challenges that are not reduced."""
    rng = random.Random(5)
    v = {"s": "lsag", "n": 2, "r": 1, "m": 1, "w": "ok", "a": None}
    d = sign_ref(Data(v, rng))
    for what, a, b in (("challenge", L, 0), ("response", 0, L)):
        for i in range(2):
            try:
                sig = [[sc(x), sc(y[0])] for x, y in zip(d.cs, d.ss)]
                sig[i] = [raw(d.cs[i] + a), raw(d.ss[i][0] + b)]
                ok = ring_ct.check_ring_singature(d.msg, pt(d.I[0]), [pt(p[0]) for p in d.P], sig)
            except Exception:
                ok = False
            if ok:
                fails.append(("wide %s" % what, "a ring signature with an unreduced %s is valid" % what, None))


def raw(n):
    """An unreduced scalar in the representation of the backend."""
    if isinstance(sc(1), int):
        return n
    s = crypto.new_scalar()
    return crypto.decodeint_into_noreduce(s, ref.i2b(n)) if hasattr(crypto, "decodeint_into_noreduce") else crypto.decodeint(ref.i2b(n))


def other_backend(vecs, seed):
    """The same vectors with the pure Python backend, in a process of its own."""
    e = dict(os.environ, EC_BACKEND="0", EC_BACKEND_FORCE="1")
    p = subprocess.Popen([sys.executable, "-m", "vlib.rings", str(seed)], cwd=env.VERIF, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    return p, json.dumps(vecs).encode()


def check(c):
    from concurrent.futures import ThreadPoolExecutor
    r = tlc.vectors("RingSig", {"MaxRing": 4 if c.thorough else 3, "MaxRows": 3 if c.thorough else 2, "BigRings": "{5, 11, 16}" if c.thorough else "{11}",
                                "Deep": "TRUE" if c.thorough else "FALSE"}, "INVARIANT Complete Sound OneImage Emit\n", timeout=1500, workers=8)
    c.add(states=r["distinct"], transitions=r["generated"])
    vecs = r["vectors"]
    rng = random.Random(c.seed)
    rng.shuffle(vecs)
    cheap = [v for v in vecs if v["n"] <= 3]
    jobs = []
    def go(part):
        sub, slow, s = part
        p = subprocess.run([sys.executable, "-m", "vlib.rings", str(s)], cwd=env.VERIF, input=json.dumps(sub).encode(), stdout=subprocess.PIPE,
                           env=dict(os.environ, EC_BACKEND="0" if slow else "1", EC_BACKEND_FORCE="1"))
        if p.returncode != 0:
            raise RuntimeError("replay process ended with %d" % p.returncode)
        return slow, len(sub), json.loads(p.stdout.decode().strip().split("\n")[-1])
    honest = [v for v in cheap if v["a"]["k"] == "none"]
    rest = [v for v in cheap if v["a"]["k"] != "none"]
    slow = honest + rest[:len(rest) if c.thorough else 250]
    n = 6
    jobs = [(vecs[i::n], False, c.seed * 100 + i) for i in range(n)] + [(slow[i::4], True, c.seed * 100 + 50 + i) for i in range(4)]
    with ThreadPoolExecutor(8) as ex:
        for s, k, fails in ex.map(go, jobs):
            c.add(traces_validated_against_impl=k)
            for name, what, v in fails:
                c.fail(name, what + (" (pure Python backend)" if s else ""), v)


if __name__ == "__main__":
    vs = json.loads(sys.stdin.read())
    fs = replay(vs, int(sys.argv[1]))
    wide(fs)
    print(json.dumps(fs))
