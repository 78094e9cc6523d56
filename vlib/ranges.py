"""R02: the verdicts of spec/RangeProof.tla and spec/Borromean.tla on proofs of the code and of an
independent prover; freshness of what spec/RangeHide.tla requires to be fresh."""
import asyncio, copy, json, os, random, subprocess, sys
from . import env, procs, tlc, ref
from monero_glue.xmr import crypto, ring_ct, monero, bulletproof as bpm
from monero_serialize import xmrtypes
from monero_serialize.xmrtypes import Bulletproof

L = ref.L
PF = ("A", "S", "T1", "T2")
SF = ("taux", "mu", "t", "a", "b")
VF = ("V", "L", "R")
PY = os.environ.get("EC_BACKEND") == "0"


def sc(n):
    return crypto.decodeint(ref.i2b(n % L))


def val(c, bits=64):
    top = 2 ** bits - 1
    return {"0": 0, "1": 1, "mid": 2 ** (bits - 1), "top": top, "odd": 0xA5A5A5A5A5A5A5A5, "over": top + 1, "over+1": top + 2,
            "double": 2 * top + 2, "minus": L - 1}[c]


def run(coro):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


def as_dict(p):
    d = {k: bytes(getattr(p, k)) for k in PF + SF}
    for k in ("L", "R"):
        v = getattr(p, k)
        d[k] = [bytes(v[i]) for i in range(len(v))]
    d["V"] = [bytes(p.V[i]) for i in range(len(p.V))]
    return d


def as_proof(d):
    kw = {k: bytearray(d[k]) for k in PF + SF}
    kw.update({k: [bytearray(x) for x in d[k]] for k in VF})
    return Bulletproof(**kw)


# ---------------------------------------------------------------- the independent prover
def prove_ref(vals, masks, rng, dtaux=0, dmu=0):
    """dtaux, dmu: a dishonest prover who goes on from a changed taux or mu"""
    N = 64
    m, M = len(vals), 1
    while M < m:
        M *= 2
    MN = M * N
    Gi, Hi = ref.bp_gens(MN)
    r = lambda: rng.randrange(1, L)
    dot = lambda a, b: sum(x * y for x, y in zip(a, b)) % L
    out = lambda P: ref.enc(ref.pmul(P, ref.INV8))
    V = [out(ref.commit(g, v)) for g, v in zip(masks, vals)]
    aL = [(vals[k // N] >> (k % N)) & 1 if k // N < m else 0 for k in range(MN)]
    aR = [x - 1 for x in aL]
    sL, sR = [r() for _ in range(MN)], [r() for _ in range(MN)]
    alpha, rho, tau1, tau2 = r(), r(), r(), r()
    A = ref.gmul(alpha)
    for k in range(MN):
        A = ref.padd(A, Gi[k]) if aL[k] else ref.psub(A, Hi[k])
    A = out(A)
    S = out(ref.msm([(rho, ref.G)] + list(zip(sL, Gi)) + list(zip(sR, Hi))))
    y = ref.Hs(ref.i2b(ref.Hs(*V)), A, S)
    z = ref.Hs(ref.i2b(y))
    hc = ref.i2b(z)
    yp = [1]
    for _ in range(MN):
        yp.append(yp[-1] * y % L)
    l0 = [(x - z) % L for x in aL]
    r0 = [(yp[k] * (aR[k] + z) + pow(z, 2 + k // N, L) * 2 ** (k % N)) % L for k in range(MN)]
    r1 = [sR[k] * yp[k] % L for k in range(MN)]
    t1, t2 = (dot(l0, r1) + dot(sL, r0)) % L, dot(sL, r1)
    T1, T2 = out(ref.commit(tau1, t1)), out(ref.commit(tau2, t2))
    x = ref.Hs(hc, ref.i2b(z), T1, T2)
    hc = ref.i2b(x)
    l = [(p + x * q) % L for p, q in zip(l0, sL)]
    rr = [(p + x * q) % L for p, q in zip(r0, r1)]
    t = dot(l, rr)
    taux = (tau1 * x + tau2 * x * x + sum(pow(z, 2 + j, L) * masks[j] for j in range(m)) + dtaux) % L
    mu = (alpha + x * rho + dmu) % L
    xip = ref.Hs(hc, ref.i2b(x), ref.i2b(taux), ref.i2b(mu), ref.i2b(t))
    hc = ref.i2b(xip)
    yi = pow(y, L - 2, L)
    # folded generators as coefficients of the original ones
    ga = [{k: 1} for k in range(MN)]
    ha = [{k: pow(yi, k, L)} for k in range(MN)]
    Ls, Rs, n = [], [], MN
    while n > 1:
        n //= 2
        def side(a, b, g, h):
            cs = {}
            for q, co in zip(a, g):
                for k, c in co.items():
                    cs[("G", k)] = (cs.get(("G", k), 0) + q * c) % L
            for q, co in zip(b, h):
                for k, c in co.items():
                    cs[("H", k)] = (cs.get(("H", k), 0) + q * c) % L
            return out(ref.msm([(c, (Gi if s == "G" else Hi)[k]) for (s, k), c in cs.items()] + [(dot(a, b) * xip % L, ref.H)]))
        Lp, Rp = side(l[:n], rr[n:], ga[n:], ha[:n]), side(l[n:], rr[:n], ga[:n], ha[n:])
        Ls.append(Lp)
        Rs.append(Rp)
        w = ref.Hs(hc, Lp, Rp)
        hc = ref.i2b(w)
        wi = pow(w, L - 2, L)
        mix = lambda p, a, q, b: {k: (p.get(k, 0) * a + q.get(k, 0) * b) % L for k in list(p) + list(q)}
        ga = [mix(ga[k], wi, ga[k + n], w) for k in range(n)]
        ha = [mix(ha[k], w, ha[k + n], wi) for k in range(n)]
        l = [(l[k] * w + l[k + n] * wi) % L for k in range(n)]
        rr = [(rr[k] * wi + rr[k + n] * w) % L for k in range(n)]
    i = ref.i2b
    return dict(V=V, A=A, S=S, T1=T1, T2=T2, taux=i(taux), mu=i(mu), t=i(t), a=i(l[0]), b=i(rr[0]), L=Ls, R=Rs)


def commits(vals, masks):
    return [ref.enc(ref.pmul(ref.commit(g, v), ref.INV8)) for g, v in zip(masks, vals)]


class Pool:
    def __init__(self, seed):
        self.rng, self.c, self.fails = random.Random(seed), {}, []

    def get(self, cls, src, edge=True):
        """edge: also masks like 0, with which an altered commitment may be the same as before"""
        k = (tuple(cls), src, edge)
        if k not in self.c:
            vals = [val(x) for x in cls]
            r = self.rng
            masks = [r.choice(([0, 1, L - 1] if edge else []) + [r.randrange(L)] * 5) for _ in vals]
            sv, gm = [sc(v) for v in vals], [sc(g) for g in masks]
            kind = src[0]
            b = bpm.BulletProofBuilder()
            if kind == "ref":
                d = prove_ref(vals, masks, r)
            else:
                if kind == "old":
                    p = b.prove_batch_(sv, gm)
                elif kind == "random":
                    b.use_det_masks = False
                    p = b.prove_batch(sv, gm)
                elif kind == "one" and len(vals) == 1:
                    p = b.prove(sv[0], gm[0])
                elif kind == "ct" and max(vals) < 2 ** 64:
                    if len(vals) == 1:
                        C, mk, p = run(ring_ct.prove_range_bp(vals[0], gm[0]))
                        if bytes(crypto.encodepoint(C)) != ref.enc(ref.commit(masks[0], vals[0])) or ref.b2i(bytes(crypto.encodeint(mk))) != masks[0]:
                            self.fails.append(("bp commitment", "prove_range_bp returns another commitment or mask than asked for", list(cls)))
                    else:
                        p = run(ring_ct.prove_range_bp_batch(vals, gm))
                else:
                    p = b.prove_batch(sv, gm)
                d = as_dict(p)
            if d["V"] != commits(vals, masks):
                self.fails.append(("commitments", "a range proof does not commit to the values it was made for", [list(cls), kind]))
            self.c[k] = (d, vals, masks)
        d, v, m = self.c[k]
        return copy.deepcopy(d), list(v), list(m)


def places(n, real, rng):
    """an injection of 1..n into the real rounds which keeps first and last"""
    if n >= real or n < 2:
        return list(range(real))
    return [0] + sorted(rng.sample(range(1, real - 1), n - 2)) + [real - 1]


def alter_pt(k, b, rng):
    P = ref.dec(b)
    if k == "add G":
        P = ref.padd(P, ref.G)
    elif k == "add H":
        P = ref.padd(P, ref.H)
    elif k == "neg":
        P = ref.pneg(P)
    elif k == "id":
        P = ref.ID
    elif k == "tors":
        P = ref.padd(P, ref.dec(rng.choice(SMALL)))
    return ref.enc(P)


SMALL = [ref.enc(ref.pmul(ref.dec(ref.TORSION8), k)) for k in range(1, 8)]


def alter_sc(k, b):
    n = ref.b2i(b)
    if k == "unreduced":
        return ref.i2b(n + L)
    n = {"inc": n + 1, "dec": n - 1, "zero": 0, "minus": -n}[k]
    return ref.i2b(n % L)


SWAPS = {"A": "S", "T1": "T2", "a": "b", "taux": "mu", "t": "a"}


def alter(d, a, rng, pl, rounds0):
    k, e = a["k"], a["e"]
    i, j = a["i"] - 1, a["j"] - 1
    if e in ("L", "R"):
        i, j = (pl[i] if 0 <= i < len(pl) else i + len(d[e]) - rounds0), (pl[j] if 0 <= j < len(pl) else j)
        i, j = min(i, len(d[e]) - 1), min(j, len(d[e]) - 1)
    if k in ("add G", "add H", "neg", "id", "tors"):
        if a["i"]:
            d[e][i] = alter_pt(k, d[e][i], rng)
        else:
            d[e] = alter_pt(k, d[e], rng)
    elif k in ("inc", "dec", "zero", "minus", "unreduced"):
        d[e] = alter_sc(k, d[e])
    elif k == "swap":
        o = {"A": a.get("o", "S")}.get(e, SWAPS[e])
        d[e], d[o] = d[o], d[e]
    elif k == "swap LR":
        d["L"][i], d["R"][i] = d["R"][i], d["L"][i]
    elif k == "swap in":
        d[e][i], d[e][j] = d[e][j], d[e][i]
    elif k in ("drop", "more"):
        for q in VF:
            if q in e:
                d[q] = d[q][:-1] if k == "drop" else d[q] + d[q][-1:]
    elif k == "zero V":
        d["V"] = d["V"] + [ref.enc(ref.ID)]
    elif k == "scale ab":
        d["a"] = ref.i2b(ref.b2i(d["a"]) * 2 % L)
        d["b"] = ref.i2b(ref.b2i(d["b"]) * pow(2, L - 2, L) % L)
    else:
        raise KeyError(k)


def alter_scalar_kind(a):
    return a["e"] in SF


def verify(ds, api):
    ps = [as_proof(d) for d in ds]
    b = bpm.BulletProofBuilder()
    try:
        if api == "batch":
            r = b.verify_batch(ps)
        elif api == "batch2":
            r = b.verify_batch(ps, single_optim=False)
        elif api == "ct":
            r = run(ring_ct.verify_bp(ps[0]))
        elif api == "range":
            r = ring_ct.ver_range(None, ps[0], use_bulletproof=True)
        else:
            r = b.verify(ps[0])
        return bool(r)
    except Exception:
        return False


def by_amounts(d, vals, masks, hist, rng):
    """the same alteration of V as different amounts or masks; None if there is none"""
    vals, masks = list(vals), list(masks)
    for h in hist:
        a = h["d"]
        if a["e"] != "V":
            return None
        i, j = a["i"] - 1, a["j"] - 1
        if a["k"] == "add G":
            masks[i] = (masks[i] + 1) % L
        elif a["k"] == "add H":
            vals[i] += 1
        elif a["k"] == "swap in":
            vals[i], vals[j], masks[i], masks[j] = vals[j], vals[i], masks[j], masks[i]
        elif a["k"] == "drop" and len(vals) > 1:
            vals, masks = vals[:-1], masks[:-1]
        elif a["k"] == "more":
            vals, masks = vals + vals[-1:], masks + masks[-1:]
        elif a["k"] == "zero V":
            vals, masks = vals + [0], masks + [0]
        else:
            return None
    if max(vals) >= 2 ** 64:
        return None
    p = as_proof(d)
    p.V = rng.choice([[], None, p.V])
    try:
        return bool(run(ring_ct.verify_bp(p, vals, [sc(m) for m in masks])))
    except Exception:
        return False


def bp_name(v):
    if not v["hist"]:
        return "bp %s %s" % ("accept" if v["ok"] else "refuse", ",".join(str(len(c)) for c in v["cls"]))
    return "bp " + "; ".join("%s %s" % (h["d"]["k"], h["d"]["e"]) for h in v["hist"]) + (" in a batch" if len(v["cls"]) > 1 else "")


def one_bp(v, pool, rng, fails, crossref):
    srcs = ["main", "main", "ct", "old", "one", "random"]
    inr = all(val(x) < 2 ** 64 for c in v["cls"] for x in c)
    # the independent prover is slow and kept to small proofs
    ds, vm = [], []
    for k, cls in enumerate(v["cls"]):
        s = "ref" if len(cls) <= 2 and inr and rng.random() < .15 and not PY else rng.choice(srcs)
        d, vals, masks = pool.get(cls, (s, k % 3), not v["hist"])
        ds.append(d)
        vm.append((vals, masks))
    orig = copy.deepcopy(ds)
    for h in v["hist"]:
        a = h["d"]
        if a["k"] == "exchange":
            p, q = ds
            for f in {"V": ["V"], "A": ["A"], "LR": ["L", "R"], "ab": ["a", "b"], "taux": ["taux"], "all": PF + SF + VF}[a["e"]]:
                p[f], q[f] = q[f], p[f]
            continue
        b = h["b"] - 1
        real = len(orig[b]["L"])
        model = real - 5          # the specification has one bit of logarithm, the code has six
        pr = random.Random(repr((v, b)))
        alter(ds[b], a, rng, places(model, real, pr), model)
    apis = ["batch", "batch2"] + (["ct", "range", "verify"] if len(ds) == 1 else [])
    api = rng.choice(apis)
    got = verify(ds, api)
    if got != v["ok"]:
        fails.append((bp_name(v), "%s %s a batch of range proofs which the specification %s (via %s)" % (
            "the code", "accepts" if got else "refuses", "accepts" if v["ok"] else "refuses", api), v))
    if len(ds) == 1 and inr and (v["hist"] or not PY):
        g = by_amounts(orig[0], vm[0][0], vm[0][1], v["hist"], rng)
        if g is not None and g != v["ok"]:
            fails.append((bp_name(v) + " by amounts", "verify_bp %s amounts and masks which the specification %s" % (
                "accepts" if g else "refuses", "accepts" if v["ok"] else "refuses"), v))
    if crossref and len(ds) == 1 and len(ds[0]["V"]) <= 2:
        try:
            r = ref.bp_verify(ds[0], [ref.pmul8(ref.dec(x)) for x in ds[0]["V"]])
            # the reference puts 8 V back together and cannot see a small order component of V
            if any(h["d"]["k"] == "tors" and h["d"]["e"] == "V" for h in v["hist"]):
                r = v["ok"]
        except ref.BadPoint:
            r = False
        if r != v["ok"]:
            fails.append((bp_name(v) + " ref", "the reference verifier disagrees with the specification", v))


def one_batch(v, cache, rng, fails):
    """a batch of proofs by provers who leave something over in one of the two equations of a proof"""
    if not cache:
        cache["d"] = rng.choice([1, rng.randrange(1, L)])
    ds = []
    for k, e in enumerate(v["es"]):
        key = (e["y"], e["z"], k % 2)
        if key not in cache:
            cache[key] = prove_ref([rng.randrange(2 ** 64)], [rng.randrange(L)], rng, e["y"] * cache["d"], e["z"] * cache["d"])
        ds.append(copy.deepcopy(cache[key]))
    for api in ["batch", "batch2"] + (["ct", "range", "verify"] if len(ds) == 1 else []):
        got = verify(ds, api)
        if got != v["ok"]:
            fails.append(("dishonest batch", "the code %s a batch of range proofs of a dishonest prover which the specification %s (via %s)" % (
                "accepts" if got else "refuses", "accepts" if v["ok"] else "refuses", api), v))


# ---------------------------------------------------------------- Borromean
def boro_make(c, kind, rng, fails, edge):
    v = val(c)
    mask = rng.choice(([None, 0, 1] if edge else []) + [rng.randrange(L), rng.randrange(L)])
    lm = None if mask is None else sc(mask)
    if kind == "chunked":
        C, a, (s0, s1, ee, Ci) = ring_ct.prove_range_chunked(v, lm)
        q = lambda b: [bytes(b[i * 32:i * 32 + 32]) for i in range(64)]
        d = {"Ci": q(Ci), "s0": q(s0), "s1": q(s1), "ee": bytes(ee)}
    else:
        if kind == "mem":
            C, a, R = ring_ct.prove_range(v, lm)
        elif kind == "orig":
            C, a, R = ring_ct.prove_range(v, lm, mem_opt=False)
        elif kind == "decoded":
            C, a, R = ring_ct.prove_range(v, lm, decode=True)
            R = monero.recode_rangesig(R, encode=True)
        elif kind == "bytes":
            C, a, R = ring_ct.prove_range(v, lm, byte_enc=True)
            R = monero.inflate_rsig(R)
        elif kind == "back":
            C, a, R = ring_ct.prove_range(v, lm, backend_impl=True)
        b = lambda s: [bytes(s[i]) for i in range(len(s))]
        d = {"Ci": b(R.Ci), "s0": b(R.asig.s0), "s1": b(R.asig.s1), "ee": bytes(R.asig.ee)}
    d["C"] = bytes(crypto.encodepoint(C))
    an = ref.b2i(bytes(crypto.encodeint(a)))
    if mask is not None and an != mask:
        fails.append(("borromean mask", "the range proof uses another mask than asked for", [c, kind]))
    if d["C"] != ref.enc(ref.commit(an, v)):
        fails.append(("borromean commitment", "the range proof commits to another value than it was made for", [c, kind]))
    return d


def boro_alter(d, a, cls, rmap):
    k, e = a["k"], a["e"]
    i, j = (rmap[x - 1] if x else None for x in (a["i"], a["j"]))
    pt = lambda b, n, B: ref.enc(ref.padd(ref.dec(b), ref.pmul(B, n)))
    if k == "swap":
        d[e][i], d[e][j] = d[e][j], d[e][i]
    elif k == "swap s":
        d["s0"][i], d["s1"][i] = d["s1"][i], d["s0"][i]
    elif k in ("move G", "move H"):
        B = ref.G if k == "move G" else ref.H
        if i != j:
            d["Ci"][i], d["Ci"][j] = pt(d["Ci"][i], 1, B), pt(d["Ci"][j], L - 1, B)
    elif k == "flip":
        n = 2 ** i if not (val(cls) >> i) & 1 else L - 2 ** i
        d["Ci"][i], d["C"] = pt(d["Ci"][i], n, ref.H), pt(d["C"], n, ref.H)
    elif k in ("drop", "more"):
        for q in ("Ci", "s0", "s1"):
            if e in (q, "all"):
                d[q] = d[q][:-1] if k == "drop" else d[q] + d[q][-1:]
    else:
        cur = d[e] if i is None else d[e][i]
        if k in ("inc", "zero") or (k == "neg" and e in ("s0", "s1", "ee")):
            n = ref.b2i(cur)
            new = ref.i2b({"inc": n + 1, "zero": 0, "neg": -n}[k] % L)
        else:
            P = ref.dec(cur)
            new = ref.enc({"add G": lambda: ref.padd(P, ref.G), "add H": lambda: ref.padd(P, ref.H), "neg": lambda: ref.pneg(P),
                           "id": lambda: ref.ID, "add top": lambda: ref.padd(P, ref.pmul(ref.H, 2 ** 64))}[k]())
        if i is None:
            d[e] = new
        else:
            d[e][i] = new


def boro_verify(d, api):
    try:
        R = xmrtypes.RangeSig(Ci=list(d["Ci"]), asig=xmrtypes.BoroSig(s0=list(d["s0"]), s1=list(d["s1"]), ee=d["ee"]))
        C = crypto.decodepoint(d["C"])
        if api == "decoded":
            return bool(ring_ct.ver_range(C, monero.recode_rangesig(R, encode=False), decode=False))
        return bool(ring_ct.ver_range(C, R))
    except Exception:
        return False


def one_boro(v, cache, rng, fails):
    kind = rng.choice(["mem", "orig", "decoded", "bytes", "chunked", "back"])
    key = (v["cls"], kind, not v["hist"])
    if key not in cache:
        cache[key] = boro_make(v["cls"], kind, rng, fails, not v["hist"])
    d = copy.deepcopy(cache[key])
    rm = [0] + sorted(rng.sample(range(1, 63), 2)) + [63]
    for a in v["hist"]:
        boro_alter(d, a, v["cls"], rm)
    got = boro_verify(d, rng.choice(["encoded", "decoded"]))
    if got != v["ok"]:
        fails.append(("borromean " + ("; ".join("%s %s" % (a["k"], a["e"]) for a in v["hist"]) or "honest " + kind),
                      "ver_range %s a range proof which the specification %s" % ("accepts" if got else "refuses", "accepts" if v["ok"] else "refuses"), v))


# ---------------------------------------------------------------- freshness
def fresh_run():
    """what a process shows of its random elements, for always the same values and masks"""
    out = []
    vals, masks = [0x1122334455667788, 5], [77, 99]
    sv, gm = [sc(v) for v in vals], [sc(g) for g in masks]
    Gi, Hi = ref.bp_gens(128)
    for kind in ("main", "old", "random", "ct", "main"):
        b = bpm.BulletProofBuilder()
        if kind == "random":
            b.use_det_masks = False
        p = run(ring_ct.prove_range_bp_batch(vals, gm)) if kind == "ct" else (b.prove_batch_ if kind == "old" else b.prove_batch)(sv, gm)
        d = as_dict(p)
        aL = [(vals[k // 64] >> (k % 64)) & 1 for k in range(128)]
        A = ref.pmul8(ref.dec(d["A"]))
        for k in range(128):
            A = ref.psub(A, Gi[k]) if aL[k] else ref.padd(A, Hi[k])
        e = {k: d[k].hex() for k in PF + SF}
        e.update({"L%d" % i: x.hex() for i, x in enumerate(d["L"])})
        e["blinding of A"] = ref.enc(A).hex()
        # the blinding vectors, as any other process with the same code would guess them
        g = bpm.BulletProofBuilder()
        if hasattr(g, "sL_vct") and hasattr(g, "sR_vct"):
            g.prove_setup(sv, gm)
            sL = [ref.b2i(bytes(x)) for x in (lambda q: [bytearray(q.to(i)) for i in range(128)])(g.sL_vct(128))]
            sR = [ref.b2i(bytes(x)) for x in (lambda q: [bytearray(q.to(i)) for i in range(128)])(g.sR_vct(128))]
            e["blinding vector"] = ref.i2b(sL[0]).hex()
            e["blinding vector r"] = ref.i2b(sR[0]).hex()
            if guess_t(d, aL, sL, sR) == ref.b2i(d["t"]):
                e["guessed"] = kind
        out.append(e)
    for mk in (ring_ct.prove_range_chunked, ring_ct.prove_range_mem, ring_ct.prove_range_orig):
        r = mk(5, sc(3))
        if mk is ring_ct.prove_range_chunked:
            out.append({"Borromean s": bytes(r[2][0][:32]).hex(), "Borromean C": bytes(r[2][3][:32]).hex()})
        else:
            R = r[2]
            out.append({"Borromean s": bytes(crypto.encodeint(R.asig.s0[0])).hex(), "Borromean C": bytes(crypto.encodepoint(R.Ci[0])).hex()})
    return out


def guess_t(d, aL, sL, sR):
    y = ref.Hs(ref.i2b(ref.Hs(*d["V"])), d["A"], d["S"])
    z = ref.Hs(ref.i2b(y))
    x = ref.Hs(ref.i2b(z), ref.i2b(z), d["T1"], d["T2"])
    t, yp = 0, 1
    for k in range(len(aL)):
        l = (aL[k] - z + x * sL[k]) % L
        r = (yp * (aL[k] - 1 + z) + pow(z, 2 + k // 64, L) * 2 ** (k % 64) + x * sR[k] * yp) % L
        t = (t + l * r) % L
        yp = yp * y % L
    return t


# ---------------------------------------------------------------- driver
def replay(job):
    rng = random.Random(job["seed"])
    fails, pool, cache = [], Pool(job["seed"]), {}
    if job["kind"] == "fresh":
        return fresh_run()
    for k, v in enumerate(job["vecs"]):
        try:
            if job["kind"] == "bp":
                one_bp(v, pool, rng, fails, k % job["cross"] == 0)
            elif job["kind"] == "batch":
                one_batch(v, cache, rng, fails)
            else:
                one_boro(v, cache, rng, fails)
        except Exception as e:
            import traceback
            name = bp_name(v) if job["kind"] == "bp" else "dishonest batch" if job["kind"] == "batch" else "borromean %s" % v["cls"]
            if not any(f.filename.startswith(env.REPO) for f in traceback.extract_tb(e.__traceback__)):
                raise
            fails.append((name + " raises", "%r while proving" % e, v))
    return fails + pool.fails


def check(c):
    from concurrent.futures import ThreadPoolExecutor
    D = c.thorough
    T = lambda b: "TRUE" if b else "FALSE"
    specs = [("RangeProof", dict(Bits=2, LogBits=1, MaxVals=3, MaxBatch=2, Pairs="FALSE", Adv="TRUE", Seeds="{1, 2}" if D else "{1}"), "Complete Sound Emit"),
             ("RangeProof", dict(Bits=2, LogBits=1, MaxVals=16, MaxBatch=1, Pairs="FALSE", Adv="FALSE", Seeds="{1}"), "Complete Sound Emit"),
             ("Borromean", dict(Bits=4, Pairs=T(D), Seeds="{1, 2}" if D else "{1}"), "Complete Sound Emit"),
             ("RangeHide", {}, "Hidden Regular Emit"),
             ("RangeBatch", dict(MaxBatch="3" if D else "2"), "Complete Sound Weak Weak2 Emit")]
    if D:
        specs += [("RangeProof", dict(Bits=2, LogBits=1, MaxVals=3, MaxBatch=3, Pairs="FALSE", Adv="TRUE", Seeds="{1}"), "Complete Sound Emit"),
                  ("RangeProof", dict(Bits=2, LogBits=1, MaxVals=2, MaxBatch=2, Pairs="TRUE", Adv="TRUE", Seeds="{1}"), "Complete Sound Emit"),
                  ("RangeProof", dict(Bits=4, LogBits=2, MaxVals=2, MaxBatch=1, Pairs="FALSE", Adv="TRUE", Seeds="{1, 2, 3}"), "Complete Sound Emit")]
    got = []
    for m, k, inv in specs:
        r = tlc.vectors(m, k, "INVARIANT %s\n" % inv, timeout=1500, workers=8)
        c.add(states=r["distinct"], transitions=r["generated"])
        got.append(r["vectors"])
    rng = random.Random(c.seed)
    need = {v["fixed"][0] for v in got[3] if len(v["fixed"]) == 1 and not v["hides"]}
    assert need == {"gamma", "alpha", "rho", "tau1", "tau2", "sL", "sR"}
    bpv = got[0] + (got[5] + got[6] if D else [])
    rng.shuffle(bpv)
    honest = [v for v in bpv if not v["hist"]]
    altered = strata([v for v in bpv if v["hist"]], rng, 14000 if D else 1500)
    sizes = [v for v in got[1] if sum(map(len, v["cls"])) > 3]
    rng.shuffle(sizes)
    plain = {}
    for v in sizes:
        plain.setdefault(len(v["cls"][0]), v)
    sizes = list(plain.values()) + sizes[:200 if D else 10]
    bo = got[2]
    rng.shuffle(bo)
    bo = [v for v in bo if not v["hist"]] * 3 + strata([v for v in bo if v["hist"]], rng, 6000 if D else 400)
    c.sample(honest[0])
    c.sample(altered[0])
    fast = honest + altered + sizes
    rng.shuffle(fast)
    jobs, n = [], 8
    for i in range(n):
        jobs.append((1, dict(kind="bp", vecs=fast[i::n], seed=c.seed * 100 + i, cross=40)))
    for i in range(2):
        jobs.append((1, dict(kind="boro", vecs=bo[i::2], seed=c.seed * 100 + 20 + i)))
    ba = got[4]
    for i in range(1 + D):
        jobs.append((1, dict(kind="batch", vecs=ba[i::1 + D], seed=c.seed * 100 + 50 + i)))
    jobs.append((0, dict(kind="batch", vecs=[v for v in ba if len(v["es"]) == 2 and sum(abs(e["y"]) + abs(e["z"]) for e in v["es"]) == 2][:6 + 12 * D], seed=c.seed * 100 + 55)))
    small = [v for v in honest + altered if len(v["cls"]) == 1 and len(v["cls"][0]) == 1]
    ks = small[:240 if D else 12]
    for i in range(4):
        jobs.append((0, dict(kind="bp", vecs=ks[i::4], seed=c.seed * 100 + 30 + i, cross=10 ** 9)))
    jobs.append((0, dict(kind="boro", vecs=bo[:100 if D else 8], seed=c.seed * 100 + 40)))
    jobs += [(b, dict(kind="fresh", seed=0)) for b in (1, 1, 0, 0)]
    jobs.sort(key=lambda j: j[0])

    def go(j):
        back, job = j
        return j, procs.call("vlib.ranges", job, EC_BACKEND=str(back), EC_BACKEND_FORCE="1")
    fresh = []
    with ThreadPoolExecutor(8) as ex:
        for (back, job), res in ex.map(go, jobs):
            if job["kind"] == "fresh":
                fresh.append(res)
                continue
            c.add(traces_validated_against_impl=len(job["vecs"]))
            for name, what, v in res:
                c.fail(name, what + ("" if back else " (pure Python backend)"), v)
    seen = {}
    for f in fresh:
        for e in f:
            if "guessed" in e:
                c.fail("hiding blinding vectors", "the blinding vectors of a range proof can be recomputed by anybody; the proof reveals the values", e["guessed"])
            for k, x in e.items():
                if k != "guessed" and x in seen.setdefault(k, set()):
                    c.fail("hiding " + k.rstrip("0123456789"), "two range proofs for the same values and masks share %s: the randomness is not fresh and the proof reveals the values" % k, x)
                seen[k].add(x) if k != "guessed" else None
            c.add(traces_validated_against_impl=1)


def strata(vs, rng, n):
    """at most n of the vectors, every kind of history first"""
    by = {}
    for v in vs:
        hs = [h.get("d", h) for h in v["hist"]]
        by.setdefault((tuple((h["k"], h["e"]) for h in hs), len(v["cls"]) if isinstance(v["cls"], list) else 0), []).append(v)
    out, k = [], 0
    keys = sorted(by)
    rng.shuffle(keys)
    while len(out) < n and any(len(by[q]) > k for q in keys):
        out += [by[q][k] for q in keys if len(by[q]) > k]
        k += 1
    return out[:n]


if __name__ == "__main__":
    print(json.dumps(replay(json.loads(sys.stdin.read()))))
