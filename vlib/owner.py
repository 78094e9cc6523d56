"""A02: the answers of spec/Ownership.tla and spec/SubIndex.tla against the wallet code."""
import copy, json, os, random, subprocess, sys
from collections import defaultdict
from . import env, procs, tlc, ref
from monero_glue.xmr import crypto, monero, ring_ct
from monero_glue.xmr.sub.creds import AccountCreds
from monero_glue.xmr.sub.xmr_net import NetworkTypes
from monero_serialize import xmrtypes
from monero_serialize.xmrtypes import RctType

L = ref.L
U32 = 2 ** 32
TOR = [ref.dec(ref.TORSION8), ref.dec(ref.i2b(2 ** 255 - 20))]
EDGE = [(0, 1), (1, 0), (0, U32 - 1), (U32 - 1, 0), (U32 - 1, U32 - 1), (2 ** 31, 0), (0, 2 ** 31), (0, 255), (0, 256), (256, 0),
        (1, 1), (2, 1), (1, 2), (65536, 1), (1, 65536), (2 ** 24, 5), (5, 2 ** 24)]


def sc(n):
    return crypto.decodeint(ref.i2b(n % L))


def num(s):
    return ref.b2i(bytes(crypto.encodeint(s)))


def pt(b):
    return crypto.decodepoint(bytes(b))


def eb(P):
    return bytes(crypto.encodepoint(P))


class World:
    """Wallets W and F with every secret known, and the scalars of one transaction."""
    def __init__(self, rng):
        self.rng = rng
        rs = lambda: rng.choice([1, 2, L - 1]) if rng.random() < 0.1 else rng.randrange(1, L)
        self.view = {"W": rs(), "F": rs()}
        self.sp = {"W": rs(), "F": rs()}
        while self.sp["F"] == self.sp["W"]:        # equal (or opposite) view keys are fine, the same spend key is not another wallet
            self.sp["F"] = rs()
        ri = lambda: rng.choice(EDGE) if rng.random() < 0.6 else (rng.randrange(U32), rng.randrange(U32))
        ix = []
        while len(ix) < 3:
            i = ri()
            if ix and rng.random() < 0.3:        # relatives of an index already chosen
                a, b = ix[0]
                i = rng.choice([(b, a), (a, (b + 1) % U32), ((a + 1) % U32, b), (a, b ^ 0x80000000), (a ^ 0x100, b)])
            if i not in ix and i != (0, 0):
                ix.append(i)
        self.idx = {"main": (0, 0), "k1": ix[0], "k2": ix[1], "u": ix[2], "fmain": (0, 0),
                    "fsub": rng.choice([ix[0], ri()])}
        if self.idx["fsub"] == (0, 0):
            self.idx["fsub"] = (0, 1)
        self.r = [rng.randrange(1, L) for _ in range(8)]      # r[0]: the transaction's, r[i]: of output i
        self.junk = [rng.randrange(1, L) for _ in range(8)]

    def wal(self, d):
        return "F" if d[0] == "f" else "W"

    def spend(self, d):
        w, i = self.wal(d), self.idx[d]
        s = self.sp[w]
        return s if i == (0, 0) else (s + ref.sub_secret(self.view[w], *i)) % L

    def gen(self, d):
        return 1 if self.idx[d] == (0, 0) else self.spend(d)


def amounts(w, n):
    rng = w.rng
    return [rng.choice([0, 1, 2 ** 64 - 1, 2 ** 63, 255, rng.randrange(2 ** 64), rng.randrange(2 ** 64)]) for _ in range(n)]


class Tx:
    def __init__(self, v, w):
        self.v, self.w = v, w
        rng, n, alt = w.rng, len(v["dests"]), v["alt"]
        k, ai = alt["k"], alt["i"]
        base = 1 if v["base"] == "G" else w.gen(v["base"])
        Rd = w.r[0] * base % L
        der = []
        for i, (d, m) in enumerate(zip(v["dests"], v["modes"])):
            if m == "self":
                x = Rd * w.view["W"]
            elif m == "tx":
                x = w.r[0] * w.gen(d) * w.view[w.wal(d)]
            else:
                x = w.r[i + 1] * w.gen(d) * w.view[w.wal(d)]
            der.append(8 * x % L)
        ders = [ref.gmul(x) for x in der]
        hs = [ref.d2s(D, i) for i, D in enumerate(ders)]
        kd = [(h + w.spend(d)) % L for h, d in zip(hs, v["dests"])]
        self.R = ref.gmul(Rd)
        self.add = [ref.gmul(w.r[i + 1] * w.gen(d) % L) for i, d in enumerate(v["dests"])] if v["adds"] else []
        self.out = [ref.gmul(x) for x in kd]
        types = [RctType.Full, RctType.Simple, RctType.Bulletproof, RctType.Bulletproof2, RctType.Bulletproof2]
        if k == "mask":
            types = types[:3]
        if k not in ("amount", "mask", "commitment", "swap amount", "swap out"):
            types = types + ["clear"]
        self.type = rng.choice(types)
        self.amt = amounts(w, n)
        if self.type == "clear":
            self.amt = [a or 1 for a in self.amt]
        self.mask, self.ecdh, self.com = [], [], []
        for h, a in zip(hs, self.amt):
            ak = ref.i2b(h)
            if self.type == RctType.Bulletproof2:
                m = ref.commitment_mask(ak)
                e = (bytes(32), ref.ecdh_amount_v2(ak, a.to_bytes(8, "little")) + bytes(24))
            else:
                m = rng.randrange(L)
                h1 = ref.Hs(ak)
                h2 = ref.Hs(ref.i2b(h1))
                e = (ref.i2b((m + h1) % L), ref.i2b((a + h2) % L))
            self.mask.append(m)
            self.ecdh.append(e)
            self.com.append(ref.commit(m, a))
        self.tamper(k, ai, n)

    def tamper(self, k, ai, n):
        w, rng, j = self.w, self.w.rng, ai - 1
        X = ref.gmul(w.junk[0])
        sw = lambda s, a, b: (s.__setitem__(a, s[b]), s.__setitem__(b, s[a])) if False else None
        if k == "key other":
            self.out[j] = X
        elif k == "key shift":
            self.out[j] = ref.padd(self.out[j], ref.G)
        elif k == "key small":
            self.out[j] = ref.padd(self.out[j], rng.choice(TOR))
        elif k == "key of address":
            self.out[j] = ref.gmul(w.spend(self.v["dests"][j]))
        elif k == "amount":
            m, a = self.ecdh[j]
            if self.type == RctType.Bulletproof2:
                b = bytearray(a)
                b[rng.randrange(8)] ^= 1 << rng.randrange(8)
                self.ecdh[j] = (m, bytes(b))
            else:
                self.ecdh[j] = (m, ref.i2b((ref.b2i(a) + rng.choice([1, 2 ** 64, L - 1])) % L))
        elif k == "mask":
            m, a = self.ecdh[j]
            self.ecdh[j] = (ref.i2b((ref.b2i(m) + rng.choice([1, 2 ** 64, L - 1])) % L), a)
        elif k == "commitment":
            self.com[j] = ref.padd(self.com[j], rng.choice([ref.G, ref.H, ref.pneg(ref.H), rng.choice(TOR)]))
        elif k == "swap amount":
            if n > 1:
                o = ai % n
                self.ecdh[j], self.ecdh[o] = self.ecdh[o], self.ecdh[j]
        elif k == "swap out":
            self.out[0], self.out[j] = self.out[j], self.out[0]
        elif k == "r other":
            self.R = X
        elif k == "r small":
            self.R = ref.padd(self.R, rng.choice(TOR))
        elif k == "r neg":
            self.R = ref.pneg(self.R)
        elif k == "r id":
            self.R = ref.ID
        elif k == "add other":
            self.add[j] = X
        elif k == "add small":
            self.add[j] = ref.padd(self.add[j], rng.choice(TOR))
        elif k == "add neg":
            self.add[j] = ref.pneg(self.add[j])
        elif k == "add is r":
            self.add[j] = self.R
        elif k == "add short":
            self.add = self.add[:ai]
        elif k == "add more":
            self.add.append(X)
        elif k == "add swap":
            self.add[0], self.add[j] = self.add[j], self.add[0]
        elif k == "add made":
            self.add = [ref.gmul(x) for x in w.junk[:n]]
        elif k != "none":
            raise RuntimeError(k)

    def code(self):
        """As parsed from a block."""
        clear = self.type == "clear"
        t = xmrtypes.Transaction(version=1 if clear else 2, unlock_time=0, vin=[], extra=[])
        t.vout = [xmrtypes.TxOut(amount=a if clear else 0, target=xmrtypes.TxoutToKey(key=bytearray(ref.enc(P)))) for a, P in zip(self.amt, self.out)]
        rv = xmrtypes.RctSig()
        rv.type = RctType.Null if clear else self.type
        rv.ecdhInfo = [xmrtypes.EcdhTuple(mask=bytearray(m), amount=bytearray(a)) for m, a in self.ecdh]
        rv.outPk = [xmrtypes.CtKey(dest=bytearray(32), mask=bytearray(ref.enc(c))) for c in self.com]
        t.rct_signatures = rv
        return t


def tables(w):
    """The address tables the wallet builds first and after learning: with neighbours, but never with an address that is not known."""
    rng = w.rng
    not1 = {w.idx["k2"], w.idx["u"]}
    near = lambda i: [(i[0], x % U32) for x in (i[1] - 2, i[1] - 1, i[1] + 1)]
    one = {}
    monero.compute_subaddresses(CW(w), 0, [0] + [x for x in (1, 2) if (0, x) not in not1], one)
    monero.compute_subaddresses(CW(w), w.idx["k1"][0], [w.idx["k1"][1]] + [m for a, m in near(w.idx["k1"]) if (a, m) not in not1], one)
    return one


def learn(w, one):
    i = w.idx["k2"]
    extra = [m for m in ((i[1] + 1) % U32, w.idx["k1"][1]) if (i[0], m) != w.idx["u"]]
    if w.rng.random() < 0.5:
        return monero.compute_subaddresses(CW(w), i[0], [i[1]] + extra, one)
    two = monero.compute_subaddresses(CW(w), i[0], [i[1]] + extra)
    two.update(one)
    return two


def CW(w, watch=False):
    k = ("cw", watch)
    if k not in w.__dict__:
        c = AccountCreds.new_wallet(sc(w.view["W"]), sc(w.sp["W"]), w.rng.choice([NetworkTypes.MAINNET, NetworkTypes.TESTNET, NetworkTypes.STAGENET]))
        if watch:
            c.spend_key_private = crypto.sc_0()
        w.__dict__[k] = c
    return w.__dict__[k]


def scan(w, tx, code, table, watch):
    """What the wallet makes of every output."""
    creds = CW(w, watch)
    res = []
    try:
        der = crypto.generate_key_derivation(pt(ref.enc(tx.R)), creds.view_key_private)
        adds = [crypto.generate_key_derivation(pt(ref.enc(x)), creds.view_key_private) for x in tx.add]
    except Exception as e:
        return "derivation: %r" % e
    got = defaultdict(lambda: 0)
    for i, o in enumerate(code.vout):
        r = {}
        try:
            inf = monero.check_acc_out_precomp(o, table, der, adds, i)
            r["own"] = "error" if inf.error else "yes" if inf.received else "no"
        except Exception as e:
            r["own"], r["exc"] = "error", repr(e)
        if r["own"] == "yes":
            r["at"] = tuple(inf.received[0])
            r["via"] = eb(inf.received[1])
            try:
                before = got[r["at"]]
                outs = []
                s = monero.scan_output(creds, code, i, inf, got, outs, False)
                r.update(amount=s.amount, secret=num(s.in_ephemeral), image=eb(s.ki), sum=got[r["at"]] - before, outs=outs)
                if tx.type != "clear":
                    r["mask"] = num(s.mask)
            except Exception as e:
                r["scan"] = repr(e)
        try:
            g = monero.generate_key_image_helper(creds, table, pt(o.target.key), pt(ref.enc(tx.R)), [pt(ref.enc(x)) for x in tx.add], i)
            r["helper"] = (num(g[0]), eb(g[1]))
        except Exception as e:
            r["helper"] = repr(e)
        if i == 0:
            try:
                ki, sig = ring_ct.export_key_image(creds, table, pt(o.target.key), pt(ref.enc(tx.R)), [pt(ref.enc(x)) for x in tx.add], i, test=False)
                r["export"] = (eb(ki), num(sig[0][0]), num(sig[0][1]))
            except Exception as e:
                r["export"] = repr(e)
        res.append(r)
    return res


def judge(w, tx, v, want, got, rnd, bad):
    if isinstance(got, str):
        return bad("derivation", got)
    for i, (e, g) in enumerate(zip(want, got)):
        d = v["dests"][i]
        tag = "output %d (to %s by %s) in scan %d" % (i, d, v["modes"][i], rnd)
        if e["own"] != "yes":
            if g["own"] == "yes":
                bad("takes foreign", "%s is taken for own as %s" % (tag, g["at"]))
            if e["own"] == "no" and g["own"] == "error":
                bad("foreign error", "%s is not own, yet scanning fails: %s" % (tag, g.get("exc")))
            if isinstance(g.get("helper"), tuple):
                bad("key image of foreign", "%s gets a key image" % tag)
            if isinstance(g.get("export"), tuple):
                bad("key image of foreign", "%s gets an exported key image" % tag)
            continue
        if g["own"] != "yes":
            bad("own not recognised", "%s is own, the wallet says %s %s" % (tag, g["own"], g.get("exc", "")))
            continue
        if g["at"] != w.idx[e["at"]]:
            bad("wrong address", "%s was received at %s, the wallet says %s" % (tag, w.idx[e["at"]], g["at"]))
        src = tx.R if e["via"] == "tx" else tx.add[i]
        D = ref.derivation(src, w.view["W"])
        if g["via"] != ref.enc(D):
            bad("wrong derivation", tag)
        x = (ref.d2s(D, i) + w.spend(e["at"])) % L
        if ref.enc(ref.gmul(x)) != ref.enc(tx.out[i]):
            raise RuntimeError("harness: %s" % tag)
        if e["spend"] == "refused":
            if isinstance(g.get("helper"), tuple) or "secret" in g:
                bad("watch-only secret", "%s: a wallet without spend key gives a secret" % tag)
            continue
        ki = ref.enc(ref.key_image(x))
        if g["helper"] != (x, ki):
            bad("secret or image", "%s: generate_key_image_helper gives %s" % (tag, g["helper"] if isinstance(g["helper"], str) else "another value"))
        ex = g.get("export")
        if ex is not None:
            if isinstance(ex, str) or ex[0] != ki:
                bad("exported image", "%s: %s" % (tag, ex if isinstance(ex, str) else "another value"))
            elif not ref.ring1_verify(ki, ref.dec(ki), tx.out[i], ex[1], ex[2]):
                bad("exported signature", tag)
        if e["money"] == "ok":
            if "scan" in g:
                bad("scan refuses", "%s: %s" % (tag, g["scan"]))
            elif (g["amount"], g["secret"], g["image"], g["sum"]) != (tx.amt[i], x, ki, tx.amt[i]) or g["outs"] != [i]:
                bad("scan result", "%s: amount %s for %s" % (tag, g["amount"], tx.amt[i]))
            elif tx.type != "clear" and g["mask"] != tx.mask[i]:
                bad("scan mask", tag)
        elif "scan" not in g:
            bad("altered amount", "%s: %s is accepted as %s" % (tag, v["alt"]["k"], g["amount"]))


def replay(v, seed, fails):
    rng = random.Random(seed)
    w = World(rng)
    tx = Tx(v, w)
    hist = []
    def bad(key, what):
        fails.append([key, "%s [alteration %s, ring ct type %s]" % (what, v["alt"], tx.type), {"vector": v, "seed": seed, "indices": w.idx}])
    one = tables(w)
    code = tx.code()
    judge(w, tx, v, v["res"][0], scan(w, tx, code, one, v["watch"]), 1, bad)
    two = learn(w, one)
    judge(w, tx, v, v["res"][1], scan(w, tx, code, two, v["watch"]), 2, bad)


def le(ds, base):
    return sum(d * base ** i for i, d in enumerate(ds))


def replay_index(vs, seed, fails):
    rng = random.Random(seed)
    view, spend = rng.randrange(1, L), rng.randrange(1, L)
    creds = AccountCreds.new_wallet(sc(view), sc(spend))
    B = ref.gmul(spend)
    Dp = ref.gmul(rng.randrange(1, L))
    dpt = pt(ref.enc(Dp))
    key = pt(ref.enc(ref.gmul(rng.randrange(1, L))))
    for n, v in enumerate(vs):
        def bad(key_, what):
            fails.append([key_, what, v])
        if v["kind"] == "pos":
            p = le(v["pos"], 128)
            h = ref.Hs(ref.enc(Dp), bytes(v["a"]))
            calls = {"derivation_to_scalar": (lambda: num(crypto.derivation_to_scalar(dpt, p)), h),
                     "derive_secret_key": (lambda: num(crypto.derive_secret_key(dpt, p, sc(spend))), (h + spend) % L),
                     "derive_public_key": (lambda: eb(crypto.derive_public_key(dpt, p, creds.spend_key_public)), ref.enc(ref.padd(ref.gmul(h), B))),
                     "derive_subaddress_public_key": (lambda: eb(monero.derive_subaddress_public_key(pt(ref.enc(ref.padd(ref.gmul(h), B))), dpt, p)), ref.enc(B))}
            for nm, (f, want) in calls.items():
                try:
                    if f() != want:
                        bad("position", "%s at position %d" % (nm, p))
                except Exception as e:
                    if p < U32:
                        bad("position", "%s at position %d: %r" % (nm, p, e))
            continue
        a, b = le(v["maj"], 256), le(v["mnr"], 256)
        if v["tag"] == "refused":
            for nm, f in (("secret", lambda: monero.get_subaddress_secret_key(sc(view), major=a, minor=b)),
                          ("keys", lambda: monero.generate_sub_address_keys(sc(view), creds.spend_key_public, a, b)),
                          ("spend key", lambda: monero.get_subaddress_spend_public_key(sc(view), creds.spend_key_public, a, b)),
                          ("table", lambda: monero.compute_subaddresses(creds, a, [b]))):
                try:
                    f()
                    bad("index out of range", "%s of (%d, %d) is given" % (nm, a, b))
                except Exception:
                    pass
            continue
        if v["tag"] == "main":
            D, C = B, ref.gmul(view)
            if num(monero.get_subaddress_secret_key(sc(view), major=0, minor=0)) != view:
                bad("subaddress secret", "(0, 0)")
        else:
            m = ref.Hs(b"SubAddr\0", ref.i2b(view), bytes(v["a"]), bytes(v["b"]))
            s1 = num(monero.get_subaddress_secret_key(sc(view), major=a, minor=b))
            s2 = num(monero.get_subaddress_secret_key(sc(view), index=xmrtypes.SubaddressIndex(major=a, minor=b)))
            if s1 != m or s2 != m or num(crypto.get_subaddress_secret_key(sc(view), a, b)) != m:
                bad("subaddress secret", "(%d, %d)" % (a, b))
            if n % 16:
                continue
            D = ref.padd(B, ref.gmul(m))
            C = ref.pmul(D, view)
        D, C = ref.enc(D), ref.enc(C)
        g = monero.generate_sub_address_keys(sc(view), creds.spend_key_public, a, b)
        if (eb(g[0]), eb(g[1])) != (D, C):
            bad("subaddress keys", "(%d, %d)" % (a, b))
        if eb(monero.get_subaddress_spend_public_key(sc(view), creds.spend_key_public, a, b)) != D:
            bad("subaddress spend key", "(%d, %d)" % (a, b))
        t = {b"x": (9, 9)}
        r = monero.compute_subaddresses(creds, a, [b], t)
        if {bytes(k): tuple(x) for k, x in r.items()} != {b"x": (9, 9), D: (a, b)}:
            bad("subaddress table", "(%d, %d)" % (a, b))
        for net in (NetworkTypes.MAINNET, NetworkTypes.TESTNET, NetworkTypes.STAGENET):
            ai = monero.build_address_info(creds, (a, b), None, net)
            from monero_glue.xmr.sub import addr
            dec = addr.decode_addr(ai.addr)
            if (bytes(dec.spend_key), bytes(dec.view_key)) != (D, C) or bool(ai.is_sub_address) != ((a, b) != (0, 0)):
                bad("subaddress text", "(%d, %d)" % (a, b))


def worker(job):
    fails = []
    if job["kind"] == "index":
        replay_index(job["vectors"], job["seed"], fails)
    else:
        for k, v in enumerate(job["vectors"]):
            replay(v, job["seed"] * 1000003 + k, fails)
    return {"n": len(job["vectors"]), "fails": fails[:200]}


def check(c):
    from concurrent.futures import ThreadPoolExecutor
    rng = random.Random(c.seed)
    inv = "INVARIANT Recognised NoForeign Opens Grows Images Emit\n"
    sets = []
    for mo, free, quick, deep in ((2, False, 700, 3600), (2, True, 900, 30000), (3, False, 500, 20000), (3, True, 0, 20000), (4, False, 0, 20000)):
        if not (deep if c.thorough else quick):
            continue
        if c.thorough or mo < 3 or not free:
            r = tlc.vectors("Ownership", {"MaxOut": str(mo), "Free": str(free).upper()}, inv, timeout=1500, workers=6)
            c.add(states=r["distinct"], transitions=r["generated"])
            vs = r["vectors"]
            vs.sort(key=lambda v: json.dumps(v, sort_keys=True))
            want = deep if c.thorough else quick
            if len(vs) > want:
                # every alteration with every ownership outcome, then others at random
                seen, first, rest = set(), [], []
                rng.shuffle(vs)
                for v in vs:
                    k = (v["alt"]["k"], tuple((a["own"], a["via"], a["money"]) for a in v["res"][1]), v["watch"]) if mo > 1 else None
                    (rest if k in seen else first).append(v)
                    seen.add(k)
                vs = (first + rest)[:want]
            sets += vs
    r = tlc.vectors("SubIndex", {"Bytes": "{0,1,127,128,255}" if c.thorough else "{0,1,128,255}", "Width": "5", "Digits": "{0,1,64,126,127}", "MaxDigits": "7" if c.thorough else "5"},
                    "INVARIANT Injective Emit\n", timeout=600)
    c.add(states=r["distinct"], transitions=r["generated"])
    ix = sorted(r["vectors"], key=lambda v: json.dumps(v, sort_keys=True))
    rng.shuffle(sets)
    rng.shuffle(ix)
    jobs = []
    per = -(-len(sets) // 7)
    for k in range(7):
        jobs.append((1, {"kind": "own", "seed": c.seed + k, "vectors": sets[k * per:(k + 1) * per]}))
    py = sets[:2000 if c.thorough else 240]
    for k in range(4):
        jobs.insert(k, (0, {"kind": "own", "seed": c.seed + 100 + k, "vectors": py[k::4]}))
    jobs.append((1, {"kind": "index", "seed": c.seed, "vectors": ix}))
    pos = [v for v in ix if v["kind"] == "pos"][:100]
    jobs.append((0, {"kind": "index", "seed": c.seed, "vectors": [v for v in ix if v["kind"] == "sub"][:2000 if c.thorough else 300] + pos}))

    def go(j):
        back, job = j
        return j, procs.call("vlib.owner", job, EC_BACKEND=str(back), EC_BACKEND_FORCE="1")
    with ThreadPoolExecutor(8) as ex:
        for (back, job), res in ex.map(go, jobs):
            c.add(traces_validated_against_impl=res["n"])
            for key, what, data in res["fails"]:
                c.fail(key, "%s (backend %d)" % (what, back), data)
    for v in sets[:3]:
        c.sample(v)
    c.sample(ix[0])


if __name__ == "__main__":
    print(json.dumps(worker(json.load(sys.stdin)), default=str))
