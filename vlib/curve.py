"""X01: programs over scalars and points (spec/Curve.tla), run in every backend."""
import json, os, random, subprocess, sys
from . import env, procs, tlc, ref

L = ref.L


def num(d):
    return sum(x << 12 * i for i, x in enumerate(d))


def i2b(n):
    return n.to_bytes(32, "little")


_pts, _tor = {}, []


def point(v):
    """The encoding of g G + h H + t T."""
    k = (num(v["g"]), num(v["h"]), v["t"])
    if k not in _pts:
        if not _tor:
            p = ref.ID
            for _ in range(8):
                _tor.append(p)
                p = ref.padd(p, ref.dec(ref.TORSION8))
        p = ref.padd(ref.gmul(k[0]), _tor[k[2]])
        if k[1]:
            p = ref.padd(p, ref.pmul(ref.H, k[1]))
        _pts[k] = ref.enc(p)
    return _pts[k]


def want(kind, v):
    return point(v) if kind == "p" else i2b(num(v)) if kind in "skg" else num(v) if kind == "a" else bool(v)


class Runner:
    def __init__(self, seed):
        from monero_glue.xmr import crypto
        self.c, self.rng, self.fails, self.n = crypto, random.Random(seed), [], 0
        self.back = os.environ["EC_BACKEND"]

    def bad(self, key, what, v):
        self.fails.append(["%s: %s" % (self.back, key), "backend %s, %s" % (self.back, what), v])

    # values of the code
    def make(self, kind, v):
        c = self.c
        if kind == "p":
            b = point(v)
            return c.decodepoint(b)
        if kind == "a":
            return num(v)
        n = num(v)
        return c.sc_init(n) if n < 1 << 64 and self.rng.random() < .3 else c.decodeint(i2b(n))

    def show(self, kind, o):
        c = self.c
        if kind == "p":
            if self.rng.random() < .2:
                b = bytearray(b"\xa5" * 40)
                c.encodepoint_into(b, o, 4)
                if b[:4] + b[36:] != b"\xa5" * 8:
                    return b"encodepoint_into wrote outside its 32 bytes"
                return bytes(b[4:36])
            return bytes(c.encodepoint(o))
        if kind == "s":
            if self.rng.random() < .2:
                b = bytearray(b"\xa5" * 40)
                c.encodeint_into(b, o, 4)
                if b[:4] + b[36:] != b"\xa5" * 8:
                    return b"encodeint_into wrote outside its 32 bytes"
                return bytes(b[4:36])
            return bytes(c.encodeint(o))
        return int(o) if kind == "a" else bool(o)

    def call(self, op, args, into):
        """into: None or the object to write into."""
        c, r = self.c, self.rng
        if op == "sc_copy":
            return c.sc_copy(into, args[0])
        if op in ("sc_reencode", "sc_noreduce", "reencode"):
            b = bytes(c.encodepoint(args[0]) if op == "reencode" else c.encodeint(args[0]))
            off = r.choice([0, 0, 1, 32])
            b = r.choice([bytes, bytearray])(b"\x77" * off + b)
            if op == "sc_noreduce":
                return c.decodeint_into_noreduce(into, b, off)
            if into is None:
                return c.decodepoint(b, off) if op == "reencode" else c.decodeint(b, off)
            return c.decodepoint_into(into, b, off) if op == "reencode" else c.decodeint_into(into, b, off)
        if op == "on_curve":
            c.check_ed25519point(args[0])
            return c.ge_frombytes_vartime_check(args[0]) == 0
        if op == "scalarmult_h" and into is None:
            n = num_of(c, args[0])
            return c.scalarmult_h(n if n < 1 << 64 and r.random() < .5 else args[0])
        if op == "ge_double_scalarmult_precomp_vartime":
            return c.ge_double_scalarmult_precomp_vartime(args[0], args[1], args[2], c.ge_dsm_precomp(args[3]))
        if op == "ge_double_scalarmult_precomp_vartime2":
            return c.ge_double_scalarmult_precomp_vartime2(args[0], c.ge_dsm_precomp(args[1]), args[2], c.precomp(args[3]))
        if op == "sc_0" or op == "identity":
            return getattr(c, op + "_into")(into) if into is not None else getattr(c, op)()
        if into is not None:
            return getattr(c, op + "_into")(into, *args)
        return getattr(c, op)(*args)

    def walk(self, v):
        c = self.c
        R = {"s": [self.make("s", x) for x in v["start"][0]], "p": [self.make("p", x) for x in v["start"][1]]}
        V = {"s": list(v["start"][0]), "p": list(v["start"][1])}
        for k, st in enumerate(v["prog"]):
            args = []
            for kind, i in zip(st["kinds"], st["ix"]):
                if kind == "a":
                    args.append(num(V["s"][i - 1]))
                else:
                    args.append(R["p" if kind == "p" else "s"][i - 1])
            res, dst = st["res"], st["dst"] - 1
            into = R[res][dst] if st["into"] else None
            try:
                o = self.call(st["op"], args, into)
                got = self.show(res, o)
            except Exception as e:
                return self.bad(st["op"], "step %d: %s fails with %r" % (k, text(st), e), v)
            if got != want(res, st["val"]):
                return self.bad(st["op"], "step %d: %s gives %s, not %s" % (k, text(st), hx(got), hx(want(res, st["val"]))), v)
            if res in "sp":
                V[res][dst] = st["val"]
                if into is None:    # point_norm may return its argument itself
                    R[res][dst] = self.make("p", st["val"]) if st["op"] == "point_norm" else o
            for kind in "sp":
                for j, (o, w) in enumerate(zip(R[kind], V[kind])):
                    if self.show(kind, o) != want(kind, w):
                        return self.bad(st["op"], "step %d: after %s register %s%d is not what it was" % (k, text(st), kind, j + 1), v)

    def one(self, v):
        c, st = self.c, v["prog"][0]
        kinds, res, op = st["kinds"], st["res"], st["op"]
        w = want(res, st["val"])
        forms = [None]
        if st["into"]:
            forms += ["fresh"] + [i for i, k in enumerate(kinds) if k == res]
        if res == "p" and len(kinds) == 4 and len(forms) > 2:
            forms = self.rng.sample(forms, 2)
        for f in forms:
            try:
                args = [self.make(k, x) for k, x in zip(kinds, v["start"])]
                into = None if f is None else (c.new_point() if res == "p" else c.new_scalar()) if f == "fresh" else args[f]
                o = self.call(op, args, into)
                outs = [o] if into is None else [o, into]
                got = [self.show(res, x) for x in outs]
                same = all(k == "a" or args[i] is into or self.show("p" if k == "p" else "s", args[i]) == want(k, x) for i, (k, x) in enumerate(zip(kinds, v["start"])))
            except Exception as e:
                self.bad(op, "%s%s fails with %r on %s" % (op, form(f), e, v["start"]), v)
                continue
            for g in got:
                if g != w:
                    self.bad(op, "%s%s gives %s, not %s, on %s" % (op, form(f), hx(g), hx(w), args_text(kinds, v["start"])), v)
            if not same:
                self.bad(op, "%s%s changes its arguments %s" % (op, form(f), args_text(kinds, v["start"])), v)

    def raw(self, v):
        c, st = self.c, v["prog"][0]
        if st["op"] == "enc":
            b, off, s = v["start"]
            return self.enc(i2b((b * ref.P + off - 20) | s << 255), v)
        b = i2b(num(v["start"]))
        w = i2b(num(st["val"]))
        try:
            if bytes(c.encodeint(c.decodeint(b))) != w or bytes(c.encodeint(c.decodeint_into(c.new_scalar(), bytearray(b)))) != w:
                self.bad("decodeint", "the scalar of %s is not reduced to %s" % (b.hex(), w.hex()), v)
            if st["zero"]:
                return
            k = c.decodeint_into_noreduce(c.new_scalar(), b)
            ok = c.sc_check(k) == 0
            try:
                c.check_sc(k)
                ok2 = True
            except ValueError:
                ok2 = False
            if ok != st["valid"] or ok2 != st["valid"]:
                self.bad("sc_check", "%s %s" % (b.hex(), "is refused as a scalar" if st["valid"] else "passes as a reduced scalar"), v)
        except Exception as e:
            self.bad("decodeint", "decoding %s fails with %r" % (b.hex(), e), v)

    def enc(self, b, v):
        c = self.c
        try:
            w = ref.enc(ref.dec(b))
        except ref.BadPoint:
            w = None
        if w is not None and w != b or v and w and not v["prog"][0]["canonical"]:
            raise RuntimeError("reference and specification differ on %s" % b.hex())
        for form in ("decodepoint", "decodepoint_into"):
            try:
                o = c.decodepoint(b) if form == "decodepoint" else c.decodepoint_into(c.new_point(), b)
                g = bytes(c.encodepoint(o))
            except Exception as e:
                g = None
            if g != w:
                self.bad(form, "%s: %s" % (b.hex(), "refused" if g is None else "decoded as %s" % g.hex()), v)

    def hash(self, v):
        c, st, r = self.c, v["prog"][0], self.rng
        parts = [point(p["v"]) if p["k"] == "p" else i2b(num(p["v"])) if p["k"] == "s" else bytes(p["v"]) if p["k"] == "b" else r.randbytes(p["v"]) for p in st["parts"]]
        h = ref.keccak(*parts)
        x = ref.b2i(h) % L
        op, bec = st["op"], st["becomes"]
        idx = lambda i: i[0] << 16 | i[1]
        kind = "s"
        if bec == "base + x G":
            w, kind = ref.enc(ref.padd(ref.dec(point(st["base"])), ref.gmul(x))), "p"
        else:
            w = {"x": i2b(x), "base + x": i2b((num(st["base"]) + x) % L) if "base" in st else 0, "hash": h, "hash of hash": ref.keccak(h),
                 "point": None, "hmac": None}[bec]
        if bec == "point":
            w, kind = ref.enc(ref.h2p(parts[0])), "p"
        if bec == "hmac":
            w = ref.hmac_keccak(*parts)
        try:
            s = v["start"]
            if op == "derivation_to_scalar":
                got = [self.show("s", c.derivation_to_scalar(self.make("p", s[0]), idx(s[1])))]
            elif op == "derive_public_key":
                got = [self.show("p", c.derive_public_key(self.make("p", s[0]), idx(s[1]), self.make("p", st["base"])))]
            elif op == "derive_secret_key":
                got = [self.show("s", c.derive_secret_key(self.make("p", s[0]), idx(s[1]), self.make("s", st["base"])))]
            elif op == "get_subaddress_secret_key":
                got = [self.show("s", c.get_subaddress_secret_key(self.make("s", s[0]), idx(s[1]), idx(s[2])))]
            elif op == "hash_to_point":
                o = c.hash_to_point_into(c.new_point(), parts[0])
                got = [self.show("p", c.hash_to_point(parts[0])), self.show("p", o)]
            elif op == "hash_to_scalar":
                b = parts[0]
                got = [self.show("s", c.hash_to_scalar(b)), self.show("s", c.hash_to_scalar_into(c.new_scalar(), bytearray(b)))]
                if b:
                    got.append(self.show("s", c.hash_to_scalar(b + b"xyz", len(b))))
                    got.append(self.show("s", c.hash_to_scalar_into(c.new_scalar(), b + b"xyz", len(b))))
            elif op == "compute_hmac":
                m = c.get_hmac(parts[0])
                m.update(parts[1])
                got = [bytes(c.compute_hmac(parts[0], parts[1])), bytes(m.digest())]
            else:
                got = [bytes(getattr(c, op)(parts[0]))]
        except Exception as e:
            return self.bad(op, "%s of %s fails with %r" % (op, v["start"], e), v)
        for g in got:
            if g != w:
                return self.bad(op, "%s of %s gives %s, not %s" % (op, v["start"], g.hex(), w.hex()), v)

    def extras(self, n):
        """Encodings and hashes of random content, constants, random scalars."""
        c, r = self.c, self.rng
        for _ in range(n):
            b = r.randbytes(32)
            self.enc(b, None)
            if bytes(c.encodepoint(c.hash_to_point(b))) != ref.enc(ref.h2p(b)):
                self.bad("hash_to_point", "hash_to_point of %s is wrong" % b.hex(), None)
            if bytes(c.encodeint(c.hash_to_scalar(b))) != ref.Hs(b) and bytes(c.encodeint(c.hash_to_scalar(b))) != i2b(ref.b2i(ref.keccak(b)) % L):
                self.bad("hash_to_scalar", "hash_to_scalar of %s is wrong" % b.hex(), None)
        for bad in (b"", b"\x01", i2b(1)[:31]):
            for f in ("decodepoint", "decodeint"):
                try:
                    getattr(c, f)(bad)
                    self.bad(f, "%s accepts %d bytes" % (f, len(bad)), None)
                except Exception:
                    pass
        seen = set()
        for k in range(64):
            s = c.random_scalar() if k % 2 else c.random_scalar_into(c.new_scalar())
            seen.add(bytes(c.encodeint(s)))
            if c.sc_check(s) != 0:
                self.bad("random_scalar", "a random scalar is not reduced", None)
        if len(seen) != 64:
            self.bad("random_scalar", "random scalars repeat", None)
        if bytes(c.encodepoint(c.xmr_H())) != ref.enc(ref.H) or bytes(c.encodepoint(c.identity())) != i2b(1) or bytes(c.identity(True)) != i2b(1):
            self.bad("constants", "H or the identity is wrong", None)
        if bytes(c.encodeint(c.sc_inv_eight())) != i2b(pow(8, L - 2, L)):
            self.bad("constants", "1/8 is wrong", None)
        p = ref.H
        for k, q in enumerate(c.gen_Hpow(64)):
            if bytes(c.encodepoint(q)) != ref.enc(p):
                self.bad("gen_Hpow", "2^%d H is wrong" % k, None)
                break
            p = ref.padd(p, p)
        for n, f in ((1 << 64, c.sc_init), (-1, c.sc_init), (1 << 64, lambda n: c.gen_c(c.sc_0(), n))):
            try:
                g = f(n)
            except Exception:
                continue
            g = self.show("s" if f == c.sc_init else "p", g)
            if g != (i2b(n % L) if f == c.sc_init else ref.enc(ref.pmul(ref.H, n))):
                self.bad("64 bits", "the number %d is truncated" % n, None)


def num_of(c, s):
    return ref.b2i(bytes(c.encodeint(s)))


def hx(g):
    return g.hex() if isinstance(g, bytes) and len(g) == 32 else repr(g)


def form(f):
    return "" if f is None else " into a fresh object" if f == "fresh" else " into its argument %d" % (f + 1)


def text(st):
    return "%s%s(%s) -> %d" % (st["op"], "_into" if st["into"] else "", ",".join("%s%d" % x for x in zip(st["kinds"], st["ix"])), st["dst"])


def args_text(kinds, start):
    return ", ".join(hx(want(k, x)) for k, x in zip(kinds, start))


def worker(job):
    r = Runner(job["seed"])
    for mode, vs in job["vectors"].items():
        for v in vs:
            if len(r.fails) > 300:
                break
            getattr(r, mode)(v)
            r.n += 1
    if job["extras"]:
        r.extras(job["extras"])
    return {"n": r.n, "fails": r.fails}


def check(c):
    from concurrent.futures import ThreadPoolExecutor
    rng = random.Random(c.seed)
    st = lambda it: "{%s}" % ",".join(map(str, it))
    if c.thorough:
        plan = [("raw", [0], 1, 0), ("hash", [0], 1, 0)] + [("walk", range(1000 * c.seed + 400 * k, 1000 * c.seed + 400 * k + 400), 24, 0) for k in range(6)] + [("one", [k], 1, 3) for k in range(3)]
    else:
        plan = [("raw", [0], 1, 0), ("hash", [0], 1, 0), ("walk", range(1000 * c.seed, 1000 * c.seed + 200), 14, 0), ("one", [c.seed % 5], 1, 5)]
    vs = {}
    for mode, seeds, steps, picks in plan:
        r = tlc.vectors("Curve", {"Mode": '"%s"' % mode, "Seeds": st(seeds), "Steps": str(steps), "Picks": str(picks)}, "INVARIANT Laws Emit\n",
                        timeout=3000, workers=8)
        c.add(states=r["distinct"], transitions=r["generated"])
        vs.setdefault(mode, []).extend(sorted(r["vectors"], key=lambda v: json.dumps(v, sort_keys=True)))
    jobs = []
    for mode in vs:
        rng.shuffle(vs[mode])
    for back in "10":
        n = 8 if c.thorough else 4
        for k in range(n):
            jobs.append((back, {"seed": c.seed * 100 + k, "extras": (300 if c.thorough else 40) if k == 0 else 0,
                                "vectors": {m: vs[m][k::n] for m in vs}}))

    def go(j):
        back, job = j
        return procs.call("vlib.curve", job, EC_BACKEND=back)
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(go, jobs):
            c.add(traces_validated_against_impl=res["n"])
            for key, what, data in res["fails"]:
                c.fail(key, what, data)
    for m in vs:
        c.sample(vs[m][0])


if __name__ == "__main__":
    print(json.dumps(worker(json.load(sys.stdin)), default=str))
