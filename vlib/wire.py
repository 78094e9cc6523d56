"""C01: the wire format (spec/Wire.tla) replayed into the codec; every real message against the pinned schema."""
import io, json, os, random, sys
from . import env, tlc
from .env import run, VERIF
from monero_glue import protobuf as p, messages as M
from monero_glue.hwtoken import misc as hmisc
from monero_glue.protocol_base import messages as pbm

TYPES = {"UVarintType": "uv", "SVarintType": "sv", "BoolType": "bool", "BytesType": "by", "UnicodeType": "str"}
SCHEMA = os.path.join(VERIF, "spec", "messages.json")


class T(p.MessageType):
    @classmethod
    def get_fields(cls):
        return {1: ("f1", p.UVarintType, 0), 2: ("f2", p.BytesType, 0), 3: ("f3", T, 0), 4: ("f4", p.UVarintType, p.FLAG_REPEATED),
                5: ("f5", p.BytesType, p.FLAG_REPEATED), 6: ("f6", T, p.FLAG_REPEATED), 7: ("f7", p.BoolType, 0),
                8: ("f8", p.SVarintType, 0), 9: ("f9", p.UnicodeType, 0), 20: ("f20", p.UVarintType, 0)}


KIND = {1: "uv", 2: "by", 3: "msg", 4: "uv", 5: "by", 6: "msg", 7: "bool", 8: "sv", 9: "str", 20: "uv"}
REP = {4, 5, 6}


def num(g):
    return sum(x << (7 * i) for i, x in enumerate(g))


def value(kind, x):
    if kind == "uv":
        return num(x)
    if kind == "sv":
        n = num(x)
        return (n >> 1) ^ -(n & 1)
    if kind == "bool":
        return num(x) != 0
    if kind == "by":
        return bytes(x)
    if kind == "str":
        return bytes(x).decode()
    return build(x)


def build(fields):
    m = T()
    for t, x in fields:
        v = value(KIND[t], x)
        n = "f%d" % t
        if t in REP:
            getattr(m, n).append(v)
        else:
            setattr(m, n, v)
    return m


def plain(m):
    """A message as comparable data."""
    out = {}
    for t, (n, ft, fl) in type(m).get_fields().items():
        v = getattr(m, n, "missing")
        if isinstance(v, list):
            out[n] = [plain(x) if isinstance(x, p.MessageType) else (type(x).__name__, x) for x in v]
        else:
            out[n] = plain(v) if isinstance(v, p.MessageType) else (type(v).__name__, v)
    return out


def as_dict(m, txt):
    """Fields by name; bytes as hex text or as they are, absent ones left out."""
    def one(x):
        return as_dict(x, txt) if isinstance(x, p.MessageType) else x.hex() if txt and isinstance(x, bytes) else x
    out = {}
    for t, (n, ft, fl) in type(m).get_fields().items():
        v = getattr(m, n)
        if v is not None and v != []:
            out[n] = [one(x) for x in v] if isinstance(v, list) else one(v)
    return out


class Short:
    """A reader that ends with 0 instead of an exception."""
    def __init__(self, b):
        self.b = io.BytesIO(b)

    def readinto(self, buf):
        return self.b.readinto(buf)


class Sink:
    def __init__(self):
        self.b = bytearray()

    def write(self, x):
        self.b += bytes(x)
        return len(x)


def encode(m):
    s = Sink()
    run(p.dump_message(s, m))
    a = bytes(run(hmisc.dump_pb_msg(m)))
    return bytes(s.b), a


def decode(b, cls):
    out = []
    for f in (lambda: run(hmisc.parse_pb_msg(b, cls)), lambda: run(p.load_message(Short(b), cls)),
              lambda: run(p.load_message(p.LimitedReader(Short(b + b"\x08\x01"), len(b)), cls))):
        try:
            out.append(f())
        except Exception as e:
            out.append(None)
    return out


def synthetic(c, vecs):
    for v in vecs:
        b, how, (res, fields) = bytes(v["b"]), v["how"], v["r"]
        c.add(traces_validated_against_impl=1)
        key = b.hex()
        if how == ["enc"] and res == "ok" and single(fields):
            m = build(fields)
            for got in encode(m):
                if reorder(got) != reorder(b) or len(got) != len(b):
                    c.fail("enc %s" % key, "%s is written as %s, not %s" % (plain(m), got.hex(), b.hex()), v)
            for txt in (False, True):
                d = as_dict(m, txt)
                try:
                    n = p.dict_to_proto(T, d)
                except Exception as e:
                    n = None
                if n is None or plain(n) != plain(m):
                    c.fail("dict %s" % key, "the fields %s become the message %s, not %s" % (d, n, m), v)
        if res == "free":
            continue
        for i, m in enumerate(decode(b, T)):
            if res == "err":
                if m is not None:
                    c.fail("accepted %s" % key, "the malformed message %s (%s) is read as %s" % (b.hex(), how, m), v)
                continue
            if m is None:
                c.fail("refused %s" % key, "the message %s (%s) is refused by reader %d" % (b.hex(), how, i), v)
            elif plain(m) != plain(build(fields)):
                c.fail("content %s" % key, "the message %s (%s) is read as %s, not %s" % (b.hex(), how, m, build(fields)), v)


def single(fields):
    """No field that is not repeated occurs twice (the last occurrence wins: such a message is not what a writer writes)."""
    tags = [t for t, _ in fields if t not in REP]
    return len(tags) == len(set(tags)) and all(single(x) for t, x in fields if KIND[t] == "msg")


def reorder(b):
    """Fields of a valid message sorted by tag (the writer chooses the order)."""
    i, fs = 0, []

    def vi(i):
        n, s = 0, 0
        while True:
            n |= (b[i] & 127) << s
            s += 7
            i += 1
            if not b[i - 1] & 128:
                return n, i
    while i < len(b):
        st = i
        k, i = vi(i)
        n, i = vi(i)
        body = b""
        if k & 7 == 2:
            body = b[i:i + n]
            i += n
        fs.append((k, n, body if k >> 3 not in (3, 6) else tuple(reorder(body)) if body else b"", ))
    return sorted(fs, key=lambda f: f[0])


# -- the real messages ------------------------------------------------------------------
def classes():
    out = {}
    for n in dir(M):
        x = getattr(M, n)
        if isinstance(x, type) and issubclass(x, p.MessageType) and x is not p.MessageType:
            out[n] = x
    return out


def schema():
    out = {}
    for n, x in classes().items():
        fs = {}
        for t, (fn, ft, fl) in x.get_fields().items():
            if isinstance(ft, p.EnumType):
                k = "en:%s" % ",".join(str(x) for x in ft.enum_values)
            else:
                k = TYPES.get(ft.__name__) or "msg:" + ft.__name__
            fs[str(t)] = [fn, k, fl & p.FLAG_REPEATED]
        out[n] = {"wire": getattr(x, "MESSAGE_WIRE_TYPE", None), "fields": fs}
    return out


def varint(n):
    o = bytearray()
    while True:
        o.append((n & 127) | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return bytes(o)


def rval(rng, k, S, depth):
    """(python value, encoded body, wire type)"""
    if k == "uv":
        n = rng.choice([0, 1, 127, 128, 300, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randrange(2 ** 40)])
        return n, varint(n), 0
    if k.startswith("en:"):
        n = int(rng.choice(k[3:].split(",")))
        return n, varint(n), 0
    if k == "sv":
        n = rng.choice([0, 1, -1, 63, 64, -64, -65, 2 ** 31 - 1, -2 ** 31])
        return n, varint((n << 1) ^ (n >> 63)), 0
    if k == "bool":
        n = rng.random() < .5
        return n, varint(int(n)), 0
    if k == "by":
        n = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 31, 32, 33, 127, 128, 300])))
        return n, varint(len(n)) + n, 2
    if k == "str":
        n = rng.choice(["", "a", "zażółć", "x" * 200])
        e = n.encode()
        return n, varint(len(e)) + e, 2
    name = k[4:]
    v, e = rmsg(rng, name, S, depth + 1, "rand")
    return v, varint(len(e)) + e, 2


def rmsg(rng, name, S, depth, mode):
    fs = S[name]["fields"]
    vals, out = {}, []
    tags = sorted(fs, key=int)
    for t in tags:
        fn, k, rep = fs[t]
        if mode == "none" or (mode == "rand" and rng.random() < .4) or (isinstance(mode, tuple) and mode[1] != t):
            continue
        if depth > 3 and k.startswith("msg:"):
            continue
        items = [rval(rng, k, S, depth) for _ in range(rng.choice([1, 2, 3]) if rep else 1)]
        for v, e, w in items:
            out.append((int(t), varint(8 * int(t) + w) + e))
        vals[fn] = [v for v, _, _ in items] if rep else items[0][0]
    return (name, vals), b"".join(e for _, e in sorted(out, key=lambda x: x[0]))


def inst(v):
    if isinstance(v, tuple):
        cls = getattr(M, v[0])
        m = cls()
        for k, x in v[1].items():
            setattr(m, k, [inst(y) for y in x] if isinstance(x, list) else inst(x))
        return m
    return v


def real(c):
    S = json.load(open(SCHEMA))
    have = classes()
    for name in sorted(S):
        if name not in have:
            c.fail("message %s" % name, "the message %s is gone" % name)
            continue
        rng = random.Random("%d/%s" % (c.seed, name))
        cls = have[name]
        monero = name.startswith(("Monero", "DebugMonero")) or name in ("Failure", "Success", "ButtonRequest", "ButtonAck")
        modes = ["none", "all"] + [("one", t) for t in S[name]["fields"]] + ["rand"] * ((6 if monero else 1) * (4 if c.thorough else 1))
        w = S[name]["wire"]
        if w is not None:
            try:
                if cls.MESSAGE_WIRE_TYPE != w or (monero and (pbm.get_message_type(cls()) != w or pbm.get_message_from_type(w) is not cls)):
                    c.fail("wire %s" % name, "%s does not have wire type %d" % (name, w))
            except Exception as e:
                c.fail("wire %s" % name, "%s: %r instead of wire type %d" % (name, e, w))
        for mode in modes:
            v, e = rmsg(rng, name, S, 0, mode)
            c.add(traces_validated_against_impl=1)
            key = "%s %s" % (name, mode)
            try:
                m = inst(v)
                got = encode(m)
            except Exception as x:
                c.fail("real enc %s" % key, "%s cannot be written: %r" % (v, x))
                continue
            for g in got:
                if canon(g, name, S) != canon(e, name, S):
                    c.fail("real enc %s" % key, "%s is written as %s, not %s" % (v, g.hex(), e.hex()))
            for i, r in enumerate(decode(e, cls)):
                if r is None or plain(r) != plain(m):
                    c.fail("real dec %s" % key, "%s is read back as %s" % (v, r))
            # unknown field in front and behind; then every kind of cut inside the last field
            u = varint(8 * 12345) + b"\x05" + varint(8 * 12346 + 2) + b"\x02\x08\x01"
            r = decode(u + e + u, cls)[0]
            if r is None or plain(r) != plain(m):
                c.fail("real skip %s" % key, "%s with unknown fields is read as %s" % (v, r))
            starts = boundaries(e)
            for k in sorted({1, len(e) // 2, len(e) - 1, len(e) - 2}):
                if 0 < k < len(e) and k not in starts:
                    for r in decode(e[:k], cls)[:2]:
                        if r is not None:
                            c.fail("real cut %s" % key, "%s cut to %d bytes is read as %s" % (v, k, r))
            # values held as bytearrays are the same message
            try:
                g = encode(pbm.bytes_fix(loosen(inst(v))))[0]
                if g != got[0]:
                    c.fail("real fix %s" % key, "%s with mutable bytes is written as %s" % (v, g.hex()))
            except Exception as x:
                c.fail("real fix %s" % key, "%s with mutable bytes: %r" % (v, x))
            # values handed over in parts too
            try:
                g = encode(parts(inst(v), rng))[0]
                if g != got[0]:
                    c.fail("real parts %s" % key, "%s with bytes in parts is written as %s" % (v, g.hex()))
            except Exception as x:
                c.fail("real parts %s" % key, "%s with bytes in parts: %r" % (v, x))


def parts(m, rng):
    def f(y):
        if isinstance(y, p.MessageType):
            return parts(y, rng)
        if not isinstance(y, bytes) or rng.random() < .3:
            return y
        at = [0] + sorted(rng.randrange(len(y) + 1) for _ in range(rng.randrange(4))) + [len(y)]
        return [y[a:b] for a, b in zip(at, at[1:])]
    for t, (n, ft, fl) in m.get_fields().items():
        x = getattr(m, n)
        setattr(m, n, [f(y) for y in x] if isinstance(x, list) else f(x))
    return m


def loosen(m):
    for t, (n, ft, fl) in m.get_fields().items():
        x = getattr(m, n)
        f = lambda y: bytearray(y) if isinstance(y, bytes) else loosen(y) if isinstance(y, p.MessageType) else y
        setattr(m, n, [f(y) for y in x] if isinstance(x, list) else f(x))
    return m


def boundaries(b):
    i, out = 0, {0}

    def vi(i):
        n, s = 0, 0
        while True:
            n |= (b[i] & 127) << s
            s += 7
            i += 1
            if not b[i - 1] & 128:
                return n, i
    while i < len(b):
        k, i = vi(i)
        n, i = vi(i)
        if k & 7 == 2:
            i += n
        out.add(i)
    return out


def canon(b, name, S):
    """The encoded fields sorted by tag at every level (the writer chooses the order), or None."""
    try:
        bs = sorted(boundaries(b))
        out = []
        for i, j in zip(bs, bs[1:]):
            k, n = pv(b, i)
            fn, t, rep = S[name]["fields"].get(str(k >> 3), [None, "", 0])
            if t.startswith("msg:") and k & 7 == 2:
                n = pv(b, n)[1]
                out.append((k, canon(b[n:j], t[4:], S)))
            else:
                out.append((k, b[i:j]))
        return None if bs[-1] != len(b) else sorted(out, key=lambda x: x[0])
    except IndexError:
        return None


def pv(b, i):
    n, s = 0, 0
    while True:
        n |= (b[i] & 127) << s
        s += 7
        i += 1
        if not b[i - 1] & 128:
            return n, i


def check(c):
    r = tlc.vectors("Wire", {"Deep": "TRUE" if c.thorough else "FALSE"}, "INVARIANT Exact Skip Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    synthetic(c, r["vectors"])
    real(c)


if __name__ == "__main__":
    with open(SCHEMA, "w") as fh:
        json.dump(schema(), fh, indent=0, sort_keys=True)
        fh.write("\n")
