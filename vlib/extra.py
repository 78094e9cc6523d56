"""C02: the extra field (spec/TxExtra.tla) and payment id encryption (spec/PaymentId.tla) replayed into the code."""
import types
from . import env, tlc, ref
from .env import run
from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub import tsx_helper as th
from monero_serialize import xmrtypes as xt

KINDS = {"pub": xt.TxExtraPubKey, "nonce": xt.TxExtraNonce, "addl": xt.TxExtraAdditionalPubKeys, "mm": xt.TxExtraMergeMiningTag,
         "mg": xt.TxExtraMysteriousMinergate, "pad": xt.TxExtraPadding}
KEYS = {}


def key(i):
    if i not in KEYS:
        KEYS[i] = ref.enc(ref.gmul(1000003 * i + 7))
    return KEYS[i]


def conc(bs):
    return bytes(b if b < 1000 else key((b - 1000) // 32)[(b - 1000) % 32] for b in bs)


def split(b):
    return [bytes(b[i:i + 32]) for i in range(0, len(b), 32)]


def canon(fs):
    """Parsed fields as (kind, bytes)."""
    out = []
    for f in fs:
        k = [k for k, x in KINDS.items() if isinstance(f, x)][0]
        d = {"pub": lambda: bytes(f.pub_key), "nonce": lambda: bytes(f.nonce), "addl": lambda: [bytes(x) for x in f.data],
             "mm": lambda: (f.depth, bytes(f.merkle_root)), "mg": lambda: bytes(f.data), "pad": lambda: None}[k]()
        out.append((k, d))
    return out


def want(fs):
    out = []
    for f in fs:
        d = conc(f["d"])
        out.append((f["k"], split(d) if f["k"] == "addl" else (0, d) if f["k"] == "mm" else None if f["k"] == "pad" else d))
    return out


def vi(n):
    return bytes([n]) if n < 128 else bytes([128 | n & 127, n >> 7])


def build(hist):
    """Every intermediate text of the operations, by the code's own functions."""
    for first in (b"", bytearray()):
        ex, out = first, []
        for i, f in enumerate(hist):
            d = conc(f["d"])
            if f["k"] == "pub":
                ex = th.add_tx_pub_key_to_extra(ex, crypto.decodepoint(d))
            elif f["k"] == "nonce":
                ex = th.add_extra_nonce_to_tx_extra(ex, d)
            elif f["k"] == "addl":
                if i % 2 and d:
                    ex = run(th.add_additional_tx_pub_keys_to_extra(ex, pub_enc=split(d)))
                else:
                    ex = run(th.add_additional_tx_pub_keys_to_extra(ex, [crypto.decodepoint(x) for x in split(d)]))
            elif f["k"].startswith("drop "):
                ex = bytes(run(th.remove_field_from_tx_extra(list(ex) if i % 2 else ex, KINDS[f["k"][5:]])))
            else:
                ex = bytes(ex) + {"mm": lambda: b"\x03\x21\x00" + d, "mg": lambda: b"\xde" + vi(len(d)) + d, "pad": lambda: d}[f["k"]]()
        yield bytes(ex)


def parse(b):
    out = []
    for x in (bytes(b), list(b), bytearray(b)):
        try:
            out.append(canon(run(monero.parse_extra_fields(x))))
        except Exception:
            out.append(None)
    return out


def nonces(c, fs, name):
    """The meaning of a nonce depends on its length and its first byte."""
    for k, d in fs:
        if k != "nonce":
            continue
        enc, pid = len(d) == 9 and d[0] == 1, len(d) == 33 and d[0] == 0
        got = bool(th.has_encrypted_payment_id(d)), bool(th.has_payment_id(d))
        if got != (enc, pid):
            c.fail("nonce kind %s" % d.hex(), "nonce %s: (encrypted, plain) payment id %s, not %s" % (d.hex(), got, (enc, pid)))
        for f, ok, mk in ((th.get_encrypted_payment_id_from_tx_extra_nonce, enc, th.set_encrypted_payment_id_to_tx_extra_nonce),
                          (th.get_payment_id_from_tx_extra_nonce, pid, th.set_payment_id_to_tx_extra_nonce)):
            try:
                r = bytes(f(d))
            except Exception:
                r = None
            if r != (d[1:] if ok else None):
                c.fail("nonce id %s" % d.hex(), "%s of nonce %s is %s" % (f.__name__, d.hex(), r and r.hex()))
            if ok and bytes(mk(d[1:])) != d:
                c.fail("nonce set %s" % d.hex(), "%s is not the inverse" % mk.__name__)


def finders(c, raw, fs, name):
    ps = run(monero.parse_extra_fields(raw))
    for k, cls in KINDS.items():
        idx = [i for i, f in enumerate(fs) if f[0] == k]
        for n in range(len(idx) + 1):
            got = th.find_tx_extra_field_by_type(ps, cls, n)
            if got is not (ps[idx[n]] if n < len(idx) else None):
                c.fail("find %s %s" % (k, name), "looking for item %d of kind %s in %s" % (n, k, name))
    pubs = [d for k, d in fs if k == "pub"]
    td = types.SimpleNamespace(m_tx=types.SimpleNamespace(extra=list(raw)))
    try:
        got = bytes(run(monero.get_tx_pub_key_from_received_outs(td)))
    except Exception:
        got = None
    if got != (pubs[0] if len(pubs) == 1 else None):
        c.fail("tx pub %s" % name, "%d public keys: the transaction key is %s" % (len(pubs), got and got.hex()))


def replay(c, vecs):
    for v in vecs:
        raw, fs = conc(v["ex"]), want(v["f"])
        name = "%s %s" % ("+".join("%s%d" % (f["k"], len(f["d"])) for f in v["h"]), v["alt"])
        c.add(traces_validated_against_impl=1)
        if v["alt"][0] == "none":
            try:
                made = list(build(v["h"]))
            except Exception as e:
                c.fail("build %s" % name, "%s cannot be built: %r" % (name, e), v)
                continue
            for m in made:
                if m != raw:
                    c.fail("build %s" % name, "%s gives %s, not %s" % (name, m.hex(), raw.hex()), v)
            finders(c, raw, fs, name)
            nonces(c, fs, name)
        for got in parse(raw):
            if v["r"] == "ok" and got != fs:
                c.fail("parse %s" % name, "%s (%s) is read as %s, not %s" % (raw.hex(), name, got, fs), v)
            if v["r"] == "err" and got is not None:
                c.fail("accept %s" % name, "%s (%s) is read as %s" % (raw.hex(), name, got), v)
    for n in (256, 257, 300, 1000):
        try:
            th.add_extra_nonce_to_tx_extra(b"", bytes(n))
            c.fail("long nonce", "a nonce of %d bytes is accepted" % n)
        except Exception:
            pass


def payids(c, vecs):
    import random
    rng = random.Random(c.seed)
    s = {i: rng.randrange(1, ref.L) for i in range(1, 5)}
    s[2] = ref.L - 1                                    # also an extreme one
    pt = {i: ref.gmul(x) for i, x in s.items()}
    mask = {}
    for r in (1, 2):
        for a in (3, 4):
            D = ref.enc(ref.derivation(pt[a], s[r]))
            for t in (141, 139):
                mask[(r, a, t)] = ref.keccak(D + bytes([t]))[:8]
    memo = {}
    for v in vecs:
        c.add(traces_validated_against_impl=1)
        x = bytes(v["pid"])
        for o in v["ops"]:
            r, a = o["pair"]
            k, P = (s[r], pt[a]) if o["side"] == "s" else (s[a], pt[r])
            kk = (k, o["side"], r, a, o["t"])
            if kk not in memo:
                P = ref.padd(P, ref.pmul(ref.dec(ref.TORSION8), o["t"])) if o["t"] else P
                memo[kk] = crypto.decodepoint(ref.enc(P)), crypto.decodeint(ref.i2b(k))
            f = th.encrypt_payment_id if o["tail"] == 141 else th.encrypt_payment_id_bugbug
            y = f(x, *memo[kk])
            x = bytes(y)
        w = int.from_bytes(bytes(v["pid"]), "big")
        for (r, a), t in v["masks"]:
            w ^= int.from_bytes(mask[(r, a, t)], "big")
        if x != w.to_bytes(8, "big"):
            c.fail("pid %s" % v["ops"], "payment id %s after %s is %s, not %s" % (bytes(v["pid"]).hex(), v["ops"], x.hex(), w.to_bytes(8, "big").hex()), v)


def check(c):
    d = "TRUE" if c.thorough else "FALSE"
    r = tlc.vectors("TxExtra", {"Deep": d, "MaxOps": 3}, "INVARIANT RoundTrip Truncated Emit\n", timeout=800)
    c.add(states=r["distinct"], transitions=r["generated"])
    replay(c, r["vectors"])
    r = tlc.vectors("PaymentId", {"Deep": d, "MaxOps": 2}, "INVARIANT Undone Parity Emit\n", timeout=800)
    c.add(states=r["distinct"], transitions=r["generated"])
    payids(c, r["vectors"])
