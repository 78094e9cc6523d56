"""A03: word lists (spec/Mnemonic.tla) and key derivation from secrets (spec/SeedPath.tla) replayed into the code."""
import hashlib, hmac, random, zlib
from . import env, tlc, ref
from .env import run
from multiprocessing import Pool
from monero_glue.xmr.core import mnemonic
from monero_glue.xmr.sub.seed import SeedDerivation
from monero_glue.xmr import crypto
from monero_glue.misc.bip import bip32, bip39

N = 1626
WORDS_SHA = "3c381ebb6defd69ab7c1998641c8a047a1488fcebc393c5ef44828ca9128003b"   # as on the pinned tree
W = list(mnemonic.mn_words())


# -- reference ------------------------------------------------------------------------
def ref_words(seed):
    out = []
    for i in range(0, len(seed), 4):
        x = int.from_bytes(seed[i:i + 4], "little")
        a = x % N
        b = (x // N + a) % N
        c = (x // N // N + b) % N
        out += [a, b, c]
    return [W[i] for i in out]


def chk_idx(ws):
    return (zlib.crc32("".join(w[:3] for w in ws).encode()) & 0xffffffff) % len(ws)


def ref_decode(ws):
    """bytes, or None if the list is refused."""
    n = len(ws)
    if n < 3 or n % 3 == 2:
        return None
    if n % 3 == 1:
        last, ws = ws[-1], ws[:-1]
        if ws[chk_idx(ws)][:3] != last[:3]:
            return None
    out = b""
    for i in range(0, len(ws), 3):
        try:
            a, b, c = (W.index(w) for w in ws[i:i + 3])
        except ValueError:
            return None
        x = a + N * ((b - a) % N) + N * N * ((c - b) % N)
        if x >= 2 ** 32:
            return None
        out += x.to_bytes(4, "little")
    return out


P = 2 ** 256 - 2 ** 32 - 977
NN = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def _add(p, q):
    if p is None:
        return q
    if q is None:
        return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        l = 3 * p[0] * p[0] * pow(2 * p[1], -1, P)
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P)
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


def _pub(k):
    r, q = None, GX
    while k:
        if k & 1:
            r = _add(r, q)
        q = _add(q, q)
        k >>= 1
    return bytes([2 + (r[1] & 1)]) + r[0].to_bytes(32, "big")


def hs(key, msg):
    d = hmac.new(key, msg, hashlib.sha512).digest()
    return d[:32], d[32:]


def ref_node(seed, ed, path):
    k, c = hs(b"ed25519 seed" if ed else b"Bitcoin seed", seed)
    for i, h in path:
        n = (i + (2 ** 31 if h else 0)).to_bytes(4, "big")
        if h:
            data = b"\0" + k + n
        else:
            data = _pub(int.from_bytes(k, "big")) + n
        il, c = hs(c, data)
        k = il if ed else ((int.from_bytes(il, "big") + int.from_bytes(k, "big")) % NN).to_bytes(32, "big")
    return k


def ref_keys(master):
    b = ref.b2i(master) % ref.L
    a = ref.b2i(ref.keccak(ref.i2b(b))) % ref.L
    return a, b


# -- word lists -----------------------------------------------------------------------
def groups(c, vecs):
    for kind, x, y in vecs:
        if kind == "list":
            continue
        c.add(traces_validated_against_impl=1)
        if kind == "enc":
            b, ws = bytes(x), [W[i] for i in y]
        else:
            b, ws = bytes(y) if y else None, [W[i] for i in x]
        if b is not None:
            for m in (b, bytes(4) + b + bytes([1, 2, 3, 4])):
                got = mnemonic.mn_encode(m)
                if got != ref_words(m) or (m == b and got != ws):
                    c.fail("words %s" % m.hex(), "%s becomes %s, not %s" % (m.hex(), got, ref_words(m)), [kind, x, y])
        for l in (ws, ref_words(bytes(4)) + ws, ws + ref_words(bytes(range(4)))):
            want = ref_decode(l)
            if l is ws and want != b:
                raise RuntimeError("reference and specification differ on %s" % (x,))
            got = decode(l)
            if got != want:
                c.fail("unwords %s" % l, "%s becomes %s, not %s" % (l, got and got.hex(), want and want.hex()), [kind, x, y])


def decode(l):
    try:
        return bytes.fromhex(mnemonic.mn_decode(l))
    except Exception:
        return None


def edit(rng, e, g, c):
    """A list after the edit (None: does not apply)."""
    def fix(l):
        return l[:-1] + [l[:-1][chk_idx(l[:-1])]] if c else l
    for _ in range(3000):
        seed = bytes(rng.randrange(256) for _ in range(4 * g))
        l = ref_words(seed)
        if c:
            l = l + [l[chk_idx(l)]]
        k = e[0]
        p = e[1] - 1 if len(e) > 1 else 0
        if k == "none":
            return l
        if k == "caps":
            return [w.upper() for w in l]
        if k == "tuple":
            return l
        if k == "spaces":
            return [" %s " % w for w in l]
        if k == "joined":
            return [" ".join(l)]
        if k == "drop":
            return l[:p] + l[p + 1:]
        if k == "dup":
            return l[:p] + [l[p]] + l[p:]
        if k == "unknown":
            w = rng.choice([l[p] + "x", "zzqj", "", "qqq", l[p][::-1]]) if p < 3 * g else rng.choice(["zzqj", "", "qqq"])
            if w in W or (p == 3 * g and w[:3] == l[p][:3]):
                continue
            return l[:p] + [w] + l[p + 1:]
        if k == "chk":
            w = rng.choice(W) if e[1] == 1 else rng.choice(l[:-1]) if e[1] == 2 else W[(W.index(l[-1]) + 1) % N]
            if w[:3] == l[-1][:3]:
                continue
            return l[:-1] + [w]
        if k == "extra":
            return l + [rng.choice(W) for _ in range(e[1])]
        if k == "other":
            m = l[:p] + [rng.choice(W)] + l[p + 1:]
        elif k == "swap":
            m = l[:p] + [l[p + 1], l[p]] + l[p + 2:]
        elif k == "over":
            x = rng.choice([2 ** 32, N ** 3 - 1, 2 ** 32 + rng.randrange(N ** 3 - 2 ** 32)])
            a = x % N
            b = (x // N + a) % N
            m = l[:3 * p] + [W[a], W[b], W[(x // N // N + b) % N]] + l[3 * p + 3:]
        if m == l:
            continue
        if c and e[2]:
            m = fix(m)
        plain = m[:3 * g]
        over = any(ref_decode(plain[i:i + 3]) is None for i in range(0, 3 * g, 3))
        if (k == "over") != over:
            continue
        if c and (m[-1][:3] == plain[chk_idx(plain)][:3]) != e[2]:
            continue
        return m
    return None


def lists(c, vecs):
    for kind, x, _ in vecs:
        if kind != "list":
            continue
        rng = random.Random("%d/%s" % (c.seed, x))
        for rep in range(1 if not c.thorough else 4):
            l = edit(rng, x["e"], x["g"], x["c"])
            if l is None:
                continue
            c.add(traces_validated_against_impl=1)
            tidy = [w.strip().lower() for w in l]
            want = ref_decode(tidy)
            if (x["decode"] == "no") != (want is None) and x["decode"] in ("no", "yes") and not (x["e"][0] in ("drop", "dup", "extra")):
                raise RuntimeError("reference and specification differ on %s: %s" % (x, l))
            key = "%s" % ([x["g"], x["c"], x["e"]],)
            arg = tuple(l) if x["e"][0] == "tuple" else list(l)
            got = decode(arg)
            if got != want and not (x["decode"] == "free" and got is None):
                c.fail("list %s" % key, "the list %s decodes to %s, not %s" % (l, got and got.hex(), want and want.hex()), x)
            try:
                s = SeedDerivation.from_monero_mnemonics(tuple(l) if x["e"][0] == "tuple" else list(l))
            except Exception:
                s = None
            ww = want if want is not None and len(want) == 32 else None
            if x["e"][0] == "joined":
                ww = None if s is None else ref_decode(l[0].split(" "))
            if s is None:
                if ww is not None and x["wallet"] not in ("free",):
                    c.fail("wallet %s" % key, "the list %s is refused" % l, x)
                continue
            if ww is None:
                c.fail("wallet %s" % key, "the list %s gives a wallet" % l, x)
                continue
            wallet_ok(c, key, s, ww)


def wallet_ok(c, key, s, master):
    a, b = ref_keys(master)
    got = (bytes(s.monero_master), crypto.encodeint(s.spend_sec), crypto.encodeint(s.view_sec), crypto.encodepoint(s.spend_pub), crypto.encodepoint(s.view_pub))
    want = (master, ref.i2b(b), ref.i2b(a), ref.enc(ref.gmul(b)), ref.enc(ref.gmul(a)))
    if tuple(bytes(x) for x in got) != want:
        c.fail("keys %s" % key, "the seed %s gives keys %s, not %s" % (master.hex(), [bytes(x).hex() for x in got], [x.hex() for x in want]), key)
        return
    ws = s.electrum_words.split(" ")
    wr = ref_words(master)
    if ws != wr + [wr[chk_idx(wr)]]:
        c.fail("ewords %s" % key, "the seed %s has words %s" % (master.hex(), ws), key)
    for net, ver in ((0, 18), (1, 53), (2, 24)):
        cr = s.creds(net)
        from .addrs import b58
        raw = bytes([ver]) + want[3] + want[4]
        if bytes(cr.address) != b58(raw + ref.keccak(raw)[:4]) or crypto.encodeint(cr.spend_key_private) != want[1] or \
                crypto.encodeint(cr.view_key_private) != want[2] or crypto.encodepoint(cr.spend_key_public) != want[3] or cr.network_type != net:
            c.fail("creds %s" % key, "the wallet of seed %s on network %d is %r" % (master.hex(), net, cr.address), key)


# -- derivation -----------------------------------------------------------------------
def one_path(a):
    v, seed, zero_at = a
    rng = random.Random("%d/%s" % (seed, v))
    src, ed, path = v["src"], v["curve"] == "ed", v["path"]
    fails = []

    class C:
        def fail(self, k, w, d=None):
            fails.append((k, w, d))
    c = C()
    key = "%s" % ([src, v["curve"], path, v["prog"][-2:]],)
    kw = {}
    if ed:
        kw["slip0010"] = True
    if "default" not in v["prog"]:
        kw["path"] = "/".join(["m"] + ["%d%s" % (i, rng.choice("'p") if h else "") for i, h in path])
    try:
        if src in ("monero", "words", "words24"):
            m = rng.choice([bytes(rng.randrange(256) for _ in range(32)), b"\xff" * 32, bytes(31) + b"\x10", ref.i2b(ref.L), ref.i2b(ref.L + 5), ref.i2b(1)])
            if src == "monero":
                s = SeedDerivation.from_monero_seed(m)
            else:
                wl = ref_words(m)
                s = SeedDerivation.from_monero_mnemonics(wl if src == "words24" else wl + [wl[chk_idx(wl)]])
        else:
            if src.startswith("master"):
                for _ in range(9000):
                    ms = bytes(rng.randrange(256) for _ in range(int(src[6:])))
                    if not zero_at or (zero_at == 3 and ref_node(ms, ed, [(i, h) for i, h in path[:1]])[0] == 0) or \
                            (zero_at < 3 and hs(b"ed25519 seed" if ed else b"Bitcoin seed", ms)[zero_at - 1][0] == 0):
                        break                       # a master key, chain code or child key whose first byte is zero
                s = SeedDerivation.from_master_seed(ms, **kw)
            else:
                ent = bytes(rng.randrange(256) for _ in range(rng.choice((16, 24, 32))))
                bits = bin(int.from_bytes(ent + hashlib.sha256(ent).digest()[:1], "big"))[2:].zfill(8 * len(ent) + 8)
                nw = {16: 12, 24: 18, 32: 24}[len(ent)]
                idx = [int(bits[11 * i:11 * i + 11], 2) for i in range(nw)]
                wl = [bip39.english_words[i] for i in idx]
                pw = rng.choice([b"TREZOR", b" Two  words ", "h\u00e4\u03b1\u4e2d".encode(), b"\x00\xff", b"x" * 200]) if src == "bip39pass" else b""
                form = rng.choice([wl, tuple(wl), [w.upper() for w in wl], [" ".join(wl[:5])] + wl[5:], [" ".join(wl)],
                                   [w.capitalize() for w in wl]] + ([] if src == "bip39idx" else [" ".join(wl), " ".join(wl).upper()]))
                if src == "bip39idx":
                    n = 11 * nw // 8
                    ms = (int(bits[:11 * nw], 2) >> (11 * nw - 8 * n)).to_bytes(n, "big")
                    got = bytes(bip32.Wallet.indices_to_bytes(idx))
                    if got != ms:
                        c.fail("indices %s" % key, "the words %s stand for %s, not %s" % (wl, got.hex(), ms.hex()), v)
                    back = bip32.Wallet.bytes_to_indices(ent + hashlib.sha256(ent).digest()[:1])
                    if back[:nw] != idx:
                        c.fail("toindices %s" % key, "the entropy %s gives words %s, not %s" % (ent.hex(), back, idx), v)
                    s = SeedDerivation.from_mnemonics(form, True, **kw)
                else:
                    ms = hashlib.pbkdf2_hmac("sha512", " ".join(wl).encode(), b"mnemonic" + pw, 2048, 64)
                    s = SeedDerivation.from_mnemonics(form, False, pw, **kw)
            if v["ok"]:
                k = ref_node(ms, ed, [(i, h) for i, h in path])
                m = ref.i2b(ref.b2i(k) % ref.L) if ed else ref.keccak(k)
    except Exception as e:
        if v["ok"]:
            fails.append(("path %s" % key, "the derivation %s is refused: %r" % (v["prog"], e), v))
        return fails
    if not v["ok"]:
        fails.append(("path %s" % key, "the derivation %s is not refused" % v["prog"], v))
        return fails
    wallet_ok(c, key, s, m)
    return fails


def check(c):
    deep = {"Deep": "TRUE" if c.thorough else "FALSE"}
    if len(W) != N or len(set(W)) != N or len(set(w[:3] for w in W)) != N:
        c.fail("wordlist", "the word list has %d words, %d of them different" % (len(W), len(set(W))))
    import hashlib as h
    d = h.sha256(" ".join(W).encode()).hexdigest()
    if d != WORDS_SHA:
        c.fail("wordlist content", "the word list is not Monero's English list")
    r = tlc.vectors("Mnemonic", deep, "INVARIANT RoundTrip Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    groups(c, r["vectors"])
    lists(c, r["vectors"])
    r = tlc.vectors("SeedPath", deep, "INVARIANT ThroughSeed Hardened Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    work = [(v, c.seed + k, 0) for v in r["vectors"] for k in range(1 if c.thorough else 2)]
    work += [(v, c.seed + 7 + k, z) for v in r["vectors"] if v["src"].startswith("master") and v["ok"] and len(v["path"]) < 2
             for z in (1, 2) + ((3,) if v["path"] and v["path"][0][1] else ()) for k in range(4 if c.thorough else 1)]
    with Pool(8) as p:
        for fs in p.imap_unordered(one_path, work, 8):
            c.add(traces_validated_against_impl=1)
            for f in fs:
                c.fail(*f)
