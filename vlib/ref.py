"""Independent reference for the Monero primitives the specifications use symbolically.

Nothing in this file imports the code under test.  It interprets the symbolic
operators of the TLA+ modules (point addition, commitments, one-time keys, ring
signatures, range proofs, hashes, serialisation) on concrete bytes, so that a
behaviour of the specification can be compared with what the code produced.
"""
import hashlib
from Crypto.Hash import keccak as _k

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = (-121665 * pow(121666, P - 2, P)) % P
D2 = 2 * D % P
I = pow(2, (P - 1) // 4, P)


def keccak(*bs):
    h = _k.new(digest_bits=256)
    h.update(b"".join(bytes(b) for b in bs))
    return h.digest()


def i2b(x):
    return int(x).to_bytes(32, "little")


def b2i(b):
    return int.from_bytes(bytes(b), "little")


def Hs(*bs):
    return b2i(keccak(*bs)) % L


# --- points: extended coordinates (X, Y, Z, T)
ID = (0, 1, 1, 0)


def padd(p, q):
    x1, y1, z1, t1 = p
    x2, y2, z2, t2 = q
    a = (y1 - x1) * (y2 - x2) % P
    b = (y1 + x1) * (y2 + x2) % P
    c = t1 * D2 % P * t2 % P
    d = 2 * z1 * z2 % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def pdbl(p):
    x, y, z, _ = p
    a = x * x % P
    b = y * y % P
    c = 2 * z * z % P
    h = a + b
    e = h - (x + y) * (x + y) % P
    g = a - b
    f = c + g
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def pneg(p):
    return (P - p[0], p[1], p[2], P - p[3])


def psub(p, q):
    return padd(p, pneg(q))


def pmul(p, n):
    n %= L
    if n == 0:
        return ID
    tab = [ID, p]
    for i in range(2, 16):
        tab.append(padd(tab[-1], p))
    r = ID
    for sh in range(((n.bit_length() + 3) // 4) * 4 - 4, -1, -4):
        if r is not ID:
            r = pdbl(pdbl(pdbl(pdbl(r))))
        w = (n >> sh) & 15
        if w:
            r = padd(r, tab[w])
    return r


def pmul8(p):
    return pdbl(pdbl(pdbl(p)))


def peq(p, q):
    return (p[0] * q[2] - q[0] * p[2]) % P == 0 and (p[1] * q[2] - q[1] * p[2]) % P == 0


def enc(p):
    zi = pow(p[2], P - 2, P)
    x, y = p[0] * zi % P, p[1] * zi % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


class BadPoint(ValueError):
    pass


def _xrecover(y, sign):
    u = (y * y - 1) % P
    v = (D * y * y + 1) % P
    x = u * pow(v, 3, P) % P * pow(u * pow(v, 7, P) % P, (P - 5) // 8, P) % P
    vx = v * x % P * x % P
    if vx != u:
        if vx != (P - u) % P:
            raise BadPoint("not on curve")
        x = x * I % P
    if x == 0 and sign:
        raise BadPoint("bad sign")
    if (x & 1) != sign:
        x = P - x
    return x


def dec(b):
    b = bytes(b)
    if len(b) != 32:
        raise BadPoint("length")
    v = b2i(b)
    sign, y = v >> 255, v & (2**255 - 1)
    if y >= P:
        raise BadPoint("non canonical")
    x = _xrecover(y, sign)
    return (x, y, 1, x * y % P)


G = dec(bytes([0x58]) + b"\x66" * 31)
H = dec(bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94"))
_GT = None


def gmul(n):
    global _GT
    if _GT is None:
        _GT, p = [], G
        for _ in range(64):
            row = [ID]
            for _ in range(15):
                row.append(padd(row[-1], p))
            _GT.append(row)
            p = padd(row[-1], p)
    n %= L
    r = ID
    i = 0
    while n:
        w = n & 15
        if w:
            r = padd(r, _GT[i][w])
        n >>= 4
        i += 1
    return r


def msm(pairs):
    """sum n_i * P_i (Straus, 4-bit windows)"""
    tabs = []
    mx = 0
    for n, p in pairs:
        n %= L
        if n == 0:
            continue
        t = [ID, p]
        for i in range(2, 16):
            t.append(padd(t[-1], p))
        tabs.append((n, t))
        mx = max(mx, n.bit_length())
    r = ID
    for sh in range(((mx + 3) // 4) * 4 - 4, -1, -4):
        r = pdbl(pdbl(pdbl(pdbl(r))))
        for n, t in tabs:
            w = (n >> sh) & 15
            if w:
                r = padd(r, t[w])
    return r


def commit(mask, amount):
    return padd(gmul(mask), pmul(H, amount))


# --- hash to point (ge_fromfe_frombytes_vartime)
_A = 486662
_SQ = None


def _fe_sqrtm1(x):
    return x


def _fromfe(s):
    u = b2i(s) % (2**256)
    u = u % P  # fe load reduces the 256-bit value
    v = 2 * u * u % P
    w = (v + 1) % P
    x = (w * w - 2 * _A * _A % P * u % P * u) % P
    # r->X = (w / x)^(m+1)
    def divpow(a, b):
        return a * pow(b, 3, P) % P * pow(a * pow(b, 7, P) % P, (P - 5) // 8, P) % P
    rX = divpow(w, x)
    y = rX * rX % P
    x = y * x % P
    y = (w - x) % P
    z = (-_A) % P
    fffb1 = _sqrt(-2 * _A * (_A + 2))
    fffb2 = _sqrt(2 * _A * (_A + 2))
    fffb3 = _sqrt(-I * _A * (_A + 2))
    fffb4 = _sqrt(I * _A * (_A + 2))
    neg = False
    if y != 0:
        y = (w + x) % P
        if y != 0:
            neg = True
        else:
            rX = rX * fffb1 % P
    else:
        rX = rX * fffb2 % P
    if not neg:
        rX = rX * u % P
        z = z * v % P
        sign = 0
    else:
        x = x * I % P
        y = (w - x) % P
        if y != 0:
            assert (w + x) % P == 0
            rX = rX * fffb3 % P
        else:
            rX = rX * fffb4 % P
        sign = 1
    if (rX & 1) != sign:
        assert rX != 0
        rX = P - rX
    Z = (z + w) % P
    Y = (z - w) % P
    X = rX * Z % P
    zi = pow(Z, P - 2, P)
    x_, y_ = X * zi % P, Y * zi % P
    return (x_, y_, 1, x_ * y_ % P)


_sq_cache = {}


def _sqrt(a):
    a %= P
    if a not in _sq_cache:
        r = pow(a, (P + 3) // 8, P)
        if r * r % P != a:
            r = r * I % P
        if r * r % P != a:
            raise ValueError("not a square")
        _sq_cache[a] = r
    return _sq_cache[a]


def h2p(data32):
    """hash_to_ec: 8 * fromfe(keccak(data))"""
    return pmul8(_fromfe(keccak(data32)))


# --- CryptoNote layer
def varint(n):
    o = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            o.append(b | 0x80)
        else:
            o.append(b)
            return bytes(o)


def derivation(pub, sec):
    return pmul8(pmul(pub, sec))


def d2s(der, idx):
    return Hs(enc(der), varint(idx))


def derive_pub(der, idx, B):
    return padd(gmul(d2s(der, idx)), B)


def derive_sec(der, idx, b):
    return (d2s(der, idx) + b) % L


def key_image(sec):
    pub = gmul(sec)
    return pmul(h2p(enc(pub)), sec)


def sub_secret(view_sec, major, minor):
    return Hs(b"SubAddr\0", i2b(view_sec), major.to_bytes(4, "little"), minor.to_bytes(4, "little"))


def sub_keys(view_sec, B, major, minor):
    """(D, C) public spend and view key of the address (major, minor)"""
    if (major, minor) == (0, 0):
        return B, gmul(view_sec)
    Dp = padd(B, gmul(sub_secret(view_sec, major, minor)))
    return Dp, pmul(Dp, view_sec)


def commitment_mask(amount_key):
    return Hs(b"commitment_mask", amount_key)


def ecdh_amount_v2(amount_key, amount8):
    k = keccak(b"amount", amount_key)[:8]
    return bytes(a ^ b for a, b in zip(amount8, k))


def pid_mask(der_point):
    return keccak(enc(der_point), b"\x8d")[:8]


# --- signatures
def mlsag_simple_verify(msg, ring, pseudo, mg_ss, mg_cc, ki):
    """ring: [(dest, commitment)] points; pseudo: point; ss: [[s0,s1]...]; ki: point"""
    n = len(ring)
    if len(mg_ss) != n or n < 1:
        return False
    if peq(ki, ID) or not peq(pmul_noreduce(ki, L), ID):
        return False
    c = mg_cc
    if c >= L:
        return False
    for i in range(n):
        if len(mg_ss[i]) != 2:
            return False
        s0, s1 = mg_ss[i]
        if s0 >= L or s1 >= L:
            return False
        Pk = ring[i][0]
        Cm = psub(ring[i][1], pseudo)
        L0 = padd(gmul(s0), pmul(Pk, c))
        R0 = padd(pmul(h2p(enc(Pk)), s0), pmul(ki, c))
        L1 = padd(gmul(s1), pmul(Cm, c))
        c = Hs(msg, enc(Pk), enc(L0), enc(R0), enc(Cm), enc(L1))
    return c == mg_cc % L


def pmul_noreduce(p, n):
    r = ID
    for b in bin(n)[2:]:
        r = pdbl(r)
        if b == "1":
            r = padd(r, p)
    return r


def clsag_hash_consts(dests, comms, ki, Dp, pseudo):
    pre = b"".join(dests) + b"".join(comms) + ki + Dp + pseudo
    def tag(t):
        return t.ljust(32, b"\0")
    return Hs(tag(b"CLSAG_agg_0"), pre), Hs(tag(b"CLSAG_agg_1"), pre)


def clsag_verify(msg, ring, pseudo, ss, c1, ki, D8):
    """CLSAG (Monero v17 layout): ring [(dest, commitment)], D8 = D/8 encoded point"""
    n = len(ring)
    if len(ss) != n or n < 1 or c1 >= L or any(s >= L for s in ss):
        return False
    if peq(ki, ID):
        return False
    Dp = pmul8(D8)
    if peq(Dp, ID):
        return False
    de = [enc(r[0]) for r in ring]
    ce = [enc(r[1]) for r in ring]
    mu_p, mu_c = clsag_hash_consts(de, ce, enc(ki), enc(D8), enc(pseudo))
    tag = b"CLSAG_round".ljust(32, b"\0")
    pre = tag + b"".join(de) + b"".join(ce) + enc(pseudo) + bytes(msg)
    c = c1
    for i in range(n):
        Cm = psub(ring[i][1], pseudo)
        Lp = padd(padd(gmul(ss[i]), pmul(ring[i][0], c * mu_p)), pmul(Cm, c * mu_c))
        Rp = padd(padd(pmul(h2p(de[i]), ss[i]), pmul(ki, c * mu_p)), pmul(Dp, c * mu_c))
        c = Hs(pre, enc(Lp), enc(Rp))
    return c == c1


def ring1_verify(msg, ki, pub, c, r):
    """check_ring_signature with a single public key"""
    if c >= L or r >= L:
        return False
    a = padd(gmul(r), pmul(pub, c))
    b = padd(pmul(h2p(enc(pub)), r), pmul(ki, c))
    return Hs(msg, enc(a), enc(b)) == c % L


# --- Bulletproofs (original aggregate, 64 bit)
_BPG = {}


def _bp_exp(idx):
    return h2p_raw(keccak(enc(H), b"bulletproof", varint(idx)))


def h2p_raw(data):
    return pmul8(_fromfe(keccak(data)))


def bp_gens(n):
    if "G" not in _BPG:
        _BPG["G"], _BPG["H"] = [], []
    while len(_BPG["G"]) < n:
        i = len(_BPG["G"])
        _BPG["H"].append(_bp_exp(2 * i))
        _BPG["G"].append(_bp_exp(2 * i + 1))
    return _BPG["G"][:n], _BPG["H"][:n]


INV8 = pow(8, L - 2, L)


def bp_verify(bp, commitments):
    """bp: dict of bytes A S T1 T2 taux mu L R a b t; commitments: full (un-divided) points"""
    N, lN = 64, 6
    Ls, Rs = bp["L"], bp["R"]
    if len(Ls) != len(Rs) or len(Ls) < lN:
        return False
    logM = len(Ls) - lN
    M = 1 << logM
    if len(commitments) > M or len(commitments) <= M // 2 or M > 16:
        return False
    for k in ("taux", "mu", "a", "b", "t"):
        if b2i(bp[k]) >= L:
            return False
    taux, mu, a, b, t = (b2i(bp[k]) for k in ("taux", "mu", "a", "b", "t"))
    V = [enc(pmul(c, INV8)) for c in commitments]
    hc = i2b(Hs(*V))
    y = Hs(hc, bp["A"], bp["S"]); hc = i2b(y)
    z = Hs(hc); hc = i2b(z)
    x = Hs(hc, i2b(z), bp["T1"], bp["T2"]); hc = i2b(x)
    x_ip = Hs(hc, i2b(x), bp["taux"], bp["mu"], bp["t"]); hc = i2b(x_ip)
    if 0 in (y, z, x, x_ip):
        return False
    w = []
    for l, r in zip(Ls, Rs):
        wi = Hs(hc, l, r)
        hc = i2b(wi)
        if wi == 0:
            return False
        w.append(wi)
    MN = M * N
    ypow = [1]
    for _ in range(MN):
        ypow.append(ypow[-1] * y % L)
    zp = [1]
    for _ in range(M + 4):
        zp.append(zp[-1] * z % L)
    ip1y = sum(ypow[:MN]) % L
    ip12 = (2**64 - 1) % L
    k = (-zp[2] * ip1y) % L
    for j in range(1, M + 1):
        k = (k - zp[j + 2] * ip12) % L
    delta = (z * ip1y + k) % L
    try:
        A, S, T1, T2 = (pmul8(dec(bp[q])) for q in ("A", "S", "T1", "T2"))
        Lp = [pmul8(dec(q)) for q in Ls]
        Rp = [pmul8(dec(q)) for q in Rs]
    except BadPoint:
        return False
    # t*H + taux*G == sum z^{j+2} V_j + delta*H + x T1 + x^2 T2
    lhs = padd(pmul(H, t), gmul(taux))
    rhs = msm([(zp[j + 2], commitments[j]) for j in range(len(commitments))]
              + [(delta, H), (x, T1), (x * x % L, T2)])
    if not peq(lhs, rhs):
        return False
    # inner product
    Gi, Hi = bp_gens(MN)
    winv = [pow(q, L - 2, L) for q in w]
    yinv = pow(y, L - 2, L)
    pairs = [(1, A), (x, S), (-mu, G), (t * x_ip - a * b * x_ip, H)]
    yi = 1
    rounds = logM + lN
    for i in range(MN):
        g, h = a, b * yi % L
        for j in range(rounds):
            bit = (i >> j) & 1
            J = rounds - 1 - j
            if bit:
                g = g * w[J] % L
                h = h * winv[J] % L
            else:
                g = g * winv[J] % L
                h = h * w[J] % L
        j2 = i // N
        h = (h - (zp[2 + j2] * pow(2, i % N, L) + z * ypow[i]) % L * yi) % L
        pairs.append((-(g + z), Gi[i]))
        pairs.append((-h, Hi[i]))
        yi = yi * yinv % L
    for i in range(rounds):
        pairs.append((w[i] * w[i] % L, Lp[i]))
        pairs.append((winv[i] * winv[i] % L, Rp[i]))
    return peq(msm(pairs), ID)


# --- transaction blob
class Rd:
    def __init__(self, b):
        self.b, self.o = bytes(b), 0

    def take(self, n):
        if n < 0 or self.o + n > len(self.b):
            raise ValueError("short")
        r = self.b[self.o:self.o + n]
        self.o += n
        return r

    def u8(self):
        return self.take(1)[0]

    def vi(self):
        r = s = 0
        while True:
            c = self.u8()
            r |= (c & 0x7F) << s
            s += 7
            if not c & 0x80:
                return r


def parse_tx(blob, ring_size):
    """Parses a version 2 transaction with RCT type 3 or 4 and MLSAGs."""
    r = Rd(blob)
    tx = {"version": r.vi(), "unlock": r.vi(), "vin": [], "vout": []}
    for _ in range(r.vi()):
        assert r.u8() == 2
        am = r.vi()
        offs = [r.vi() for _ in range(r.vi())]
        tx["vin"].append({"amount": am, "offsets": offs, "ki": r.take(32)})
    for _ in range(r.vi()):
        am = r.vi()
        assert r.u8() == 2
        tx["vout"].append({"amount": am, "key": r.take(32)})
    tx["extra"] = r.take(r.vi())
    tx["prefix"] = r.b[:r.o]
    base0 = r.o
    tx["type"] = r.u8()
    tx["fee"] = r.vi()
    n_in, n_out = len(tx["vin"]), len(tx["vout"])
    tx["ecdh"] = []
    for _ in range(n_out):
        if tx["type"] == 4:
            tx["ecdh"].append((None, r.take(8)))
        else:
            m = r.take(32)
            tx["ecdh"].append((m, r.take(32)))
    tx["outpk"] = [r.take(32) for _ in range(n_out)]
    tx["base"] = r.b[base0:r.o]
    nb = r.vi() if tx["type"] == 4 else int.from_bytes(r.take(4), "little")
    tx["bps"] = []
    for _ in range(nb):
        bp = {}
        for k in ("A", "S", "T1", "T2", "taux", "mu"):
            bp[k] = r.take(32)
        bp["L"] = [r.take(32) for _ in range(r.vi())]
        bp["R"] = [r.take(32) for _ in range(r.vi())]
        for k in ("a", "b", "t"):
            bp[k] = r.take(32)
        tx["bps"].append(bp)
    tx["mgs"] = []
    for _ in range(n_in):
        ss = [[b2i(r.take(32)) for _ in range(2)] for _ in range(ring_size)]
        tx["mgs"].append({"ss": ss, "cc": b2i(r.take(32))})
    tx["pseudo"] = [r.take(32) for _ in range(n_in)]
    if r.o != len(r.b):
        raise ValueError("trailing %d" % (len(r.b) - r.o))
    return tx


def bp_hash_bytes(bps):
    o = b""
    for bp in bps:
        o += b"".join([bp["A"], bp["S"], bp["T1"], bp["T2"], bp["taux"], bp["mu"]] + bp["L"] + bp["R"]
                      + [bp["a"], bp["b"], bp["t"]])
    return o


def mlsag_message(tx):
    return keccak(keccak(tx["prefix"]), keccak(tx["base"]), keccak(bp_hash_bytes(tx["bps"])))


def parse_extra(extra):
    r = Rd(extra)
    out = {"pub": [], "nonce": [], "additional": None}
    while r.o < len(r.b):
        t = r.u8()
        if t == 1:
            out["pub"].append(r.take(32))
        elif t == 2:
            out["nonce"].append(r.take(r.vi()))
        elif t == 4:
            out["additional"] = [r.take(32) for _ in range(r.vi())]
        elif t == 0:
            if any(r.b[r.o:]):
                raise ValueError("padding")
            break
        else:
            raise ValueError("extra tag %d" % t)
    return out


def verify_tx(tx, rings, check_bp=True):
    """Consensus-style verification.  rings[i]: [(dest_bytes, commitment_bytes)] for tx.vin[i].
    Returns None or a reason string."""
    if tx["version"] != 2 or tx["type"] not in (3, 4):
        return "version/type"
    kis = [v["ki"] for v in tx["vin"]]
    if len(set(kis)) != len(kis):
        return "duplicate key image"
    if sorted(kis, reverse=True) != kis:
        return "inputs not sorted by key image"
    n_out = len(tx["vout"])
    msg = mlsag_message(tx)
    try:
        po = [dec(x) for x in tx["pseudo"]]
        ok = [dec(x) for x in tx["outpk"]]
        for v in tx["vout"]:
            dec(v["key"])
            if v["amount"] != 0:
                return "rct output with clear amount"
    except BadPoint:
        return "bad point"
    s_in = ID
    for p in po:
        s_in = padd(s_in, p)
    s_out = pmul(H, tx["fee"])
    for p in ok:
        s_out = padd(s_out, p)
    if not peq(s_in, s_out):
        return "amounts do not balance"
    i = 0
    for bp in tx["bps"]:
        m = 1 << (len(bp["L"]) - 6) if len(bp["L"]) >= 6 else 0
        # number of commitments this proof covers
        k = min(m, n_out - i)
        if m == 0 or k <= 0:
            return "range proof shape"
        if check_bp and not bp_verify(bp, ok[i:i + k]):
            return "range proof %d" % i
        if k <= m // 2:
            return "range proof shape"
        i += k
    if i != n_out:
        return "range proofs do not cover outputs"
    for j, v in enumerate(tx["vin"]):
        if v["amount"] != 0:
            return "rct input with clear amount"
        ring = [(dec(a), dec(b)) for a, b in rings[j]]
        if len(v["offsets"]) != len(ring):
            return "ring size"
        if not mlsag_simple_verify(msg, ring, po[j], tx["mgs"][j]["ss"], tx["mgs"][j]["cc"], dec(v["ki"])):
            return "ring signature %d" % j
    return None


def scan_tx(tx, view_sec, spend_sec, subs):
    """Recipient's scan.  subs: {D_enc: (major, minor)}.  Returns list of
    {i, sub, amount, mask, key, pid} for outputs that belong to the wallet."""
    ex = parse_extra(tx["extra"])
    if len(ex["pub"]) != 1:
        raise ValueError("tx pub keys")
    der = [derivation(dec(ex["pub"][0]), view_sec)]
    add = None
    if ex["additional"] is not None:
        if len(ex["additional"]) != len(tx["vout"]):
            raise ValueError("additional keys count")
        add = [derivation(dec(x), view_sec) for x in ex["additional"]]
    res = []
    for i, o in enumerate(tx["vout"]):
        Pk = dec(o["key"])
        for d in [der[0]] + ([add[i]] if add else []):
            Dk = enc(psub(Pk, gmul(d2s(d, i))))
            if Dk in subs:
                sub = subs[Dk]
                ak = i2b(d2s(d, i))
                if tx["type"] == 4:
                    amount = int.from_bytes(ecdh_amount_v2(ak, tx["ecdh"][i][1]), "little")
                    mask = commitment_mask(ak)
                else:
                    h1 = Hs(ak)
                    h2 = Hs(i2b(h1))
                    mask = (b2i(tx["ecdh"][i][0]) - h1) % L
                    amount = (b2i(tx["ecdh"][i][1]) - h2) % L
                if enc(commit(mask, amount)) != tx["outpk"][i]:
                    raise ValueError("commitment of output %d does not open" % i)
                x = (d2s(d, i) + spend_sec) % L
                if sub != (0, 0):
                    x = (x + sub_secret(view_sec, *sub)) % L
                if enc(gmul(x)) != o["key"]:
                    raise ValueError("spend key of output %d" % i)
                pid = None
                for nn in ex["nonce"]:
                    if len(nn) == 9 and nn[0] == 1:
                        # encrypted with the main derivation
                        pid = bytes(a ^ b for a, b in zip(nn[1:], keccak(enc(der[0]), b"\x8d")[:8]))
                    elif len(nn) == 33 and nn[0] == 0:
                        pid = nn[1:]
                res.append({"i": i, "sub": sub, "amount": amount, "mask": mask, "key": x, "pid": pid})
                break
    return res


# --- HMAC-Keccak-256 and the boxes it keys
def hmac_keccak(key, msg):
    k = bytes(key)
    k = (k if len(k) <= 136 else keccak(k)).ljust(136, b"\0")
    return keccak(bytes(x ^ 0x5c for x in k), keccak(bytes(x ^ 0x36 for x in k), msg))


def keccak2(*bs):
    return keccak(keccak(*bs))


def box(key, nonce, plain):
    from Crypto.Cipher import ChaCha20_Poly1305
    c, t = ChaCha20_Poly1305.new(key=key, nonce=nonce).encrypt_and_digest(bytes(plain))
    return nonce + c + t


def unbox(key, blob):
    """None if it does not authenticate."""
    from Crypto.Cipher import ChaCha20_Poly1305
    blob = bytes(blob)
    if len(blob) < 28:
        return None
    try:
        return ChaCha20_Poly1305.new(key=key, nonce=blob[:12]).decrypt_and_verify(blob[12:-16], blob[-16:])
    except ValueError:
        return None


TORSION8 = bytes.fromhex("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a")
