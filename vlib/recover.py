"""H04 (transaction keys) and K03 (live refresh): the host against an independent device emulation."""
import copy, json, random, traceback
from multiprocessing import Pool
from . import env, txgen, ref, tlc, device, host
from .env import run
from .device import wal, NAMES
from monero_glue.agent import agent_lite
from monero_glue.hwtoken import misc as tmisc
from monero_glue.xmr import crypto
from monero_glue.xmr.enc import chacha_poly
from monero_glue import messages as M

WALLET = {1: "me", 2: "bob"}


def secrets(n):
    c = wal(n)
    return ref.b2i(crypto.encodeint(c.view_key_private)), ref.b2i(crypto.encodeint(c.spend_key_private))


# -- H04: what the device leaves behind ----------------------------------------------
def dev_key(spend, mult, pfx, salt):
    return ref.hmac_keccak(salt, ref.keccak2(ref.i2b((spend + ref.b2i(mult)) % ref.L), pfx))


def host_key(view, pfx, salt):
    return ref.hmac_keccak(salt, ref.keccak2(ref.i2b(view), pfx))


def point_of(name):
    w, ma, mi = NAMES[name]
    return ref.dec(bytes(txgen.addr_of(wal(w), ma, mi).m_spend_public_key)), (ma, mi) != (0, 0)


def check_record(w, ag, blob):
    """The record of a finished transaction opens to its secret keys."""
    bad = []
    tx = ref.parse_tx(blob, w.ring)
    ct = ag.last_transaction_data()
    salt, mult, box = bytes(ct.enc_salt1), bytes(ct.enc_salt2), bytes(ct.enc_keys)
    pfx = bytes(ct.tx_prefix_hash)
    if ref.keccak(tx["prefix"]) != pfx:
        bad.append("prefix hash kept by the host is not the transaction's")
    a, b = secrets("me")
    keys = ref.unbox(dev_key(b, mult, pfx, salt), box)
    if keys is None:
        return bad + ["the key blob does not open with the wallet's spend key"], None
    for who, k in (("another wallet's spend key", dev_key(secrets("bob")[1], mult, pfx, salt)),
                   ("the view key", dev_key(a, mult, pfx, salt)),
                   ("no spend key", dev_key(0, mult, pfx, salt)),
                   ("another prefix", dev_key(b, mult, ref.keccak(pfx), salt)),
                   ("no prefix", dev_key(b, mult, b"", salt)),
                   ("public values only", ref.hmac_keccak(salt, ref.keccak2(mult, pfx))),
                   ("the salt", salt)):
        if ref.unbox(k, box) is not None:
            bad.append("the key blob opens with %s" % who)
    ex = ref.parse_extra(tx["extra"])
    R, add = ex["pub"][0], ex["additional"] or []
    subs = {d["to"] for d in w.scn["dst"] if NAMES[d["to"]][1:] != (0, 0) and d["to"] != w.scn["chg"]["to"]}
    if len(keys) != 32 * (1 + len(add)):
        return bad + ["%d keys in the record, %d published" % (len(keys) // 32, 1 + len(add))], keys
    ks = [ref.b2i(keys[i:i + 32]) for i in range(0, len(keys), 32)]
    if any(k == 0 or k >= ref.L for k in ks):
        bad.append("a transaction key is not a proper scalar")
    if len(set(ks)) != len(ks):
        bad.append("transaction keys repeat")
    cand = [ref.enc(ref.gmul(ks[0]))] + [ref.enc(ref.pmul(point_of(n)[0], ks[0])) for n in subs]
    if bytes(R) not in cand:
        bad.append("the recovered key does not match the published one")
    for d, (k, x) in enumerate(zip(ks[1:], add)):
        D, s = point_of(w.scn["dst"][d]["to"])
        if bytes(x) != ref.enc(ref.pmul(D, k) if s else ref.gmul(k)) and bytes(x) != ref.enc(ref.gmul(k)):
            bad.append("the recovered additional key %d does not match the published one" % (d + 1))
    return bad, keys


def record(a):
    gr, seed = a
    try:
        w, rec, ag, blob, bad = host.session(gr, seed)
        if blob is None:
            return gr[0]["id"], bad, 0, None
        bad, keys = check_record(w, ag, blob)
        ct = ag.last_transaction_data()
        r = dict(salt=bytes(ct.enc_salt1), mult=bytes(ct.enc_salt2), blob=bytes(ct.enc_keys), pfx=bytes(ct.tx_prefix_hash), keys=keys)
        return gr[0]["id"], bad, len(keys or b"") // 32, r
    except Exception as e:
        return gr[0]["id"], ["recovery data: %r %s" % (e, traceback.format_exc()[-400:])], 0, None


# -- H04: asking for the keys ----------------------------------------------------------
def flip(b, i):
    b = bytearray(b)
    b[i] ^= 1 << (i % 8)
    return bytes(b)


class KeyDevice:
    """Independent emulation of the device's answer, with the alterations of TxKeys."""
    def __init__(self, w, net, rng):
        self.w, self.net, self.rng = w, net, rng
        self.view, self.spend = secrets(WALLET[w])
        self.ok = None

    async def get_tx_key(self, m):
        self.req = m
        keys = ref.unbox(dev_key(self.spend, bytes(m.salt2), bytes(m.tx_prefix_hash), bytes(m.salt1)), bytes(m.tx_enc_keys))
        self.ok = keys is not None
        rb = self.rng.rbytes
        if self.net == "error" or not self.ok:
            return M.Failure(message="refused")
        if m.reason:
            V = ref.dec(bytes(m.view_public_key))
            pay = b"".join(ref.enc(ref.pmul8(ref.pmul(V, ref.b2i(keys[i:i + 32])))) for i in range(0, len(keys), 32))
        else:
            pay = keys
        if self.net == "ragged":
            pay = pay[:-1] if self.rng.random() < .5 else pay + b"\x07"
        elif self.net == "otherpayload":
            k = self.rng.sbytes()
            pay = ref.enc(ref.gmul(ref.b2i(k))) if m.reason else k
        self.sent = pay
        pfx, view = bytes(m.tx_prefix_hash), self.view
        salt = rb(32)
        k = host_key(view, pfx, salt)
        if self.net == "othertx":
            k = host_key(view, ref.keccak(b"other"), salt)
        elif self.net == "otherwallet":
            k = host_key(secrets(WALLET[3 - self.w])[0], pfx, salt)
        b = ref.box(k, rb(12), pay)
        if self.net == "salt":
            salt = flip(salt, self.rng.randrange(32))
        elif self.net == "nonce":
            b = flip(b, self.rng.randrange(12))
        elif self.net == "body":
            b = flip(b, self.rng.randrange(12, len(b) - 16))
        elif self.net == "tag":
            b = flip(b, self.rng.randrange(len(b) - 16, len(b)))
        elif self.net == "short":
            b = b[:self.rng.choice([-1, -16, -17, 28, 12])]
        elif self.net == "empty":
            b = b""
        a = M.MoneroGetTxKeyAck(salt=salt)
        if m.reason:
            a.tx_derivations = b
        else:
            a.tx_keys = b
        return a


def ask(a):
    cases, recs, kind, seed = a
    out = []
    for n, v in cases:
        rng = txgen.Rng("h04-%s-%s-%s" % (kind, n, seed))
        q, sp = v["req"], v["spoil"]
        g = {k: recs[q[k] - 1][k] for k in ("salt", "mult", "blob", "pfx")}
        if sp in ("salt", "pfx"):
            g[sp] = flip(g[sp], rng.randrange(32))
        elif sp == "mult":
            g[sp] = ref.i2b((ref.b2i(g[sp]) + rng.randrange(1, ref.L)) % ref.L)
        elif sp == "nonce":
            g["blob"] = flip(g["blob"], rng.randrange(12))
        elif sp == "body":
            g["blob"] = flip(g["blob"], rng.randrange(12, len(g["blob"]) - 16))
        elif sp == "tag":
            g["blob"] = flip(g["blob"], len(g["blob"]) - 1 - rng.randrange(16))
        elif sp == "short":
            g["blob"] = g["blob"][:-1]
        dev = KeyDevice(q["w"], v["net"], rng)
        ag = agent_lite.Agent(dev, network_type=wal("me").network_type)
        view = wal(WALLET[q["w"]]).view_key_private
        V = crypto.encodepoint(wal("ann").view_key_public)
        bad = []
        try:
            if kind == "keys":
                r = run(ag.get_tx_key(g["salt"], g["mult"], g["blob"], g["pfx"], view))
                got = b"".join(bytes(crypto.encodeint(x)) for x in r)
            else:
                r = run(ag.get_tx_deriv(g["salt"], g["mult"], g["blob"], g["pfx"], view, V))
                got = b"".join(bytes(crypto.encodepoint(x)) for x in r)
        except Exception as e:
            got = "error"
        if dev.ok is None:
            bad.append("the host asked nothing")
        elif dev.ok != v["dev"]:
            bad.append("the device %s" % ("opened what it should refuse" if dev.ok else "could not open a proper record"))
        if v["res"] == ["error"]:
            if got != "error":
                bad.append("the host returned keys it should have refused")
        elif got == "error":
            bad.append("the host refused a proper answer")
        elif got != dev.sent:
            bad.append("the host returned other keys than the device sent")
        elif v["net"] != "otherpayload" and kind == "keys" and got != recs[q["blob"] - 1]["keys"]:
            bad.append("not the keys of the transaction")
        out.append((v, bad))
    return out


def bob_record(seed):
    """A record of another wallet, wrapped the way the device wraps."""
    rng = txgen.Rng("bobrec-%s" % seed)
    pfx, keys = rng.rbytes(32), rng.sbytes()
    k, salt, mult = tmisc.compute_tx_key(wal("bob").spend_key_private, pfx)
    return dict(salt=bytes(salt), mult=bytes(mult), blob=chacha_poly.encrypt_pack(k, keys), pfx=pfx, keys=keys)


def check_h04(c):
    fams = ["mixq", "acct", "sweep"] if not c.thorough else ["mix", "acct", "sweep", "subs", "pids", "grid", "big"]
    scs = {}
    with Pool(6) as p:
        ms = [p.apply_async(host.model, (f,)) for f in fams]
        ks = {(f, k): p.apply_async(tlc.run, ("TxKeys", TK % (f, k)), {"workers": 1}) for f in ("mix", "own") for k in ("keys", "derivs")}
        for m in ms:
            r, sc = m.get()
            c.add(states=r["distinct"], transitions=r["generated"])
            scs.update({s[0]["id"]: s for s in sc})
        ks = {k: v.get() for k, v in ks.items()}
    scs = list(scs.values())
    seeds = [c.seed] if not c.thorough else [c.seed, c.seed + 1]
    one = many = None
    with Pool(8) as p:
        for i, bad, n, r in p.imap_unordered(record, [(s, sd) for s in scs for sd in seeds], 1):
            c.add(records=1, traces_validated_against_impl=1)
            for b in bad[:2]:
                c.fail("%s: %s" % (i, b), b, {"scenario": i})
            if r and not bad:
                if n == 1 and one is None:
                    one = r
                elif n > 2 and many is None:
                    many = r
            c.sample({"scenario": i, "keys": n})
        if not (one and many):
            if not c.viol:
                raise RuntimeError("no records to ask for")
            return
        jobs = []
        recs = [one, many, bob_record(c.seed)]
        for (f, kind), r in ks.items():
            c.add(states=r["distinct"], transitions=r["generated"])
            vs = [v for t, v in r["lines"] if t == "R"]
            reps = 8 if f == "own" else 1
            if c.thorough:
                reps *= 8
            vs = list(enumerate(vs * reps))
            jobs += [(vs[k:k + 100], recs, kind, c.seed) for k in range(0, len(vs), 100)]
        for out in p.imap_unordered(ask, jobs, 1):
            for v, bad in out:
                c.add(traces_validated_against_impl=1, requests=1)
                for b in bad:
                    c.fail("%s %s: %s" % (v["spoil"], v["net"], b), b, v)


TK = """INIT Init
NEXT Next
CONSTANTS Fam="%s" Kind="%s"
INVARIANT OnlyOwn Recovers DevOnly Emit
CHECK_DEADLOCK FALSE
"""

# -- K03 ---------------------------------------------------------------------------------
SUB = {1: (0, 0), 2: (0, 1), 3: (3, 77777), 4: (0, 0)}


class LiveOut:
    def __init__(self, o, rng):
        self.ma, self.mi = SUB[o]
        a, b = secrets("me")
        self.idx = rng.choice([0, 1, 5, 127, 128, 300])
        r = rng.randrange(1, ref.L)
        Rp = ref.gmul(r)
        self.D = ref.derivation(Rp, a)
        x = ref.d2s(self.D, self.idx) + b
        if (self.ma, self.mi) != (0, 0):
            x += ref.sub_secret(a, self.ma, self.mi)
        self.x = x % ref.L
        self.P = ref.gmul(self.x)
        self.ki = ref.key_image(self.x)


def ringsig(rng, x, ki_enc, cond=lambda h: True):
    """Proof (c, r) for one public key; cond grinds the challenge."""
    P = ref.gmul(x)
    Hp = ref.h2p(ref.enc(P))
    while True:
        k = rng.randrange(1, ref.L)
        c = ref.Hs(ki_enc, ref.enc(ref.gmul(k)), ref.enc(ref.pmul(Hp, k)))
        if cond(c):
            return c, (k - c * x) % ref.L


class LiveDevice:
    def __init__(self, outs, rng):
        self.outs, self.rng = outs, rng
        self.f = "none"
        self.last = {}
        self.kinds = []

    async def live_refresh(self, m):
        rng, f = self.rng, self.f
        self.kinds.append(type(m).__name__)
        if f == "error":
            return M.Failure(message="refused")
        if isinstance(m, M.MoneroLiveRefreshStartRequest):
            return M.MoneroLiveRefreshStartAck()
        if isinstance(m, M.MoneroLiveRefreshFinalRequest):
            return M.MoneroLiveRefreshFinalAck()
        a, b = secrets("me")
        x = ref.d2s(ref.dec(bytes(m.recv_deriv)), m.real_out_idx) + b
        if (m.sub_addr_major, m.sub_addr_minor) != (0, 0):
            x += ref.sub_secret(a, m.sub_addr_major, m.sub_addr_minor)
        x %= ref.L
        if ref.enc(ref.gmul(x)) != bytes(m.out_key):
            return M.Failure(message="not mine")
        pfx = bytes(m.out_key)
        ki = ref.key_image(x)
        oth = [o for o in self.outs.values() if o.x != x][0]
        cond = lambda h: True
        if f == "otherimage":
            ki = oth.ki
        elif f == "randimage":
            ki = ref.gmul(rng.randrange(1, ref.L))
        elif f == "zeroimage":
            ki = ref.ID
        elif f == "negimage":
            ki = ref.pneg(ki)
        elif f == "torsion2":
            t = ref.pdbl(ref.pdbl(ref.dec(ref.TORSION8)))
            ki, cond = ref.padd(ki, t), lambda h: h % 2 == 0
        elif f == "torsion8":
            ki, cond = ref.padd(ki, ref.dec(ref.TORSION8)), lambda h: h % 8 == 0
        ke = ref.enc(ki)
        cc, r = ringsig(rng, x, ke, cond)
        if f == "sigother":
            ki = ref.key_image(x)
            ke = ref.enc(ki)
            cc, r = ringsig(rng, oth.x, ke)
        elif f == "nosig":
            cc = r = 0
        elif f == "c":
            cc = (cc + 1) % ref.L
        elif f == "r":
            r = (r + 1) % ref.L
        elif f == "swapcr":
            cc, r = r, cc
        pay = ke + ref.i2b(cc) + ref.i2b(r)
        if f == "trunc":
            pay = pay[:32]
        elif f == "trunc64":
            pay = pay[:64]
        elif f == "ragged":
            pay = pay[:-1]
        salt = rng.rbytes(32)
        k = host_key(a, pfx, salt)
        if f == "wallet":
            k = host_key(secrets("bob")[0], pfx, salt)
        bx = ref.box(k, rng.rbytes(12), pay)
        if f == "swap":
            o = oth
            oe = ref.enc(o.P)
            c2, r2 = ringsig(rng, o.x, ref.enc(o.ki))
            bx = ref.box(host_key(a, oe, salt), rng.rbytes(12), ref.enc(o.ki) + ref.i2b(c2) + ref.i2b(r2))
        elif f == "salt":
            salt = flip(salt, rng.randrange(32))
        elif f == "nonce":
            bx = flip(bx, rng.randrange(12))
        elif f == "body":
            bx = flip(bx, rng.randrange(12, len(bx) - 16))
        elif f == "tag":
            bx = flip(bx, rng.randrange(len(bx) - 16, len(bx)))
        elif f == "short":
            bx = bx[:rng.choice([-1, -16, 28, 12])]
        elif f == "empty":
            bx = b""
        elif f == "replay" and pfx in self.last:
            salt, bx = self.last[pfx]
        if f == "none":
            self.last[pfx] = (salt, bx)
        return M.MoneroLiveRefreshStepAck(salt=salt, key_image=bx)


def live(a):
    """One path of the specification on a fresh host."""
    edges, paths, seed = a
    out = []
    rng = txgen.Rng("k03-%s" % seed)
    outs = {o: LiveOut(o, rng) for o in SUB}
    for path, act, res in edges:
        rng = txgen.Rng("k03-%s-%s" % (seed, json.dumps([path, act])))
        dev = LiveDevice(outs, rng)
        ag = agent_lite.Agent(dev, network_type=wal("me").network_type)
        bad = []
        for n, (p, want) in enumerate(path + [(act, res)]):
            dev.f = p["f"]
            try:
                if p["m"] == "start":
                    run(ag.live_refresh_start())
                    got = "ok"
                elif p["m"] == "final":
                    run(ag.live_refresh_final())
                    got = "ok"
                else:
                    o = outs[p["o"]]
                    ki = run(ag.live_refresh(wal("me").view_key_private, ref.enc(o.P), ref.enc(o.D), o.idx, o.ma, o.mi))
                    got = bytes(crypto.encodepoint(ki))
            except Exception as e:
                got = "error"
            exp = want[0] if len(want) == 1 else ref.enc(outs[want[1]].ki)
            if got != exp:
                bad.append("answer %s to %s: host %s" % (p["f"], p["m"], "refused a proper answer" if got == "error" else
                           "accepted it" if exp == "error" else "returned another key image"))
        out.append((act, bad, path))
    return out


LR = """INIT Init
NEXT Next
CONSTANTS Fam="%s" MaxQ=%d
PROPERTY OnlyRight Honest
%sACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def check_k03(c):
    jobs = []
    for fam, q in ([("all", 1), ("seq", 2)] if not c.thorough else [("all", 2), ("seq", 3)]):
        r = tlc.run("LiveRefresh", LR % (fam, q, "VIEW View\n"), workers=1)
        c.add(states=r["distinct"], transitions=r["generated"])
        g = {}
        for t, v in r["lines"]:
            g.setdefault(json.dumps(v[0]), {})[json.dumps(v[1:3])] = (v[1], v[2], json.dumps(v[3]))
        init = json.dumps(["IDLE", []])
        paths, queue, edges = {init: []}, [init], []
        while queue:
            s = queue.pop(0)
            for k in sorted(g.get(s, {})):
                a, res, d = g[s][k]
                edges.append((paths[s], a, res))
                # histories are reached by proper answers
                if d not in paths and a["f"] == "none":
                    paths[d] = paths[s] + [(a, res)]
                    queue.append(d)
        for sd in range(c.seed, c.seed + (4 if not c.thorough else 12)):
            jobs += [(edges[k:k + 40], None, sd) for k in range(0, len(edges), 40)]
    with Pool(8) as p:
        for out in p.imap_unordered(live, jobs, 1):
            for act, bad, path in out:
                c.add(traces_validated_against_impl=1)
                for b in bad:
                    c.fail(b, b, {"path": path, "act": act})
                c.sample({"action": act, "verdict": bad or "as specified"})
