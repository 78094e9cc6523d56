"""K01, K02: key image synchronisation."""
import json, random, time, traceback
from multiprocessing import Pool
from . import env, txgen, ref, tlc, device
from .env import run
from .device import NAMES, wal
from monero_glue.agent import agent_lite
from monero_glue.hwtoken import token, iface
from monero_glue import messages as M
from monero_glue.xmr import crypto
from monero_serialize import xmrtypes
from Crypto.Cipher import ChaCha20_Poly1305


class Out:
    """An output some wallet received, and what the host knows of it."""
    def __init__(self, rng, own, wallet=None, pad=0):
        w, self.ma, self.mi = NAMES[own]
        self.own = own
        c = wal(wallet or w)
        n = rng.randrange(1, 4)
        self.idx = rng.randrange(n) if not pad else rng.choice([127, 128, 129, 200])
        n = max(n, self.idx + 1)
        self.add = (self.ma, self.mi) != (0, 0) and rng.random() < .6 and not pad
        R, add, P = txgen.owned_output(rng, c, self.ma, self.mi, self.idx, n, self.add)
        self.R, self.adds, self.P, self.n = R, add, P, n
        a, b = (ref.b2i(crypto.encodeint(x)) for x in (c.view_key_private, c.spend_key_private))
        der = ref.derivation(ref.dec(bytes(add[self.idx] if self.add else R)), a)
        x = (ref.d2s(der, self.idx) + b) % ref.L
        if (self.ma, self.mi) != (0, 0):
            x = (x + ref.sub_secret(a, self.ma, self.mi)) % ref.L
        assert ref.enc(ref.gmul(x)) == bytes(P)
        self.ki = ref.enc(ref.key_image(x))
        self.rng = rng

    def pb(self, v="ok"):
        t = M.MoneroTransferDetails(out_key=self.P, tx_pub_key=self.R, additional_tx_pub_keys=list(self.adds) or None,
                                    internal_output_index=self.idx)
        rnd = lambda: ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
        if v == "idx":
            t.internal_output_index = self.idx + 1
            if self.adds:
                t.additional_tx_pub_keys = list(self.adds) + [rnd()]
        elif v == "key":
            t.out_key = rnd()
        elif v == "pub":
            if self.add:
                ad = list(self.adds)
                ad[self.idx] = rnd()
                t.additional_tx_pub_keys = ad
            else:
                t.tx_pub_key = rnd()
        elif v == "extra":
            t.additional_tx_pub_keys = list(self.adds) + [rnd()] if self.adds else [rnd() for _ in range(self.idx + 1)]
        return t

    def transfer(self):
        """What the wallet hands to the host."""
        outs = [xmrtypes.TxOut(amount=0, target=xmrtypes.TxoutToKey(key=self.P if i == self.idx else ref.enc(ref.gmul(1 + i))))
                for i in range(self.n)]
        extra = b"\x01" + bytes(self.R)
        if self.adds:
            extra += b"\x04" + ref.varint(len(self.adds)) + b"".join(bytes(x) for x in self.adds)
        td = xmrtypes.TransferDetails()
        td.m_tx = xmrtypes.TransactionPrefix(version=2, unlock_time=0, vin=[], vout=outs, extra=list(extra))
        td.m_internal_output_index = self.idx
        td.m_subaddr_index = xmrtypes.SubaddressIndex(major=self.ma, minor=self.mi)
        return td


def digest(outs):
    h = b""
    for o in outs:
        p = o.pb()
        h += ref.keccak(bytes(p.out_key), bytes(p.tx_pub_key), *[bytes(x) for x in (p.additional_tx_pub_keys or [])], ref.varint(p.internal_output_index))
    return ref.keccak(h)


class Ifc(iface.TokenInterface):
    def __init__(self, approve):
        super().__init__()
        self.approve, self.log = approve, []

    async def confirm_ki_sync(self, init_msg, ctx=None):
        self.log.append((init_msg.num, bytes(init_msg.hash or b"")))
        return self.approve


def new_device(approve):
    d = token.TokenLite()
    d.debug = False
    d.creds = wal("me")
    d.iface = Ifc(approve)
    return d


def opened(keyb, iv, blob):
    c = ChaCha20_Poly1305.new(key=keyb, nonce=bytes(iv))
    blob = bytes(blob)
    return c.decrypt_and_verify(blob[:-16], blob[-16:])


def ki_proof_ok(plain, o):
    return len(plain) == 96 and plain[:32] == o.ki and \
        ref.ring1_verify(plain[:32], ref.dec(plain[:32]), ref.dec(bytes(o.P)), ref.b2i(plain[32:64]), ref.b2i(plain[64:]))


POOLS = {}


class Driver:
    def __init__(self, sc, seed):
        self.sc = sc
        if (sc["id"], seed) not in POOLS:
            POOLS.clear()
            rng = txgen.Rng("ks-%s-%s" % (sc["id"], seed))
            POOLS[sc["id"], seed] = {i + 1: Out(rng, a) for i, a in enumerate(["me", "me01", "me1", "me", "me01"])}, Out(rng, "bob")
        self.pool, self.other = POOLS[sc["id"], seed]
        self.dev = new_device(sc["approve"])
        self.blobs, self.keys, self.sent = [], [], []

    def send(self, act):
        bad = []
        m = act["m"]
        nlog = len(self.dev.iface.log)
        if m == "init":
            ls = [self.pool[i] for i in self.sc["list"]]
            subs = {}
            for n in self.sc["subs"]:
                subs.setdefault(NAMES[n][1], []).append(NAMES[n][2])
            msg = M.MoneroKeyImageExportInitRequest(num=self.sc["num"], hash=digest(ls), network_type=wal("me").network_type,
                                                    subs=[M.MoneroSubAddressIndicesList(account=a, minor_indices=x) for a, x in sorted(subs.items())])
            self.blobs, self.sent = [], []
        elif m == "step":
            es = [self.other.pb() if e["v"] == "foreign" else self.pool[e["i"]].pb(e["v"]) for e in act["b"]]
            msg = M.MoneroKeyImageSyncStepRequest(tdis=es)
        else:
            msg = M.MoneroKeyImageSyncFinalRequest()
        try:
            res = run(self.dev.key_image_sync(msg))
        except Exception as e:
            return "fail", ["device entry point raised %r" % e]
        if m == "init":
            want = [(msg.num, bytes(msg.hash))]
            if self.dev.iface.log[nlog:] != want:
                bad.append("user was asked %r, expected %r" % (self.dev.iface.log[nlog:], want))
        elif len(self.dev.iface.log) != nlog:
            bad.append("confirmation requested by %s" % m)
        if res is None or isinstance(res, M.Failure):
            if getattr(res, "enc_key", None):
                bad.append("refusal carries the key")
            return "fail", bad
        if m == "step":
            if len(res.kis) != len(act["b"]):
                bad.append("%d key images for %d outputs" % (len(res.kis), len(act["b"])))
            for e, k in zip(act["b"], res.kis):
                o = self.pool[e["i"]]
                if o.ki in bytes(k.blob) or o.ki in bytes(k.iv):
                    bad.append("key image disclosed before the end")
                if any(bytes(k.iv) == b[0] for b in self.blobs):
                    bad.append("nonce repeats within a session")
                for kk in self.keys:
                    try:
                        opened(kk, k.iv, k.blob)
                        bad.append("answer opens with the key of an earlier session")
                    except ValueError:
                        pass
                self.blobs.append((bytes(k.iv), bytes(k.blob), o))
            return "ack", bad
        if m == "final":
            if not res.enc_key:
                return "ack", bad + ["no key in the final answer"]
            kk = bytes(res.enc_key)
            self.keys.append(kk)
            for iv, blob, o in self.blobs:
                try:
                    if not ki_proof_ok(opened(kk, iv, blob), o):
                        bad.append("wrong key image or proof for output received at %s" % o.own)
                except ValueError:
                    bad.append("released key does not open the answers")
            return "key", bad
        return "ack", bad


CFG = """INIT InitEmit
NEXT Next
VIEW View
CONSTANTS Fam="%s" MaxSess=%d MaxLen=5
INVARIANT LenInv
PROPERTY ReleaseProp EndProp
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def model(j):
    r = tlc.run("KeySync", CFG % j, workers=2)
    g = {}
    sc = {}
    for t, v in r["lines"]:
        if t == "S":
            sc[v["id"]] = v["sc"]
        elif t == "E":
            i, s, a, resp, d = v
            g.setdefault(i, {}).setdefault(json.dumps(s), {}).setdefault(json.dumps(a, sort_keys=True), []).append((resp, json.dumps(d)))
    return r, [(sc[i], g.get(i, {})) for i in sc]


def explore(a):
    sc, g, seed = a
    init = json.dumps(["NONE", 0, [], 0, 0])
    paths = {init: []}
    queue = [init]
    n, steps, bad = 0, 0, []
    while queue and len(bad) < 10:
        s = queue.pop(0)
        for aj in sorted(g.get(s, {})):
            act = json.loads(aj)
            d = Driver(sc, seed)
            ok = True
            for p in paths[s]:
                r, b = d.send(p)
                steps += 1
                bad += [("%s after %s" % (x, p), paths[s]) for x in b]
            resp, b = d.send(act)
            n += 1
            bad += [("%s (%s)" % (x, act["m"]), paths[s] + [act]) for x in b]
            nxt = [t for r, t in g[s][aj] if r == resp]
            if not nxt:
                bad.append(("device answered %s to %s in %s, allowed %s" % (resp, act, json.loads(s), sorted({r for r, _ in g[s][aj]})), paths[s] + [act]))
                continue
            if nxt[0] not in paths:
                paths[nxt[0]] = paths[s] + [act]
                queue.append(nxt[0])
    return sc["id"], n, steps, bad


def check_k02(c):
    fams = [("dev", 1), ("rej", 1), ("subs", 1), ("dev1", 2)] if not c.thorough else [("dev", 2), ("rej", 2), ("subs", 2), ("deep", 1)]
    jobs = []
    with Pool(4) as p:
        for r, gs in p.imap_unordered(model, fams):
            c.add(states=r["distinct"], transitions=r["generated"])
            for sd in ([c.seed] if not c.thorough else [c.seed, c.seed + 1]):
                jobs += [(sc, g, sd) for sc, g in gs]
    jobs.sort(key=lambda j: -sum(len(x) for x in j[1].values()))
    with Pool(8) as p:
        for i, n, steps, bad in p.imap_unordered(explore, jobs, 1):
            c.add(traces_validated_against_impl=n, messages_sent=n + steps, scenarios=1)
            for what, path in bad:
                c.fail("%s: %s" % (i, what), what, {"scenario": i, "path": path})
            c.sample({"scenario": i, "edges": n})


# -- K01 ---------------------------------------------------------------------------
class KiRecorder:
    def __init__(self, dev, outs):
        self.dev, self.ev, self.cnt = dev, [], 0
        self.outs = outs

    async def key_image_sync(self, msg):
        res = await self.dev.key_image_sync(msg)
        fail = isinstance(res, M.Failure)
        if isinstance(msg, M.MoneroKeyImageExportInitRequest):
            self.ev.append({"m": "init", "num": msg.num, "resp": "fail" if fail else "ack", "hash": bytes(msg.hash).hex()})
        elif isinstance(msg, M.MoneroKeyImageSyncStepRequest):
            got = [bytes(t.out_key) for t in msg.tdis]
            want = [bytes(o.P) for o in self.outs[self.cnt:self.cnt + len(got)]]
            self.ev.append({"m": "step", "size": len(got), "first": self.cnt + 1, "inorder": got == want,
                            "resp": "fail" if fail else "ack", "kis": 0 if fail else len(res.kis)})
            self.cnt += len(got)
        else:
            self.ev.append({"m": "final", "resp": "fail" if fail else "key"})
        return res


def host_run(a):
    n, kind, seed = a
    rng = txgen.Rng("k01-%s-%s-%s" % (n, kind, seed))
    owns = {"main": ["me"], "sub": ["me01"], "mix": ["me", "me01", "me1"], "far": ["me", "me01"]}[kind]
    bad = []
    try:
        outs = [Out(rng, rng.choice(owns), pad=int(kind == "far")) for _ in range(n)]
        rec = KiRecorder(new_device(True), outs)
        ag = agent_lite.Agent(rec, network_type=wal("me").network_type)
        res = run(ag.import_outputs([o.transfer() for o in outs]))
        if len(res) != n:
            bad.append("%d key images for %d outputs" % (len(res), n))
        for i, (o, r) in enumerate(zip(outs, res)):
            ki, (s0, s1) = r
            if not ki_proof_ok(bytes(ki) + bytes(s0) + bytes(s1), o):
                bad.append("output %d of %d: wrong key image or proof" % (i + 1, n))
        if rec.ev and rec.ev[0].get("hash") != digest(outs).hex():
            bad.append("announced digest differs")
    except Exception as e:
        bad.append("synchronising %d outputs (%s) stopped: %r" % (n, kind, str(e)[:200] or e))
    return {"n": n, "kind": kind, "ev": rec.ev if "rec" in dir() else [], "bad": bad}


def check_k01(c):
    ns = [0, 1, 2, 5, 9, 10, 11, 19, 20, 21, 30] if not c.thorough else list(range(0, 33)) + [39, 40, 41, 99, 100, 101, 128, 130]
    jobs = [(n, k, s) for n in ns for k in ("main", "sub", "mix", "far") for s in ([c.seed] if not c.thorough else [c.seed, c.seed + 1])
            if n or k == "main"]
    jobs.sort(key=lambda j: -j[0])
    with Pool(8) as p:
        res = p.map(host_run, jobs, 1)
    for x in res:
        c.add(exchanges=1, key_images_checked=x["n"])
        for b in x["bad"][:2]:
            c.fail("n=%d %s: %s" % (x["n"], x["kind"], b), b, x)
        c.sample({"outputs": x["n"], "received_at": x["kind"], "messages": [(e["m"], e.get("size")) for e in x["ev"]]})
    good = [x for x in res if not x["bad"]]
    if good:
        r = tlc.run("KeySyncHost", "INIT Init\nNEXT Next\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n", workers=1,
                    files={"traces.json": json.dumps([{"n": x["n"], "ev": x["ev"]} for x in good])})
        c.add(states=r["distinct"], transitions=r["generated"], traces_validated_against_impl=len(good))
        prog = {}
        for t, v in r["lines"]:
            if t == "T" and v[1] >= prog.get(v[0], (-1,))[0]:
                prog[v[0]] = (v[1], v[2])
        for i, x in enumerate(good, 1):
            if prog.get(i, (0, ""))[1] != "DONE" or prog[i][0] != len(x["ev"]):
                c.fail("n=%d %s: trace" % (x["n"], x["kind"]), "recorded exchange leaves the specification", x)
