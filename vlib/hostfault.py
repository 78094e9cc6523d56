"""H03: the real host with a device that spoils one answer, as enumerated by spec/HostFault.tla."""
import copy, os, random, sys, time, traceback
from multiprocessing import Pool
from . import tlc, ref, device, host, txgen
from .env import run
from .device import World
from monero_glue import messages as M
from monero_glue.agent import agent_misc

CFG = """SPECIFICATION FSpec
CONSTANTS Fam="%s" Focus={} MaxSess=1
INVARIANT FInv
PROPERTY FTerm
CHECK_DEADLOCK FALSE
"""

EMPTY = {"perm": M.MoneroTransactionInputsPermutationAck, "vini": M.MoneroTransactionInputViniAck,
         "allin": M.MoneroTransactionAllInputsSetAck, "bp": M.MoneroTransactionSetOutputAck}


class Faulty:
    def __init__(self, dev, flt, m, seed):
        self.dev, self.flt, self.m = dev, flt, m
        self.rng = random.Random("flt-%s-%s" % (flt, seed))
        self.n = 0
        self.after = 0          # messages received after the spoiled answer
        self.seen = {}          # first answer of each kind
        self.real_hash = None
        self.applied = False

    async def tsx_sign(self, msg):
        self.n += 1
        hit = self.n == self.flt["s"]
        if self.n > self.flt["s"]:
            self.after += 1
        k = self.flt["k"]
        if hit and k == "lost":
            self.applied = True
            return EMPTY[self.m["m"]]()
        res = await self.dev.tsx_sign(msg)
        if isinstance(res, M.MoneroTransactionAllOutSetAck):
            self.real_hash = bytes(res.full_message_hash)
        first = self.seen.setdefault(type(res).__name__, res)
        if not hit or isinstance(res, M.Failure):
            return res
        if k == "error":
            self.applied = True
            return M.Failure(message="spoiled")
        res = copy.copy(res)
        for a in ("rv", "rsig_data"):
            if getattr(res, a, None) is not None:
                setattr(res, a, copy.copy(getattr(res, a)))
        self.applied = self.spoil(res, self.flt["f"], k, first)
        return res

    def flip(self, b):
        b = bytearray(b)
        b[self.rng.randrange(len(b))] ^= 1 << self.rng.randrange(8)
        return bytes(b)

    def spoil(self, res, f, k, first):
        if f.startswith("hmac"):
            d = int(f[4:]) - 1
            hm = list(res.hmacs)
            hm[d] = self.flip(hm[d]) if k == "flip" else b""
            res.hmacs = hm
            return True
        if f == "offload":
            res.rsig_data.offload_type = 0 if res.rsig_data.offload_type else 1
            return True
        if f in ("pk_dest", "pk_mask"):
            b = bytes(res.out_pk)
            lo = 0 if f == "pk_dest" else 32
            part = self.flip(b[lo:lo + 32]) if k == "flip" else bytes(32) if k == "none" else bytes(first.out_pk)[lo:lo + 32]
            if part == b[lo:lo + 32]:
                return False
            res.out_pk = b[:lo] + part + b[lo + 32:]
            return True
        if f in ("fee", "message", "rv_type"):
            a = {"fee": "txn_fee", "message": "message", "rv_type": "rv_type"}[f]
            v = getattr(res.rv, a)
            if k == "none":
                nv = {"fee": 0, "message": bytes(32), "rv_type": 0}[f]
            elif f == "message":
                nv = self.flip(v)
            elif f == "rv_type":
                nv = 7 - v
            else:
                nv = v ^ (1 << self.rng.randrange(16))
            if nv == v:
                return False
            setattr(res.rv, a, nv)
            return True
        if f in ("rsig", "mask", "masks"):
            rd = res.rsig_data
            if f == "rsig":
                b = bytes(rd.rsig) if rd.rsig else b"".join(bytes(x) for x in rd.rsig_parts)
                rd.rsig_parts = []
                rd.rsig = self.flip(b) if k == "flip" else None
            else:
                b = bytes(rd.mask)
                rd.mask = self.flip(b) if k == "flip" else bytes(first.rsig_data.mask) if k == "swap" else None
            return True
        a = {"vini": "vini", "vini_hmac": "vini_hmac", "pseudo_out": "pseudo_out", "pseudo_out_hmac": "pseudo_out_hmac",
             "alpha": "pseudo_out_alpha", "spend": "spend_key", "tx_out": "tx_out", "vouti_hmac": "vouti_hmac", "ecdh": "ecdh_info",
             "extra": "extra", "prefix_hash": "tx_prefix_hash", "full_hash": "full_message_hash", "signature": "signature",
             "new_pseudo_out": "pseudo_out", "salt": "salt", "rand_mult": "rand_mult", "keys": "tx_enc_keys"}[f]
        v = getattr(res, a)
        if v is None:
            return False
        v = bytes(v)
        nv = self.flip(v) if k == "flip" else getattr(first, a) if k == "swap" else None
        if nv is not None and bytes(nv) == v:
            return False
        setattr(res, a, nv)
        return True


def one(a):
    sys.stderr = open(os.devnull, "w")      # the host prints what its proof verifier raises
    gr, faults, seed = a
    scn, pred = gr
    t = time.time()
    out = []
    for v in faults:
        w = World(scn, pred, seed)
        fd = Faulty(device.new_device(True), v["flt"], v["m"], seed)
        ag = host.agent(fd, scn)
        bad = None
        try:
            run(ag.sign_transaction_data(host.request(w)))
            got, blob = "done", run(ag.serialized_tx())
        except agent_misc.TrezorReturnedError:
            got = "refused"
        except Exception:
            got = "error"          # stopping over a harmless alteration is allowed too
        if not fd.applied:
            if fd.n < v["flt"]["s"] and got != "done":
                bad = "host stopped before the fault (%s)" % got
            else:
                out.append((v, "not applicable", None))
                continue
        elif v["out"] == "error" and got == "done":
            bad = "host returned a transaction although the answer was spoiled"
        elif v["flt"]["k"] == "error" and (got != "refused" or fd.after):
            bad = "device error not reported at once (%s, %d further messages)" % (got, fd.after)
        elif v["out"] == "error" and fd.n > v["at"]:
            bad = "host went on for %d messages, expected to stop at %d" % (fd.n, v["at"])
        elif got == "done":
            try:
                tx = ref.parse_tx(blob, w.ring)
                h = ref.mlsag_message(tx)
            except Exception as e:
                tx, h = None, repr(e)
            if tx is not None and h != fd.real_hash:
                bad = "returned transaction is not the one the device agreed to"
            elif tx is None and v["flt"]["f"] not in ("signature", "new_pseudo_out"):
                bad = "returned transaction is malformed: %s" % h
            elif not v["free"] and ref.verify_tx(tx, host.rings(w, tx), check_bp=False):
                bad = "returned transaction is not valid"
        out.append((v, got, bad))
    return scn["id"], out, time.time() - t


def order_of(gr, seed):
    w = World(gr[0], gr[1], seed)
    rp = device.Replayer(w)
    return sorted(range(1, w.scn["nIn"] + 1), key=lambda j: rp.key_image_of(j), reverse=True)


def check(c):
    fams = ["fault"] if not c.thorough else ["fault", "faultx"]
    jobs = []
    for f in fams:
        r = tlc.run("HostFault", CFG % f, workers=4)
        c.add(states=r["distinct"], transitions=r["generated"])
        sc = {v["id"]: (v["scn"], v["pred"]) for t, v in r["lines"] if t == "S"}
        fl = [v for t, v in r["lines"] if t == "F"]
        for sd in ([c.seed] if not c.thorough else range(c.seed, c.seed + 6)):
            for i, gr in sc.items():
                o = order_of(gr, sd)
                vs = [v for v in fl if v["id"] == i and v["p"] == o]
                vs.sort(key=lambda v: (v["flt"]["s"], v["flt"]["f"], v["flt"]["k"]))
                for k in range(0, len(vs), 8):
                    jobs.append((gr, vs[k:k + 8], sd))
    n_app = 0
    with Pool(8) as p:
        for i, out, t in p.imap_unordered(one, jobs, 1):
            for v, got, bad in out:
                if got == "not applicable":
                    c.add(not_applicable=1)
                    continue
                c.add(traces_validated_against_impl=1, **{"host_" + got: 1})
                if bad:
                    c.fail("%s %s.%s %s: %s" % (i, v["m"]["m"], v["flt"]["f"], v["flt"]["k"], bad), "%s (%s)" % (bad, v["flt"]), v)
            if out:
                c.sample({"scenario": i, "fault": out[0][0]["flt"], "step": out[0][0]["m"], "expected": out[0][0]["out"], "host": out[0][1]})
