"""Replays the labelled state graph of spec/TsxSign.tla on the real signing device.

Nothing inside the device is read: messages go in through TokenLite.tsx_sign, answers are judged
against the specification and against the independent reference in ref.py."""
import copy, json, os, random, traceback
from . import env, txgen, ref
from .env import run
from monero_glue.hwtoken import token, iface, misc as hmisc
from monero_glue import messages as M
from monero_glue.xmr import crypto, monero, ring_ct
from monero_serialize import xmrtypes

WALLETS = {}
MIXED = {"mev": ("bob", "me"), "mew": ("me", "bob")}      # addresses that share one key with ours: (view, spend)
def wal(n):
    if n not in WALLETS:
        if n in MIXED:
            v, sp = MIXED[n]
            WALLETS[n] = monero.AccountCreds.new_wallet(wal(v).view_key_private, wal(sp).spend_key_private, wal(v).network_type)
        else:
            WALLETS[n] = txgen.wallet(n)
    return WALLETS[n]

NAMES = {"me": ("me", 0, 0), "me1": ("me", 1, 0), "me01": ("me", 0, 1), "bob": ("bob", 0, 0), "ann": ("ann", 0, 0),
         "bobs": ("bob", 0, 1), "bobs2": ("bob", 0, 2), "anns": ("ann", 0, 1), "mev": ("mev", 0, 0), "mew": ("mew", 0, 0)}
PHASES_SIGN = ("MSG", "SIGN", "SIGDONE", "FINAL")


class Iface(iface.TokenInterface):
    def __init__(self, approve):
        super().__init__()
        self.approve, self.log = approve, []

    async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
        self.log.append(("confirm", snap_tsx(tsx_data), creds))
        return self.approve

    def __getattr__(self, n):          # any other notification
        if n.startswith("__"):
            raise AttributeError(n)
        async def f(*a, **k):
            return None
        return f


def snap_dst(d):
    return None if d is None else (d.amount, bytes(d.addr.spend_public_key), bytes(d.addr.view_public_key), bool(d.is_subaddress))


def snap_tsx(t):
    return (t.unlock_time, t.num_inputs, t.mixin, t.fee, t.account, bytes(t.payment_id or b""),
            tuple(snap_dst(x) for x in t.outputs), snap_dst(t.change_dts))


def flip(b, bit):
    b = bytearray(b)
    b[(bit // 8) % len(b)] ^= 1 << (bit % 8)
    return bytes(b)


class World:
    """Concrete material for one announced transaction."""
    def __init__(self, scn, pred, seed):
        self.scn, self.pred, self.seed = scn, pred, seed
        self.rng = txgen.Rng("world-%s-%s" % (scn["id"], seed))
        self.K = self.rng.choice([1, 10**6, 10**9 + 7, 2 ** 50])
        if scn["id"].startswith("wrap"):
            self.K = 2 ** 50          # sums exceed 64 bits
        elif scn["id"].startswith("many"):
            self.K = 10 ** 9 + 7
        self.unlock = self.rng.choice([0, 1, 127, 128, 2 ** 20])
        self.me = wal("me")
        self.ring = scn.get("ring") or self.rng.choice([2, 3, 4])
        self.srcs = []
        for s in scn["src"]:
            w, ma, mi = NAMES[s["own"]]
            self.srcs.append(txgen.source(self.rng, wal(w), s["amt"] * self.K, ma, mi, ring=self.ring, real=scn["real"] - 1 if scn.get("real") else None,
                                          out_idx=self.rng.randrange(0, 3), n_out=3, additional=self.rng.random() < .4))
        if scn.get("alike"):
            self.srcs[:2] = txgen.alike_sources(self.rng, self.me, [s.amount for s in self.srcs[:2]], scn["alike"], self.ring, scn["real"] == 1)
        self.dsts = [self.dest(x) for x in scn["dst"]]
        self.chg = None if scn["chg"]["to"] == "none" else self.dest(scn["chg"])
        self.fee = scn["fee"] * self.K
        p = scn["pid"]
        self.pid = {"none": b"", "short": self.rng.rbytes(8), "long": self.rng.rbytes(32), "odd": self.rng.rbytes(5)}[p]
        self.bpcache = {}
        self.foreignbp = None

    def dest(self, x):
        if x["to"] == "nil":
            a = xmrtypes.AccountPublicAddress(m_spend_public_key=bytes(32), m_view_public_key=bytes(32))
            return xmrtypes.TxDestinationEntry(amount=x["amt"] * self.K, addr=a, is_subaddress=False)
        w, ma, mi = NAMES[x["to"]]
        return txgen.dest(wal(w), x["amt"] * self.K, ma, mi)

    # -- messages -----------------------------------------------------------------
    def dst_pb(self, d):
        return hmisc.translate_monero_dest_entry_pb(d)

    def src_pb(self, j, amount=None):
        s = self.srcs[j - 1]
        pb = hmisc.translate_monero_src_entry_pb(s)
        if amount is not None:
            pb.amount = amount
        return pb

    def announcement(self):
        s = self.scn
        t = M.MoneroTransactionData()
        t.version = 1
        t.client_version = s["cv"]
        t.payment_id = self.pid
        t.unlock_time = self.unlock
        t.outputs = [self.dst_pb(x) for x in self.dsts]
        t.change_dts = self.dst_pb(self.chg) if self.chg is not None else None
        t.num_inputs = s["nIn"]
        t.mixin = self.ring
        t.fee = self.fee
        t.account = s["acct"]
        t.minor_indices = [0, 1] if s["subs"] else [0]
        t.integrated_indices = []
        t.rsig_data = M.MoneroTransactionRsigData(rsig_type=s["rt"], grouping=list(s["grp"]), bp_version=s["bp"])
        return t

    def prove(self, pairs):
        k = tuple(pairs)
        if k not in self.bpcache:
            bp = run(ring_ct.prove_range_bp_batch([a for a, _ in pairs], [crypto.decodeint(m) for _, m in pairs]))
            self.bpcache[k] = bytes(run(hmisc.dump_msg(bp)))
        return self.bpcache[k]

    def other_bp(self, n=1):
        return self.prove([(77 + i, ref.i2b(1000 + i)) for i in range(n)])


def new_device(approve=True):
    dev = token.TokenLite()
    dev.debug = False
    dev.creds = wal("me")
    dev.iface = Iface(approve)
    return dev


def clone(dev):
    memo = {id(dev.creds): dev.creds}
    return copy.deepcopy(dev, memo)


def new_host():
    return {"n": 0, "old": None}


class Mismatch(Exception):
    pass


class Replayer:
    def __init__(self, world, light=False):
        self.w = world
        self.light = light
        self.rng = random.Random("rep-%s-%s" % (world.scn["id"], world.seed))
        self.stat = {"edges": 0, "probes": 0, "acks": 0, "refusals": 0, "content_checks": 0}
        self.problems = []

    # -- concretise one abstract message -------------------------------------------
    def message(self, h, act, st):
        """-> protobuf message or None when the host lacks the material for it"""
        w, m = self.w, act["m"]
        nout = len(w.dsts)
        bit = lambda n: self.rng.randrange(n * 8)
        if m == "init":
            return M.MoneroTransactionInitRequest(version=0, address_n=[0x8000002C, 0x80000080, 0x80000000],
                                                  network_type=w.me.network_type, tsx_data=w.announcement())
        if m == "input":
            j, v = act["j"], act["v"]
            pb = w.src_pb(j)
            if v == "inflate":
                pb.amount += 5 * w.K
            elif v == "foreign":
                pb.outputs[pb.real_output].key.dest = ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
            elif v == "badreal":
                pb.real_output = len(pb.outputs) + self.rng.choice([0, 1, 7])
            elif v == "swapkey":
                if len(pb.outputs) > 1:
                    pb.real_output = (pb.real_output + 1) % len(pb.outputs)
                else:
                    pb.real_out_tx_key = ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
            return M.MoneroTransactionSetInputRequest(src_entr=pb)
        if m == "perm":
            return M.MoneroTransactionInputsPermutationRequest(perm=list(act["p"]))
        if m == "vini":
            it, other = self.item(h, act["i"], act["v"] in ("stale",))
            pb, vini, mac, v = self.itpb(it), it["vini"], it["hmac"], act["v"]
            if v == "src":
                pb.real_output_in_tx_index += 1
            elif v == "amount":
                pb.amount += w.K
            elif v == "ring":
                pb.outputs[self.rng.randrange(len(pb.outputs))].idx += 1
            elif v == "vini":
                vini = flip(vini, bit(len(vini)))
            elif v == "mac":
                mac = flip(mac, bit(32))
            elif v == "othermac":
                same = other is not None and (other["j"], other["amount"]) == (it["j"], it["amount"])
                mac = other["hmac"] if other is not None and not same else it["pout_hmac"]
            return M.MoneroTransactionInputViniRequest(src_entr=pb, vini=bytearray(vini), vini_hmac=mac, orig_idx=0)
        if m == "allin":
            return M.MoneroTransactionAllInputsSetRequest()
        if m == "out":
            return self.out_msg(h, act, st)
        if m == "bp":
            v = act["v"]
            pend = h.get("pend") or [(5, ref.i2b(6))]
            if v == "none":
                rd = None
            else:
                if v == "ok" or v == "bad":
                    rs = w.prove(pend)
                    if v == "bad":
                        rs = self.corrupt_bp(rs)
                elif v == "old":
                    rs = h["lastbp"] if h.get("lastbp") else w.other_bp(len(pend))
                elif v == "garbage":
                    rs = bytes(self.rng.randrange(256) for _ in range(len(w.other_bp(1))))
                elif v == "masked":
                    rs = w.prove([(pend[0][0], ref.i2b((ref.b2i(pend[0][1]) + 1) % ref.L))] + pend[1:])
                rd = M.MoneroTransactionRsigData(rsig=rs)
            return M.MoneroTransactionSetOutputRequest(rsig_data=rd, is_offloaded_bp=True)
        if m == "allout":
            return M.MoneroTransactionAllOutSetRequest()
        if m == "sign":
            v = act["v"]
            it, other = self.item(h, act["i"], v == "stale")
            pb, vini, mac = self.itpb(it), it["vini"], it["hmac"]
            pout, phm, al, sp = it["pout"], it["pout_hmac"], it["alpha"], it["spend"]
            if v == "staleenc":
                o, _ = self.item(h, act["i"], True)
                al, sp = o["alpha"], o["spend"]
            elif v == "src":
                pb.real_output_in_tx_index += 1
            elif v == "amount":
                pb.amount += w.K
            elif v == "ring":
                o = pb.outputs[self.rng.randrange(len(pb.outputs))]
                if self.rng.random() < .5:
                    o.idx += 1
                else:
                    o.key.commitment = ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
            elif v == "mask":
                pb.mask = ref.i2b((ref.b2i(pb.mask) + 1) % ref.L)
            elif v == "real":
                pb.real_output += 1
            elif v == "vini":
                vini = flip(vini, bit(len(vini)))
            elif v == "mac":
                mac = flip(mac, bit(32))
            elif v == "pout":
                pout = ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
            elif v == "poutmac":
                phm = flip(phm, bit(32))
            elif v == "xpout":        # the pseudo output issued for another input, with its own tag
                pout, phm = (other["pout"], other["pout_hmac"]) if other is not None else (vini[-32:], mac)
            elif v == "xcomm":        # ... and with its secret
                pout, phm, al = (other["pout"], other["pout_hmac"], other["alpha"]) if other is not None else (pout, mac, sp)
            elif v == "alpha":
                al = flip(al, bit(len(al)))
            elif v == "spend":
                sp = flip(sp, bit(len(sp)))
            elif v == "xalpha":
                al = other["alpha"] if other is not None else it["spend"]
            elif v == "xspend":
                sp = other["spend"] if other is not None else it["alpha"]
            return M.MoneroTransactionSignInputRequest(
                src_entr=pb, vini=bytearray(vini), vini_hmac=mac, pseudo_out=pout, pseudo_out_hmac=phm,
                pseudo_out_alpha=al, spend_key=sp, orig_idx=0)
        if m == "final":
            return M.MoneroTransactionFinalRequest()
        raise KeyError(m)

    def out_msg(self, h, act, st):
        w, d, v = self.w, act["d"], act["v"]
        nout = len(w.dsts)
        hm = h.get("hm") or []
        if v == "stale":
            hm = h["old"]["hm"]
        nxt = len(h.get("outs", []))
        if d == 0:
            pb = w.dst_pb(txgen.dest(wal("ann"), w.K))
            mac = hm[min(nxt, len(hm) - 1)] if hm else bytes(32)
        else:
            pb = w.dst_pb(w.dsts[d - 1])
            mac = hm[d - 1] if d - 1 < len(hm) else bytes(32)
        if v == "amount":
            pb.amount += self.rng.choice([1, w.K])
        elif v == "addr":
            pb.addr.spend_public_key = ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
        elif v == "view":
            pb.addr.view_public_key = ref.enc(ref.gmul(self.rng.randrange(1, ref.L)))
        elif v == "sub":
            pb.is_subaddress = not pb.is_subaddress
        elif v == "mac":
            mac = flip(mac, self.rng.randrange(256))
        elif v == "othermac":
            mac = hm[d % nout] if len(hm) > 1 and d else (h["items"][1]["hmac"] if h.get("items") else bytes(32))
        rd = None
        if v in ("rsig", "badrsig", "xrsig"):
            # the batch that ends with d
            need = self.batch_of(d)
            rs = None
            if v in ("rsig", "badrsig"):
                masks = h.get("masks") or []
                if need and len(masks) >= need[-1]:
                    rs = w.prove([(w.dsts[k - 1].amount, masks[k - 1]) for k in need])
                    if v == "badrsig":
                        rs = self.corrupt_bp(rs)
            if rs is None:
                rs = w.other_bp(max(1, len(need)) if v == "xrsig" else 1)
            rd = M.MoneroTransactionRsigData(rsig=rs)
        return M.MoneroTransactionSetOutputRequest(dst_entr=pb, dst_entr_hmac=mac, rsig_data=rd)

    def batch_of(self, d):
        acc = 0
        for g in self.w.scn["grp"]:
            if acc < d <= acc + g:
                return list(range(acc + 1, d + 1))
            acc += g
        return [d] if d else []

    def corrupt_bp(self, rs):
        rs = bytearray(rs)
        # one of the scalars or points of the proof (length bytes left alone)
        n = len(rs)
        k = (n - 2 - 9 * 32) // 64
        cands = list(range(0, 192)) + list(range(193, 193 + 32 * k)) + list(range(194 + 32 * k, n))
        rs[self.rng.choice(cands)] ^= 1 << self.rng.randrange(7)
        return bytes(rs)

    def item(self, h, i, stale):
        src = h["old"] if stale else h
        items = (src or {}).get("items") or {}
        if i in items:
            o = [items[k] for k in items if k != i]
            return items[i], (o[0] if o else None)
        fake = {"j": 1, "amount": None, "vini": b"\x02\x00\x01\x05" + bytes(range(32)), "hmac": bytes(32), "pout": ref.enc(ref.G),
                "pout_hmac": bytes(32), "alpha": bytes(12 + 32 + 16), "spend": bytes(12 + 32 + 16)}
        return fake, None

    def itpb(self, it):
        return self.w.src_pb(it["j"], it["amount"])

    # -- perform -----------------------------------------------------------------
    def perform(self, dev, h, act, st):
        """Sends the message, updates the host's knowledge.  Returns (resp, problems)."""
        w, m = self.w, act["m"]
        msg = self.message(h, act, st)
        nconf = len(dev.iface.log)
        want = snap_tsx(w.announcement()) if m == "init" else None
        try:
            res = run(dev.tsx_sign(msg))
        except Exception as e:           # the entry point itself must answer
            return "fail", ["device entry point raised %r" % e]
        bad = []
        confs = dev.iface.log[nconf:]
        if m == "init":
            if len(confs) != 1:
                bad.append("user asked %d times for one announcement" % len(confs))
            elif confs[0][1] != want:
                bad.append("user was shown %r, announced %r" % (confs[0][1], want))
            nh = new_host()
            nh["n"] = h["n"] + 1
            nh["old"] = {k: v for k, v in h.items() if k != "old"} if h["n"] else None
            h.clear()
            h.update(nh)
        elif confs:
            bad.append("confirmation requested by %s" % m)
        if res is None or isinstance(res, M.Failure):
            return "fail", bad
        try:
            bad += self.absorb(h, act, msg, res)
        except Exception as e:
            bad.append("answer to %s cannot be used: %r" % (m, e))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        return "ack", bad

    def absorb(self, h, act, msg, res):
        w, m, bad = self.w, act["m"], []
        self.stat["content_checks"] += 1
        scn, pred = w.scn, w.pred
        if m == "init":
            h["hm"] = [bytes(x) for x in res.hmacs]
            h.update(items={}, masks=[], outs=[], pend=[], vins=[], sigs=[], bps=[])
            if len(h["hm"]) != len(w.dsts):
                bad.append("%d destination tags for %d destinations" % (len(h["hm"]), len(w.dsts)))
            if len(set(h["hm"])) != len(h["hm"]):
                bad.append("destination tags repeat")
            off = bool(res.rsig_data.offload_type) if res.rsig_data else False
            if off != pred["offload"]:
                bad.append("offloading announced %s, expected %s" % (off, pred["offload"]))
        elif m == "input":
            i = len(h["items"]) + 1
            s = w.srcs[act["j"] - 1]
            it = {"j": act["j"], "amount": msg.src_entr.amount, "vini": bytes(res.vini), "hmac": bytes(res.vini_hmac),
                  "pout": bytes(res.pseudo_out), "pout_hmac": bytes(res.pseudo_out_hmac),
                  "alpha": bytes(res.pseudo_out_alpha), "spend": bytes(res.spend_key)}
            h["items"][i] = it
            bad += self.check_vini(s, scn["src"][act["j"] - 1]["own"], it["vini"])
        elif m == "vini":
            h["vins"].append(bytes(msg.vini))
        elif m == "allin":
            if res.rsig_data is not None and res.rsig_data.mask:
                mk = bytes(res.rsig_data.mask)
                h["masks"] = [mk[k:k + 32] for k in range(0, len(mk), 32)]
            want = len(w.dsts) if pred["offload"] and not pred["det"] else 0
            if len(h["masks"]) != want:
                bad.append("%d masks handed out, expected %d" % (len(h["masks"]), want))
        elif m == "out":
            d = act["d"]
            rec = {"tx_out": bytes(res.tx_out), "pk": bytes(res.out_pk), "ecdh": bytes(res.ecdh_info), "mask": None}
            h["outs"].append(rec)
            rd = res.rsig_data
            mask = bytes(rd.mask) if rd is not None and rd.mask else None
            if mask is None and h["masks"]:
                mask = h["masks"][d - 1]
            amount = w.dsts[d - 1].amount
            if len(rec["tx_out"]) != 34 or rec["tx_out"][:2] != b"\x00\x02":
                bad.append("output serialization %r" % rec["tx_out"][:2])
            if rec["pk"][:32] != rec["tx_out"][2:]:
                bad.append("output key differs between output and commitment record")
            if pred["offload"]:
                if mask is None:
                    bad.append("no mask for offloaded output")
                else:
                    if ref.enc(ref.commit(ref.b2i(mask), amount)) != rec["pk"][32:]:
                        bad.append("commitment of output %d does not open to its amount" % d)
                    h["pend"].append((amount, mask))
                if msg.rsig_data is not None and not pred["det"]:
                    h["bps"].append(self.w.prove(h["pend"]))
                    h["lastbp"], h["pend"] = h["bps"][-1], []
            elif rd is not None and (rd.rsig or rd.rsig_parts):
                h["bps"].append(bytes(rd.rsig) if rd.rsig else b"".join(bytes(x) for x in rd.rsig_parts))
        elif m == "bp":
            h["bps"].append(self.w.prove(h["pend"]) if h["pend"] else b"")
            h["lastbp"], h["pend"] = h["bps"][-1], []
        elif m == "allout":
            bad += self.check_message(h, res)
        elif m == "sign":
            bad += self.check_signature(h, act, res)
        elif m == "final":
            bad += self.check_final(h, res)
        return bad

    # -- contents --------------------------------------------------------------------
    def secret_of(self, s, own):
        """Independent derivation of the one-time secret of a source the wallet owns."""
        w_, ma, mi = NAMES[own]
        c = wal(w_)
        a, b = ref.b2i(crypto.encodeint(c.view_key_private)), ref.b2i(crypto.encodeint(c.spend_key_private))
        P = s.outputs[s.real_output][1].dest
        cands = [s.real_out_tx_key] + ([s.real_out_additional_tx_keys[s.real_output_in_tx_index]] if s.real_out_additional_tx_keys else [])
        for R in cands:
            der = ref.derivation(ref.dec(bytes(R)), a)
            x = (ref.d2s(der, s.real_output_in_tx_index) + b) % ref.L
            if (ma, mi) != (0, 0):
                x = (x + ref.sub_secret(a, ma, mi)) % ref.L
            if ref.enc(ref.gmul(x)) == bytes(P):
                return x
        return None

    def key_image_of(self, j):
        c = self.__dict__.setdefault("_ki", {})
        if j not in c:
            x = self.secret_of(self.w.srcs[j - 1], self.w.scn["src"][j - 1]["own"])
            c[j] = None if x is None else ref.enc(ref.key_image(x))
        return c[j]

    def check_vini(self, s, own, vini):
        j = self.w.srcs.index(s) + 1
        ki = self.key_image_of(j)
        offs, prev = [], 0
        for gi, _ in s.outputs:
            offs.append(gi - prev)
            prev = gi
        want = b"\x02" + ref.varint(0) + ref.varint(len(offs)) + b"".join(ref.varint(o) for o in offs) + (ki or b"")
        if ki is None:
            return ["an input that is not ours was registered"]
        if vini != want:
            return ["serialized input %d differs from the expected one" % j]
        return []

    def assemble(self, h, extra):
        """The transaction prefix as the host would publish it, and an abstract tx for the reference."""
        w = self.w
        prefix = ref.varint(2) + ref.varint(w.unlock) + ref.varint(len(h["vins"])) + b"".join(h["vins"]) \
            + ref.varint(len(h["outs"])) + b"".join(o["tx_out"] for o in h["outs"]) + ref.varint(len(extra)) + extra
        typ = 3 if w.scn["bp"] == 1 else 4
        ecdh = [o["ecdh"] for o in h["outs"]]
        base = bytes([typ]) + ref.varint(w.fee) + b"".join(ecdh) + b"".join(o["pk"][32:] for o in h["outs"])
        bps = [self.parse_bp(b) for b in h["bps"]]
        return {"version": 2, "unlock": w.unlock, "prefix": prefix, "base": base, "bps": bps, "type": typ, "fee": w.fee,
                "extra": extra, "vout": [{"amount": 0, "key": o["tx_out"][2:]} for o in h["outs"]],
                "outpk": [o["pk"][32:] for o in h["outs"]],
                "ecdh": [(e[:32], e[32:]) if typ == 3 else (None, e) for e in ecdh]}

    def parse_bp(self, b):
        r = ref.Rd(b)
        bp = {k: r.take(32) for k in ("A", "S", "T1", "T2", "taux", "mu")}
        bp["L"] = [r.take(32) for _ in range(r.vi())]
        bp["R"] = [r.take(32) for _ in range(r.vi())]
        for k in ("a", "b", "t"):
            bp[k] = r.take(32)
        return bp

    def check_message(self, h, res):
        w, bad, pred = self.w, [], self.w.pred
        extra = bytes(res.extra)
        h["extra"] = extra
        tx = self.assemble(h, extra)
        if bytes(res.tx_prefix_hash) != ref.keccak(tx["prefix"]):
            bad.append("prefix hash is not that of the announced inputs and outputs")
        h["msg"] = bytes(res.full_message_hash)
        if h["msg"] != ref.mlsag_message(tx):
            bad.append("message to be signed does not cover prefix, commitments and proofs as published")
        if res.rv is None or res.rv.txn_fee != w.fee or bytes(res.rv.message) != bytes(res.tx_prefix_hash) or res.rv.rv_type != tx["type"]:
            bad.append("signature header differs from the announcement")
        ex = ref.parse_extra(extra)
        if len(ex["pub"]) != 1:
            bad.append("%d transaction keys" % len(ex["pub"]))
        nadd = len(ex["additional"]) if ex["additional"] is not None else 0
        if nadd != (len(w.dsts) if pred["additional"] else 0):
            bad.append("%d additional keys" % nadd)
        nn = ex["nonce"]
        kind = "none" if not nn else ("enc" if len(nn) == 1 and len(nn[0]) == 9 and nn[0][0] == 1
                                      else "plain" if len(nn) == 1 and len(nn[0]) == 33 and nn[0][0] == 0 else "odd")
        if kind != pred["pidfield"]:
            bad.append("payment id field is %s, expected %s" % (kind, pred["pidfield"]))
        elif kind == "plain" and nn[0][1:] != w.pid:
            bad.append("payment id differs")
        bad += self.check_recipients(tx)
        return bad

    def check_recipients(self, tx):
        """Every announced destination can find, open and spend its output; nobody else can."""
        w, bad, pred = self.w, [], self.w.pred
        if self.light:
            return bad
        got = {}
        for name in ["me", "bob", "ann"] + [m for m in MIXED if any(x["to"] == m for x in w.scn["dst"])]:
            c = wal(name)
            a, b = ref.b2i(crypto.encodeint(c.view_key_private)), ref.b2i(crypto.encodeint(c.spend_key_private))
            subs = {}
            for n, (ww, ma, mi) in NAMES.items():
                if ww == name:
                    subs[bytes(txgen.addr_of(c, ma, mi).m_spend_public_key)] = (ma, mi)
            try:
                for r in ref.scan_tx(tx, a, b, subs):
                    n = [k for k, v in NAMES.items() if v == (name,) + tuple(r["sub"])][0]
                    if r["i"] in got:
                        bad.append("output %d belongs to two wallets" % r["i"])
                    got[r["i"]] = (n, r["amount"], r["pid"])
            except ValueError as e:
                bad.append("recipient %s: %s" % (name, e))
        for d, x in enumerate(w.scn["dst"]):
            want = (x["to"], x["amt"] * w.K)
            if d not in got:
                bad.append("recipient of output %d (%s) does not find it" % (d + 1, x["to"]))
            elif got[d][:2] != want:
                bad.append("output %d goes to %r, announced %r" % (d + 1, got[d][:2], want))
            elif pred["pidfield"] == "enc" and x["to"] == pred["pidfor"] and x["amt"] > 0 and \
                    not (NAMES[x["to"]][1:] != (0, 0) and pred["additional"]) and \
                    not (x["to"] == w.scn["chg"]["to"] and NAMES[x["to"]][1:] != (0, 0)):
                # (the dummy id of a transfer from an account to itself is nobody's to read)
                p = w.pid if w.pid else bytes(8)
                if got[d][2] != p:
                    bad.append("payment id does not decrypt for %s" % x["to"])
        return bad

    def check_signature(self, h, act, res):
        bad, w = [], self.w
        it = h["items"][act["i"]]
        s = w.srcs[it["j"] - 1]
        pseudo = bytes(res.pseudo_out)
        r = ref.Rd(bytes(res.signature))
        ncol = len(s.outputs)
        nrow = r.vi()
        ss = []
        for _ in range(nrow):
            if r.vi() != 2:
                return ["signature has wrong dimensions"]
            ss.append([ref.b2i(r.take(32)) for _ in range(2)])
        cc = ref.b2i(r.take(32))
        if nrow != ncol:
            return ["signature has wrong dimensions"]
        ring = [(ref.dec(bytes(k.dest)), ref.dec(bytes(k.mask))) for _, k in s.outputs]
        if not ref.mlsag_simple_verify(h["msg"], ring, ref.dec(pseudo), ss, cc, ref.dec(self.key_image_of(it["j"]))):
            bad.append("ring signature of input %d does not verify over ring, message and key image" % act["i"])
        h["sigs"].append(pseudo)
        if len(h["sigs"]) == w.scn["nIn"]:
            tot = ref.ID
            for p in h["sigs"]:
                tot = ref.padd(tot, ref.dec(p))
            out = ref.pmul(ref.H, w.fee)
            for o in h["outs"]:
                out = ref.padd(out, ref.dec(o["pk"][32:]))
            if not ref.peq(tot, out):
                bad.append("signed commitments do not balance")
        return bad

    def check_final(self, h, res):
        """Transaction keys come back wrapped for the wallet that signed."""
        bad, w = [], self.w
        ex = ref.parse_extra(h["extra"])
        tx = self.assemble(h, h["extra"])
        key, _, _ = hmisc.compute_tx_key(w.me.spend_key_private, ref.keccak(tx["prefix"]), bytes(res.salt), bytes(res.rand_mult))
        from monero_glue.xmr.enc import chacha_poly
        plain = bytes(chacha_poly.decrypt_pack(key, bytes(res.tx_enc_keys)))
        ks = [ref.b2i(plain[i:i + 32]) for i in range(0, len(plain), 32)]
        n = 1 + (len(w.dsts) if w.pred["additional"] else 0)
        if len(ks) != n:
            return ["%d transaction secrets returned, expected %d" % (len(ks), n)]
        base = ref.G
        if w.pred["single"]:
            d = [x for x in w.scn["dst"] if x["to"] != w.scn["chg"]["to"]][0]["to"]
            base = ref.dec(bytes(txgen.addr_of(wal(NAMES[d][0]), *NAMES[d][1:]).m_spend_public_key))
        if ref.enc(ref.pmul(base, ks[0])) != ex["pub"][0]:
            bad.append("returned transaction secret does not match the transaction key")
        for i, k in enumerate(ks[1:]):
            d = w.scn["dst"][i]["to"]
            b = ref.G
            if NAMES[d][1:] != (0, 0):
                b = ref.dec(bytes(txgen.addr_of(wal(NAMES[d][0]), *NAMES[d][1:]).m_spend_public_key))
            if ref.enc(ref.pmul(b, k)) != ex["additional"][i]:
                bad.append("returned additional secret %d does not match" % i)
        return bad


class Graph:
    def __init__(self):
        self.scn = self.pred = None
        self.succ = {}       # state -> {act json: [(resp, state)]}
        self.edges = 0

    def add(self, s, a, r, t):
        d = self.succ.setdefault(s, {}).setdefault(a, [])
        if (r, t) not in d:
            d.append((r, t))
            self.edges += 1


INITIAL = json.dumps(["NONE", 0, [], [], [], [], 0, [], {"n": 0}], sort_keys=True)


def graphs(lines):
    g = {}
    for tag, v in lines:
        if tag == "S":
            x = g.setdefault(v["id"], Graph())
            x.scn, x.pred = v["scn"], v["pred"]
        elif tag == "E":
            i, s, a, r, t = v
            g.setdefault(i, Graph()).add(json.dumps(s, sort_keys=True), json.dumps(a, sort_keys=True), r,
                                         json.dumps(t, sort_keys=True))
    return {k: v for k, v in g.items() if v.scn is not None}


def explore(gr, seed, probes=1, walks=2, light=False, max_states=None):
    """Executes every edge of the graph on the device, then random walks without snapshots."""
    w = World(gr.scn, gr.pred, seed)
    rp = Replayer(w, light)
    rng = random.Random("x-%s-%s" % (gr.scn["id"], seed))
    init = INITIAL
    approve = gr.scn["approve"]
    snaps = {init: (new_device(approve), new_host(), [])}
    queue = [init]
    done = set()
    problems = []

    def report(path, act, what):
        problems.append({"scenario": gr.scn["id"], "path": path + [act], "what": what, "K": w.K, "ring": w.ring})

    while queue and len(problems) < 20:
        s = queue.pop(0)
        dev, h, path = snaps[s]
        acts = gr.succ.get(s, {})
        honest = [a for a in acts if any(r == "ack" for r, _ in acts[a]) and json.loads(a)["m"] != "init"]
        st = json.loads(s)
        for a in sorted(acts):
            act = json.loads(a)
            d2, h2 = clone(dev), copy.deepcopy(h)
            resp, bad = rp.perform(d2, h2, act, st)
            rp.stat["edges"] += 1
            rp.stat["acks" if resp == "ack" else "refusals"] += 1
            for b in bad:
                report(path, act, b)
            nxt = [t for r, t in acts[a] if r == resp]
            if not nxt:
                report(path, act, "device answered %s in state %s, allowed %s" % (resp, st[0], sorted({r for r, _ in acts[a]})))
                continue
            for t in nxt[:1]:
                if t not in snaps and (max_states is None or len(snaps) < max_states):
                    snaps[t] = (d2, h2, path + [act])
                    queue.append(t)
            if resp == "fail" and honest and probes:
                for c in rng.sample(honest, min(probes, len(honest))):
                    d3, h3 = clone(d2), copy.deepcopy(h)
                    ca = json.loads(c)
                    msg = rp.message(h3, ca, st)
                    rp.stat["probes"] += 1
                    try:
                        res = run(d3.tsx_sign(msg))
                    except Exception:
                        continue
                    if not (res is None or isinstance(res, M.Failure)):
                        report(path + [act], ca, "session went on after a refused message")
        snaps[s] = (None, None, path)
        done.add(s)
    # behaviours executed from the beginning on one device object
    for _ in range(walks):
        if problems:
            break
        dev, h, s, path = new_device(approve), new_host(), init, []
        for _ in range(60):
            acts = gr.succ.get(s)
            if not acts:
                break
            good = [a for a in sorted(acts) if any(r == "ack" and t != s for r, t in acts[a])]
            adv = [a for a in good if json.loads(a)["m"] != "init"] or good
            a = rng.choice(adv) if adv and rng.random() < .93 else rng.choice(sorted(acts))
            act = json.loads(a)
            resp, bad = rp.perform(dev, h, act, json.loads(s))
            path.append(act)
            rp.stat["walk_steps"] = rp.stat.get("walk_steps", 0) + 1
            for b in bad:
                report(path[:-1], act, b)
            nxt = [t for r, t in acts[a] if r == resp]
            if not nxt:
                report(path[:-1], act, "device answered %s in state %s" % (resp, json.loads(s)[0]))
                break
            s = nxt[0]
    rp.stat["states"] = len(snaps)
    rp.stat["complete"] = int(len(done) == len(snaps) and not queue)
    return {"scn": gr.scn["id"], "stat": rp.stat, "problems": problems, "missed": len([s for s in gr.succ if s not in done])}
