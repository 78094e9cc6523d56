"""The real host (Agent) against the real device, a recorder, or a faulty device."""
import json, time, traceback
from . import env, txgen, ref, tlc
from .env import run
from . import device
from .device import World, NAMES, wal
from monero_glue.agent import agent_lite, agent_misc
from monero_glue.xmr import crypto
from monero_glue import messages as M


def agent(trezor, scn):
    a = agent_lite.Agent(trezor, network_type=wal("me").network_type)
    a.client_version = scn["cv"]
    a.hf = 9 if scn["bp"] == 1 else 10
    return a


def request(w):
    """Construction data as the wallet hands it over."""
    extra = b""
    if w.pid:
        nonce = (b"\x01" if len(w.pid) == 8 else b"\x00") + w.pid
        extra = b"\x02" + bytes([len(nonce)]) + nonce
    change = w.chg
    if change is None:
        change = device.xmrtypes.TxDestinationEntry(amount=0, is_subaddress=False, addr=device.xmrtypes.AccountPublicAddress(
            m_spend_public_key=bytes(32), m_view_public_key=bytes(32)))
    return txgen.construction(w.srcs[:w.scn["nIn"]], w.dsts, change, extra, w.unlock, w.scn["acct"], [0, 1] if w.scn["subs"] else [0])


class Recorder:
    """Stands between host and device; turns messages into actions of TsxSign."""
    def __init__(self, w, dev):
        self.w, self.dev = w, dev
        self.ev, self.bad = [], []
        self.items = []      # vini_hmac by registration order
        self.src_of = {bytes(s.outputs[s.real_output][1].dest): j + 1 for j, s in enumerate(w.srcs)}
        self.answers = []

    def item(self, mac):
        mac = bytes(mac or b"")
        return self.items.index(mac) + 1 if mac in self.items else 0

    def action(self, msg):
        w = self.w
        if isinstance(msg, M.MoneroTransactionInitRequest):
            t = msg.tsx_data
            want = dict(nIn=w.scn["nIn"], fee=w.fee, account=w.scn["acct"], unlock=w.unlock, mixin=w.ring, cv=w.scn["cv"],
                        rt=w.scn["rt"], grp=list(w.scn["grp"]), bp=w.scn["bp"], pid=bytes(w.pid))
            got = dict(nIn=t.num_inputs, fee=t.fee, account=t.account, unlock=t.unlock_time, mixin=t.mixin, cv=t.client_version,
                       rt=t.rsig_data.rsig_type, grp=list(t.rsig_data.grouping), bp=t.rsig_data.bp_version or 1, pid=bytes(t.payment_id or b""))
            for k in want:
                if want[k] != got[k]:
                    self.bad.append("announced %s=%r, expected %r" % (k, got[k], want[k]))
            if [device.snap_dst(x) for x in t.outputs] != [device.snap_dst(w.dst_pb(x)) for x in w.dsts]:
                self.bad.append("announced destinations differ from the request")
            if w.chg is not None and device.snap_dst(t.change_dts) != device.snap_dst(w.dst_pb(w.chg)):
                self.bad.append("announced change differs from the request")
            return {"m": "init"}
        if isinstance(msg, M.MoneroTransactionSetInputRequest):
            s = msg.src_entr
            return {"m": "input", "j": self.src_of.get(bytes(s.outputs[s.real_output].key.dest), 0), "v": "ok"}
        if isinstance(msg, M.MoneroTransactionInputsPermutationRequest):
            return {"m": "perm", "p": [int(x) for x in msg.perm]}
        if isinstance(msg, M.MoneroTransactionInputViniRequest):
            return {"m": "vini", "i": self.item(msg.vini_hmac), "v": "ok"}
        if isinstance(msg, M.MoneroTransactionAllInputsSetRequest):
            return {"m": "allin"}
        if isinstance(msg, M.MoneroTransactionSetOutputRequest):
            if msg.is_offloaded_bp:
                return {"m": "bp", "v": "ok"}
            d = [k for k, x in enumerate(self.hmacs) if bytes(x) == bytes(msg.dst_entr_hmac)]
            return {"m": "out", "d": d[0] + 1 if d else 0, "v": "rsig" if msg.rsig_data is not None else "ok"}
        if isinstance(msg, M.MoneroTransactionAllOutSetRequest):
            return {"m": "allout"}
        if isinstance(msg, M.MoneroTransactionSignInputRequest):
            return {"m": "sign", "i": self.item(msg.vini_hmac), "v": "ok"}
        if isinstance(msg, M.MoneroTransactionFinalRequest):
            return {"m": "final"}
        return {"m": type(msg).__name__}

    async def tsx_sign(self, msg):
        a = self.action(msg)
        res = await self.dev.tsx_sign(msg)
        failed = res is None or isinstance(res, M.Failure)
        self.ev.append({"act": a, "resp": "fail" if failed else "ack"})
        if failed:
            self.bad.append("device refused %s of the honest host: %s" % (a, getattr(res, "message", None)))
        else:
            if a["m"] == "init":
                self.hmacs = [bytes(x) for x in res.hmacs]
            elif a["m"] == "input":
                self.items.append(bytes(res.vini_hmac))
            elif a["m"] == "allout":
                self.full_hash = bytes(res.full_message_hash)
        self.answers.append((a, res))
        return res


def rings(w, tx):
    """Reference rings in the order of the transaction's inputs (matched by ring offsets)."""
    out = []
    for v in tx["vin"]:
        for s in w.srcs:
            offs, prev = [], 0
            for gi, _ in s.outputs:
                offs.append(gi - prev)
                prev = gi
            if offs == v["offsets"]:
                out.append([(bytes(k.dest), bytes(k.mask)) for _, k in s.outputs])
                break
        else:
            return None
    return out


def session(gr, seed):
    """Honest session; returns (world, recorder, blob, problems)."""
    scn, pred = gr
    w = World(scn, pred, seed)
    dev = device.new_device(True)
    rec = Recorder(w, dev)
    ag = agent(rec, scn)
    req = request(w)
    bad = []
    blob = None
    try:
        run(ag.sign_transaction_data(req))
        blob = run(ag.serialized_tx())
    except Exception as e:
        bad.append("the honest session stopped with %r" % e)
    return w, rec, ag, blob, bad + rec.bad


def validity(w, blob):
    """H01: an independent verifier accepts the transaction."""
    try:
        tx = ref.parse_tx(blob, w.ring)
    except Exception as e:
        return None, ["transaction cannot be parsed: %r" % e]
    bad = []
    rg = rings(w, tx)
    if rg is None or len(tx["vin"]) != w.scn["nIn"]:
        bad.append("inputs of the transaction are not the requested ones")
        return tx, bad
    v = ref.verify_tx(tx, rg)
    if v:
        bad.append("transaction is not valid: %s" % v)
    if tx["fee"] != w.fee:
        bad.append("fee is %d, requested %d" % (tx["fee"], w.fee))
    if tx["unlock"] != w.unlock:
        bad.append("unlock time differs")
    if len(tx["vout"]) != len(w.dsts):
        bad.append("%d outputs, requested %d" % (len(tx["vout"]), len(w.dsts)))
    if tx["type"] != (3 if w.scn["bp"] == 1 else 4):
        bad.append("signature type %d" % tx["type"])
    rp = device.Replayer(w)
    kis = sorted(rp.key_image_of(j + 1) for j in range(w.scn["nIn"]))
    if sorted(v["ki"] for v in tx["vin"]) != kis:
        bad.append("key images are not those of the spent outputs")
    ex = ref.parse_extra(tx["extra"])
    pf = w.pred["pidfield"]
    nn = ex["nonce"]
    kind = "none" if not nn else ("enc" if len(nn) == 1 and len(nn[0]) == 9 and nn[0][0] == 1
                                  else "plain" if len(nn) == 1 and len(nn[0]) == 33 and nn[0][0] == 0 else "odd")
    if kind != pf:
        bad.append("payment id field is %s, expected %s" % (kind, pf))
    return tx, bad


def go(a):
    gr, seed, what = a
    t = time.time()
    try:
        w, rec, ag, blob, bad = session(gr, seed)
        if blob is not None:
            tx, b2 = validity(w, blob)
            if what == "recipients":
                # a recipient's wallet does not verify signatures
                bad = list(bad)
                if tx is not None:
                    bad += device.Replayer(w).check_recipients(tx)
                    bad += spendable_and_private(w, tx)
            else:
                bad = bad + b2
        return {"id": gr[0]["id"], "bad": bad, "ev": rec.ev, "scn": gr[0], "t": time.time() - t, "outs": len(w.dsts)}
    except Exception as e:
        return {"id": gr[0]["id"], "bad": ["session stopped: %r %s" % (e, traceback.format_exc()[-600:])], "ev": [], "scn": gr[0],
                "t": time.time() - t, "outs": 0}


def spendable_and_private(w, tx):
    """Sub-wallets of other accounts and strangers find nothing that is not theirs."""
    bad = []
    for name in ("eve", "bob2"):
        c = wal(name)
        a, b = ref.b2i(crypto.encodeint(c.view_key_private)), ref.b2i(crypto.encodeint(c.spend_key_private))
        subs = {bytes(txgen.addr_of(c, ma, mi).m_spend_public_key): (ma, mi) for ma, mi in ((0, 0), (0, 1), (1, 0), (0, 2))}
        if ref.scan_tx(tx, a, b, subs):
            bad.append("a stranger's wallet recognises an output")
    keys = [v["key"] for v in tx["vout"]]
    if len(set(keys)) != len(keys):
        bad.append("two outputs share a one-time key")
    return bad


MC = """SPECIFICATION HSpec
VIEW View
CONSTANTS Fam="%s" Focus={} MaxSess=1
INVARIANT SafetyInv HonestInv
PROPERTY Finishes DeadProp
CHECK_DEADLOCK FALSE
"""
EM = """INIT HInitEmit
NEXT HNext
VIEW View
CONSTANTS Fam="%s" Focus={} MaxSess=1
INVARIANT SafetyInv HonestInv
CHECK_DEADLOCK FALSE
"""


def model(f):
    r = tlc.run("HostSign", MC % f, workers=2)
    e = tlc.run("HostSign", EM % f, workers=1)
    sc = {}
    for t, v in e["lines"]:
        if t == "S":
            sc[v["id"]] = (v["scn"], v["pred"])
    return r, list(sc.values())


def validate(traces):
    """Recorded sessions against HostTrace; returns list of indices that are not complete behaviours + counts."""
    cfg = "INIT TInit\nNEXT TNext\nVIEW TView\nCONSTANTS Fam=\"tiny\" Focus={} MaxSess=1\nINVARIANT SafetyInv TInv\nCHECK_DEADLOCK FALSE\n"
    r = tlc.run("HostTrace", cfg, workers=1, files={"traces.json": json.dumps([{"scn": t["scn"], "ev": t["ev"]} for t in traces])})
    prog = {}
    for tag, v in r["lines"]:
        if tag == "T":
            i, k, ph = v
            if k >= prog.get(i, (-1,))[0]:
                prog[i] = (k, ph)
    bad = []
    for i, t in enumerate(traces, 1):
        k, ph = prog.get(i, (0, "NONE"))
        if k != len(t["ev"]) or ph != "FINAL":
            bad.append((i - 1, k, ph))
    return bad, r


FAMS = {"H01": {"quick": ["gridq", "subs", "rings", "bigq", "sweep", "alike"], "thorough": ["grid", "alike", "subs", "rings", "big", "sweep", "acct", "mix", "pids"]},
        "H02": {"quick": ["mixq", "pids", "acct", "sweep"], "thorough": ["mix", "pids", "acct", "sweep", "subs", "big"]}}


def check(c):
    from multiprocessing import Pool
    fams = FAMS[c.prop]["thorough" if c.thorough else "quick"]
    scs = []
    with Pool(4) as p:
        for r, sc in p.imap_unordered(model, fams):
            c.add(states=r["distinct"], transitions=r["generated"])
            scs += sc
    scs = {s[0]["id"]: s for s in scs}.values()
    scs = sorted(scs, key=lambda s: -(s[0]["nIn"] * 3 + len(s[0]["dst"]) ** 2))
    if not c.thorough and c.prop == "H01":
        scs = [s for s in scs if not s[0]["id"].startswith("ring") or s[0]["real"] in (1, 2, s[0]["ring"])]
    seeds = [c.seed] if not c.thorough else [c.seed, c.seed + 1, c.seed + 2]
    what = "recipients" if c.prop == "H02" else "valid"
    with Pool(8) as p:
        res = list(p.imap_unordered(go, [(s, sd, what) for sd in seeds for s in scs], 1))
    ok = []
    for x in res:
        c.add(sessions=1, outputs_checked=x["outs"])
        for b in x["bad"]:
            c.fail("%s: %s" % (x["id"], b), b, {"scenario": x["scn"], "events": x["ev"]})
        if not x["bad"]:
            ok.append(x)
        c.sample({"scenario": x["id"], "messages": len(x["ev"]), "verdict": x["bad"] or "valid"})
    if ok:
        bad, r = validate(ok)
        c.add(traces_validated_against_impl=len(ok), trace_states=r["distinct"])
        for i, k, ph in bad:
            c.fail("%s: trace" % ok[i]["id"], "recorded session leaves the specification at message %d (%s)" % (k + 1, ph),
                   {"scenario": ok[i]["scn"], "events": ok[i]["ev"]})
