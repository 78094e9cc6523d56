"""Helpers for demonstrations: synthetic wallets, an honest host, and a device one can talk to."""
import os, sys, copy
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vl import env, txgen, ref
from vl.env import run
from monero_glue.agent import agent_lite
from monero_glue.hwtoken import token, iface, misc as hmisc
from monero_glue import messages as M
from monero_glue.xmr import crypto, monero
from monero_serialize import xmrtypes

me, bob, ann = txgen.wallet("me"), txgen.wallet("bob"), txgen.wallet("ann")


class Yes(iface.TokenInterface):
    asked = 0
    approve = True

    async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
        self.asked += 1
        self.shown = tsx_data
        return self.approve

    async def confirm_ki_sync(self, init_msg, ctx=None):
        self.asked += 1
        return self.approve


def device(approve=True, creds=None):
    d = token.TokenLite()
    d.debug = False
    d.creds = creds or me
    d.iface = Yes()
    d.iface.approve = approve
    return d


class Line:
    """Between host and device: out(msg) may change a message, back(msg, res) an answer."""
    def __init__(self, dev, out=None, back=None):
        self.dev, self.out, self.back, self.log = dev, out, back, []

    async def tsx_sign(self, msg):
        if self.out:
            msg = self.out(msg) or msg
        res = await self.dev.tsx_sign(msg)
        if self.back:
            res = self.back(msg, res) or res
        self.log.append((msg, res))
        return res

    async def key_image_sync(self, msg):
        if self.out:
            msg = self.out(msg) or msg
        res = await self.dev.key_image_sync(msg)
        if self.back:
            res = self.back(msg, res) or res
        self.log.append((msg, res))
        return res


def agent(dev, hf=10, cv=1):
    a = agent_lite.Agent(dev, network_type=me.network_type)
    a.hf, a.client_version = hf, cv
    return a


def request(seed, n_in=1, pay=((bob, 0, 0),), sub=None, pid=b"", ring=3, fee=7, account=0, change_first=False, unlock=0, own=(0, 0)):
    """Construction data: n_in inputs, payments to (creds, major, minor), change to the account's address."""
    rng = txgen.Rng("demo-%s" % seed)
    srcs = [txgen.source(rng, me, 10**9 + 10 * i, own[0], own[1], ring=ring) for i in range(n_in)]
    tot = sum(s.amount for s in srcs) - fee
    dsts = [txgen.dest(c, 1000 + i, ma, mi) for i, (c, ma, mi) in enumerate(pay)]
    ch = txgen.dest(me, tot - sum(d.amount for d in dsts), account, 0)
    dsts = [ch] + dsts if change_first else dsts + [ch]
    extra = b""
    if pid:
        n = (b"\x01" if len(pid) == 8 else b"\x00") + pid
        extra = b"\x02" + bytes([len(n)]) + n
    return txgen.construction(srcs, dsts, ch, extra, unlock, account, [0, 1, 2])


def sign(dev, req, hf=10, cv=1):
    a = agent(dev, hf, cv)
    run(a.sign_transaction_data(req))
    return a, run(a.serialized_tx())


def rings_of(req, tx):
    out = []
    for v in tx["vin"]:
        for s in req.sources:
            offs, prev = [], 0
            for gi, _ in s.outputs:
                offs.append(gi - prev)
                prev = gi
            if offs == v["offsets"]:
                out.append([(bytes(k.dest), bytes(k.mask)) for _, k in s.outputs])
    return out


def parsed(req, blob):
    return ref.parse_tx(blob, len(req.sources[0].outputs))


def valid(req, blob):
    tx = parsed(req, blob)
    return ref.verify_tx(tx, rings_of(req, tx))


def found(tx, creds, addrs=((0, 0), (0, 1), (0, 2), (1, 0))):
    """What the owner of creds finds in tx: list of dict(i, amount, sub, pid)."""
    a, b = ref.b2i(crypto.encodeint(creds.view_key_private)), ref.b2i(crypto.encodeint(creds.spend_key_private))
    subs = {bytes(txgen.addr_of(creds, ma, mi).m_spend_public_key): (ma, mi) for ma, mi in addrs}
    return ref.scan_tx(tx, a, b, subs)


def refused(f):
    """True if the exchange was stopped."""
    try:
        f()
    except Exception as e:
        return True
    return False


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
    print("ok:", what)
