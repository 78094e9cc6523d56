"""D01: the tool's commands against the device attached and the wallet RPC (spec/Guard.tla)."""
import contextlib, io, json, os, random, re, shutil, tempfile, traceback
from multiprocessing import Pool
from . import env, tlc, ref, txgen, device, files, keysync
from .env import run
from monero_glue import messages as M
from monero_glue.agent import agent_lite
from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub.xmr_net import NetworkTypes
from monero_poc.utils import misc
from monero_poc import agent as agent_mod
from monero_glue.trezor import manager
from monero_serialize import xmrtypes

L = ref.L
CMDS = ["check_trezor", "get_address", "get_watch_only", "address", "state", "balance", "height", "get_transfers", "rescan_bc", "refresh",
        "key_image_sync", "transfer", "sweep_all", "sweep_below", "sweep_single", "sweep_dust", "sign"]
DEVS = ["own", "other", "same view", "same spend", "marred", "refuses", "gone"]
CREDS = {"own": "me", "marred": "me", "refuses": "me", "gone": "me", "other": "bob", "same view": "mew", "same spend": "mev"}
for _n, _v in (("mew", ("me", "bob")), ("mev", ("bob", "me"))):
    device.MIXED[_n] = _v


HOWS = ["stay", "nothing found", "fails", "reconnect", "switch", "switch udp", "switch web", "choose", "only one"]
PORTS = ["udp:127.0.0.1:21324", "bridge:web01", "webusb:001:7", "bridge:6"]


class Gone(Exception):
    pass


class Attached:
    """The device attached, which may be exchanged."""
    def __init__(self, rng):
        self.rng, self.state, self.log, self.seen, self.swap = rng, "own", [], {}, None
        self.devs = {}

    def begin(self, state, swap, nth, to):
        self.state, self.seen, self.log, self.init = state, {}, [], []
        self.swap = (swap, nth, to) if swap else None

    def reach(self, point):
        self.seen[point] = self.seen.get(point, 0) + 1
        if self.swap and self.swap[:2] == (point, self.seen[point]):
            self.state, self.swap = self.swap[2], None

    def wal(self):
        return device.wal(CREDS[self.state])

    def dev(self):
        if self.state not in self.devs:
            d = device.new_device(self.state != "refuses")
            d.creds = self.wal()
            ok = self.state != "refuses"

            async def ki(init_msg, ctx=None):
                return ok
            d.iface.confirm_ki_sync = ki
            self.devs[self.state] = d
        return self.devs[self.state]

    def there(self):
        if self.state == "gone":
            raise Gone("no device")

    def no(self):
        if self.rng.random() < .5:
            raise Gone("cancelled")
        return M.Failure(code=4, message="cancelled")

    async def ping(self, *a, **k):
        self.there()
        return True

    async def call(self, msg, *a, **k):
        self.there()
        self.log.append(("address", self.state, msg.network_type, msg.account, msg.minor))
        if self.state == "refuses":
            return self.no()
        c = self.wal()
        net = msg.network_type or 0
        a = (ref.b2i(bytes(crypto.encodeint(c.view_key_private))), ref.dec(bytes(crypto.encodepoint(c.spend_key_public))))
        mi = (msg.account or 0, msg.minor or 0)
        sp, vi = [ref.enc(x) for x in ref.sub_keys(*a, *mi)] if mi != (0, 0) else [bytes(crypto.encodepoint(x)) for x in (c.spend_key_public, c.view_key_public)]
        from .walletgen import address
        res = address({0: (18, 42), 1: (53, 63), 2: (24, 36)}[net][mi != (0, 0)], sp, vi)
        if self.state == "marred":                        # the device's own address, with one character of it another one
            res, i = bytes(res), self.rng.choice([0, 1, 20, 47, 94, self.rng.randrange(95)])
            self.marred = res = res[:i] + (b"2" if res[i:i + 1] != b"2" else b"3") + res[i + 1:]
        return M.MoneroAddress(address=res)

    async def get_view_key(self, msg):
        self.there()
        self.log.append(("watch", self.state, msg.network_type))
        if self.state == "refuses":
            return self.no()
        c = self.wal()
        return M.MoneroWatchKey(watch_key=bytes(crypto.encodeint(c.view_key_private)), address=bytes(c.address))

    async def tsx_sign(self, msg):
        if isinstance(msg, M.MoneroTransactionInitRequest):
            self.reach("sign")
            self.log.append(("sign", self.state, msg.network_type))
            t = msg.tsx_data
            self.init.append((sorted(t.integrated_indices or []), [(bytes(o.addr.spend_public_key), bytes(o.addr.view_public_key), o.amount) for o in t.outputs], bytes(t.payment_id or b"")))
        self.there()
        return await self.dev().tsx_sign(msg)

    async def key_image_sync(self, msg):
        if isinstance(msg, M.MoneroKeyImageExportInitRequest):
            self.reach("ki")
            self.log.append(("ki", self.state, msg.network_type))
        self.there()
        return await self.dev().key_image_sync(msg)


class Rpc:
    """Stand-in for the wallet RPC: records, and hands out what it has."""
    def __init__(self, dev):
        self.dev, self.calls = dev, []

    def begin(self, sup, data):
        self.calls, self.sup, self.data = [], sup, data

    def __getattr__(self, name):
        def f(params=None):
            self.dev.reach("r:" + name)
            self.calls.append((name, params))
            if self.sup == "error" or name == "submit_transfer" and not params:
                return {"error": {"code": -1, "message": "no"}}
            if name == "export_outputs":
                return {"result": {"outputs_data_hex": self.data.hex()}}
            if name == "import_key_images":
                return {"result": {"height": 7, "spent": 1, "unspent": 2}}
            if name == "submit_transfer":
                return {"result": {"tx_hash_list": ["00"]}}
            if name == "balance":
                return {"result": {"balance": 5000000000000, "unlocked_balance": 3000000000000}}
            if name == "height":
                return {"result": {"height": 4711}}
            if name in ("transfer_split", "sweep_all", "sweep_dust", "sweep_single"):
                r = {"amount": 5, "fee": 1} if name == "sweep_single" else {"amount_list": [5], "fee_list": [1]}
                return {"result": dict(r, unsigned_txset=self.data.hex())}
            return {"result": {"x": name}}
        return f


class World:
    """One tool with its wallet opened, and what the wallet RPC may hand out."""
    def __init__(self, seed, d):
        self.rng = rng = txgen.Rng("d01-%s" % seed)
        self.dir = d
        self.me, bob = device.wal("me"), device.wal("bob")
        self.ports, self.path = {p: Attached(rng) for p in PORTS}, PORTS[0]
        self.dev = self.ports[self.path]
        self.rpc = Rpc(self.dev)
        t = self.t = files.tool()
        t.args.testnet, t.args.view_key, t.args.address = True, bytes(crypto.encodeint(self.me.view_key_private)).hex(), bytes(self.me.address).decode()
        t.args.watch_wallet, t.args.monero_bin = "wal", "/nowhere"
        t.agent = agent_lite.Agent(self.dev, network_type=None)
        t.agent.client_version, t.agent.hf = 1, 10
        run(t.open_account_passed())
        t.trezor_proxy, t.wallet_proxy = self.dev, self.rpc
        t.wait_coro = lambda coro: run(coro)
        t.noninteractive = False
        t.args.poc, t.args.trezor_path, t.args.patch_client, t.token_path, t.token_debug = False, self.path, False, self.path, False
        self.out = io.StringIO()
        t.poutput = t.perror = lambda msg="", *x, **k: self.out.write(str(msg) + "\n")
        self.pid = rng.rbytes(8) if rng.random() < .6 else b""
        self.sets = {n: self.unsigned(*x) for n, x in {"own": (self.me, 1), "two": (self.me, 2), "other": (bob, 1)}.items()}
        self.outs = [keysync.Out(rng, rng.choice(["me", "me01"])) for _ in range(rng.choice([1, 3, 11]))]

    def unsigned(self, w, n):
        rng, txes, imgs = self.rng, [], []
        for i in range(n):
            S = [txgen.source(rng, w, 1000 + rng.randrange(50), ring=2) for _ in range(rng.choice([1, 2]))]
            imgs.append(sorted(files.image_of(w, s) for s in S))
            for s in S:
                s.multisig_kLRki = files.klrki()
            tot = sum(s.amount for s in S) - 7
            one = rng.randrange(1, tot)
            ch, to = txgen.dest(w, tot - one), txgen.dest(device.wal("ann"), one)
            for x in (ch, to):
                x.original, x.is_integrated = "", False
            c = txgen.construction(S, [to, ch], ch, b"\x02\x09\x01" + self.pid if self.pid else b"", 0)
            self.paid = one if w is self.me and n == 1 else getattr(self, "paid", one)
            txes.append(c)
        msg = xmrtypes.UnsignedTxSet(txes=txes, transfers=[])
        return files.boost_write(msg, 10), imgs

    def give(self, v):
        """What the wallet RPC (or the file) holds in this run."""
        rng, a = self.rng, files.sec("a")[0]
        sup, sync = v["sup"], v["cmd"] == "key_image_sync"
        if sync:
            o = self.outs if sup not in ("none", "other") else [keysync.Out(rng, "bob")] if sup == "other" else []
            sp, vi = {"other": ("bob", "bob"), "other spend": ("bob", "me"), "other view": ("me", "bob")}.get(sup, ("me", "me"))
            head = bytes(crypto.encodepoint(device.wal(sp).spend_key_public)) + bytes(crypto.encodepoint(device.wal(vi).view_key_public))
            from monero_glue.xmr import wallet
            body = files.boost_write([self.stored(x) for x in o], container=wallet.ExportedOutputs)
            self.given = o
            data = files.seal("outputs", a, head + body, rng)
        else:
            plain, self.given = self.sets[sup if sup in self.sets else "own"]
            data = files.seal("unsigned", a, plain, rng)
        if sup == "broken":
            how = rng.randrange(3)
            if how == 0:
                i = rng.randrange(25, len(data))
                data = data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]
            elif how == 1:
                data = data[:rng.randrange(len(data))]
            else:
                data = files.seal("outputs" if sync else "unsigned", files.sec("b")[0], head + body if sync else plain, rng)
        return data

    def stored(self, o):
        x, y = files.transfer(self.rng), o.transfer()
        x.m_tx, x.m_internal_output_index, x.m_subaddr_index = y.m_tx, y.m_internal_output_index, y.m_subaddr_index
        return x

    def keys(self, c):
        return bytes(crypto.encodepoint(c.spend_key_public)), bytes(crypto.encodepoint(c.view_key_public))

    def connect(self, v):
        """The tool comes to its device in the way v says; returns what is wrong with that."""
        t, how, rng, was = self.t, v["how"], self.rng, self.path
        if how == "stay":
            return []
        w, made = self, []

        class Trezor:
            def __new__(cls, path=None, debug=False, *a, **k):
                made.append(path)
                if how == "fails":
                    raise Gone("no such device")
                return w.ports[path]

            @staticmethod
            def enumerate(*a, **k):
                return found
        found = {"nothing found": [], "only one": [rng.choice(PORTS)]}.get(how, rng.sample(PORTS, rng.randrange(2, len(PORTS) + 1)))
        pick = rng.randrange(len(found)) if found else 0
        t.select = lambda choices, q=None: choices[pick][0] if isinstance(choices[pick], tuple) else choices[pick]
        to = {"switch": rng.choice([p for p in PORTS if p != was]), "fails": "usb:9", "switch udp": PORTS[0], "switch web": PORTS[1],
              "choose": found[pick] if found else "", "only one": found[pick] if found else ""}.get(how, was)
        line = {"switch": to, "fails": to, "switch udp": "udp", "switch web": "web"}.get(how, "")
        old = manager.Trezor
        manager.Trezor = Trezor
        if old is vars(agent_mod).get("Trezor"):
            agent_mod.Trezor = Trezor
        try:
            with contextlib.redirect_stdout(self.out):
                if how == "reconnect":
                    t.token_path = was                  # after a switch that failed it may be either
                    t.do_reconnect("")
                else:
                    t.do_switch(line)
        except Exception as e:
            if how not in ("fails", "nothing found"):
                return ["%s: connecting fails with %r" % (how, e)]
        finally:
            manager.Trezor = old
            if "Trezor" in vars(agent_mod):
                agent_mod.Trezor = old
        if how not in ("fails", "nothing found"):
            self.path = to
            if made != [to]:
                return ["%s: connected to %s, not to %s" % (how, made, to)]
        self.dev = self.rpc.dev = self.ports[self.path]
        return []

    def line(self, v):
        self.integrated = False
        c, bob = v["cmd"], bytes(device.wal("bob").address).decode()
        if c == "transfer":
            ann = device.wal("ann")
            a = bytes(ann.address).decode()
            self.integrated = bool(self.pid) and self.rng.random() < .7
            if self.integrated:
                a = b58(bytes([54]) + self.keys(ann)[0] + self.keys(ann)[1] + self.pid)
            return "%s %s" % (a, "%d.%012d" % divmod(self.paid, 10 ** 12))
        if c == "sweep_all":
            return bob
        if c == "sweep_below":
            return "2 %s" % bob
        if c == "sweep_single":
            return "%s %s" % (ref.enc(ref.gmul(5)).hex(), bob)
        if c == "sign":
            return os.path.join(self.dir, "unsigned")
        return ""

    def play(self, v):
        t, rpc = self.t, self.rpc
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))
        data = self.give(v)
        if v["cmd"] == "sign" and v["sup"] != "nofile":
            with open(os.path.join(self.dir, "unsigned"), "wb") as fh:
                fh.write(data)
        bad = self.connect(v)
        dev = self.dev
        for d in self.ports.values():                   # elsewhere is a device for which the command would end otherwise
            d.begin("other" if v["first"] == "own" else "own", "", 0, "")
        dev.begin(v["first"], v["swap"], v["nth"], v["to"])
        rpc.begin(v["sup"], data)
        if bad:
            return bad
        t.rpc_running, t.rpc_ready = v["rpc"] != "down", v["rpc"] == "ready"
        t.terminating = False
        self.out.seek(0)
        self.out.truncate()
        ys = list(v["answers"])

        def ask(q=None):
            dev.reach("ask")
            return "y" if ys and ys.pop(0) else "n"
        old = misc.py_raw_input
        misc.py_raw_input = ask
        err = None
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(io.StringIO()):
                getattr(t, "do_" + v["cmd"])(self.line(v))
        except Exception as e:
            err = e
        finally:
            misc.py_raw_input = old
        return self.judge(v, err)

    def judge(self, v, err):
        calls, text, bad = self.rpc.calls, self.out.getvalue(), []
        names = ["r:" + n for n, _ in calls]
        own = v["first"] == "own" and not v["swap"]
        must = v["first"] != "own" or not v["swap"]       # exchanged meanwhile: it may be noticed earlier than at the device's refusal
        if names != v["log"] if must else names != v["log"][:len(names)]:
            bad.append("requests to the wallet RPC are %s, not %s (%r)" % (names, v["log"], err))
            return bad
        if any(d.log for d in self.ports.values() if d is not self.dev):
            bad.append("a device is used to which the tool is not connected")
        done = {k: [x for x in self.dev.log if x[0] == k] for k in ("address", "watch", "sign", "ki")}
        for x in self.dev.log:
            if x[2] != NetworkTypes.TESTNET:
                bad.append("the device is asked about network %s" % x[2])
        if v["first"] != "own" and (done["sign"] or done["ki"]):
            bad.append("another device is asked to do the work")
        if v["rpc"] != "ready" and v["cmd"] not in ("check_trezor", "get_address", "get_watch_only", "address", "state") and self.dev.log:
            bad.append("the device is used while the wallet RPC is not ready")
        if v["sup"] in ("other", "other spend", "other view", "broken") and v["cmd"] == "key_image_sync" and done["ki"]:
            bad.append("the device is given outputs of another wallet")
        for idx, outs, pid in self.dev.init:
            want = [i for i, o in enumerate(outs) if o == self.keys(device.wal("ann")) + (self.paid,)] if self.integrated else []
            if sorted(set(idx)) != want or pid != self.pid:
                bad.append("the device is told that outputs %s are to integrated addresses and of payment id %s, of right %s and %s" % (idx, pid.hex(), want, self.pid.hex()))
        finish = v["res"] == "done"
        if must and finish != (err is None) and (finish or v["cmd"] in ("check_trezor", "get_address", "get_watch_only")):
                bad.append("ends with %r, of right %s" % (err, v["res"]))
        c = v["cmd"]
        if c == "check_trezor" and ("OK" in text.split()) != finish:
            bad.append("says %r though the device attached is: %s" % (text, v["first"]))
        adr = lambda n: bytes(device.wal(n).address).decode()
        if c == "address" and adr("me") not in text:
            bad.append("the address shown is not the wallet's")
        if c in ("get_address", "get_watch_only") and finish and (self.dev.marred.decode() if v["first"] == "marred" and c == "get_address" else adr(CREDS[v["first"]])) not in text:
            bad.append("the address shown is not the device's")
        if c == "get_watch_only" and finish and bytes(crypto.encodeint(device.wal(CREDS[v["first"]]).view_key_private)).hex() not in text:
            bad.append("the key shown is not the device's")
        if c in ("balance", "height") and finish and not all(x in text for x in ({"balance": ["5.0", "3.0"], "height": ["4711"]}[c])):
            bad.append("what the wallet RPC answered is not shown")
        left = sorted(f for f in os.listdir(self.dir) if f != "unsigned" and not re.fullmatch(r"transaction_[0-9a-f]{24}\.json", f))
        signs = any(x in ("sign", "r:submit_transfer", "ask") for x in (c,)) or c.startswith("sweep") or c == "transfer"
        if signs and v["hand"] != "own" and "signed_monero_tx" in left:
            bad.append("a signed set is stored though the device did not sign everything")
        if c == "sign" and own and finish and "signed_monero_tx" not in left:
            bad.append("no signed set is stored")
        if c == "sign" and "signed_monero_tx" in left:
            with open(os.path.join(self.dir, "signed_monero_tx"), "rb") as fh:
                self.right(fh.read(), bad)
        for n, p in calls:
            if n == "submit_transfer":
                self.right(bytes.fromhex(p["tx_data_hex"]), bad)
            if n == "import_key_images":
                ims = p["signed_key_images"]
                if len(ims) != len(self.given):
                    bad.append("%d key images are imported for %d outputs" % (len(ims), len(self.given)))
                for i, (x, o) in enumerate(zip(ims, self.given)):
                    if not keysync.ki_proof_ok(bytes.fromhex(x["key_image"]) + bytes.fromhex(x["signature"]), o):
                        bad.append("key image %d imported is not that of output %d, or its signature is wrong" % (i + 1, i + 1))
        return bad

    def right(self, data, bad):
        plain, why = files.unseal("signed", files.sec("a")[0], data)
        if plain is None:
            bad.append("what is submitted is no signed set: %s" % why)
            return
        got = files.boost_read(plain, None, xmrtypes.SignedTxSet)
        have = []
        for p in got.ptx:
            have.append(sorted(bytes(x.k_image) for x in p.tx.vin))
        if have != self.given:
            bad.append("the transactions submitted are not the ones of the set")


def b58(raw):
    from .addrs import b58 as enc
    x = enc(raw + ref.keccak(raw)[:4])
    return x if isinstance(x, str) else bytes(x).decode()


def job(a):
    vecs, seed = a
    rng = random.Random("d01-%s" % seed)
    vecs = list(vecs)
    rng.shuffle(vecs)
    d = tempfile.mkdtemp(prefix="d01-")
    cwd = os.getcwd()
    bad = []
    crypto.pbkdf2 = lambda pw, salt, *a, **k: ref.keccak(bytes(pw) + bytes(salt))       # the records kept (W01) are not judged here
    try:
        os.chdir(d)
        w = World(seed, d)
        done = []
        for v in vecs:
            key = "%s%s device=%s%s rpc=%s supply=%s answers=%s" % ("" if v["how"] == "stay" else v["how"] + ", ", v["cmd"], v["first"], "->%s at %s" % (v["to"], v["swap"]) if v["swap"] else "", v["rpc"], v["sup"],
                                                                 "".join("yn"[not y] for y in v["answers"]))
            bad += [(key, b, done[-2:]) for b in w.play(v)]
            done.append(key)
    except Exception as e:
        bad.append(("session", "replaying: %r" % e, traceback.format_exc()[-2000:]))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return len(vecs), bad


def check(c):
    q = lambda xs: "{%s}" % ", ".join('"%s"' % x for x in xs)
    r = tlc.vectors("Guard", {"Cmds": q(CMDS), "Devs": q(DEVS), "Swaps": q([d for d in DEVS if d != "marred"] if c.thorough else ["own", "other", "gone"]), "Hows": q(HOWS)},
                    "INVARIANT OnlyOwn OnlyReady Checked Asked Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    vs = sorted(r["vectors"], key=lambda v: json.dumps(v, sort_keys=True))
    random.Random(c.seed).shuffle(vs)
    n = 16
    jobs = [(vs[i::n], "%d-%d" % (c.seed, i)) for i in range(n)]
    if c.thorough:
        jobs += [(vs[i::n], "%d+%d-%d" % (c.seed, k, i)) for k in range(1, 6) for i in range(n)]
    with Pool(8) as p:
        for k, bad in p.imap_unordered(job, jobs, 1):
            c.add(traces_validated_against_impl=k)
            for key, b, before in bad:
                c.fail("%s: %s" % (key, b.split("(")[0][:60]), "%s: %s" % (key, b), {"before": before})
    c.sample({"commands": len(vs), "by outcome": {x: sum(v["res"] == x for v in vs) for x in sorted({v["res"] for v in vs})}})
