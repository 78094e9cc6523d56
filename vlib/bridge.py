"""M01: the agent and a connected Trezor (spec/Bridge, TrezorLink): the real client library talks over loopback UDP to a
device emulated by the check."""
import json, os, socket, struct, threading, traceback
from multiprocessing import Pool
from . import env, tlc, wire
from .env import run, VERIF

VENDOR = dict(vendor="trezor.io", major_version=2, minor_version=3, patch_version=2, model="T", initialized=True, bootloader_mode=False)
PINNED = os.path.join(VERIF, "spec", "messages.json")
MONERO = ("Monero", "DebugMonero")
# fields the installed client library does not know
LATER = {("DebugMoneroDiagRequest", "data3"), ("DebugMoneroDiagAck", "data3")}


def schema():
    S = json.load(open(PINNED))
    out, todo = {}, [(n, True, True) for n in S if n.startswith(MONERO) and S[n]["wire"] is not None]
    todo += [("GetEntropy", True, False), ("Entropy", False, True), ("Success", False, True)]
    seen = set()
    while todo:
        n, req, rep = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        fs = []
        for t in sorted(S[n]["fields"], key=int):
            fn, k, r = S[n]["fields"][t]
            if (n, fn) in LATER:
                continue
            sub = k[4:] if k.startswith("msg:") else ""
            if sub:
                todo.append((sub, False, False))
            fs.append({"name": fn, "kind": k[:3] if k[:3] == "msg" else k.split(":")[0], "sub": sub, "rep": bool(r), "full": k})
        out[n] = {"wire": S[n]["wire"] or 0, "req": req, "rep": rep, "fields": fs}
    return out


SC = schema()
NAME = {v["wire"]: n for n, v in SC.items() if v["wire"]}


class Emulator(threading.Thread):
    """The device's end of the wire: whole messages in, whole messages out."""
    def __init__(self, answer):
        super().__init__(daemon=True)
        for _ in range(50):
            self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.s.bind(("127.0.0.1", 0))
            self.port = self.s.getsockname()[1]
            self.dbg = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                self.dbg.bind(("127.0.0.1", self.port + 1))
                break
            except (OSError, OverflowError):
                self.s.close()
        self.answer, self.log, self.broken = answer, [], None
        self.start()

    def run(self):
        need, buf, kind = None, b"", 0
        while True:
            d, a = self.s.recvfrom(64)
            if d == b"PINGPING":
                self.s.sendto(b"PONGPONG", a)
                continue
            if d == b"STOPSTOP":
                self.s.close()
                self.dbg.close()
                return
            try:
                if need is None:
                    if d[:3] != b"?##":
                        raise ValueError("a message does not start properly")
                    kind, need = struct.unpack(">HL", d[3:9])
                    buf = d[9:]
                else:
                    buf += d[1:]
                if len(buf) < need:
                    continue
                body, need = buf[:need], None
                self.log.append((kind, body))
                t, out = self.answer(kind, body)
            except Exception as e:
                self.broken = repr(e)
                t, out, need = 3, b"", None
            out = b"##" + struct.pack(">HL", t, len(out)) + out
            while out:
                self.s.sendto((b"?" + out[:63]).ljust(64, b"\0"), a)
                out = out[63:]

    def debugged(self):
        self.dbg.setblocking(False)
        try:
            return bool(self.dbg.recv(64))
        except OSError:
            return False

    def stop(self):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.sendto(b"STOPSTOP", ("127.0.0.1", self.port))
        s.close()
        self.join(5)

    @property
    def path(self):
        return "udp:127.0.0.1:%d" % self.port


def pb(m):
    from monero_glue.hwtoken import misc as hmisc
    return type(m).MESSAGE_WIRE_TYPE, bytes(run(hmisc.dump_pb_msg(m)))


def features():
    from monero_glue import messages as M
    return pb(M.Features(**VENDOR))


# -- one message: Bridge ---------------------------------------------------------------------
def leaf(kind, v, hold):
    if kind == "uv":
        return [0, 300, 2 ** 64 - 1][v]
    if kind.startswith("en:"):
        x = [int(y) for y in kind[3:].split(",")]
        return [x[0], x[-1], x[len(x) // 2]][v]
    if kind == "sv":
        return [0, -1, 2 ** 31 - 1][v]
    if kind == "bool":
        return [False, True, True][v]
    if kind == "str":
        return ["", "a", "zażółć " * 30][v]
    b = [b"", bytes(range(32)), bytes((i * 7 + 3) & 255 for i in range(500))][v]
    return bytearray(b) if hold == "buf" else b


def content(t):
    """The tree as {field: value}, repeated fields without items left out."""
    out = {}
    full = {f["name"]: f["full"] for f in SC[t["c"]]["fields"]}
    for f in t["f"]:
        v = [content(x["m"][0]) if x["m"] else leaf(full[f["name"]], x["v"], "fix") for x in f["vals"]]
        if f["rep"] and not v:
            continue
        out[f["name"]] = v if f["rep"] else v[0]
    return out


def build(t, M):
    m = getattr(M, t["c"])()
    full = {f["name"]: f["full"] for f in SC[t["c"]]["fields"]}
    for f in t["f"]:
        v = [build(x["m"][0], M) if x["m"] else leaf(full[f["name"]], x["v"], x["h"]) for x in f["vals"]]
        setattr(m, f["name"], v if f["rep"] else v[0])
    return m


def encode(t):
    """The tree on the wire, written by the check itself."""
    out = b""
    S = json_schema()[t["c"]]["fields"]
    tag = {v[0]: int(k) for k, v in S.items()}
    full = {f["name"]: f["full"] for f in SC[t["c"]]["fields"]}
    for f in t["f"]:
        for x in f["vals"]:
            if x["m"]:
                b = encode(x["m"][0])
                w, b = 2, wire.varint(len(b)) + b
            else:
                v = leaf(full[f["name"]], x["v"], "fix")
                if isinstance(v, bytes):
                    w, b = 2, wire.varint(len(v)) + v
                elif isinstance(v, str):
                    w, b = 2, wire.varint(len(v.encode())) + v.encode()
                elif full[f["name"]] == "sv":
                    w, b = 0, wire.varint((v << 1) ^ (v >> 63))
                else:
                    w, b = 0, wire.varint(int(v))
            out += wire.varint(8 * tag[f["name"]] + w) + b
    return out


_J = []


def json_schema():
    if not _J:
        _J.append(json.load(open(PINNED)))
    return _J[0]


def whole(m, M, P):
    """Every part of a message the agent holds is of the agent's own classes, and binary values cannot change."""
    if isinstance(m, list):
        return all(whole(x, M, P) for x in m)
    if isinstance(m, P.MessageType):
        return getattr(M, type(m).__name__, None) is type(m) and all(whole(getattr(m, f[0]), M, P) for f in m.get_fields().values())
    return m is None or isinstance(m, (int, str, bytes))


def same(got, want):
    return json.dumps(got, sort_keys=True, default=lambda b: b.hex()) == json.dumps(want, sort_keys=True, default=lambda b: b.hex())


def carry(vecs):
    """Messages there and back; list of (key, problem)."""
    from monero_glue import messages as M, protobuf as P
    from monero_glue.trezor import manager
    cur, bad = {}, []

    def answer(kind, body):
        if kind == 0:
            return features()
        cur["got"] = (kind, body)
        return cur["reply"]
    emu = Emulator(answer)
    dev = manager.Trezor(path=emu.path)
    for v in vecs:
        t = v["m"]
        key = "%s %s %s" % (v["d"], t["c"], json.dumps(content(t), default=lambda b: b.hex()[:20])[:160])
        try:
            cur.clear()
            if v["d"] == "req":
                cur["reply"] = pb(M.Success(message="x"))
                m = build(t, M)
                run(dev.call(m))
                kind, body = cur["got"]
                if kind != SC[t["c"]]["wire"]:
                    bad.append((key, "arrives as message type %d" % kind))
                elif wire.canon(body, t["c"], json_schema()) != wire.canon(encode(t), t["c"], json_schema()):
                    bad.append((key, "reaches the device as %s instead of %s" % (body.hex()[:300], encode(t).hex()[:300])))
            else:
                cur["reply"] = (SC[t["c"]]["wire"], encode(t))
                r = run(dev.call(M.GetEntropy(size=1)))
                if type(r) is not getattr(M, t["c"]):
                    bad.append((key, "the agent gets %s" % type(r)))
                    continue
                if not same(wire.as_dict(r, False) if whole(r, M, P) else loose(r), content(t)):
                    bad.append((key, "the agent gets %s" % r))
                elif not whole(r, M, P):
                    bad.append((key, "the agent gets a message whose parts are not its own messages"))
                elif wire.canon(pb(r)[1], t["c"], json_schema()) != wire.canon(encode(t), t["c"], json_schema()):
                    bad.append((key, "the agent's copy is written as something else"))
        except Exception as e:
            bad.append((key, "fails: %r" % (e,)))
        if emu.broken:
            bad.append((key, "on the wire: " + emu.broken))
            emu.broken = None
    emu.stop()
    return len(vecs), bad


def loose(m):
    out = {}
    for f in m.get_fields().values():
        v = getattr(m, f[0])
        if v is not None and v != []:
            one = lambda x: loose(x) if hasattr(x, "get_fields") else x
            out[f[0]] = [one(x) for x in v] if isinstance(v, list) else one(v)
    return out


def sockets():
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + f).startswith("socket:")
        except OSError:
            pass
    return n


# -- exchanges: TrezorLink -------------------------------------------------------------------
def link(a):
    vecs, debug = a
    from monero_glue import messages as M
    from monero_glue.trezor import manager
    import trezorlib.messages as TM
    from trezorlib import ui
    ui.echo = lambda *x, **k: None
    import contextlib, io
    cur, bad = {}, []
    reqs = {"call": lambda i: M.MoneroGetAddress(account=i), "view": lambda i: M.MoneroGetWatchKey(address_n=[i]),
            "sign": lambda i: M.MoneroTransactionInitRequest(version=i, tsx_data=M.MoneroTransactionData(fee=i)),
            "ki": lambda i: M.MoneroKeyImageSyncStepRequest(tdis=[M.MoneroTransferDetails(out_key=bytes([i]))]),
            "txkey": lambda i: M.MoneroGetTxKeyRequest(reason=i), "live": lambda i: M.MoneroLiveRefreshStepRequest(real_out_idx=i),
            "insession": lambda i: M.MoneroGetAddress(minor=i), "raw": lambda i: TM.MoneroGetAddress(account=77, minor=i)}
    names = {0: "Initialize", 27: "ButtonAck", 1: "ping"}

    def answer(kind, body):
        if kind == 0:
            return features()
        if kind == 27:
            cur["asked"] -= 1
        else:
            cur["asked"] = {"button": 1, "button2": 2}.get(cur["b"], 0)
        if cur["asked"]:
            return pb(M.ButtonRequest(code=1))
        if cur["b"] == "fail":
            return pb(M.Failure(code=9, message="no"))
        if cur["b"] == "cancel":
            return pb(M.Failure(code=4))
        if cur["b"] == "odd":
            return 9999, b""
        return pb(M.Success(message=cur["say"]))
    for v in vecs:
        key = "%s %s" % (debug, " ".join("%s/%s" % (x["k"], x["b"]) for x in v["s"]))
        emu = Emulator(answer)
        res, sent = [], [(0, None)]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                base = sockets()
                dev = manager.Trezor(path=emu.path, debug=debug)
                if debug:
                    base = sockets()
                for i, x in enumerate(v["s"]):
                    cur.update(b=x["b"], asked=0, say="s%d" % i)
                    if x["k"] == "reconnect":
                        dev.reconnect()
                        res.append("answer")
                        continue
                    try:
                        if x["k"] == "ping":
                            r = run(dev.ping("p%d" % i))
                            ok = r == "s%d" % i
                        else:
                            m = reqs[x["k"]](i)
                            if x["k"] == "insession":
                                with dev.session():
                                    r = run(dev.call_in_session(m))
                            else:
                                f = {"call": dev.call, "raw": lambda y: dev.call(y, recode=False), "view": dev.get_view_key, "sign": dev.tsx_sign,
                                     "ki": dev.key_image_sync, "txkey": dev.get_tx_key, "live": dev.live_refresh}[x["k"]]
                                r = run(f(m))
                            ok = r.message == "s%d" % i and type(r) is (TM if x["k"] == "raw" else M).Success
                        res.append("answer" if ok else "other answer %s" % (r,))
                    except Exception as e:
                        res.append("error")
                        cur["e"] = repr(e)
                    if sockets() != base:
                        bad.append((key, "the wire is still open after request %d ended with %s" % (i + 1, res[-1])))
                        break
            log = []
            for kind, body in emu.log:
                n = names.get(kind)
                if n is None:
                    # which request it is shows in its content
                    i = len([1 for y in log if y not in ("ButtonAck", "Initialize")])
                    plan = [y["k"] for y in v["s"] if y["k"] != "reconnect"]
                    pos = [j for j, y in enumerate(v["s"]) if y["k"] != "reconnect"]
                    n = "?"
                    if i < len(plan) and plan[i] in reqs:
                        w = reqs[plan[i]](pos[i])
                        wt, wb = pb(w) if plan[i] != "raw" else pb(M.MoneroGetAddress(account=77, minor=pos[i]))
                        n = plan[i] if (wt, wb) == (kind, bytes(body)) else "other message %d" % kind
                log.append(n)
            if len(res) < len(v["s"]):
                continue
            if log != v["log"]:
                bad.append((key, "the device saw %s, not %s" % (log, v["log"])))
            if res != v["res"]:
                bad.append((key, "the requests ended with %s, not %s (%s)" % (res, v["res"], cur.get("e"))))
        except Exception as e:
            bad.append((key, "stops with %r" % (e,)))
        if emu.broken:
            bad.append((key, "on the wire: " + emu.broken))
        if not debug and emu.debugged():
            bad.append((key, "the device's questions are answered by the tool, through its debug interface"))
        emu.stop()
    return len(vecs), bad


# -- whole protocols over the wire -----------------------------------------------------------
def whole_protocol(a):
    what, arg, seed = a
    from monero_glue import messages as M
    from monero_glue.trezor import manager
    from monero_glue.hwtoken import misc as hmisc
    from monero_glue.protocol_base.messages import get_message_from_type
    from monero_glue.agent import agent_lite
    from . import host, device, keysync, txgen, ref
    dev = keysync.new_device(True) if what == "ki" else device.new_device(True)

    def answer(kind, body):
        if kind == 0:
            return features()
        m = run(hmisc.parse_pb_msg(body, get_message_from_type(kind)))
        if "KeyImage" in type(m).__name__:
            r = run(dev.key_image_sync(m))
        elif "Transaction" in type(m).__name__:
            r = run(dev.tsx_sign(m))
        else:
            r = run(dev.watch_only())
        return pb(r)
    emu = Emulator(answer)
    bad = []
    try:
        trezor = manager.Trezor(path=emu.path)
        if what == "sign":
            scn, pred = arg
            w = device.World(scn, pred, seed)
            rec = host.Recorder(w, trezor)
            ag = host.agent(rec, scn)
            run(ag.sign_transaction_data(host.request(w)))
            blob = run(ag.serialized_tx())
            bad = rec.bad + host.validity(w, blob)[1]
            name = "sign %s" % scn["id"]
        else:
            n = arg
            name = "key images %d" % n
            rng = txgen.Rng("m01-%s-%s" % (n, seed))
            outs = [keysync.Out(rng, rng.choice(["me", "me01"]), pad=0) for _ in range(n)]
            ag = agent_lite.Agent(trezor, network_type=device.wal("me").network_type)
            res = run(ag.import_outputs([o.transfer() for o in outs]))
            if len(res) != n:
                bad.append("%d key images for %d outputs" % (len(res), n))
            for i, (o, (ki, (s0, s1))) in enumerate(zip(outs, res)):
                if not keysync.ki_proof_ok(bytes(ki) + bytes(s0) + bytes(s1), o):
                    bad.append("output %d: wrong key image or proof" % (i + 1))
    except Exception as e:
        name = name if "name" in dir() else "%s %s" % (what, arg if what == "ki" else arg[0]["id"])
        bad.append("stopped: %r %s" % (e, traceback.format_exc()[-300:]))
    if emu.broken:
        bad.append("on the wire: " + emu.broken)
    n = len(emu.log)
    emu.stop()
    return n, [(name, b) for b in bad]


def check(c):
    from . import host
    T = c.thorough
    r1 = tlc.vectors("Bridge", {"Deep": "TRUE" if T else "FALSE"}, "INVARIANT Unchanged Whole Emit\n", timeout=700, files={"schema.json": json.dumps(SC)})
    kinds = ["call", "view", "sign", "ki", "txkey", "live", "insession", "raw", "ping", "reconnect"]
    r2 = tlc.vectors("TrezorLink", {"MaxLen": "2", "Kinds": "{%s}" % ", ".join('"%s"' % k for k in kinds)}, "INVARIANT OneAtATime Ended Once Own Emit\n")
    r3 = tlc.vectors("TrezorLink", {"MaxLen": "4" if T else "3", "Kinds": '{"sign", "ping", "reconnect"}' if T else '{"call", "reconnect"}'},
                     "INVARIANT OneAtATime Ended Once Own Emit\n", timeout=700)
    r4 = tlc.vectors("DeviceOpen", {"MaxChunks": "6" if T else "5"}, "INVARIANT OnlyOwn OnlyGood AsCame Emit\n")
    for r in (r1, r2, r3, r4):
        c.add(states=r["distinct"], transitions=r["generated"])
    _, scs = host.model("gridq")
    scs = sorted(scs, key=lambda s: s[0]["id"])
    scs = scs[c.seed % 3::len(scs) // 8 or 1] if not T else scs
    v = r1["vectors"]
    lv = r2["vectors"] + r3["vectors"]
    jobs = [(whole_protocol, ("sign", s, c.seed)) for s in scs] + [(whole_protocol, ("ki", n, c.seed)) for n in ([1, 3, 11] if not T else [1, 2, 3, 9, 10, 11, 20, 21])]
    jobs += [(carry, v[i::16]) for i in range(16)]
    jobs += [(link, (lv[i::12], False)) for i in range(12)]
    jobs += [(link, (lv[i::41][:40], True)) for i in range(2)]
    ov = [x for x in r4["vectors"] if x["j"]["t"] == "open"]
    tv = [x for x in r4["vectors"] if x["j"]["t"] == "take"]
    if not T:
        tv.sort(key=lambda x: json.dumps(x, sort_keys=True))
        tv = tv[c.seed % 7::7]
    jobs += [(tool_job, (ov[i::8], "%d-%d" % (c.seed, i))) for i in range(8)] + [(tool_job, (tv[i::4], "%d+%d" % (c.seed, i))) for i in range(4)]
    with Pool(8) as p:
        for f, n, bad in p.imap_unordered(call, jobs, 1):
            c.add(traces_validated_against_impl=n)
            for k, b in bad:
                c.fail("%s %s" % (f, k), "%s: %s" % (k, b))
    c.sample({"messages": len(v), "scripts": len(lv), "transactions": [s[0]["id"] for s in scs]})


def call(j):
    f, a = j
    return (f.__name__,) + tuple(f(a))


# -- the tool on a connected device: DeviceOpen ----------------------------------------------
def tool_job(a):
    vecs, seed = a
    import contextlib, io, random, shutil, tempfile
    from . import files, device, ref
    from monero_glue import messages as M
    from monero_glue.hwtoken import misc as hmisc
    from monero_glue.xmr import crypto, monero, wallet
    from monero_glue.xmr.enc import chacha_poly
    from monero_poc.utils import misc
    rng = random.Random("m01-tool-%s" % seed)
    bad = []
    cur = {}
    names = {1: 1}

    def answer(kind, body):
        if kind == 0:
            return features()
        n = NAME.get(kind)
        if kind == 1:
            return pb(M.Success(message="monero"))
        cur["asked"].append(n)
        cur["msg"] = run(hmisc.parse_pb_msg(body, getattr(M, n)))
        if n == "GetEntropy":
            return pb(M.Entropy(entropy=cur["chunks"].pop(0)))
        g = cur["g"]
        if g in ("refused", "gone"):
            return pb(M.Failure(code=4))
        if g == "wrong reply":
            return pb(M.Success(message="ok"))
        key, adr = given(g)
        return pb(M.MoneroWatchKey(watch_key=key, address=adr))

    def given(g):
        me, other = device.wal("me"), device.wal("bob")
        adr, key = bytes(me.address), bytes(crypto.encodeint(me.view_key_private))
        if g == "other view":
            key = bytes(crypto.encodeint(other.view_key_private))
        if g == "other address":
            adr = bytes(other.address)
        if g == "bad address":
            adr = adr[:-1] + (b"1" if adr[-1:] != b"1" else b"2")
        if g == "short key":
            key = key[:31]
        if g == "sub":
            adr = bytes(monero.encode_addr(monero.net_version(me.network_type, True), *[crypto.encodepoint(x) for x in sub(me)]))
        return key, adr

    def net(v):
        return monero.NetworkTypes.TESTNET if v["tn"] else monero.NetworkTypes.MAINNET

    def sub(me):
        D, C = monero.generate_sub_address_keys(me.view_key_private, me.spend_key_public, 0, 3)
        return D, C

    def start(d, v, path, src):
        t = files.tool(b"pw", monero.NetworkTypes.MAINNET)
        t.agent, t.token_debug = None, False
        t.wallet_file = None
        t.args = type("Args", (), dict(no_init=v["noInit"], debug_rpc=False, sign=None, poc=False, trezor_path=path, patch_client=False, testnet=v["tn"] and src in ("device", "passed"), view_key=None,
                                       address=None, account_file=os.path.join(d, "acc") if v["acc"] or src == "file" else None, rpc_addr=None,
                                       watch_wallet=os.path.join(d, "wal") if v["wal"] else None, monero_bin="/nowhere"))()
        t.update_intro = lambda: None
        if src == "passed":
            k, adr = given(v["g"])
            t.args.view_key, t.args.address = k.hex(), adr.decode()
        if src == "file":
            k, adr = given(v["g"])
            salt = bytes(rng.randrange(256) for _ in range(32))
            with open(t.args.account_file, "w") as fh:
                json.dump({"view_key_enc": chacha_poly.encrypt_pack(misc.wallet_enc_key(salt, b"pw"), k).hex(), "address": adr.decode(), "network_type": net(v),
                           "wallet_salt": salt.hex(), "rpc_addr": "127.0.0.1:1", "wallet_file": None if not v["wal"] else os.path.join(d, "wal"), "monero_bin": "/nowhere"}, fh)
            t.args.watch_wallet = None
        return t
    for v in vecs:
        j = v["j"]
        key = " ".join("%s=%s" % (k, j[k]) for k in (("src", "g", "noInit", "acc", "wal", "tn") if j["t"] == "open" else ("size", "chunks")))
        d = tempfile.mkdtemp(prefix="m01-")
        emu = Emulator(answer)
        old = misc.py_raw_input
        said = ["0", "y"]
        misc.py_raw_input = lambda q=None: said.pop(0)
        try:
            out = [bytes(rng.randrange(256) for _ in range(n)) for n in j["chunks"]]
            cur.update(g=j["g"], asked=[], chunks=list(out) + [b"x" * 50] * 3)
            t = start(d, j, emu.path, j["src"])
            with contextlib.redirect_stdout(io.StringIO()):
                run(t.connect(None))
                if j["t"] == "take":
                    run(t.get_entropy(j["size"], os.path.join(d, "rnd")))
                    have = open(os.path.join(d, "rnd"), "rb").read()
                    if not b"".join(out).startswith(have) or len(have) < j["size"] or len(cur["asked"]) != v["n"]:
                        bad.append((key, "%d bytes stored of %s asked %d times, not the device's bytes in order" % (len(have), j["chunks"], len(cur["asked"]))))
                    continue
                if j["g"] == "gone":
                    emu.stop()
                    t.trezor_proxy.client.transport.close()

                    def lost(*x, **k):
                        raise OSError("device is gone")
                    import trezorlib.transport.udp as U
                    keep = U.UdpTransport.write_chunk
                    U.UdpTransport.write_chunk = lost
                else:
                    keep = None
                acc = os.path.join(d, "acc")
                before = open(acc, "rb").read() if os.path.exists(acc) else None
                try:
                    run(t.open_account())
                    res = "opened" if t.pub_view is not None else "none"
                except SystemExit:
                    res = "exit"
                except Exception as e:
                    res = "error"
                    cur["e"] = repr(e)
                finally:
                    if keep:
                        U.UdpTransport.write_chunk = keep
            kf, af = os.path.join(d, "wal.keys"), os.path.join(d, "acc")
            me = device.wal("me")
            view, spend = bytes(crypto.encodeint(me.view_key_private)), bytes(crypto.encodepoint(me.spend_key_public))
            if res not in v["res"].split(" or "):
                bad.append((key, "opening ends with %s (%s), not %s" % (res, cur.get("e"), v["res"])))
                continue
            left = [f for f in os.listdir(d) if os.path.getsize(os.path.join(d, f)) and not (f == "acc" and j["src"] == "file")]
            want = (["acc"] if v["afile"] == "own" else []) + (["wal.keys"] if v["wfile"] == "own" else [])
            if sorted(left) != sorted(want):
                bad.append((key, "leaves the files %s, not %s" % (sorted(left), want)))
                continue
            if before is not None and open(acc, "rb").read() != before:
                bad.append((key, "the account file that is opened is changed"))
            if v["wfile"] == "own":
                k = run(wallet.load_keys_data(open(kf, "rb").read(), b"pw"))["key_data"]["m_keys"]
                if bytes(k["m_view_secret_key"]) != view or bytes(k["m_account_address"]["m_spend_public_key"]) != spend:
                    bad.append((key, "the wallet made is not the device's"))
            if v["keys"] == "own" and cur["asked"] != (["MoneroGetWatchKey"] if j["src"] == "device" else []):
                bad.append((key, "the device is asked for %s" % cur["asked"]))
            if v["keys"] == "own" and (bytes(crypto.encodeint(t.priv_view)) != view or bytes(t.address) != bytes(me.address)
                                       or bytes(crypto.encodepoint(t.pub_spend)) != spend):
                bad.append((key, "the keys opened are not the device's"))
            if v["keys"] == "own":
                nets = [t.network_type, t.agent.network_type] + ([cur["msg"].network_type] if j["src"] == "device" else [])
                with contextlib.redirect_stdout(io.StringIO()):
                    run(t.connect(emu.path))
                nets.append(t.agent.network_type)
                if nets != [net(j)] * len(nets):
                    bad.append((key, "tool, device library, request and library after connecting again have the networks %s, not %s" % (nets, net(j))))
            if v["afile"] == "own":
                cur["asked"] = []
                before = open(acc, "rb").read()
                u = start(d, j, emu.path, None)
                u.args.account_file = acc
                with contextlib.redirect_stdout(io.StringIO()):
                    run(u.connect(None))
                    run(u.open_account())
                if [u.network_type, u.agent.network_type] != [net(j)] * 2:
                    bad.append((key, "started again with the account file the network is another"))
                if open(acc, "rb").read() != before:
                    bad.append((key, "the account file is changed by starting again"))
                if cur["asked"] or bytes(crypto.encodeint(u.priv_view)) != view or bytes(u.address) != bytes(me.address) or bytes(crypto.encodepoint(u.pub_spend)) != spend:
                    bad.append((key, "started again with the account file the tool opens something else (asked the device for %s)" % cur["asked"]))
        except Exception as e:
            bad.append((key, "stops with %r %s" % (e, traceback.format_exc()[-300:])))
        finally:
            misc.py_raw_input = old
            if emu.is_alive():
                emu.stop()
            shutil.rmtree(d, ignore_errors=True)
    return len(vecs), bad
