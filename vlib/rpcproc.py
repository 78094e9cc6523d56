"""V01: the wallet RPC process (spec/RpcProc.tla) replayed into the tool with a stand-in executable in a scratch directory.

The stand-in reports its arguments, its standard input and the signals it gets over a socket, and writes what it is told."""
import contextlib, io, json, os, random, shutil, signal, socket, sys, tempfile, threading, time, types
from multiprocessing import Pool
from . import env, tlc

FAKE = """#!%s -IS
import sys, socket, os, json, threading, signal
s = socket.socket(socket.AF_UNIX)
s.connect(%r)
lock = threading.Lock()
def tell(**k):
    with lock:
        s.sendall((json.dumps(k) + "\\n").encode())
def interrupted(*a):
    tell(sig=1)
    os._exit(0)
signal.signal(signal.SIGINT, interrupted)
signal.signal(signal.SIGTERM, interrupted)
signal.signal(signal.SIGPROF, signal.SIG_IGN)
tell(argv=[os.fsencode(x).hex() for x in sys.argv[1:]], cwd=os.getcwd())
def read():
    for l in iter(sys.stdin.buffer.readline, b""):
        tell(line=l.hex())
threading.Thread(target=read, daemon=True).start()
try:
    for l in s.makefile():
        m = json.loads(l)
        if "exit" in m:
            os._exit(m["exit"])
        f = getattr(sys, m["on"]).buffer
        f.write(bytes.fromhex(m["text"]))
        f.flush()
finally:
    os._exit(9)
"""
PIECES = {"noise": [b"2018-09-01 12:00:00.000\tINFO wallet ready to start\n", b"Loading wallet...\n", b"\n", b"Starting the refresh\nno wallet here\n",
                    b"2018-09-01 12:00:00.000 7f00 [RPC0] ERROR wallet.rpc src/x.cpp:1 no connection\n"],
          "marker": [b"2018-09-01 12:00:00.000 I Starting wallet RPC server\n", b"one line\nStarting wallet rpc server\nand more\n", b"Starting wallet RPC server\r\n"],
          "upper": [b"STARTING WALLET RPC SERVER\n"],
          "char1": [b"caf\xc3", b"price \xe2\x82"], "char2": [b"\xa9 open\n", b"\xac\n"],
          "bad": [b"\xff\xfe\x80 not text\n", b"\xc3\x28\n"], "split": [b"starting\nwallet\n", b"starting\n wallet RPC\n"],
          "half": [b"2018 I Starting wal", b"S", b"first\nStarting w"], "rest": []}
HALF = {b"2018 I Starting wal": b"let RPC server\n", b"S": b"tarting wallet RPC server\n", b"first\nStarting w": b"allet RPC server\n"}
LIMIT = 40


def until(cond, limit=LIMIT):
    t = time.time()
    while time.time() - t < limit:
        if cond():
            return True
        time.sleep(0.02)
    return cond()


class Child:
    """The harness' end of the stand-in."""
    def __init__(self, srv):
        self.srv, self.c = srv, None
        self.said, self.dead, self.stopped = [], False, False
        threading.Thread(target=self.listen, daemon=True).start()

    def listen(self):
        try:
            self.c, _ = self.srv.accept()
            for l in self.c.makefile():
                self.said.append(json.loads(l))
        except (OSError, ValueError):
            pass
        self.dead = self.c is not None

    def first(self):
        return next((x for x in self.said if "argv" in x), None)

    def lines(self):
        return [bytes.fromhex(x["line"]) for x in self.said if "line" in x]

    def send(self, **k):
        try:
            if self.c is not None:
                self.c.sendall((json.dumps(k) + "\n").encode())
        except OSError:
            pass


def options(argv):
    """--name value and --name=value -> [(name, value or None)], and what is left over."""
    out, i = [], 0
    flags = ("--prompt-for-password", "--testnet", "--stagenet", "--debug")
    while i < len(argv):
        x = argv[i]
        if "=" in x and x.startswith("--"):
            out.append(tuple(x.split("=", 1)))
        elif x in flags or not x.startswith("--"):
            out.append((x, None))
        elif i + 1 < len(argv):
            out.append((x, argv[i + 1]))
            i += 1
        else:
            out.append((x, None))
        i += 1
    return out


def one(job):
    v, seed = job
    fails = []
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="v01-"))
    try:
        play(v, seed, tmp, lambda k, w: fails.append((k, w, v)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return fails


def play(v, seed, tmp, fail):
    from monero_poc import agent as tool
    from monero_glue.xmr import wallet_rpc
    rng = random.Random("%d/%s" % (seed, json.dumps(v)))
    name = "%s" % ([v["mode"], [[h["op"], h["arg"]] for h in v["hist"]]],)
    bindir = os.path.join(tmp, rng.choice(["bin", "my bin", "b'in", "b$(exit 3)n", "b;in", "b\"in", "b&n", "\u00fc"]))
    os.mkdir(bindir)
    exe = os.path.join(bindir, "monero-wallet-rpc")
    sock = os.path.join(tmp, "s")
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(sock)
    srv.listen(1)
    srv.settimeout(120)
    if v["mode"] != "missing":
        with open(exe, "w") as fh:
            fh.write(FAKE % (sys.executable if " " not in sys.executable else "/usr/bin/python3", sock))
        os.chmod(exe, 0o755)
    child = Child(srv)
    wallet_file = rng.choice([os.path.join(tmp, x) for x in ("w", "my wallet", "wal'let", "w$(echo x)", "w;id", "w\"q", "w*", "\u00fcmlaut", "a\\b", "`x`", "-w")] + ["rel wallet"])
    password = rng.choice([b"", b"secret12", b"two words", "p\u00e4ss\u4e2d".encode(), b"$(x)';\"", b"x" * 200, b"testnet0"])
    daemon = rng.choice(["127.0.0.1:18081", "[::1]:28081", "10.1.2.3", "node.example.org:18089", "127.0.0.1:1;x"])
    net = rng.choice([0, 1, 2])
    port = rng.randrange(20000, 60000)
    calls = []

    class Answer:
        status_code = 200

        def __init__(self, js):
            self.js = js

        def raise_for_status(self):
            pass

        def json(self):
            return self.js

    deaf = {"on": False}

    def post(url, json=None, auth=None, **kw):
        m = json["method"]
        if m == "stop_wallet":
            calls.append(("stop", url, auth and (auth.username, auth.password)))
            if deaf["on"]:
                raise IOError("connection refused")
            child.send(exit=0)
            child.stopped = True
            return Answer({"result": {}})
        calls.append((m, url, auth and (auth.username, auth.password)))
        return Answer({"result": {"balance": 5, "unlocked_balance": 5, "height": 1}})
    old = wallet_rpc.requests
    wallet_rpc.requests = types.SimpleNamespace(post=post)
    cwd = os.getcwd()
    os.chdir(tmp)
    sink = io.StringIO()
    creds = rng.choice([None, "user:pa:ss", "u:"])
    there = rng.choice(["127.0.0.1:9999", "wallet.example:1"])
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            a = tool.HostAgent()
            a.poutput = a.perror = lambda *x, **k: None
            a.args = types.SimpleNamespace(wallet_rpc_addr=there if v["mode"] == "existing" else None, wallet_rpc_creds=creds if v["mode"] == "existing" else None,
                                           rpc_addr=daemon if v["mode"] == "existing" else None, testnet=net == 1 and rng.randrange(2) == 0, debug_rpc=rng.randrange(2) == 0)
            a.wallet_file, a.monero_bin, a.wallet_password, a.network_type, a.rpc_addr = wallet_file, bindir, password, net, daemon
            a.rpc_bind_port = port
            a.wallet_proxy = wallet_rpc.WalletRpc(a, port, None)
            steps(v, a, child, calls, deaf, fail, name, rng, dict(wallet=os.path.join(tmp, wallet_file), password=password, daemon=daemon, net=net, port=port,
                                                                   creds=creds, there=there, cwd=tmp))
    finally:
        os.chdir(cwd)
        wallet_rpc.requests = old
        child.send(exit=1)
        srv.close()


def try_command(a, calls):
    n = len(calls)
    try:
        a.do_balance("")
    except Exception:
        pass
    return any(c[0] == "getbalance" for c in calls[n:])


def steps(v, a, child, calls, deaf, fail, name, rng, x):
    part = {}
    for i, h in enumerate(v["hist"]):
        if h["op"] == "launch":
            env.run(a.wallet_rpc())
            if v["mode"] == "own":
                if not until(lambda: child.first() is not None):
                    return fail("start %s" % name, "the wallet RPC in %r is not started" % a.monero_bin)
                if not until(lambda: len(child.lines()) >= 2):
                    return fail("passwords %s" % name, "the wallet RPC gets %s on its input, not two passwords" % child.lines())
                if not arguments(a, child, fail, x):
                    return
        elif h["op"] == "write":
            s, p = h["arg"]
            t = HALF[part[s]] if p == "rest" else rng.choice(PIECES[p])
            if p == "half":
                part[s] = t
            child.send(on="std" + s, text=t.hex())
            time.sleep(0.12)
        elif h["op"] == "die":
            child.send(exit=rng.choice([0, 1, 255]))
            if not until(lambda: child.dead):
                raise RuntimeError("the stand-in does not end")
        elif h["op"] == "command":
            want = h["arg"] == "passed"
            if want:
                if not until(lambda: try_command(a, calls)):
                    return fail("command %s" % name, "a command is still refused %d s after the wallet RPC %s" % (LIMIT, "announced itself" if v["mode"] == "own" else "was given"))
                c = [c for c in calls if c[0] == "getbalance"][-1]
                if v["mode"] == "own":
                    lines = child.lines()
                    opts = dict(options([os.fsdecode(bytes.fromhex(z)) for z in child.first()["argv"]]))
                    auth = (opts.get("--rpc-login"), lines[1].rstrip(b"\n").decode("utf8", "replace"))
                    if ":%s/" % opts.get("--rpc-bind-port") not in c[1] or c[2] != auth:
                        return fail("reach %s" % name, "the tool talks to %s as %s, the wallet RPC listens on %s for %s" % (c[1], c[2], opts.get("--rpc-bind-port"), auth))
                else:
                    auth = tuple(x["creds"].split(":", 1)) if x["creds"] else None
                    if "//%s/" % x["there"] not in c[1] or c[2] != auth:
                        return fail("reach %s" % name, "the tool talks to %s as %s, not to %s as %s" % (c[1], c[2], x["there"], auth))
            else:
                if h["proc"] == "ended":                # noticed soon, not at once
                    if not until(lambda: not try_command(a, calls)):
                        return fail("command %s" % name, "commands are passed on %d s after the wallet RPC ended" % LIMIT)
                elif try_command(a, calls):
                    return fail("command %s" % name, "a command is passed on although the wallet RPC %s" % ("is not there" if h["proc"] == "absent" else "is not ready"))
        elif h["op"] == "leave":
            deaf["on"] = h["arg"] == "deaf"
            n = len(calls)
            t = threading.Thread(target=a.shutdown_rpc, daemon=True)
            t.start()
            t.join(LIMIT)
            if t.is_alive():
                return fail("leave %s" % name, "leaving the tool does not end (the wallet RPC %s)" % ("ended" if child.dead else "goes on"))
            if v["mode"] == "own" and not until(lambda: child.dead, 10):
                return fail("left %s" % name, "the wallet RPC goes on after the tool was left")
            if v["mode"] == "existing" and any(c[0] == "stop" for c in calls[n:]):
                return fail("foreign %s" % name, "leaving stops a wallet RPC that the tool did not start")


def arguments(a, child, fail, x):
    """The process got the opened wallet and nothing else; no secret is on its command line."""
    argv = [os.fsdecode(bytes.fromhex(z)) for z in child.first()["argv"]]
    opts = options(argv)
    d = dict(opts)
    want = {"--wallet-file": x["wallet"], "--daemon-address": x["daemon"], "--rpc-bind-port": str(x["port"])}
    for k, w in want.items():
        g = d.get(k)
        if k == "--wallet-file" and g is not None:
            g = os.path.join(child.first()["cwd"], g)
        if g != w:
            fail("argument %s" % k, "the wallet RPC is started with %s %r, not %r (%s)" % (k, g, w, argv))
            return False
    nets = tuple(sorted(k for k, _ in opts if k in ("--testnet", "--stagenet")))
    if nets != {0: (), 1: ("--testnet",), 2: ("--stagenet",)}[x["net"]]:
        fail("network %d" % x["net"], "for a wallet of network %d the wallet RPC is started with %s" % (x["net"], argv))
        return False
    if any(v is None and not k.startswith("--") for k, v in opts):
        fail("surplus argument", "the wallet RPC gets %s" % argv)
        return False
    lines = child.lines()
    if lines[0].rstrip(b"\n") != x["password"]:
        fail("wallet password", "the wallet RPC gets the wallet password %r, not %r" % (lines[0], x["password"]))
        return False
    rpc = lines[1].rstrip(b"\n").decode("utf8", "replace")
    if len(rpc) < 8:
        fail("rpc password", "the wallet RPC is protected by %r only" % rpc)
        return False
    for s in argv:
        if rpc in s or "disable-rpc-login" in s or (len(x["password"]) > 7 and x["password"].decode("utf8") in s):
            fail("secret shown", "a password is on the command line: %s" % argv)
            return False
    return True


def choose(c, vecs):
    """Every history of one or two steps, every step after every other, and a sample of the rest."""
    rng = random.Random(c.seed)
    rng.shuffle(vecs)
    n = 2500 if c.thorough else 260
    out, seen = [], set()
    for v in vecs:
        pairs = {json.dumps([v["mode"], a["op"], a["arg"], b["op"], b["arg"], b["ready"], b["proc"]]) for a, b in zip(v["hist"], v["hist"][1:])}
        if pairs - seen:
            seen |= pairs
            out.append(v)
    chosen = out + [v for v in vecs if v not in out][:max(0, n - len(out))]
    return chosen


def check(c):
    r = tlc.vectors("RpcProc", {"Depth": "4"}, "INVARIANT PassedOnlyReady NotOursLives Gone ReadySaid Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    work = [(v, c.seed) for v in choose(c, r["vectors"])]
    with Pool(24) as p:
        for fs in p.imap_unordered(one, work):
            c.add(traces_validated_against_impl=1)
            for x in fs:
                c.fail(*x)
            if len(c.viol) > 20:
                break
        p.terminate()
    for w in work[:3]:
        c.sample(w[0])
