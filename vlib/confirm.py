"""P01: the companion server between the host and the user (spec/Confirm.tla)."""
import io, json, os, queue, random, re, subprocess, sys, threading, time, types
from . import env, procs, tlc, txgen, ref
from .env import run

FEE = {1: 20000000, 2: 1, 3: 123456789012345}
PAID = [1, 2 ** 64 - 1, 123456789012, 9007199254740993, 10 ** 12, 4999, 18000000000000000001]      # what each output gets


class Stop(Exception):
    pass


class Hold:
    """Threads answered at a prompt run on only when the schedule says so."""
    def __init__(self):
        self.gates, self.waiting = {}, set()


HOLD = Hold()


class Event(threading.Event):
    def wait(self, timeout=None):
        t = threading.current_thread()
        gate = HOLD.gates.get(t)
        if gate is None or timeout is not None:
            return super().wait(timeout)
        HOLD.waiting.add(t)
        r = super().wait()
        gate.wait()
        return r


def settled(ts, limit=10):
    """Until each of the threads has ended or sleeps."""
    end = time.time() + limit
    last, same = None, 0
    while time.time() < end:
        ts = [t for t in ts if t.is_alive() and t not in HOLD.waiting]
        if not ts:
            return True
        now = []
        for t in ts:
            try:
                with open("/proc/self/task/%d/status" % t.native_id) as fh:
                    x = fh.read()
                now.append((re.search(r"State:\s+(\w)", x).group(1), re.search(r"^voluntary_ctxt_switches:\s+(\d+)", x, re.M).group(1)))
            except OSError:
                now.append(("X", ""))
        same = same + 1 if now == last and all(a != "R" for a, b in now) else 0
        if same >= 12:
            return False
        last = now
        time.sleep(.002 + .0005 * same)
    return False


class Server:
    """The real server, its flask application and console; requests through the real proxy."""
    def __init__(self, me, net):
        # the flask application is called directly; the server in front of it is not part of this
        for n in ("eventlet", "eventlet.wsgi"):
            m = sys.modules.setdefault(n, types.ModuleType(n))
            m.monkey_patch = lambda *a, **k: None
        sys.modules["eventlet"].wsgi = sys.modules["eventlet.wsgi"]
        from monero_poc import trezor
        from monero_poc.utils import misc, trezor_server_proxy
        ns = types.SimpleNamespace(**{k: getattr(threading, k) for k in dir(threading) if not k.startswith("__")})
        ns.Event = Event
        misc.threading = ns
        self.s = s = trezor.TrezorServer()
        s.network_type = net
        s.args = types.SimpleNamespace(account_file=None, debug=False)
        s.init_with_keys(me.spend_key_private, me.view_key_private)
        s.init_rest()
        self.out = []
        s.poutput = lambda msg="", *a, **k: self.out.append(str(msg))
        s.select = self.select
        self.asks, self.answers = queue.Queue(), queue.Queue()
        self.console = None
        client = s.flask.test_client

        def call(kind):
            def f(url, json=None, **kw):
                path = re.sub(r"^http://[^/]*", "", url)
                r = getattr(client(), kind)(path, json=json) if json is not None else getattr(client(), kind)(path)
                res = types.SimpleNamespace(status_code=r.status_code)

                def raise_for_status():
                    if r.status_code >= 400:
                        raise ValueError("HTTP %d" % r.status_code)
                res.raise_for_status = raise_for_status
                res.json = lambda: r.get_json()
                return res
            return f
        trezor_server_proxy.requests = types.SimpleNamespace(post=call("post"), get=call("get"))
        self.proxy = trezor_server_proxy.TokenProxy()

    # the console
    def select(self, opts, prompt=None, **kw):
        self.asks.put(list(opts))
        a = self.answers.get()
        if a is None:
            raise Stop()
        for val, text in opts:
            if text.lower().startswith("confirm") == (a == "yes"):
                return val
        raise RuntimeError("no such option")

    def enter(self, k):
        """The command is entered: "nothing" or what is shown with the question."""
        del self.out[:]
        state = {}

        def go():
            try:
                getattr(self.s, "do_" + k)("")
            except Stop:
                pass
            except BaseException as e:
                state["e"] = e
            self.asks.put(None)
        self.console = threading.Thread(target=go, daemon=True)
        self.console.start()
        q = self.asks.get(timeout=30)
        if q is None:
            return "error" if "e" in state else "nothing", repr(state.get("e"))
        return "asks", "\n".join(self.out)

    def answer(self, a):
        self.answers.put(a)
        q = self.asks.get(timeout=30)
        return q is None


class World:
    def __init__(self):
        from monero_glue.xmr.sub.xmr_net import NetworkTypes
        from monero_glue.agent import agent_lite
        from monero_glue.hwtoken import token, misc
        from monero_glue import messages as M
        from . import keysync
        self.net, self.M = NetworkTypes.TESTNET, M
        self.me, _, con = txgen.simple_tx("confirm", 2, 2, net=self.net)
        rec = []

        class Rec(token.TokenLite):
            async def tsx_sign(s, msg):
                rec.append((await misc.dump_pb_msg(msg), msg.__class__))
                return await super().tsx_sign(msg)
        dev = Rec()
        dev.creds, dev.debug = self.me, False
        ag = agent_lite.Agent(dev, network_type=self.net)
        run(ag.sign_transaction_data(con))
        self.fresh = lambda i: run(misc.parse_pb_msg(rec[i][0], rec[i][1]))
        assert rec[0][1] is M.MoneroTransactionInitRequest and rec[1][1] is M.MoneroTransactionSetInputRequest
        o = keysync.Out(txgen.Rng("confirm"), "me")
        self.ki_step = M.MoneroKeyImageSyncStepRequest(tdis=[o.pb()])

    def request(self, kind, r):
        M = self.M
        if kind == "T":
            m = self.fresh(0)
            m.tsx_data.unlock_time = 7000000 + r
            m.tsx_data.fee = FEE[r]
            for i, o in enumerate(m.tsx_data.outputs):
                o.amount = PAID[(i + r) % len(PAID)]
            return "tsx_sign", m, M.MoneroTransactionInitAck
        if kind == "K":
            return "key_image_sync", M.MoneroKeyImageExportInitRequest(num=50000 + r, hash=bytes([r]) * 32, network_type=self.net,
                                                                        subs=[M.MoneroSubAddressIndicesList(account=0, minor_indices=[0, 1])]), M.MoneroKeyImageExportInitAck
        return "get_view_key", M.MoneroGetWatchKey(network_type=self.net), M.MoneroWatchKey

    def step(self, kind):
        M = self.M
        return ("tsx_sign", self.fresh(1), M.MoneroTransactionSetInputAck) if kind == "T" else \
               ("key_image_sync", self.ki_step, M.MoneroKeyImageSyncStepAck)

    def shown(self, kind, text, bad):
        """Which request does the text on the console describe?"""
        if kind == "W":
            return None
        base = 7000000 if kind == "T" else 50000
        got = {int(x) - base for x in re.findall(r"\d+", text)} & {1, 2, 3}
        if len(got) != 1:
            return "?%s" % sorted(got)
        r = got.pop()
        if kind == "T":
            self.display(text, self.request("T", r)[1].tsx_data, bad)
        return str(r)

    def display(self, text, t, bad):
        from .addrs import b58
        from fractions import Fraction
        nums = lambda x: [Fraction(y) for y in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:[eE]-?\d+)?(?![\w.])", x)]
        near = lambda a, x=text: Fraction(a, 10 ** 12) in nums(x)
        lines = text.split("\n")
        if not near(t.fee):
            bad("display", "the fee %d is not shown: %r" % (t.fee, text))
        for o in t.outputs:
            v = 63 if o.is_subaddress else 53
            b = bytes([v]) + bytes(o.addr.spend_public_key) + bytes(o.addr.view_public_key)
            a = b58(b + ref.keccak(b)[:4]).decode()
            ln = [x for x in lines if a in x and near(o.amount, x)]
            if not ln:
                bad("display", "output %d to %s is not shown: %r" % (o.amount, a, text))


class Req:
    def __init__(self, world, srv, kind, r):
        self.kind, self.r, self.world = kind, r, world
        meth, self.msg, self.ack = world.request(kind, r)
        self.res = self.exc = None

        def go():
            try:
                self.res = run(getattr(srv.proxy, meth)(self.msg))
            except BaseException as e:
                self.exc = e
        self.t = threading.Thread(target=go, daemon=True)
        self.gate = HOLD.gates[self.t] = threading.Event()

    def outcome(self, bad):
        if self.t.is_alive():
            return "waits"
        if self.exc is not None or self.res is None or isinstance(self.res, self.world.M.Failure):
            return "refused"
        if not isinstance(self.res, self.ack):
            return "other %s" % type(self.res).__name__
        if self.kind == "W":
            me = self.world.me
            from monero_glue.xmr import crypto
            if bytes(self.res.watch_key) != bytes(crypto.encodeint(me.view_key_private)) or bytes(self.res.address) != bytes(me.address):
                bad("export", "the watch-only key or address handed out is not the wallet's")
        return "granted"


class Trie:
    def __init__(self):
        self.next = {}       # stimulus -> observation -> Trie

    def add(self, s, o):
        n = self
        for a, b in zip(s, o):
            n = n.next.setdefault((a[0], a[1]), {}).setdefault(b, Trie())


def replay(world, trie, v, kinds, fails):
    HOLD.gates.clear()
    HOLD.waiting.clear()
    srv = Server(world.me, world.net)
    reqs, node, done = {}, trie, []

    def bad(key, what):
        fails.append([key, "%s, after %s" % (what, " ".join("%s %s" % tuple(x) for x in done)), {"kinds": kinds, "schedule": v["s"]}])

    for s in v["s"]:
        s = tuple(s)
        if s not in node.next:
            break                                  # the code took the other permitted branch
        allowed = node.next[s]
        done.append(s)
        what, x = s
        info = ""
        if what == "arrive":
            q = reqs[x] = Req(world, srv, kinds[x - 1], x)
            q.t.start()
            settled([q.t])
            o = q.outcome(bad)
            info = repr(q.exc) if q.exc else str(getattr(q.res, "message", ""))
        elif what == "step":
            meth, msg, ack = world.step(x)
            try:
                r = run(getattr(srv.proxy, meth)(msg))
            except Exception as e:
                r = None
            o = "accepted" if isinstance(r, ack) else "refused"
        elif what == "enter":
            o, info = srv.enter(x)
            if o == "asks":
                o = world.shown(x, info, bad)
                if o is None:
                    o = next(iter(allowed))
                    o = o if o.isdigit() else "1"
        elif what in ("yes", "no", "leave"):
            if not srv.answer(None if what == "leave" else what):
                bad("asked again", "the question is asked twice")
                break
            o = ""
            settled([q.t for q in reqs.values()])
        elif what == "run":
            q = reqs[x]
            q.gate.set()
            q.t.join(20)
            o = "stuck" if q.t.is_alive() else q.outcome(bad)
        if o not in allowed:
            bad("%s %s" % (what, o), "%s: the code says %r, the specification %s %s" % (" ".join(map(str, s)), o, sorted(allowed), info if o in ("error", "refused") else ""))
            break
        node = allowed[o]
    for q in reqs.values():
        q.gate.set()
    if srv.console is not None and srv.console.is_alive():
        srv.answer(None)
    for _ in range(3):                             # whatever still waits is turned down
        for k in sorted({q.kind for q in reqs.values() if q.t.is_alive()}):
            if srv.enter(k)[0] == "asks":
                srv.answer("no")
    for q in reqs.values():
        q.t.join(5 if len(fails) < 3 else .1)


def worker(job):
    import contextlib
    fails = []
    err, sys.stderr = sys.stderr, open(os.environ.get("P01_ERR", os.devnull), "w")
    world = World()
    trie = Trie()
    for v in job["all"]:
        trie.add(v["s"], v["o"])
    import gc
    gc.disable()                # collecting on a request's thread crashes the interpreter (greenlets); do it here instead
    for k, v in enumerate(job["mine"]):
        replay(world, trie, v, job["kinds"], fails)
        if k % 25 == 24:
            gc.collect()
        if len(fails) > 40:
            break
    direct(world, fails)
    return {"n": len(job["mine"]), "fails": fails[:100]}


def direct(world, fails):
    """The emulated token itself, without server."""
    from monero_glue.hwtoken import token
    from monero_glue.xmr import crypto
    d = token.TokenLite()
    d.creds, d.debug = world.me, False
    M = world.M
    for net in (0, 1, 2):
        try:
            r = run(d.get_view_key(M.MoneroGetWatchKey(network_type=net)))
        except Exception as e:
            r = repr(e)
        if net == world.net:
            if not isinstance(r, M.MoneroWatchKey) or bytes(r.watch_key) != bytes(crypto.encodeint(world.me.view_key_private)) or bytes(r.address) != bytes(world.me.address):
                fails.append(["export", "the token's watch-only key is not the view key of the wallet", {"net": net}])
        elif isinstance(r, M.MoneroWatchKey):
            fails.append(["export", "the token exports for another network", {"net": net}])


MIXES = [["T", "T"], ["K", "K"], ["W", "W"], ["T", "K", "W"], ["T", "T", "T"], ["K", "K", "K"], ["W", "W", "W"], ["T", "K", "T"], ["K", "W", "K"]]


def check(c):
    from concurrent.futures import ThreadPoolExecutor
    rng = random.Random(c.seed)
    plan = [(1, 7, 1200), (2, 7, 1200), (3, 8, 600), (4, 5, 300), (5, 7, 900), (6, 7, 900), (7, 8, 500)]
    if c.thorough:
        plan = [(1, 9, 12000), (2, 9, 12000), (3, 11, 6000), (4, 7, 8000), (5, 8, 9000), (6, 8, 9000), (7, 10, 6000), (8, 7, 6000), (9, 7, 6000)]
    inv = "INVARIANT Confirmed OneAnswer Refusal NoneLost Continued Emit\n"
    jobs = []
    for mix, ln, want in plan:
        r = tlc.vectors("Confirm", {"Mix": str(mix), "MaxLen": str(ln)}, inv, timeout=1500, workers=6)
        c.add(states=r["distinct"], transitions=r["generated"])
        vs = sorted(r["vectors"], key=lambda v: json.dumps(v, sort_keys=True))
        one = list({json.dumps(v["s"]): v for v in vs}.values())
        rng.shuffle(one)
        one.sort(key=lambda v: -len({s[0] for s in v["s"]}))          # the most varied schedules first
        keep = one[:want // 2]
        rest = one[want // 2:]
        keep += rng.sample(rest, min(want - len(keep), len(rest)))
        c.sample(keep[0])
        per = -(-len(keep) // (8 if c.thorough else 4))
        for k in range(0, len(keep), per):
            jobs.append({"kinds": MIXES[mix - 1], "all": vs, "mine": keep[k:k + per]})
    r = tlc.run("Confirm", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY NoneStuck\nCONSTANTS\n  Mix = 4\n  MaxLen = 4\n", timeout=600)
    c.add(states=r["distinct"], transitions=r["generated"])

    def go(job):
        return procs.call("vlib.confirm", job)
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(go, jobs):
            c.add(traces_validated_against_impl=res["n"])
            for key, what, data in res["fails"]:
                c.fail(key, what, data)


if __name__ == "__main__":
    real = sys.stderr
    import faulthandler
    faulthandler.enable(file=real)
    try:
        res = json.dumps(worker(json.load(sys.stdin)), default=str)
    except BaseException as e:
        import traceback
        inside = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(env.REPO)]
        if not inside:
            traceback.print_exc(file=real)
            real.flush()
            os._exit(1)
        res = json.dumps({"n": 0, "fails": [["exception", "%s:%s raises %r" % (os.path.basename(inside[-1].filename), inside[-1].name, e), {}]]})
    os.write(1, ("\n" + res + "\n").encode())
    os._exit(0)
