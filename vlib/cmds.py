"""U01: amounts (spec/Amount.tla) and sending commands (spec/Command.tla) typed into the wallet tool."""
import asyncio, contextlib, io, os, random, re
from fractions import Fraction
from . import env, tlc, ref
from .addrs import b58
from monero_poc import agent as agent_mod
from monero_poc.utils import misc
from monero_glue.xmr import crypto, monero

METHODS = {"transfer": "transfer_split", "sweep_all": "sweep_all", "sweep_below": "sweep_all", "sweep_single": "sweep_single"}


def address(i, kind):
    v = {"addr": 18, "integ": 19, "sub": 42}[kind]
    b = ref.varint(v) + ref.enc(ref.gmul(1009 * i + 11)) + ref.enc(ref.gmul(2003 * i + 5)) + (bytes([i] * 8) if kind == "integ" else b"")
    return b58(b + ref.keccak(b)[:4]).decode()


_ADDR = {}


def word(kind, k, rng):
    """A concrete word of that kind; different at every position.  Returns (text, meaning)."""
    if kind in ("addr", "sub", "integ"):
        if (kind, k) not in _ADDR:
            _ADDR[kind, k] = address(k, kind)
        return _ADDR[kind, k], _ADDR[kind, k]
    h = lambda n: "".join(rng.choice("0123456789abcdef") for _ in range(n - 1)) + "c"
    if kind == "idx":
        ix = [rng.randrange(0, 50) for _ in range(rng.randrange(1, 4))]
        return "index=" + ",".join(map(str, ix)), ix
    if kind == "badidx":
        return rng.choice(["index=", "index=1,", "index=x", "index=1;2"]), None
    if kind.startswith("prio"):
        n = int(kind[4:])
        return misc_prio[n], n
    if kind == "int":
        n = 5 + 3 * k
        return str(n), n
    if kind == "n16":
        t = "".join(rng.choice("123456789") for _ in range(16))
        return t, t
    if kind == "dec":
        n, f = 2 * k + 1, rng.randrange(1, 10 ** 12)
        return "%d.%012d" % (n, f), n * 10 ** 12 + f
    if kind == "badamt":
        return rng.choice(["1.0000000000001", "18446744.073709551616", "9999999999999.5"]), None
    if kind == "hex16":
        t = h(16)
        return t, t
    if kind == "hex64":
        t = h(64)
        return t, t
    if kind == "odd16":
        return "paymentidpayment" if k % 2 else "g" * 64, None
    return rng.choice(["foo", "normale", "Index=1", "ab" * 10, "--", "0x10"]) , None


misc_prio = ["default", "unimportant", "normal", "elevated", "priority"]       # the documented order


class Wallet:
    """Stand-in for the wallet RPC: records requests."""
    def __init__(self, fault, prepared=((5, 1),)):
        self.calls, self.fault, self.prepared = [], fault, prepared

    def __getattr__(self, name):
        def f(params=None):
            self.calls.append((name, params))
            if name == "submit_transfer":
                return {"result": {"tx_hash_list": ["00"]}}
            if self.fault == "wallet":
                return {"error": {"code": -1, "message": "not enough money"}}
            if name == "sweep_single":
                r = {"amount": self.prepared[0][0], "fee": self.prepared[0][1]}
            else:
                r = {"amount_list": [a for a, _ in self.prepared], "fee_list": [f for _, f in self.prepared]}
            return {"result": dict(r, unsigned_txset=b"unsigned set".hex())}
        return f


class Tool:
    """The wallet tool with its collaborators replaced."""
    def __init__(self, answers, fault, account, prepared=((5, 1),)):
        a = self.a = agent_mod.HostAgent.__new__(agent_mod.HostAgent)
        a.noninteractive = False
        a.account_idx = account
        a.wallet_proxy = self.w = Wallet(fault, prepared)
        self.out = io.StringIO()
        a.rpc_running = a.rpc_ready = True
        a.args = type("Args", (), {"debug_rpc": False})()
        a.priv_view = 1
        a.check_rpc = lambda: True
        a.check_address = lambda: None
        a.poutput = a.perror = lambda msg="", *x, **k: self.out.write(str(msg) + "\n")
        self.signed, self.questions = [], 0
        self.answers = answers

        async def sign(file=None, fdata=None, aux_data=None):
            self.signed.append((fdata, aux_data))
            self.seen = self.out.getvalue()
            return 1 if fault == "device" else b"signed set"
        a.sign_wrap = sign
        a.wait_coro = lambda coro: env.run(coro)

    def ask(self, question=None):
        if not self.answers:
            raise EOFError("asked too often")
        self.questions += 1
        return self.answers.pop(0)

    def type(self, cmd, line):
        old = misc.py_raw_input
        misc.py_raw_input = self.ask
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(io.StringIO()):
                getattr(self.a, "do_" + cmd)(line)
        except Exception as e:
            return e
        finally:
            misc.py_raw_input = old
        return None


def expected(v, vals, account):
    """The wallet request of the specification's reading."""
    r, it = v["r"], iter(vals)
    p = {"do_not_relay": True}
    aux = []
    if r["below"]:
        p["below_amount"] = amt(r["below"], next(it))
    if v["c"] != "sweep_single":
        p["account_index"] = account
        p["subaddr_indices"] = next(it)[1] if r["idx"] else []
    if r["prio"]:
        p["priority"] = next(it)[1]
    if r["ring"]:
        p["ring_size"] = int(next(it)[0])
    if r["ki"]:
        p["key_image"] = next(it)[0]
    if v["c"] == "transfer":
        p["destinations"] = []
        for a, m in r["dests"]:
            t, m = next(it)[0], amt(m, next(it))
            p["destinations"].append({"address": t, "amount": m})
            aux.append((t, m))
    else:
        p["address"] = next(it)[0]
    if r["pid"]:
        p["payment_id"] = next(it)[0]
    return p, aux


def amt(kind, x):
    return int(x[0]) * 10 ** 12 if kind == "int" else x[1]


SAME = {"unlock_time", "get_tx_keys", "get_tx_hex", "get_tx_metadata", "get_tx_key"}      # left to the tool


def params_equal(got, want):
    g = {k: x for k, x in got.items() if k not in SAME and x is not None}
    if got.get("unlock_time", 0) != 0:
        return False
    if g.get("subaddr_indices") == [] and "subaddr_indices" not in want:
        g.pop("subaddr_indices")
    w = dict(want)
    if w.get("subaddr_indices") == [] and "subaddr_indices" not in g:
        w.pop("subaddr_indices")
    for d in (g, w):
        if isinstance(d.get("payment_id"), str):
            d["payment_id"] = d["payment_id"].lower()
    return g == w


SUMS = [5, 1, 10 ** 12, 123456789012, 9007199254740993, 18446744073709551615, 4999, 10 ** 13 + 1, 18000000000000000001, 99999999999]


def shown(text, n):
    """An amount is shown exactly, in coin units."""
    return Fraction(n, 10 ** 12) in [Fraction(x) for x in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:[eE]-?\d+)?(?![\w.])", text)]


def commands(c, vecs):
    rng = random.Random(c.seed)
    for v in vecs:
        account = rng.choice([0, 1, 7])
        vals = [word(k, i + 1, rng) for i, k in enumerate(v["w"])]
        line = rng.choice([" ", " ", "  "]).join(t for t, _ in vals)
        answers = []
        for x in v["a"]:
            if rng.randrange(4) == 0:
                answers += rng.choice([["?"], [""], ["yes"], ["nope", "quit"]])
            answers.append(rng.choice([x, x.upper(), " %s " % x]))
        prepared = [(rng.choice(SUMS), rng.choice(SUMS)) for _ in range(1 if v["c"] == "sweep_single" else rng.choice([1, 1, 2, 3]))]
        t = Tool(answers, v["f"], account, prepared)
        err = t.type(v["c"], line)
        name = "%s %s" % (v["c"], " ".join(v["w"]))
        full = "%s %s [%s]" % (v["c"], line, " ".join(v["a"]))
        c.add(traces_validated_against_impl=1)
        prep = [x for x in t.w.calls if x[0] != "submit_transfer"]
        subs = [x for x in t.w.calls if x[0] == "submit_transfer"]
        if v["at"] == "refused" or (v["r"]["lax"] and not t.w.calls and not t.signed):
            if prep or subs or t.signed:
                c.fail("accepted %s" % name, "'%s' is not a complete command but the wallet is asked %s" % (full, prep), v)
            continue
        if v["at"] == "dropped":
            if prep or subs or t.signed:
                c.fail("unasked %s" % name, "'%s' was not confirmed but goes on" % full, v)
            continue
        want, aux = expected(v, vals, account)
        if len(prep) != 1:
            c.fail("lost %s" % name, "'%s' asks the wallet %d times (%r)" % (full, len(prep), err), v)
            continue
        m, p = prep[0]
        if m != METHODS[v["c"]] or not params_equal(p, want):
            c.fail("request %s" % name, "'%s' asks the wallet for %s(%s), not %s(%s)" % (full, m, p, METHODS[v["c"]], want), v)
            continue
        if len(t.signed) != (v["at"] in ("device error", "signed", "submitted")):
            c.fail("sign %s" % name, "'%s' with answers %s ends as %s but %d signatures are made" % (full, v["a"], v["at"], len(t.signed)), v)
            continue
        if t.signed:
            for n in [x for p in prepared for x in p] + [n for _, n in aux]:
                if not shown(t.seen, n):
                    c.fail("shown %s" % name, "'%s' is signed although the amount or fee %d the user agreed to was shown as %r" % (full, n, t.seen[-400:]),
                           dict(v, prepared=prepared))
                    break
            fd, ax = t.signed[0]
            if fd != b"unsigned set":
                c.fail("signed what %s" % name, "'%s' signs %r, not what the wallet prepared" % (full, fd), v)
            if v["c"] == "transfer":
                ds = [(d[0].addr.decode(), d[1]) for d in ax.destinations]
                if ds != aux:
                    c.fail("device destinations %s" % name, "'%s' tells the device %s" % (full, ds), v)
        if len(subs) != (v["at"] == "submitted"):
            c.fail("submit %s" % name, "'%s' with answers %s ends as %s but %d transactions are submitted" % (full, v["a"], v["at"], len(subs)), v)
        elif subs and subs[0][1].get("tx_data_hex") != b"signed set".hex():
            c.fail("submit what %s" % name, "'%s' submits %s" % (full, subs[0][1]), v)


def text(v):
    d = lambda s: "".join(map(str, s))
    t = d(v["i"]) + ("." if v["dot"] else "") + d(v["f"])
    return {"plain": t, "plus": "+" + t, "minus": "-" + t, "exp0": t + "e0", "exp3": t + "e3", "exp-3": t + "E-3", "exp-12": t + "e-12",
            "exp13": t + "e+13"}[v["form"]]


ODD = ["nan", "inf", "-inf", "infinity", "NaN", "sNaN", "1,5", "1..2", "1.2.3", ".", "-", "0x10", "1e", "e5", "1/3", "--1", "1e400", "1e-400", "12a", "1.5xmr"]
EXACT = {"1_0": 10 ** 13, "1/2": 5 * 10 ** 11, "\uff11": 10 ** 12, "\u0661": 10 ** 12, "1e0_1": 10 ** 13}


def amounts(c, vecs):
    A = address(1, "addr")
    cases = [(text(v), None if v["v"] == [10] else int("".join(map(str, v["v"])) or "0"), v["form"] == "plain") for v in vecs]
    cases += [(t, None, True) for t in ODD] + [(t, n, False) for t, n in EXACT.items()]
    for t, n, strict in cases:
        c.add(traces_validated_against_impl=1)
        for cmd, line in (("transfer", "%s %s" % (A, t)), ("sweep_below", "%s %s" % (t, A)), ("transfer", "%s %s %s 1" % (A, t, A))):
            tool = Tool(["y"] * 3, "none", 0)
            err = tool.type(cmd, line)
            if tool.w.calls:
                p = tool.w.calls[0][1]
                got = [p["below_amount"]] if cmd == "sweep_below" else [d["amount"] for d in p["destinations"]][:1]
                if cmd == "transfer" and tool.signed:
                    got += [x[1] for x in tool.signed[0][1].destinations][:1]
            else:
                got = None
            if got is None:
                if n is not None and strict:
                    c.fail("amount %s" % t, "%s of amount %s is refused (%r), it is %d atomic units" % (cmd, t, err, n))
            elif n is None or any(x != n or type(x) is not int for x in got):
                c.fail("amount %s" % t, "%s of amount %s becomes %s atomic units, %s" % (cmd, t, got, "cannot be represented" if n is None else "not %d" % n))


def check(c):
    d = "TRUE" if c.thorough else "FALSE"
    r = tlc.vectors("Amount", {"Deep": d}, "INVARIANT Exact InRange Emit\n", timeout=800)
    c.add(states=r["distinct"], transitions=r["generated"])
    amounts(c, r["vectors"])
    r = tlc.vectors("Command", {"Deep": d, "Edits": 1}, "INVARIANT AllWordsUsed NoInvention SentencesRead SignedAfterYes SubmittedAfterYes Emit\n", timeout=800)
    c.add(states=r["distinct"], transitions=r["generated"])
    commands(c, r["vectors"])
