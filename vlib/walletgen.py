"""G01: account files of the companion server (spec/WalletInit.tla), the seed tool and the device initialiser (spec/SeedTool.tla).

Everything runs inside a scratch directory; the initialiser talks to stand-ins, never to a device."""
import asyncio, contextlib, hashlib, io, json, os, random, re, shutil, sys, tempfile, time
from multiprocessing import Pool
from . import env, ref, tlc
from .addrs import b58
from .seeds import W, ref_words, ref_decode, chk_idx, ref_node, ref_keys
from monero_glue.misc.bip import bip39

NETS = {"main": (18, 42), "test": (53, 63), "stage": (24, 36)}
DEFAULT = {"secp": [(44, True), (128, True), (0, True), (0, False), (0, False)], "ed": [(44, True), (128, True), (0, True)]}


def keys_of(master):
    """Secrets and public keys of a Monero seed: view, spend, view public, spend public."""
    a, b = ref_keys(master)
    return ref.i2b(a), ref.i2b(b), ref.enc(ref.gmul(a)), ref.enc(ref.gmul(b))


def address(ver, spend, view):
    raw = bytes([ver]) + spend + view
    return b58(raw + ref.keccak(raw)[:4])


def words_of(master):
    ws = ref_words(master)
    return ws + [ws[chk_idx(ws)]]


def bip39_of(ent):
    bits = "".join("{:08b}".format(x) for x in ent + hashlib.sha256(ent).digest()[:1])
    return [bip39.english_words[int(bits[i:i + 11], 2)] for i in range(0, len(bits) - 10, 11)]


def drive(coro):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coro)
    finally:
        loop.close()


class Quiet:
    """Console output of the code, command line arguments, no waiting."""
    def __init__(self, argv):
        self.argv = argv

    def __enter__(self):
        self.out = io.StringIO()
        self.old = sys.argv, time.sleep
        sys.argv = list(self.argv)
        time.sleep = lambda s: None
        self.st = contextlib.ExitStack()
        self.st.enter_context(contextlib.redirect_stdout(self.out))
        self.st.enter_context(contextlib.redirect_stderr(io.StringIO()))
        return self.out

    def __exit__(self, *a):
        self.st.close()
        sys.argv, time.sleep = self.old


# -- account files ---------------------------------------------------------------------------
class Fails:
    def __init__(self):
        self.l = []

    def fail(self, k, w, d=None):
        self.l.append((k, w, d))


def account(job):
    v, seed = job
    f = Fails()
    tmp = tempfile.mkdtemp(prefix="g01-")
    seen = []
    try:
        account_in(f, v, seed, tmp, seen)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return f.l, seen


def account_in(f, v, seed, tmp, seen):
    from monero_poc import trezor
    rng = random.Random("%d/%s" % (seed, json.dumps(v)))
    path = os.path.join(tmp, rng.choice(["account.json", "my account", "\u00fcnicode.json"]))
    secrets = {}                      # abstract secret -> (view, spend)

    def secret(n):
        if n not in secrets:
            secrets[n] = tuple(ref.i2b(rng.choice([rng.randrange(1, ref.L), rng.randrange(1, 256), ref.L - 1 - rng.randrange(9)])) for _ in range(2))
        return secrets[n]

    def read():
        try:
            with open(path, "rb") as fh:
                return fh.read()
        except FileNotFoundError:
            return None
    first = v["hist"][0]
    for h in v["hist"]:
        if h["file"] in ("old", "bad"):
            a, b = secret("old")
            body = {"spend_key": b.hex(), "view_key": a.hex()}
            text = json.dumps(body)
            if h["file"] == "bad":
                text = rng.choice([text[:-rng.randrange(1, len(text) - 5)], "", json.dumps({"view_key": a.hex()}), json.dumps({"spend_key": b.hex()}),
                                   json.dumps(dict(body, spend_key="zz" + b.hex()[2:])), json.dumps(dict(body, view_key=a.hex()[:-1]))])
            with open(path, "w") as fh:
                fh.write(text)
            break
        break
    before = read()
    i, hist = 0, v["hist"]
    while i < len(hist):
        h = hist[i]
        assert h["op"] == "start"
        net = rng.choice(list(NETS))
        argv = ["trezor"] + {"main": [], "test": ["--testnet"], "stage": ["--stagenet"]}[net]
        if v["hasFile"]:
            argv += ["--account-file", path]
        k = h["arg"]
        if k in ("k1", "k2"):
            a, b = secret(k)
            form = rng.choice([str, str.upper])
            argv += ["--view-key", form(a.hex()), "--spend-key", form(b.hex())]
        elif k == "spend":
            argv += ["--spend-key", secret("k1")[1].hex()]
        elif k == "junk":
            argv += ["--view-key", "not hex", "--spend-key", secret("k1")[1].hex()] if rng.randrange(2) else \
                    ["--view-key", secret("k1")[0].hex(), "--spend-key", "xyz"]
        j = i + 1
        while j < len(hist) and hist[j]["op"] != "start":
            j += 1
        todo = hist[i + 1:j]
        name = "%s" % ([v["hasFile"], [[x["op"], x["arg"]] for x in hist[:j]]],)
        state = {"up": False}

        def look(step, what):
            """The state of the world after a step against the specification's."""
            nonlocal before
            raw = read()
            if (raw is None) != (step["file"] == "none"):
                f.fail("file %s" % name, "%s: the account file %s" % (what, "is missing" if raw is None else "appears: %r" % raw[:200]), v)
                return False
            if before is not None and raw != before:
                f.fail("changed %s" % name, "%s: the existing account file is changed from %r to %r" % (what, before[:300], raw[:300]), v)
                return False
            before = raw
            got = wallet()
            if step["mem"] == "none":
                if got is not None:
                    f.fail("wallet %s" % name, "%s: the wallet %s is open, none should be" % (what, got[1].hex()), v)
                    return False
                return True
            if got is None:
                f.fail("wallet %s" % name, "%s: no wallet is open" % what, v)
                return False
            m = step["mem"]
            if m.startswith("g") and m not in secrets:
                secrets[m] = got
                seen.append(got[1].hex())
                return generated(m, got, raw, what)
            if got != secret(m):
                f.fail("wallet %s" % name, "%s: the wallet with spend key %s is open, not that of %s (%s)" % (what, got[1].hex(), m, secret(m)[1].hex()), v)
                return False
            return shown(what, got)

        def wallet():
            c = s.creds
            if c is None:
                return None
            enc = env_crypto.encodeint
            return bytes(enc(c.view_key_private)), bytes(enc(c.spend_key_private))

        def shown(what, got):
            """What the tool says about its wallet, and what the device behind it uses."""
            a, b = got
            A, B = (ref.enc(ref.gmul(ref.b2i(x))) for x in got)
            adr = address(NETS[net][0], B, A)
            adr = adr if isinstance(adr, bytes) else adr.encode()
            mark = out.tell()
            s.do_address("")
            s.do_keys("")
            text = out.getvalue()[mark:]
            for x in (adr.decode(), a.hex(), b.hex(), A.hex(), B.hex()):
                if x not in text:
                    f.fail("shown %s" % name, "%s: the tool shows %r, without %s" % (what, text[-600:], x), v)
                    return False
            t = s.trez.creds
            if bytes(t.address) != adr or bytes(env_crypto.encodeint(t.spend_key_private)) != b or bytes(env_crypto.encodeint(t.view_key_private)) != a:
                f.fail("device %s" % name, "%s: the device works with another wallet (%r) than %r" % (what, t.address, adr), v)
                return False
            return True

        def generated(m, got, raw, what):
            text = out.getvalue()
            if raw is not None:
                d = json.loads(raw)
                if (d.get("view_key"), d.get("spend_key")) != (got[0].hex(), got[1].hex()):
                    f.fail("stored %s" % name, "%s: the file has other keys than the wallet generated" % what, v)
                    return False
            else:
                d = s.account_data
            meta = d["meta"]
            ms = bytes.fromhex(d["seed"])
            master = ref.keccak(ref_node(ms, False, DEFAULT["secp"]))
            want = keys_of(master)
            adr = address(NETS[net][0], want[3], want[2])
            adr = adr.decode() if isinstance(adr, bytes) else adr
            mw = meta.get("monero_words")          # with or without the checksum word
            mw = mw if isinstance(mw, str) and ref_decode(mw.split(" ")) == master else " ".join(words_of(master))
            for k2, w in (("addr", adr), ("monero_seed", master.hex()), ("monero_words", mw),
                          ("bip32_39_words", " ".join(bip39_of(ms))), ("bip44_seed", ms.hex())):
                if meta.get(k2) != w:
                    f.fail("record %s" % k2, "%s: a generated wallet is recorded with %s %r, its seed restores %r" % (what, k2, meta.get(k2), w), v)
                    return False
                if w not in text:
                    f.fail("printed %s" % k2, "%s: a generated wallet is shown without its %s %r: %r" % (what, k2, w, text[-1500:]), v)
                    return False
            if want[:2] != got:
                f.fail("restore %s" % name, "%s: the recorded seed restores spend key %s, the wallet has %s" % (what, want[1].hex(), got[1].hex()), v)
                return False
            return shown(what, got)

        good = True
        with Quiet(argv) as out:
            from monero_glue.xmr import crypto as env_crypto
            s = trezor.TrezorServer()
            s.rest_server_boot = s.terminating = lambda: None
            s.poutput = s.perror = lambda msg="", *x, **kw: out.write(str(msg) + "\n")

            def console():
                nonlocal good
                state["up"] = True
                good = look(h, "after the start with %s" % argv[1:])
                for st in todo:
                    if not good or st["op"] == "stop":
                        break
                    try:
                        s.do_new_wallet("")
                    except Exception as e:
                        if st["ans"] == "ok":
                            f.fail("new %s" % name, "generating a wallet fails: %r" % e, v)
                            good = False
                            break
                    good = look(st, "after generating a wallet")
            s.cmdloop = console
            try:
                drive(s.main())
                err = None
            except SystemExit as e:
                err = e
            except Exception as e:
                err = e
        if not good:
            return
        if h["ans"] == "either" and not state["up"]:
            if read() != before:
                f.fail("changed %s" % name, "a refused start leaves an account file", v)
            return
        if state["up"] != (h["ans"] != "refused"):
            # a process that is up without a wallet is as good as one that was refused
            if not (h["ans"] == "refused" and s.creds is None):
                f.fail("start %s" % name, "the start with %s %s" % (argv[1:], "goes through" if state["up"] else "is refused: %r" % (err,)), v)
                return
            return
        if h["ans"] == "refused":
            with Quiet(argv):
                raw = read()
            if raw != before or s.creds is not None:
                f.fail("refused %s" % name, "a refused start with %s leaves %r" % (argv[1:], raw), v)
                return
        i = j


# -- the seed tool ---------------------------------------------------------------------------
def seedtool(job):
    v, seed = job
    from monero_poc import seed as tool
    rng = random.Random("%d/%s" % (seed, json.dumps(v, sort_keys=True)))
    f = Fails()
    o = v["o"]
    kinds = sorted(o["flags"])
    kind = kinds[0] if kinds else "bip39"
    name = "%s" % (["+".join(kinds) or "bip39", "slip" if o["slip"] else "", o["path"], "pass" if o["pass"] else "", "bad" if o["bad"] else "",
                    sorted(o["nets"]), "subs" if o["subs"] else ""],)
    ms = None
    if kind == "electrum":
        master = rng.choice([rng.randbytes(32), ref.i2b(rng.randrange(ref.L)), b"\xff" * 32])
        text = words_of(master)
        if o["bad"]:
            if rng.randrange(2):
                text = text[:-1] + [rng.choice([w for w in W if w[:3] != text[-1][:3]])]
            else:
                text = text[:5] + ["qqqqqq"] + text[6:]
    elif kind == "master":
        master = rng.choice([rng.randbytes(32), ref.i2b(rng.randrange(ref.L)), b"\xff" * 32])
        text = [master.hex()]
    elif kind == "seed":
        ms = rng.randbytes(rng.choice([16, 32, 64]))
        text = [ms.hex()]
    else:
        ent = rng.randbytes(rng.choice([16, 24, 32]))
        text = bip39_of(ent)
        if kind == "wlist":
            bits = "".join("{:011b}".format(bip39.english_words.index(w)) for w in text)
            n = len(bits) // 8
            ms = int(bits[:8 * n], 2).to_bytes(n, "big")
    if o["bad"] and kind in ("master", "seed"):
        text = [text[0][:-1]] if rng.randrange(2) else ["g" + text[0][1:]]
    if o["bad"] and kind == "wlist":
        text = text[:3] + ["qqqqqq"] + text[4:]
    pw = rng.choice(["TREZOR", "two words", "\u00fcber"]) if o["pass"] else ""
    if kind == "bip39":
        ms = hashlib.pbkdf2_hmac("sha512", " ".join(text).encode(), b"mnemonic" + pw.encode("utf8"), 2048, 64)
    curve = "ed" if o["slip"] else "secp"
    path = {"none": DEFAULT[curve], "hard": [(44, True), (rng.choice([0, 128]), True), (rng.randrange(2 ** 31), True)],
            "soft": [(44, True), (rng.randrange(1, 50), False)], "bad": []}[o["path"]]
    argv = ["seed"]
    opts = [{"electrum": "--electrum-mnemonics", "wlist": "--wlist-seed", "master": "--monero-master", "seed": "--seed"}[k] for k in kinds]
    opts += ["--slip0010"] if o["slip"] else []
    opts += ["--subs"] if o["subs"] else []
    opts += [{"main": "--mainnet", "test": "--testnet", "stage": "--stagenet"}[n] for n in sorted(o["nets"])]
    rng.shuffle(opts)
    if o["path"] != "none":
        opts += ["--path", "m/" + "/".join("%d%s" % (i, rng.choice("'p") if h else "") for i, h in path) if path else rng.choice(["m/44'/x", "44/-", "m//1'"])]
    if o["pass"]:
        opts += ["--passphrase", pw]
    if rng.randrange(2):
        text = [" ".join(text)]
    elif rng.randrange(3) == 0 and kind != "master" and kind != "seed":
        text = [w.upper() for w in text]
    argv += (opts + text) if not opts or opts[-1] != "--path" else opts + text
    err = None
    with Quiet(argv) as out:
        try:
            drive(tool.amain())
        except SystemExit as e:
            err = e
        except Exception as e:
            err = e
    said = out.getvalue()
    if v["refused"]:
        if err is None:
            f.fail("seed %s" % name, "the seed tool goes through with %s: %r" % (argv[1:], said[:300]), v)
        elif re.search(r"[0-9a-f]{64}|\b[45789AB][1-9A-HJ-NP-Za-km-z]{94}\b", said):
            f.fail("seed %s" % name, "the seed tool refuses %s but shows keys: %r" % (argv[1:], said[:300]), v)
        return f.l, []
    if err is not None:
        if not v["loose"]:
            f.fail("seed %s" % name, "the seed tool refuses %s: %r" % (argv[1:], err), v)
        return f.l, []
    if kind not in ("electrum", "master"):
        k = ref_node(ms, o["slip"], path)
        master = ref.i2b(ref.b2i(k) % ref.L) if o["slip"] else ref.keccak(k)
    va, sp, A, B = keys_of(master)

    def adr(ver, s, w):
        x = address(ver, s, w)
        return x.decode() if isinstance(x, bytes) else x
    want = {adr(NETS[n][0], B, A): n for n in NETS}
    a, b = ref.b2i(va), ref.b2i(sp)
    tables = {}
    for n in v["listed"]:
        for ma in range(5):
            for mi in range(5):
                if (ma, mi) != (0, 0):
                    D, C = ref.sub_keys(a, ref.gmul(b), ma, mi)
                    x = adr(NETS[n][1], ref.enc(D), ref.enc(C))
                    want[x] = n
                    tables[x] = (ma, mi)
    got = re.findall(r"\b[1-9A-HJ-NP-Za-km-z]{95}\b", said)
    if sorted(got) != sorted(want):
        f.fail("addresses %s" % name, "%s: shows addresses %s, not %s" % (argv[1:], sorted(set(got) - set(want))[:3] or len(got), sorted(set(want) - set(got))[:3] or len(want)), v)
    for x, (ma, mi) in tables.items():
        m = re.search(r"(\d+)\D+(\d+)\D+%s" % x, said)
        if m and (int(m.group(1)), int(m.group(2))) != (ma, mi):
            f.fail("index %s" % name, "%s: the address of index %d, %d stands at %s" % (argv[1:], ma, mi, m.group(0)[:40]), v)
            break
    low = said
    for what, x in (("spend key", sp.hex()), ("view key", va.hex()), ("public spend key", B.hex()), ("public view key", A.hex()),
                    ("Monero seed", master.hex()), ("words", " ".join(words_of(master)))):
        if x not in low:
            f.fail("%s %s" % (what, name), "%s: the %s %s is not shown: %r" % (argv[1:], what, x, said[:900]), v)
            break
    if ms is not None and ms.hex() not in low:
        f.fail("master %s" % name, "%s: the master secret %s is not shown" % (argv[1:], ms.hex()), v)
    for lab, pat, x in (("spend", r"(?i)private spend key\W+([0-9a-f]{64})", sp), ("view", r"(?i)private view key\W+([0-9a-f]{64})", va),
                        ("pspend", r"(?i)public spend key\W+([0-9a-f]{64})", B), ("pview", r"(?i)public view key\W+([0-9a-f]{64})", A)):
        m = re.search(pat, said)
        if m and m.group(1) != x.hex():
            f.fail("label %s %s" % (lab, name), "%s: under '%s' stands %s" % (argv[1:], pat, m.group(1)), v)
    for n, pat in (("main", r"(?i)mainnet address\W+(\w{95})"), ("test", r"(?i)testnet address\W+(\w{95})"), ("stage", r"(?i)stagenet address\W+(\w{95})")):
        m = re.search(pat, said)
        if m and want.get(m.group(1)) != n:
            f.fail("label %s %s" % (n, name), "%s: an address of another network stands at %s" % (argv[1:], n), v)
    return f.l, []


# -- the initialiser -------------------------------------------------------------------------
TEST12 = "alcohol woman abuse must during monitor noble actual mixed trade anger aisle"
TEST24 = ("permit universe parent weapon amused modify essay borrow tobacco budget walnut lunch consider gallery ride amazing frog "
          "forget treat market chapter velvet useless topple")


def initialiser(job):
    v, seed = job
    f = Fails()
    try:
        import trezorlib.client, trezorlib.debuglink, trezorlib.device, trezorlib.transport
        from monero_poc import trezor_init as tool
    except ImportError:
        return f.l, []
    rng = random.Random("%d/%s" % (seed, json.dumps(v, sort_keys=True)))
    o = v["o"]
    name = "%s" % (sorted(o.items()),)
    given = " ".join(bip39_of(rng.randbytes(rng.choice([16, 24, 32]))))
    pin, label = rng.choice(["1234", "000"]), rng.choice(["mine", "two words"])
    argv = ["init"]
    argv += ["--mnemonic", given] if o["mnemonic"] else []
    argv += ["--mnemonic-idx", o["idx"]] if o["idx"] != "none" else []
    argv += ["--pin", pin] if o["pin"] else []
    argv += ["--label", label] if o["label"] else []
    argv += ["--passphrase"] if o["pass"] else []
    argv += ["--debug-link"] if o["link"] else []
    calls = []

    def transport(*a, **k):
        if o["fault"] == "transport":
            raise IOError("no device")
        return "wire"

    class Client:
        def __init__(self, *a, **k):
            pass

        def close(self):
            pass

    def wipe(client, *a, **k):
        calls.append(("wipe",))
        if o["fault"] == "wipe":
            raise ValueError("the user cancelled")

    def load(client=None, mnemonic=None, pin=None, passphrase_protection=None, label=None, language="english", **k):
        calls.append(("load", mnemonic if isinstance(mnemonic, str) else " ".join(mnemonic), pin or "", bool(passphrase_protection), label or ""))
    swaps = [(tool, "get_transport", transport), (trezorlib.transport, "get_transport", transport), (tool, "TrezorClient", Client),
             (trezorlib.client, "TrezorClient", Client), (tool, "TrezorClientDebugLink", Client), (trezorlib.debuglink, "TrezorClientDebugLink", Client),
             (trezorlib.device, "wipe", wipe)] + [(m, n, load) for m in (trezorlib.debuglink, trezorlib.device)
                                                  for n in ("load_device_by_mnemonic", "load_device")]
    old = [(m, n, getattr(m, n)) for m, n, _ in swaps if hasattr(m, n)]
    err = None
    for m, n, g in swaps:
        if hasattr(m, n):
            setattr(m, n, g)
    try:
        with Quiet(argv):
            try:
                tool.main()
            except SystemExit as e:
                err = e
            except Exception as e:
                err = e
    finally:
        for m, n, g in old:
            setattr(m, n, g)
    if [c[0] for c in calls] != v["calls"]:
        f.fail("init %s" % name, "the initialiser with %s does %s, not %s (%r)" % (argv[1:], [c[0] for c in calls], v["calls"], err), v)
        return f.l, []
    if v["loaded"] != "nothing":
        m = {"given": given, "test12": TEST12, "test24": TEST24}[v["loaded"]]
        want = ("load", m, pin if o["pin"] else "", o["pass"], label if o["label"] else "")
        if calls[-1] != want:
            f.fail("init %s" % name, "the initialiser with %s loads %s, not %s" % (argv[1:], calls[-1][1:], want[1:]), v)
    return f.l, []


def one(job):
    kind, v, seed = job
    return {"account": account, "seed": seedtool, "init": initialiser}[kind]((v, seed))


def check(c):
    r = tlc.vectors("WalletInit", {"Depth": "5" if c.thorough else "4"}, "INVARIANT Kept SameWallet Reopens Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    work = [("account", v, c.seed) for v in r["vectors"]]
    r = tlc.vectors("SeedTool", {"Deep": "TRUE" if c.thorough else "FALSE"}, "INVARIANT ListSound Determined GivenWins LoadLast Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    work += [(v["tool"], v, c.seed + k) for v in r["vectors"] for k in range(3 if c.thorough else 1)]
    random.Random(1).shuffle(work)
    seen = {}
    with Pool(8) as p:
        for fs, secrets in p.imap_unordered(one, work, 8):
            c.add(traces_validated_against_impl=1)
            for x in fs:
                c.fail(*x)
            for x in secrets:
                if x in seen:
                    c.fail("fresh", "two generated wallets have the same spend key %s" % x, x)
                seen[x] = 1
    c.add(generated_wallets=len(seen))
    for w in (work[0], work[len(work) // 2], work[-1]):
        c.sample(w[1])
