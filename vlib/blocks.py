"""B01: the restore height for a date (spec/BlockDates.tla), through the real daemon client against a stand-in daemon."""
import datetime, json, os, random, struct, subprocess, sys, types
from . import env, procs, tlc, ref
from .env import run

DAY = 86400


# -- epee portable storage, for the two messages used ---------------------------------------
def ev(n):
    for m, w, lim in ((0, 1, 63), (1, 2, 16383), (2, 4, 1073741823), (3, 8, 4611686018427387903)):
        if n <= lim:
            return (n << 2 | m).to_bytes(w, "little")


def evr(b, i):
    w = 1 << (b[i] & 3)
    return int.from_bytes(b[i:i + w], "little") >> 2, i + w


HEAD = struct.pack("<IIB", 0x01011101, 0x01020101, 1)


def name(s):
    return bytes([len(s)]) + s.encode()


def read_request(b):
    """The heights asked for."""
    b = bytes(b)
    if b[:9] != HEAD:
        raise ValueError("not a portable storage")
    n, i = evr(b, 9)
    out = {}
    for _ in range(n):
        k = b[i + 1:i + 1 + b[i]].decode()
        i += 1 + b[i]
        if b[i] != 0x85:
            raise ValueError("field %s is not a list of uint64" % k)
        m, i = evr(b, i + 1)
        out[k] = [int.from_bytes(b[i + 8 * j:i + 8 * j + 8], "little") for j in range(m)]
        if len(b) < i + 8 * m:
            raise ValueError("short")
        i += 8 * m
    if i != len(b) or set(out) != {"heights"}:
        raise ValueError("fields %s" % sorted(out))
    return out["heights"]


def response(blocks, rng):
    objs = b""
    for blk in blocks:
        fields = [name("block") + b"\x0a" + ev(len(blk)) + blk]
        if rng.random() < .3:
            txs = [rng.randbytes(rng.choice([0, 3, 63, 64, 200])) for _ in range(rng.randrange(1, 3))]
            fields.append(name("txs") + b"\x8a" + ev(len(txs)) + b"".join(ev(len(t)) + t for t in txs))
        objs += ev(len(fields)) + b"".join(fields)
    fields = [name("blocks") + b"\x8c" + ev(len(blocks)) + objs, name("status") + b"\x0a" + ev(2) + b"OK"]
    if rng.random() < .5:
        fields.append(name("untrusted") + b"\x0b\x00")
    if rng.random() < .3:
        fields.reverse()
    return HEAD + ev(len(fields)) + b"".join(fields)


def block(h, t, rng):
    v = ref.varint
    ver = rng.choice([1, 7, 9, 10])
    mv = 1 if ver == 1 else 2
    extra = b"\x01" + rng.randbytes(32) + (b"\x02" + bytes([9]) + rng.randbytes(9) if rng.random() < .5 else b"")
    outs = b"".join(v(rng.choice([0, 1, 600000000000, 2 ** 63])) + b"\x02" + rng.randbytes(32) for _ in range(1 if mv == 2 else rng.randrange(1, 4)))
    tx = v(mv) + v(h + 60) + v(1) + b"\xff" + v(h) + v(1 if mv == 2 else len(outs) and outs_count(outs)) + outs + v(len(extra)) + extra + (b"\x00" if mv == 2 else b"")
    hs = [rng.randbytes(32) for _ in range(rng.choice([0, 0, 1, 3, 130]) if rng.random() < .3 else 0)]
    return v(ver) + v(ver) + v(t) + rng.randbytes(32) + rng.randbytes(4) + tx + v(len(hs)) + b"".join(hs)


def outs_count(outs):
    n = i = 0
    while i < len(outs):
        while outs[i] & 0x80:
            i += 1
        i += 1 + 33
        n += 1
    return n


class Daemon:
    def __init__(self, ch, rng):
        self.ch, self.rng, self.calls, self.bad = ch, rng, 0, []

    def t(self, h):
        c = self.ch
        return c["t0"] + c["step"] * h + (c["gap"] if h >= c["gapAt"] else 0) + (c["odd"] if h == c["oddAt"] else 0)

    def post(self, url, json=None, data=None, auth=None, **kw):
        self.calls += 1
        if self.calls > 200:
            raise RuntimeError("the search does not end")
        r = types.SimpleNamespace(status_code=200, raise_for_status=lambda: None)
        if url.endswith("/json_rpc"):
            m = json["method"]
            if m == "get_info":
                res = {"height": self.ch["n"], "status": "OK", "target_height": 0, "top_block_hash": "00" * 32}
            elif m == "get_last_block_header":
                res = {"block_header": {"height": self.ch["n"] - 1, "timestamp": self.t(self.ch["n"] - 1)}, "status": "OK"}
            elif m == "get_block_count":
                res = {"count": self.ch["n"], "status": "OK"}
            else:
                raise ValueError("no method %s" % m)
            r.json = lambda: {"id": "0", "jsonrpc": "2.0", "result": res}
            return r
        if not url.endswith("/getblocks_by_height.bin"):
            raise ValueError("no such path %s" % url)
        try:
            hs = read_request(data)
        except Exception as e:
            self.bad.append("the request for blocks is not well formed: %s" % e)
            raise
        if any(h >= self.ch["n"] for h in hs):
            r.content = HEAD + ev(1) + name("status") + b"\x0a" + ev(6) + b"Failed"
        else:
            r.content = response([block(h, self.t(h), self.rng) for h in hs], self.rng)
        return r


def replay(v, seed, fails):
    from monero_glue.xmr import wallet, daemon_rpc
    rng = random.Random(seed)
    d = Daemon(v["c"], rng)
    daemon_rpc.requests = types.SimpleNamespace(post=d.post)
    w = wallet.Wallet(daemon_rpc.DaemonRpc(port=rng.choice([18081, 28081])))
    dt = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=v["target"])

    def bad(key, what):
        fails.append([key, "%s: chain %s, date %s (TZ %s)" % (what, v["c"], dt.date(), os.environ.get("TZ")), v])
    try:
        h = run(w.get_blockchain_height_by_date(dt.year, dt.month, dt.day))
    except Exception as e:
        if d.calls > 200:
            return bad("does not end", "the search goes on after 200 requests")
        if d.bad:
            return bad("request", d.bad[0])
        if not v["future"]:
            bad("refused", "a date up to the tip is refused: %r" % e)
        return
    n = v["c"]["n"]
    if not isinstance(h, int) or not 0 <= h < n:
        return bad("height", "the answer is %r of %d blocks" % (h, n))
    if h and d.t(h) > v["target"]:
        bad("too late", "block %d is %d s after the date" % (h, d.t(h) - v["target"]))
    if v["ordered"] and v["future"]:
        bad("future", "a date beyond the tip gives height %d" % h)
    elif v["ordered"] and not v["first"] <= h <= v["last"]:
        bad("too early" if h < v["first"] else "too late", "height %d, permitted are %d to %d" % (h, v["first"], v["last"]))


def worker(job):
    fails = []
    for k, v in enumerate(job["vectors"]):
        replay(v, job["seed"] * 1000003 + k, fails)
    return {"n": len(job["vectors"]), "fails": fails[:200]}


def check(c):
    from concurrent.futures import ThreadPoolExecutor
    rng = random.Random(c.seed)
    inv = "INVARIANT Right Refuses Within RangeRight Emit\n"
    if c.thorough:
        plans = [({"Lengths": "{1,2,3,4,5,1439,1440,1441,1442,1443}", "Steps": "{0,1,120,86400}", "Gaps": "{1,172800,172801,1000000}", "Odds": "{10000,99999,100001,107201,300000}", "Offs": "{0,1,43200,86399}", "Days": "{0,1,2,3,4}"}, 30000),
                 ({"Lengths": "{2880,2881,2882,2883,5764,11528,40000}", "Steps": "{0,60,120}", "Gaps": "{172800,259200}", "Odds": "{10000,107201}", "Offs": "{0,1,86399}", "Days": "{0,1,2,3,4,5}"}, 30000),
                 ({"Lengths": "{100003,2000000,3000001}", "Steps": "{1,60,120}", "Gaps": "{259200}", "Odds": "{10000,107201}", "Offs": "{0,86399}", "Days": "{0,1,2,3,4}"}, 20000)]
    else:
        plans = [({"Lengths": "{1,2,3,1441,1442,2882,5764}", "Steps": "{0,120}", "Gaps": "{172801}", "Odds": "{10000,107201}", "Offs": "{0,86399}", "Days": "{0,1,2,3,4}"}, 4000),
                 ({"Lengths": "{40000,2000000}", "Steps": "{60,120}", "Gaps": "{259200}", "Odds": "{10000}", "Offs": "{1}", "Days": "{0,1,2,3}"}, 1500)]
    vs = []
    for consts, want in plans:
        r = tlc.vectors("BlockDates", consts, inv, timeout=2400, workers=6)
        c.add(states=r["distinct"], transitions=r["generated"])
        new = sorted(r["vectors"], key=lambda v: json.dumps(v, sort_keys=True))
        vs += rng.sample(new, min(want, len(new)))
    small = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Ends\nCONSTANTS\n" + "".join("  %s = %s\n" % x for x in {
        "Lengths": "{1,2,1441,1442,2882,5764}", "Steps": "{0,120}", "Gaps": "{172801}", "Odds": "{10000}", "Offs": "{0}", "Days": "{0,1,2}"}.items())
    r = tlc.run("BlockDates", small, timeout=600)
    c.add(states=r["distinct"], transitions=r["generated"])
    rng.shuffle(vs)
    per = -(-len(vs) // 16)
    tz = ["UTC", "America/Los_Angeles", "Asia/Tokyo", "Pacific/Kiritimati"]
    jobs = [(tz[k % 4], {"seed": c.seed + k, "vectors": vs[k * per:(k + 1) * per]}) for k in range(16)]

    def go(j):
        zone, job = j
        return procs.call("vlib.blocks", job, TZ=zone)
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(go, jobs):
            c.add(traces_validated_against_impl=res["n"])
            for key, what, data in res["fails"]:
                c.fail(key, what, data)
    for v in vs[:4]:
        c.sample(v)


if __name__ == "__main__":
    print(json.dumps(worker(json.load(sys.stdin)), default=str))
