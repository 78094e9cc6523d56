"""W01: the files exchanged with the wallet (spec/WalletFile, KeysText, SignSet, WatchOnly)."""
import binascii, contextlib, copy, functools, io, json, os, random, re, resource, shutil, sys, tempfile, traceback
from multiprocessing import Pool
from . import env, tlc, ref, txgen, device
from .env import run
import pycryptonight
pycryptonight.cn_slow_hash = functools.lru_cache(4096)(pycryptonight.cn_slow_hash)      # 18 ms each
from Crypto.Cipher import ChaCha20
from monero_glue.xmr import crypto, monero, wallet
from monero_glue.xmr.sub.xmr_net import NetworkTypes
from monero_glue.agent import agent_lite, agent_misc
from monero_poc import agent as agent_mod
from monero_poc.utils import misc
from monero_serialize import xmrboost, xmrrpc, xmrserialize, xmrtypes

_pbkdf2 = functools.lru_cache(4096)(crypto.pbkdf2)
crypto.pbkdf2 = lambda pw, salt, *a, **k: _pbkdf2(bytes(pw), bytes(salt), *a, **k)        # 100 ms each
L = ref.L
MAGIC = {"unsigned": b"Monero unsigned tx set", "signed": b"Monero signed tx set", "outputs": b"Monero output export"}
VER = {"unsigned": 4, "signed": 4, "outputs": 3}
VIEW = {"a": "me", "b": "bob"}
PASS = {"a": b"correct horse", "b": b"correct hors"}


# -- contents ---------------------------------------------------------------------------
def flat(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).hex()
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(b, int) and 0 <= b < 256 for b in x) and len(x) == 32:
            return bytes(x).hex()
        return [flat(y) for y in x]
    if isinstance(x, bool):
        return int(x)
    if x is None or isinstance(x, (int, str, float)):
        return x
    if isinstance(x, dict):
        return {k: flat(v) for k, v in sorted(x.items())}
    if isinstance(x, xmrtypes.x.MessageType):
        return {f[0]: flat(getattr(x, f[0], None)) for f in x.f_specs()}
    return {k: flat(v) for k, v in sorted(vars(x).items())}


U64 = [0, 1, 127, 128, 255, 256, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]
SKIP = {"TransferDetails": ("m_uses",), "TxConstructionData": (), "TxDestinationEntry": ()}


def u64(rng):
    return rng.choice(U64) if rng.random() < .5 else rng.randrange(2 ** 64)


def key32(rng):
    return rng.choice([bytes(32), b"\xff" * 32, rng.rbytes(32), rng.rbytes(32)])


def prefix_of(rng, n=2):
    vin = [xmrtypes.TxinToKey(amount=u64(rng), key_offsets=[u64(rng) for _ in range(rng.randrange(4))], k_image=key32(rng)) for _ in range(rng.randrange(n + 1))]
    if rng.random() < .2:
        vin = [xmrtypes.TxinGen(height=u64(rng))]
    vout = [xmrtypes.TxOut(amount=u64(rng), target=xmrtypes.TxoutToKey(key=key32(rng))) for _ in range(rng.randrange(n + 1))]
    return xmrtypes.TransactionPrefix(version=rng.choice([1, 2]), unlock_time=u64(rng), vin=vin, vout=vout, extra=list(rng.rbytes(rng.choice([0, 1, 44, 300]))))


def transfer(rng, hf=9):
    b = lambda: rng.random() < .5
    return xmrtypes.TransferDetails(
        m_block_height=u64(rng), m_tx=prefix_of(rng), m_txid=key32(rng), m_internal_output_index=u64(rng), m_global_output_index=u64(rng),
        m_spent=b(), m_spent_height=u64(rng), m_key_image=key32(rng), m_mask=key32(rng), m_amount=u64(rng), m_rct=b(),
        m_key_image_known=b(), m_key_image_requested=b(), m_pk_index=u64(rng),
        m_subaddr_index=xmrtypes.SubaddressIndex(major=rng.randrange(2 ** 32), minor=rng.randrange(2 ** 32)), m_key_image_partial=False,
        m_multisig_k=[], m_multisig_info=[], m_uses=[])


def klrki():
    return xmrtypes.MultisigKLRki(K=bytes(32), L=bytes(32), R=bytes(32), ki=bytes(32))


def dst(rng):
    return xmrtypes.TxDestinationEntry(original="", amount=u64(rng), is_subaddress=rng.random() < .5, is_integrated=False,
                                       addr=xmrtypes.AccountPublicAddress(m_spend_public_key=key32(rng), m_view_public_key=key32(rng)))


def src(rng):
    n = rng.choice([1, 2, 11])
    return xmrtypes.TxSourceEntry(outputs=[(u64(rng), xmrtypes.CtKey(dest=key32(rng), mask=key32(rng))) for _ in range(n)], real_output=rng.randrange(n),
                                  real_out_tx_key=key32(rng), real_out_additional_tx_keys=[key32(rng) for _ in range(rng.choice([0, 0, 2]))],
                                  real_output_in_tx_index=u64(rng), amount=u64(rng), rct=rng.random() < .5, mask=key32(rng), multisig_kLRki=klrki())


def cons(rng):
    t = txgen.construction([src(rng) for _ in range(rng.randrange(3))], [dst(rng) for _ in range(rng.randrange(4))], dst(rng),
                           rng.rbytes(rng.choice([0, 44])), u64(rng), rng.randrange(2 ** 32), [rng.randrange(2 ** 32) for _ in range(rng.randrange(4))], rng.random() < .5)
    t.use_rct = rng.random() < .5
    t.selected_transfers = [rng.randrange(1000) for _ in range(len(t.sources))]
    t.dests = [dst(rng) for _ in range(rng.randrange(3))]
    return t


def content(kind, rng, hf=9):
    n = rng.choice([0, 1, 1, 2, 3])
    if kind == "unsigned":
        return xmrtypes.UnsignedTxSet(txes=[cons(rng) for _ in range(n)], transfers=[transfer(rng, hf) for _ in range(rng.randrange(3))])
    if kind == "outputs":
        return [transfer(rng) for _ in range(n)]
    if kind == "signed":
        return xmrtypes.SignedTxSet(ptx=[], key_images=[key32(rng) for _ in range(n + 1)])


# -- an independent reading and writing of the container ---------------------------------
def chk(msg_hash, pub, c, r):
    P = ref.dec(pub)
    R = ref.padd(ref.pmul(P, c), ref.gmul(r))
    return ref.Hs(msg_hash + pub + ref.enc(R)) == c


def sec(key):
    c = device.wal(VIEW[key])
    return ref.b2i(bytes(crypto.encodeint(c.view_key_private))), ref.b2i(bytes(crypto.encodeint(c.spend_key_private)))


def sign(h, a, rng):
    k = rng.randrange(1, L)
    c = ref.Hs(h + ref.enc(ref.gmul(a)) + ref.enc(ref.gmul(k)))
    return ref.i2b(c) + ref.i2b((k - a * c) % L)


def unseal(kind, a, data):
    """The plaintext of a sealed file, or why it is none."""
    m = MAGIC[kind]
    if data[:len(m)] != m or data[len(m)] != VER[kind]:
        return None, "its header is not that of the kind"
    data = data[len(m) + 1:]
    if len(data) < 72:
        return None, "it is too short"
    body, sig = data[:-64], data[-64:]
    c, r = ref.b2i(sig[:32]), ref.b2i(sig[32:])
    if c >= L or r >= L or not chk(ref.keccak(body), ref.enc(ref.gmul(a)), c, r):
        return None, "its signature is not the view key's over nonce and body"
    return ChaCha20.new(key=pycryptonight.cn_slow_hash(ref.i2b(a)), nonce=body[:8]).decrypt(body[8:]), None


def seal(kind, a, plain, rng, ver=None):
    iv = rng.rbytes(8)
    body = iv + ChaCha20.new(key=pycryptonight.cn_slow_hash(ref.i2b(a)), nonce=iv).encrypt(plain)
    return MAGIC[kind] + bytes([VER[kind] if ver is None else ver]) + body + sign(ref.keccak(body), a, rng)


def boost_read(plain, hf, typ=None, container=None):
    ar = xmrboost.Archive(xmrserialize.MemoryReaderWriter(bytearray(plain)), False, *([xmrtypes.hf_versions(hf)] if hf else []))
    run(ar.root())
    if container is not None:
        return run(ar.container(container_type=container))
    m = typ()
    run(ar.message(m))
    return m


def boost_write(x, hf=None, container=None, v4=None):
    w = xmrserialize.MemoryReaderWriter()
    ar = xmrboost.Archive(w, True, *([xmrtypes.hf_versions(hf)] if hf else []))
    run(ar.root())
    if v4 is not None:
        run(ar.tuple((v4, x), elem_type=wallet.ExportedOutputsV4))
    elif container is not None:
        run(ar.container(x, container_type=container))
    else:
        run(ar.message(x))
    return bytes(w.get_buffer())


# -- accounts -----------------------------------------------------------------------------
class Proxy:
    async def ping(self, *a):
        return True


def tool(password=b"pw", net=NetworkTypes.TESTNET):
    a = agent_mod.HostAgent.__new__(agent_mod.HostAgent)
    a.args = type("Args", (), {"no_init": False, "debug_rpc": False, "sign": None})()
    a.agent = type("A", (), {"network_type": None})()
    a.network_type = net
    a.wallet_password, a.wallet_salt = password, None
    a.wallet_file, a.monero_bin, a.rpc_addr = "wal", "/nowhere", "127.0.0.1:18081"
    a.account_idx, a.noninteractive = 0, False
    a.priv_view = a.pub_view = a.pub_spend = a.address = None
    a.trezor_proxy = Proxy()
    a.fresh_wallet = False
    a.poutput = a.perror = lambda *x, **k: None
    a.update_prompt = lambda: None
    a.trace_logger = type("T", (), {"log": staticmethod(lambda e: None)})()

    async def pw(new_wallet=False):
        return password
    a.prompt_password = pw
    return a


def own(a, c):
    a.address, a.priv_view = c.address, c.view_key_private
    a.pub_view, a.pub_spend = crypto.scalarmult_base(c.view_key_private), c.spend_key_public


# -- writing and opening with the tool -------------------------------------------------------
KFCONT = {"x": "me", "y": "bob"}


def keys_object(c, rng):
    k = wallet.WalletKeyData()
    k.m_creation_timestamp = rng.randrange(2 ** 32)
    k.m_keys = xmrtypes.AccountKeys()
    k.m_keys.m_account_address = xmrtypes.AccountPublicAddress(m_spend_public_key=bytes(crypto.encodepoint(c.spend_key_public)), m_view_public_key=bytes(crypto.encodepoint(c.view_key_public)))
    k.m_keys.m_spend_secret_key = bytes(32)
    k.m_keys.m_view_secret_key = bytes(crypto.encodeint(c.view_key_private))
    o = wallet.WalletKeyFile(refresh_height=rng.randrange(3000000), testnet=rng.randrange(2), seed_language=rng.choice(["English", "Nederlands"]))
    o.key_data = k
    return o


def keys_value(o):
    """What the file of that object has to say."""
    d = {k: v for k, v in vars(o).items() if k != "key_data"}
    k = o.key_data
    d["key_data"] = {"m_creation_timestamp": k.m_creation_timestamp, "m_keys": {
        "m_account_address": {"m_spend_public_key": bytes(k.m_keys.m_account_address.m_spend_public_key), "m_view_public_key": bytes(k.m_keys.m_account_address.m_view_public_key)},
        "m_spend_secret_key": bytes(k.m_keys.m_spend_secret_key), "m_view_secret_key": bytes(k.m_keys.m_view_secret_key)}}
    return d


def keys_same(got, want):
    if {k: v for k, v in got.items() if k != "key_data"} != {k: v for k, v in want.items() if k != "key_data"}:
        return False
    def cmp(a, b):
        if isinstance(b, dict):
            return all(k in a and cmp(a[k], v) for k, v in b.items())
        return a == b if isinstance(b, int) else bytes(a) == b
    return cmp(got["key_data"], want["key_data"])


class Shelf:
    """Files the tool wrote, by kind, key and content."""
    def __init__(self, rng):
        self.rng, self.bad, self.pool, self.ivs, self.d = rng, [], {}, set(), tempfile.mkdtemp(prefix="w01-")
        self.c = {(kd, c): content(kd, rng) for kd in MAGIC for c in "xy"}
        while flat(self.c["outputs", "x"]) == flat(self.c["outputs", "y"]):
            self.c["outputs", "y"] = content("outputs", rng)
        while flat(self.c["unsigned", "x"]) == flat(self.c["unsigned", "y"]):
            self.c["unsigned", "y"] = content("unsigned", rng)
        self.k = {c: keys_object(device.wal(KFCONT[c]), rng) for c in "xy"}
        self.kv = {c: copy.deepcopy(keys_value(o)) for c, o in self.k.items()}

    def write(self, kd, key, c):
        if kd == "keys":
            return run(wallet.gen_keys_file(PASS[key], copy.deepcopy(self.k[c])))
        if kd == "account":
            a = tool(PASS[key])
            own(a, device.wal(KFCONT[c]))
            p = os.path.join(self.d, "account")
            run(a.save_account(p))
            with open(p) as fh:
                return json.load(fh)
        cr = device.wal(VIEW[key])
        x = self.c[kd, c]
        if kd == "unsigned":
            return run(wallet.dump_unsigned_tx(cr.view_key_private, x))
        if kd == "signed":
            return run(wallet.dump_signed_tx(cr.view_key_private, x))
        return bytes(run(wallet.save_exported_outputs(cr.spend_key_private, cr.view_key_private, x)))

    def parts(self, kd, data):
        if kd == "account":
            b = binascii.unhexlify(data["view_key_enc"])
            return {"iv": b[:12], "body": b[12:-16], "tag": b[-16:], "salt": binascii.unhexlify(data["wallet_salt"])}
        if kd == "keys":
            i = 8
            while data[i] & 128:
                i += 1
            return {"iv": data[:8], "len": data[8:i + 1], "body": data[i + 1:]}
        n = len(MAGIC[kd])
        return {"kind": data[:n], "ver": data[n:n + 1], "iv": data[n + 1:n + 9], "body": data[n + 9:-64], "c": data[-64:-32], "r": data[-32:]}

    def get(self, f, but=None):
        k = (f["kind"], f["key"], f["c"])
        have = self.pool.setdefault(k, [])
        while len(have) < 2:
            self.more(f, k, have)
        if len(have) < 4 or self.rng.random() < .01:
            self.more(f, k, have)
        return self.rng.choice([x for x in have if x is not but])

    def more(self, f, k, have):
            d = self.write(*k)
            p = self.parts(k[0], d)
            if p["iv"] in self.ivs or (f["kind"] == "account" and p["salt"] in self.ivs):
                self.bad.append(("nonce repeats %s" % k[0], "two files of kind %s carry the same nonce or salt" % k[0]))
            self.ivs.add(p["iv"])
            self.ivs.add(p.get("salt", b"none"))
            if len(have) < 4:
                have.append((d, p))
            else:
                have[self.rng.randrange(4)] = (d, p)

    def open(self, kd, key, data):
        """What the tool reads, as 'x', 'y', 'refused' or 'else'."""
        try:
            if kd == "keys":
                got = run(wallet.load_keys_data(data, PASS[key]))
                for c in "xy":
                    if keys_same(got, self.kv[c]):
                        return c
                return "else"
            if kd == "account":
                a = tool(PASS[key])
                p = os.path.join(self.d, "acc2")
                with open(p, "w") as fh:
                    json.dump(data, fh)
                run(a.open_account_file(p))
                for c in "xy":
                    w = device.wal(KFCONT[c])
                    if bytes(crypto.encodeint(a.priv_view)) == bytes(crypto.encodeint(w.view_key_private)) and a.address == w.address:
                        return c
                return "else"
            cr = device.wal(VIEW[key])
            if kd == "unsigned":
                got = run(wallet.load_unsigned_tx(cr.view_key_private, data))
                flat(got)
            else:
                o = run(wallet.load_exported_outputs(cr.view_key_private, data))
                if bytes(o.m_view_public_key) != bytes(crypto.encodepoint(cr.view_key_public)) or bytes(o.m_spend_public_key) != bytes(crypto.encodepoint(cr.spend_key_public)):
                    return "refused"          # as key_image_sync does with outputs of another wallet
                got = o.tds
        except Exception:
            return "refused"
        for c in "xy":
            if same(kd, got, self.c[kd, c]):
                return c
        return "else"


def norm(x, hf=9):
    """The part of a content that the format of that version carries."""
    x = flat(x)
    def walk(y):
        if isinstance(y, dict):
            if hf < 11:
                for f in ("m_key_image_requested", "m_uses", "rct_config") if hf < 10 else ("m_uses", "rct_config"):
                    y.pop(f, None)
            if hf < 10:
                for f in ("use_bulletproofs", "original", "is_integrated"):
                    y.pop(f, None)
            for v in y.values():
                walk(v)
        elif isinstance(y, list):
            for v in y:
                walk(v)
    walk(x)
    return x


def same(kd, got, want, hf=9):
    hf = hf if kd == "unsigned" else 11
    return norm(got, hf) == norm(want, hf)


# -- alterations ------------------------------------------------------------------------------
ORDER = {"sealed": ["kind", "ver", "iv", "body", "c", "r"], "keys": ["iv", "len", "body"], "account": ["iv", "body", "tag", "salt"]}


class File:
    def __init__(self, kd, data, parts, rng):
        self.t = kd if kd in ("keys", "account") else "sealed"
        self.kd, self.data, self.rng = kd, data, rng
        self.p = dict(parts)
        self.start, self.end = b"", b""
        self.badver = False
        self.flips = set()

    def alter(self, a, other, key):
        k, p, rng, P = a["k"], a["p"], self.rng, self.p
        order = ORDER[self.t]
        if k == "flip":
            if P[p]:
                free = [i for i in range(8 * len(P[p])) if (p, i) not in self.flips]
                i = rng.choice(free)
                if p == "ver":
                    ok = [i for i in free if (P[p][0] ^ (1 << i)) != VER.get(self.kd)]
                    i = rng.choice(ok)
                    self.badver = True
                self.flips.add((p, i))
                P[p] = device.flip(P[p], i)
        elif k == "cut":
            if p == "all":
                for q in order:
                    P[q] = b""
            elif self.t == "account":
                P[p] = P[p][:rng.randrange(len(P[p]))] if P[p] else b""
            else:
                P[p] = P[p][:rng.choice([0, len(P[p]) - 1, rng.randrange(len(P[p]))])] if P[p] else b""
                for q in order[order.index(p) + 1:]:
                    P[q] = b""
                self.end = b""
        elif k == "drop byte":
            if P[p]:
                i = rng.randrange(len(P[p]))
                P[p] = P[p][:i] + P[p][i + 1:]
            if p == "ver":
                self.badver = True
        elif k == "more":
            x = rng.rbytes(rng.choice([1, 1, 8, 64])) if p != "start" else rng.choice([b"\x00", b"M", rng.rbytes(3)])
            if p == "end":
                self.end += x
            elif p == "start":
                self.start += x
            else:
                i = rng.randrange(len(P["body"]) + 1)
                P["body"] = P["body"][:i] + x + P["body"][i:]
        elif k == "from second":
            P[p] = other[p]
            if self.t == "keys" and p == "body":    # its length comes with it
                P["len"] = other["len"]
        elif k == "relabel":
            self.kd = p
            P["kind"] = MAGIC[p]
            P["ver"] = bytes([77 if self.badver else VER[p]])
        elif k == "version":
            v = int(p)
            if self.badver and v == VER.get(self.kd):
                v = 77
            if v != VER.get(self.kd):
                self.badver = True
            P["ver"] = bytes([v])
        elif k == "signature of second":
            P["c"], P["r"] = other["c"], other["r"]
        elif k == "sign":
            if p == "zero":
                P["c"], P["r"] = bytes(32), rng.choice([bytes(32), P["r"]])
            else:
                s = sign(ref.keccak(P["iv"] + P["body"]), rng.randrange(1, L), rng)
                P["c"], P["r"] = s[:32], s[32:]
        elif k == "swap":
            P["c"], P["r"] = P["r"], P["c"]
        elif k == "over":
            v = ref.b2i(P[p] or bytes(1)) + L * rng.randrange(1, 15)
            P[p] = (v % 2 ** 256).to_bytes(32, "little")
        elif k == "neg":
            P[p] = ref.i2b(-ref.b2i(P[p] or bytes(1)) % L)
        else:
            raise ValueError(k)

    def build(self):
        if self.t == "account":
            d = dict(self.data)
            d["view_key_enc"] = (self.start + self.p["iv"] + self.p["body"] + self.p["tag"] + self.end).hex()
            d["wallet_salt"] = self.p["salt"].hex()
            return d
        return self.start + b"".join(self.p[q] for q in ORDER[self.t]) + self.end


def files_job(a):
    seed, vs = a
    rng = txgen.Rng("files-%s" % seed)
    sh = Shelf(rng)
    fails, n = [], 0
    try:
        for v in vs:
            try:
                one = sh.get(v["files"][0])
                (d1, p1), (d2, p2) = one, sh.get(v["files"][1], one)
            except Exception as e:
                fails.append(("writing %s" % v["files"][0]["kind"], "the tool cannot write the file: %r" % e, traceback.format_exc()[-1500:]))
                break
            f = File(v["files"][0]["kind"], d1, p1, rng)
            for h in v["hist"]:
                f.alter(h, p2, v["files"][0]["key"])
            data = f.build()
            got = sh.open(v["open"]["kind"], v["open"]["key"], data)
            want = v["res"]
            n += 1
            if want == "free":
                continue
            ok = got == want
            if v["files"][0]["kind"] == "keys" and f.end and not ok:
                ok = got == "refused"
            if not ok:
                fails.append(("file %s opened as %s after %s" % (v["files"][0]["kind"], v["open"]["kind"], [x["k"] + " " + x["p"] for x in v["hist"]]),
                              "opening gives %s, the specification says %s" % (got, want), v))
        fails += [(k, w, None) for k, w in sh.bad]
    finally:
        shutil.rmtree(sh.d, ignore_errors=True)
    return n, fails[:30]


# -- contents there and back -----------------------------------------------------------------
def content_job(a):
    seed, count = a
    rng = txgen.Rng("content-%s" % seed)
    fails, n = [], 0
    for i in range(count):
        key = rng.choice("ab")
        cr = device.wal(VIEW[key])
        av, bs = sec(key)
        kd = rng.choice(["unsigned", "signed", "outputs", "outputs4"])
        hf = rng.choice([9, 10])
        try:
            if kd == "unsigned":
                x = content(kd, rng, hf)
                before = norm(x, hf)
                f = run(wallet.dump_unsigned_tx(cr.view_key_private, x, hf))
                if norm(x, hf) != before:
                    fails.append((kd, "writing alters the content", None))
                plain, why = unseal(kd, av, f)
                if plain is None:
                    fails.append((kd, "the file is not one of the format: %s" % why, None))
                elif not same(kd, boost_read(plain, hf, xmrtypes.UnsignedTxSet), x, hf):
                    fails.append((kd, "the file holds other content (rules of version %d)" % hf, before))
                if not same(kd, run(wallet.load_unsigned_tx(cr.view_key_private, f, hf)), x, hf):
                    fails.append((kd, "the tool reads other content than it wrote (rules of version %d)" % hf, before))
                g = seal(kd, av, boost_write(x, hf), rng)
                if not same(kd, run(wallet.load_unsigned_tx(cr.view_key_private, g, hf)), x, hf):
                    fails.append((kd, "the tool reads other content than the wallet wrote (rules of version %d)" % hf, before))
            elif kd == "signed":
                x = content(kd, rng)
                f = run(wallet.dump_signed_tx(cr.view_key_private, x))
                plain, why = unseal(kd, av, f)
                if plain is None:
                    fails.append((kd, "the file is not one of the format: %s" % why, None))
                elif flat(boost_read(plain, None, xmrtypes.SignedTxSet)) != flat(x):
                    fails.append((kd, "the file holds other content", flat(x)))
            elif kd == "outputs":
                x = content(kd, rng)
                f = bytes(run(wallet.save_exported_outputs(cr.spend_key_private, cr.view_key_private, x)))
                plain, why = unseal(kd, av, f)
                pubs = ref.enc(ref.gmul(bs)) + ref.enc(ref.gmul(av))
                if plain is None:
                    fails.append((kd, "the file is not one of the format: %s" % why, None))
                elif plain[:64] != pubs or flat(boost_read(plain[64:], None, container=wallet.ExportedOutputs)) != flat(x):
                    fails.append((kd, "the file holds other content", flat(x)))
                g = seal(kd, av, pubs + boost_write(x, container=wallet.ExportedOutputs), rng)
                for y in (f, g):
                    o = run(wallet.load_exported_outputs(cr.view_key_private, y))
                    if bytes(o.m_spend_public_key) + bytes(o.m_view_public_key) != pubs or flat(o.tds) != flat(x):
                        fails.append((kd, "the tool reads other content than was written", flat(x)))
            else:
                x = content("outputs", rng)
                pubs = rng.rbytes(64)
                off = rng.choice([0, 0, 1, 5, 2 ** 32])
                g = seal("outputs", av, pubs + boost_write(x, v4=off), rng, 4)
                try:
                    o = run(wallet.load_exported_outputs(cr.view_key_private, g))
                    got = (bytes(o.m_spend_public_key) + bytes(o.m_view_public_key), flat(o.tds))
                except Exception as e:
                    got = None
                    if off == 0:
                        fails.append((kd, "an export of the newer format is not read: %r" % e, flat(x)))
                if off and got is not None:
                    fails.append((kd, "a part of the outputs is taken for all of them", flat(x)))
                if not off and got is not None and got != (pubs, flat(x)):
                    fails.append((kd, "the tool reads other content than was written", flat(x)))
                for v in (3, 5):
                    h = bytearray(g)
                    h[len(MAGIC["outputs"])] = v
                    try:
                        o = run(wallet.load_exported_outputs(cr.view_key_private, bytes(h)))
                        if flat(o.tds) != flat(x):
                            fails.append((kd, "with another version number the export is read as another list (%d outputs for %d)" % (len(o.tds), len(x)), flat(x)))
                    except Exception:
                        pass
            n += 1
        except Exception as e:
            fails.append((kd, "writing or reading fails: %r" % e, traceback.format_exc()[-1500:]))
    return n, [("content " + k, w, d) for k, w, d in fails[:20]]


# -- the keys text ------------------------------------------------------------------------------
SYM = {"q": b'"', "b": b"\\", "s": b"/", "c": b",", "k": b":", "n": b"\n", "z": b"\0", "e": b"\x1f", "t": b"\t", "N": b"n", "R": b"r", "U": b"u", "d": b"0"}


def concrete(s, rng):
    return b"".join(SYM.get(x) or bytes([rng.randrange(128, 256)]) for x in s)


def escape(b):
    out = b""
    for x in b:
        if x in b'"\\':
            out += b"\\" + bytes([x])
        elif x in b"\b\f\n\r\t":
            out += b"\\" + {8: b"b", 12: b"f", 10: b"n", 13: b"r", 9: b"t"}[x]
        elif x < 32:
            out += b"\\u%04X" % x
        else:
            out += bytes([x])
    return out


def epee(k):
    """Serialisation of the keys, written down from the format."""
    def blob(name, v):
        return bytes([len(name)]) + name + b"\x0a" + bytes([len(v) << 2]) + v
    a = k.m_keys.m_account_address
    addr = bytes([2 << 2]) + blob(b"m_spend_public_key", a.m_spend_public_key) + blob(b"m_view_public_key", a.m_view_public_key)
    ks = bytes([3 << 2]) + bytes([17]) + b"m_account_address" + b"\x0c" + addr + blob(b"m_spend_secret_key", k.m_keys.m_spend_secret_key) + blob(b"m_view_secret_key", k.m_keys.m_view_secret_key)
    return (b"\x01\x11\x01\x01\x01\x01\x02\x01\x01" + bytes([2 << 2]) + bytes([20]) + b"m_creation_timestamp" + b"\x05" + k.m_creation_timestamp.to_bytes(8, "little")
            + bytes([6]) + b"m_keys" + b"\x0c" + ks)


def keys_job(a):
    seed, vs = a
    rng = txgen.Rng("keys-%s" % seed)
    fails, n = [], 0
    for v in vs:
        s = concrete(v["s"], rng)
        rest = rng.rbytes(32 - len(s))
        at = rng.choice([0, 32 - len(s), rng.randrange(33 - len(s))])
        field = rest[:at] + s + rest[at:]
        o = keys_object(device.wal("me"), rng)
        ks = o.key_data.m_keys
        which = rng.choice(["addr spend", "addr view", "spend", "view", "time"])
        if which == "addr spend":
            ks.m_account_address.m_spend_public_key = field
        elif which == "addr view":
            ks.m_account_address.m_view_public_key = field
        elif which == "spend":
            ks.m_spend_secret_key = field
        elif which == "view":
            ks.m_view_secret_key = field
        else:
            o.key_data.m_creation_timestamp = int.from_bytes((s + rng.rbytes(8))[:8], "little")
        want, ep = keys_value(o), escape(epee(o.key_data))
        pw = rng.choice([b"", b"pw", "h\u00e9slo \u2713".encode(), b"x" * 300])
        try:
            f = run(wallet.gen_keys_file(pw, o))
            i = 8
            while f[i] & 128:
                i += 1
            ln = sum((x & 127) << 7 * j for j, x in enumerate(f[8:i + 1]))
            plain = ChaCha20.new(key=pycryptonight.cn_slow_hash(pw), nonce=f[:8]).decrypt(f[i + 1:])
            if ln != len(plain):
                fails.append(("keys file length", "the length in the file is not that of its body", None))
            if not plain.startswith(b'{"key_data":"' + ep + b'",'):
                fails.append(("keys file text %s" % "".join(v["s"]), "the text of the keys file is not the serialised keys", field.hex()))
            else:
                js = json.loads(b"{" + plain[len(b'{"key_data":"' + ep + b'",'):])
                if js != {k: x for k, x in want.items() if k != "key_data"}:
                    fails.append(("keys file settings", "the settings in the file are not the wallet's", js))
            if f != run(wallet.gen_keys_file(pw, o)) and not keys_same(run(wallet.load_keys_data(run(wallet.gen_keys_file(pw, o)), pw)), want):
                fails.append(("keys file twice", "a second writing of the same keys reads differently", None))
        except Exception as e:
            fails.append(("keys file write", "the keys file cannot be written: %r" % e, traceback.format_exc()[-1500:]))
            f = None
        iv = rng.rbytes(8)
        settings = dict(want)
        del settings["key_data"]
        text = b'{"key_data":"' + ep + b'",' + json.dumps(settings, separators=(",", ":")).encode()[1:]
        body = ChaCha20.new(key=pycryptonight.cn_slow_hash(pw), nonce=iv).encrypt(text)
        g = iv + ref.varint(len(body)) + body
        for who, x in (("tool", f), ("wallet", g)):
            if x is None:
                continue
            try:
                got = run(wallet.load_keys_data(x, pw))
                if not keys_same(got, want):
                    fails.append(("keys of the %s read %s" % (who, "".join(v["s"])), "the keys file is read as something else", field.hex()))
            except Exception as e:
                fails.append(("keys of the %s read %s" % (who, "".join(v["s"])), "the keys file of the %s cannot be read: %r" % (who, e), [which, field.hex()]))
        n += 1
    return n, fails[:20]


# -- signing a set -------------------------------------------------------------------------------
class Refusing:
    """The device's user, who refuses the k-th transaction."""
    def __init__(self, at):
        self.at, self.n = at, 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        async def f(*a, **k):
            return None
        return f

    async def confirm_transaction(self, *a, **k):
        self.n += 1
        return self.n != self.at


def image_of(creds, s):
    """Key image of a source, by the reference."""
    a, b = ref.b2i(bytes(crypto.encodeint(creds.view_key_private))), ref.b2i(bytes(crypto.encodeint(creds.spend_key_private)))
    x = ref.derive_sec(ref.derivation(ref.dec(bytes(s.real_out_tx_key)), a), s.real_output_in_tx_index, b)
    return ref.enc(ref.key_image(x))


def set_job(a):
    seed, v = a
    rng = txgen.Rng("set-%s" % seed)
    me, bob = device.wal("me"), device.wal("bob")
    fails = []
    d = tempfile.mkdtemp(prefix="w01s-")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        # sources so that the device's order (descending key image) is the specification's
        srcs, n = {}, v["n"]
        for q, p in zip(v["txs"], v["order"]):
            ss = [txgen.source(rng, me, 1000 + 10 * i + rng.randrange(5), ring=2) for i in range(len(q))]
            ss.sort(key=lambda s: image_of(me, s), reverse=True)
            for j, s in enumerate(ss):
                srcs[q[p[j] - 1]] = s
        unknown = bytes(crypto.encodepoint(ref_identity()))
        imgs = {t: image_of(me, s) for t, s in srcs.items()}
        other = {t: ref.enc(ref.gmul(rng.randrange(1, L))) for t in range(1, n + 1)}
        trs = []
        for t in range(1, n + 1):
            x = transfer(rng)
            x.m_key_image = imgs.get(t, other[t]) if t in v["known"] else unknown
            trs.append(x)
        txes = []
        for q in v["txs"]:
            S = [srcs[t] for t in q]
            for s in S:
                s.multisig_kLRki = klrki()
            tot = sum(s.amount for s in S) - 7
            one = rng.randrange(1, tot)
            ch = txgen.dest(me, tot - one)
            for x in (ch,):
                x.original, x.is_integrated = "", False
            to = txgen.dest(bob, one)
            to.original, to.is_integrated = "", False
            c = txgen.construction(S, [to, ch], ch, b"", rng.choice([0, 5]))
            c.selected_transfers = [t - 1 for t in q]
            c.dests = [to]                                  # as the wallet does: without the change, which stands anywhere among the outputs
            rng.shuffle(c.splitted_dsts)
            txes.append(c)
        msg = xmrtypes.UnsignedTxSet(txes=txes, transfers=trs if v["listed"] else [])
        asked = flat(msg)
        data = seal("unsigned", sec("a")[0], boost_write(msg, 10), rng)
        dev = device.new_device(True)
        dev.iface = Refusing(v["refusedAt"])
        t = tool()
        own(t, me)
        t.agent = agent_lite.Agent(env_trezor(dev), network_type=me.network_type)
        t.agent.client_version, t.agent.hf = 1, 10
        out = err = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if rng.random() < .5:
                    with open("unsigned", "wb") as fh:
                        fh.write(data)
                    out = run(t.sign(file="unsigned"))
                else:
                    out = run(t.sign(fdata=data))
        except Exception as e:
            err = e
        have = sorted(x for x in os.listdir(d) if x != "unsigned")
        name = "set %s%s" % (v["txs"], " refused at %d" % v["refusedAt"] if v["refusedAt"] else "")
        if v["refusedAt"]:
            if err is None or "signed_monero_tx" in have or any(re.match(r"transaction_\d\d$", x) for x in have):
                fails.append((name, "the device refused, the tool left %s" % have, repr(err)))
            return 1, fails
        if err is not None:
            fails.append((name, "signing fails: %r" % err, "".join(traceback.format_exception(type(err), err, err.__traceback__))[-2500:]))
            return 1, fails
        with open("signed_monero_tx", "rb") as fh:
            sig = fh.read()
        if bytes(out) != sig:
            fails.append((name, "the signed set returned is not the one in the file", None))
        plain, why = unseal("signed", sec("a")[0], sig)
        if plain is None:
            fails.append((name, "the signed set is not a file of the format: %s" % why, None))
            return 1, fails
        got = boost_read(plain, None, xmrtypes.SignedTxSet)
        want = [imgs.get(i + 1, other[i + 1]) if x else unknown for i, x in enumerate(v["images"])]
        if [bytes(k) for k in got.key_images] != want:
            fails.append((name, "the signed set assigns key images %s, of right %s" % ([imgs_name(k, imgs, other, unknown) for k in got.key_images], v["images"]), None))
        if len(got.ptx) != len(v["txs"]):
            fails.append((name, "%d transactions in the signed set" % len(got.ptx), None))
        recs = {}
        for x in have:
            if x.endswith(".json"):
                with open(x) as fh:
                    r = json.load(fh)
                recs[r["hash"]] = r
        for i, (p, q) in enumerate(zip(got.ptx, v["txs"])):
            with open("transaction_%02d" % i, "rb") as fh:
                blob = fh.read()
            again = run(t.agent.serialize_tx(p.tx))
            if again != blob:
                fails.append((name, "transaction %d of the set is not the one in its file" % i, None))
            tx = ref.parse_tx(blob, 2)
            vin = [bytes(x["ki"]) for x in tx["vin"]]
            if vin != [imgs[u] for u in v["signed"][i]]:
                fails.append((name, "the inputs of transaction %d are not the set's in the device's order" % i, None))
            cd, ask = flat(p.construction_data), asked["txes"][i]
            for f in ("splitted_dsts", "change_dts", "selected_transfers", "extra", "unlock_time", "dests", "subaddr_account"):
                if clean(cd[f]) != clean(ask[f]):
                    fails.append((name, "field %s of the construction data changed" % f, None))
            key = lambda z: json.dumps(z, sort_keys=True)
            if sorted(map(key, cd["sources"])) != sorted(map(key, ask["sources"])):
                fails.append((name, "the sources in the construction data changed", None))
            if list(p.selected_transfers) != [u - 1 for u in q] or clean(flat(p.dests)) != clean(ask["dests"]) or clean(flat(p.change_dts)) != clean(ask["change_dts"]):
                fails.append((name, "the pending record of transaction %d is of something else" % i, None))
            if bytes(p.tx_key) != unknown:
                fails.append((name, "the signed set carries a transaction key", None))
            r = recs.get(ref.keccak(tx["prefix"]).hex())
            if r is None:
                fails.append((name, "no record was kept of transaction %d" % i, have))
            else:
                if r["tx_signed"] != blob.hex():
                    fails.append((name, "the record of transaction %d holds another transaction" % i, None))
                b = sec("a")[1]
                from .recover import dev_key
                ks = ref.unbox(dev_key(b, bytes.fromhex(r["enc_salt2"]), bytes.fromhex(r["hash"]), bytes.fromhex(r["enc_salt1"])), bytes.fromhex(r["tx_keys"]))
                ex = ref.parse_extra(tx["extra"])
                if ks is None or ref.enc(ref.gmul(ref.b2i(ks[:32]))) != bytes(ex["pub"][0]):
                    fails.append((name, "the record of transaction %d does not open to its key" % i, None))
                if bytes(txes[i].dests[0].addr.m_spend_public_key).hex() in r["unsigned_data"]:
                    fails.append((name, "the record of transaction %d shows the destination" % i, None))
        return 1, fails
    except Exception as e:
        return 1, [("set %s" % v["txs"], "replaying: %r" % e, traceback.format_exc()[-2500:])]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def clean(x):
    x = json.loads(json.dumps(x))
    def walk(y):
        if isinstance(y, dict):
            for f in ("original", "is_integrated", "rct_config"):
                y.pop(f, None)
            for z in y.values():
                walk(z)
        elif isinstance(y, list):
            for z in y:
                walk(z)
    walk(x)
    return x


def imgs_name(k, imgs, other, unknown):
    for t, i in list(imgs.items()) + list(other.items()):
        if bytes(k) == i:
            return t
    return 0 if bytes(k) == unknown else "?"


def ref_identity():
    return crypto.decodepoint(bytes([1]) + bytes(31))


def env_trezor(dev):
    class Direct:
        async def tsx_sign(self, msg):
            return await dev.tsx_sign(msg)
    return Direct()


# -- the watch-only wallet ------------------------------------------------------------------------
def watch_job(a):
    seed, vs = a
    rng = txgen.Rng("watch-%s" % seed)
    fails = []
    pw = b"wallet pw"
    for v in vs:
        d = tempfile.mkdtemp(prefix="w01w-")
        old = misc.py_raw_input
        try:
            me = device.wal("me")
            net = rng.choice([NetworkTypes.MAINNET, NetworkTypes.TESTNET, NetworkTypes.STAGENET])
            t = tool(pw, net)
            own(t, me)
            if not v["pub"]:
                t.pub_view = t.pub_spend = t.priv_view = None
            t.args.no_init = v["noInit"]
            t.wallet_file = os.path.join(d, "wal") if v["name"] else None
            kf = os.path.join(d, "wal.keys")
            if v["file"] != "none":
                c = device.wal("bob" if v["file"] == "other" else "me")
                o = keys_object(c, rng)
                if v["file"] == "other view":
                    o.key_data.m_keys.m_account_address.m_view_public_key = bytes(crypto.encodepoint(device.wal("bob").view_key_public))
                w = run(wallet.gen_keys_file(pw + b"?" if v["file"] == "other password" else pw, o))
                if v["file"] == "broken":
                    w = w[:rng.randrange(len(w))]
                with open(kf, "wb") as fh:
                    fh.write(w)
            before = open(kf, "rb").read() if os.path.exists(kf) else None
            height = rng.randrange(1, 3000000)
            num = rng.randrange(1, 3000000)
            dates = []

            class W:
                async def get_height(self):
                    return height

                async def get_blockchain_height_by_date(self, y, m, dd):
                    dates.append((y, m, dd))
                    if dd > 28:
                        raise ValueError("no such date")
                    return 1000 * (y - 2010) + 10 * m + dd
            t.wallet_obj = W()
            y, m, dd = rng.randrange(2014, 2026), rng.randrange(1, 13), rng.randrange(1, 29)
            text = {"-": "-", "empty": rng.choice(["", " "]), "number": rng.choice(["%d", " %d "]) % num, "date": rng.choice(["%d-%d-%d", "%04d-%02d-%02d"]) % (y, m, dd),
                    "bad date": "%d-%d-%d" % (y, m, 31), "junk": rng.choice(["soon", "1.5", "2018-1", "12a"]), "y": rng.choice("yY"), "n": "n"}
            mean = {"-": height, "empty": 0, "number": num, "date": 1000 * (y - 2010) + 10 * m + dd}
            said = list(v["said"])

            def ask(question=None):
                if not said:
                    raise EOFError("asked more than specified")
                return text[said.pop(0)]
            misc.py_raw_input = ask
            res = "nothing"
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    run(t.ensure_watch_only())
            except SystemExit:
                res = "exit"
            except Exception as e:
                res = "error"
                last = e
            now = open(kf, "rb").read() if os.path.exists(kf) else None
            if before is None and now is not None:
                res = "made"
            name = "watch-only %s" % {k: v[k] for k in ("name", "file", "noInit", "pub", "said")}
            if res != v["res"]:
                fails.append((name, "starting gives %s, the specification says %s%s" % (res, v["res"], ": %r" % last if res == "error" else ""), v))
            elif before is not None and now != before:
                fails.append((name, "a keys file that was there is changed", v))
            elif said:
                fails.append((name, "the dialogue ends before its time", v))
            elif res == "made":
                got = run(wallet.load_keys_data(now, pw))
                k = got["key_data"]["m_keys"]
                if got["refresh_height"] != mean[v["h"]]:
                    fails.append((name, "the wallet is restored from height %r, the user said %r" % (got["refresh_height"], mean[v["h"]]), v))
                if (bytes(k["m_spend_secret_key"]) != bytes(32) or bytes(k["m_view_secret_key"]) != bytes(crypto.encodeint(me.view_key_private)) or not got["watch_only"]
                        or bytes(k["m_account_address"]["m_spend_public_key"]) != bytes(crypto.encodepoint(me.spend_key_public))
                        or bytes(k["m_account_address"]["m_view_public_key"]) != bytes(crypto.encodepoint(me.view_key_public)) or bool(got["testnet"]) != (net == NetworkTypes.TESTNET)):
                    fails.append((name, "the keys file made is not the watch-only wallet's", v))
                run_again(t, fails, name, v)
        finally:
            misc.py_raw_input = old
            shutil.rmtree(d, ignore_errors=True)
    return len(vs), fails[:20]


def run_again(t, fails, name, v):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run(t.ensure_watch_only())
    except (SystemExit, Exception) as e:
        fails.append((name, "the tool does not accept the keys file it made: %r" % e, v))


# -- check ---------------------------------------------------------------------------------------
def some(vs, keyf, per, rng):
    vs = sorted(vs, key=lambda v: json.dumps(v, sort_keys=True))
    rng.shuffle(vs)
    seen, out = {}, []
    for v in vs:
        k = keyf(v)
        if seen.get(k, 0) < per:
            seen[k] = seen.get(k, 0) + 1
            out.append(v)
    return out


def limit():
    # an altered length field makes the serialisation library ask for as much memory as it says
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def job(a):
    return a[0](a[1])


def check(c):
    rng = random.Random("files-%d" % c.seed)
    T = c.thorough
    r1 = tlc.vectors("WalletFile", {"Two": "TRUE" if T else "FALSE"}, "INVARIANT Authentic Whole OtherKey Emit\n", timeout=700)
    r2 = tlc.vectors("KeysText", {"Bytes": '{"q","b","s","c","k","n","z","e","t","N","U","d","h"}', "Max": "4" if T else "3"}, "INVARIANT RoundTrip Emit\n", timeout=700)
    r3 = tlc.vectors("SignSet", {"MaxT": "4", "MaxTx": "2", "MaxIn": "3"}, "INVARIANT ImagesRight ImagesKnown Untouched NoPartSet AllOrNothing Emit\n", timeout=700)
    r4 = tlc.vectors("WatchOnly", {"MaxAsk": "7" if T else "6"}, "INVARIANT KeepsFiles Asked OwnOnly Emit\n", timeout=700)
    for r in (r1, r2, r3, r4):
        c.add(states=r["distinct"], transitions=r["generated"])
    key = lambda v: json.dumps([v["files"], v["hist"], v["open"], v["res"]]) if not T else json.dumps([v["files"][0]["kind"], [x["k"] + x["p"] for x in v["hist"]], v["open"]["kind"], v["res"]])
    fs = some(r1["vectors"], key, 1 if not T else 12, rng)
    rng.shuffle(fs)
    ks = r2["vectors"]
    rng.shuffle(ks)
    sets = some(r3["vectors"], lambda v: json.dumps([[len(q) for q in v["txs"]], v["order"] if T else None, v["refusedAt"], v["listed"]]), 6 if T else 2, rng)
    jobs = [(set_job, ("%d-%d" % (c.seed, i), v)) for i, v in enumerate(sets)]
    ck = lambda f, name, x, n: [(f, ("%d-%s-%d" % (c.seed, name, i), x[i::n])) for i in range(n)]
    jobs += ck(files_job, "f", fs, 24) + ck(keys_job, "k", ks, 16) + ck(watch_job, "w", r4["vectors"], 2)
    jobs += [(content_job, ("%d-%d" % (c.seed, i), 400 if T else 60)) for i in range(8)]
    with Pool(8, limit) as pool:
        for n, fails in pool.imap_unordered(job, jobs):
            c.add(traces_validated_against_impl=n)
            for k, w, d in fails:
                c.fail(k, w, d)
    c.add(files_altered=len(fs), key_texts=len(ks), sets=len(sets), dialogues=len(r4["vectors"]))
    for x in (fs[0], ks[0], sets[0], r4["vectors"][-1]):
        c.sample(x)
