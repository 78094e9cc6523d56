"""T01: incremental hashing (spec/PreMlsag.tla, spec/HashStream.tla) replayed into the hashers."""
import random
from . import env, tlc, ref
from .env import run
from monero_glue.xmr import crypto
from monero_glue.xmr.sub import keccak_hasher as kh, mlsag_hasher as mh
from monero_serialize import xmrserialize, xmrtypes as xt
from monero_serialize.core.message_types import BlobType
from monero_serialize.core.base_types import UVarintType, UInt8

K = ref.keccak


class Pieces:
    """The pieces of one transaction and their standard encodings."""
    def __init__(self, rng, rct, n):
        h = lambda: bytes(rng.randrange(256) for _ in range(32))
        self.rct, self.fee, self.message = rct, rng.choice([0, 127, 128, 2 ** 35 + 5, 2 ** 64 - 1]), h()
        nps, ne, npk, nr = n
        self.pseudo = [h() for _ in range(nps)]
        self.ecdh = [(h(), h()) for _ in range(ne)]
        self.outpk = [h() for _ in range(npk)]
        self.rs = []
        for i in range(nr):
            if rct in (3, 4):
                m = rng.choice([6, 7, 8, 0])
                self.rs.append(xt.Bulletproof(A=h(), S=h(), T1=h(), T2=h(), taux=h(), mu=h(), L=[h() for _ in range(m)],
                                              R=[h() for _ in range(m)], a=h(), b=h(), t=h()))
            else:
                s = lambda: [h() for _ in range(64)]
                self.rs.append(xt.RangeSig(asig=xt.BoroSig(s0=s(), s1=s(), ee=h()), Ci=s()))
        self.mode = rng.randrange(3)

    def ecdh_bytes(self, i):
        m, a = self.ecdh[i]
        return a[:8] if self.rct == 4 else m + a

    def rs_list(self, i):
        p = self.rs[i]
        if self.rct in (3, 4):
            return [p.A, p.S, p.T1, p.T2, p.taux, p.mu] + p.L + p.R + [p.a, p.b, p.t]
        return p.asig.s0 + p.asig.s1 + [p.asig.ee] + p.Ci

    def digest(self):
        base = bytes([self.rct]) + ref.varint(self.fee) + b"".join(self.pseudo) + b"".join(self.ecdh_bytes(i) for i in range(len(self.ecdh))) + b"".join(self.outpk)
        return K(self.message + K(base) + K(b"".join(b"".join(self.rs_list(i)) for i in range(len(self.rs)))))

    def whole(self):
        rv = xt.RctSig(type=self.rct, txnFee=self.fee, message=self.message, pseudoOuts=self.pseudo, mixRing=[],
                       ecdhInfo=[xt.EcdhTuple(mask=m, amount=a) for m, a in self.ecdh],
                       outPk=[xt.CtKey(dest=bytes(32), mask=x) for x in self.outpk])
        rv.p = xt.RctSigPrunable(rangeSigs=self.rs, bulletproofs=self.rs, MGs=[], pseudoOuts=[])
        return rv


def feed(h, P, op, idx):
    if op == "init":
        return h.init(P.rct != 1)
    if op == "fee":
        return run(h.set_type_fee(P.rct, P.fee))
    if op == "msg":
        return run(h.set_message(P.message))
    if op == "base":
        return run(h.rctsig_base_done())
    if op == "digest":
        return run(h.get_digest())
    g = lambda s: s[min(idx, len(s) - 1)] if s else b"\x05" * 32
    if op == "pseudo":
        return run(h.set_pseudo_out(g(P.pseudo)))
    if op == "ecdh":
        if not P.ecdh:
            return run(h.set_ecdh(bytes(8)))
        i = min(idx, len(P.ecdh) - 1)
        if P.rct != 4 and P.mode == 1:
            return run(h.set_ecdh(xt.EcdhTuple(mask=P.ecdh[i][0], amount=P.ecdh[i][1]), raw=False))
        return run(h.set_ecdh(P.ecdh_bytes(i)))
    if op == "outpk":
        return run(h.set_out_pk(b"\x99" * 32, mask=g(P.outpk)) if P.mode == 2 else h.set_out_pk(g(P.outpk)))
    if op == "rsig":
        if not P.rs:
            return run(h.rsig_val(b"x" * 32, True, raw=True))
        i = min(idx, len(P.rs) - 1)
        if P.mode == 0:
            return run(h.rsig_val(P.rs[i], P.rct in (3, 4)))
        if P.mode == 1:
            return run(h.rsig_val(P.rs_list(i), True, raw=True))
        return run(h.rsig_val(b"".join(P.rs_list(i)), P.rct in (3, 4), raw=True))


def replay(c, vecs):
    rng = random.Random(c.seed)
    for v in vecs:
        nps = v["n"][0]
        for rct in ((2,) if nps else (1, 2, 3, 4) if v["end"] == "digest" else (rng.choice((1, 3, 4)),)):
            P = Pieces(rng, rct, v["n"])
            h, cnt, got = mh.PreMlsagHasher(), {}, None
            c.add(traces_validated_against_impl=1)
            name = "%s type %d" % ("-".join(v["h"]), rct)
            last = len(v["h"]) - 1
            for i, op in enumerate(v["h"]):
                if op == "suspend":
                    s = h.state_save()
                    if i % 2:
                        h = mh.PreMlsagHasher(state=s)
                    else:
                        h = mh.PreMlsagHasher()
                        h.state_load(s)
                    continue
                k = cnt.get(op, 0)
                cnt[op] = k + 1
                try:
                    got = feed(h, P, op, k)
                    ok = True
                except Exception as e:
                    ok, err = False, e
                must = not (v["end"] == "refused" and i == last)
                if ok != must:
                    c.fail("hash %s" % name, "%s: %s %s" % (name, op, "is refused: %r" % err if must else "is accepted"), v)
                    break
            else:
                if v["end"] == "digest":
                    want = P.digest()
                    if bytes(got) != want:
                        c.fail("digest %s" % name, "%s gives %s, not %s" % (name, bytes(got).hex(), want.hex()), v)
                    if len(P.ecdh) == len(P.outpk):
                        w = P.whole()
                        if rct == 2 or not nps:
                            x = bytes(run(mh.get_pre_mlsag_hash(w)))
                            if x != want:
                                c.fail("whole %s" % name, "hash of the whole (%s) is %s, not %s" % (name, x.hex(), want.hex()), v)


# -- the stream -------------------------------------------------------------------
def chunks(c, vecs):
    rng = random.Random(c.seed)
    data = bytes(rng.randrange(256) for _ in range(4096))
    memo = {}

    def want(n):
        if n not in memo:
            memo[n] = K(data[:n])
        return memo[n]
    for v in vecs:
        c.add(traces_validated_against_impl=1)
        for style in (0, 1):
            k = crypto.get_keccak() if style == 0 else kh.get_keccak_writer()
            n = 0
            for x in v["h"] + [-1]:
                if x >= 0:
                    b = data[n:n + x]
                    if style == 0:
                        k.update(b if x % 2 else bytearray(b))
                    else:
                        run(k.awrite(memoryview(b))) if x % 3 else k.write(b)
                    n += x
                else:
                    got = k.digest() if style == 0 else k.get_digest()
                    if bytes(got) != want(n):
                        c.fail("keccak %s" % v["h"], "hash of %d bytes given as %s is %s, not %s" % (n, v["h"], bytes(got).hex(), want(n).hex()), v)
    for n in list(range(0, 300)) + [407, 408, 409, 543, 544, 545]:
        d, w = data[:n], K(data[:n])
        out = bytearray(32)
        crypto.keccak_hash_into(out, data[:n + 9], n)
        got = [crypto.keccak_hash(d), crypto.cn_fast_hash(d), crypto.get_keccak(d).digest(), out, crypto.keccak_hash(bytearray(d))]
        for i, g in enumerate(got):
            if bytes(g) != w:
                c.fail("keccak len %d" % n, "hash of %d bytes (form %d) is %s, not %s" % (n, i, bytes(g).hex(), w.hex()))
        if bytes(crypto.keccak_2hash(d)) != K(w):
            c.fail("keccak2 len %d" % n, "double hash of %d bytes" % n)


def stream(c, vecs):
    for v in vecs:
        rng = random.Random("%d/%s" % (c.seed, len(v["h"])))
        a, out = kh.KeccakXmrArchive(), b""
        name = "-".join(v["h"])
        c.add(traces_validated_against_impl=1)
        for i, o in enumerate(v["h"]):
            x = None
            if o.startswith("uv"):
                n = rng.randrange(2 ** 40, 2 ** 64) if o == "uvbig" else int(o[2:])
                run(a.uvarint(n))
                x = ref.varint(n)
            elif o in ("u8", "u32", "u64"):
                w = int(o[1:]) // 8
                n = rng.randrange(256 ** w)
                run(a.uint(n, w))
                x = n.to_bytes(w, "little")
            elif o in ("buf", "buf0"):
                x = bytes(rng.randrange(256) for _ in range(0 if o == "buf0" else rng.randrange(1, 200)))
                run(a.buffer(x))
            elif o == "field":
                k = bytes(rng.randrange(256) for _ in range(32))
                if rng.random() < .5:
                    run(a.field(k, xt.ECKey))
                    x = k
                else:
                    amt = rng.randrange(2 ** 50)
                    run(a.field(xt.TxOut(amount=amt, target=xt.TxoutToKey(key=k)), xt.TxOut))
                    x = ref.varint(amt) + b"\x02" + k
            elif o == "mfield":
                e = bytes(rng.randrange(256) for _ in range(rng.choice([0, 33, 127, 128])))
                class M:
                    extra = e
                run(a.message_field(M, ("extra", BlobType)))
                x = ref.varint(len(e)) + e
            elif o == "size":
                n = rng.choice([0, 1, 127, 128, 300])
                run(a.container_size(n))
                x = ref.varint(n)
            elif o == "keep":
                a.keep()
            elif o == "unkeep":
                a.keep(False)
            elif o == "release":
                a.release()
            elif o == "move":
                a = kh.KeccakXmrArchive(ctx=a.ctx())
            elif o == "refresh":
                a.refresh()
            elif o == "fresh":
                a.refresh(ctx=crypto.get_keccak())
                out = b""
            if x is not None:
                out += x
        if bytes(a.get_digest()) != K(out):
            c.fail("stream %s" % name, "%s: hash %s, not that of the bytes written" % (name, bytes(a.get_digest()).hex()), v)


def prefixes(c):
    """Transaction prefixes of all small shapes through the archive, suspended after every element."""
    rng = random.Random(c.seed)
    h = lambda: bytes(rng.randrange(256) for _ in range(32))
    for nin in range(0, 4):
        for nout in range(0, 4):
            for nex in (0, 33, 130):
                vin = [xt.TxinToKey(amount=rng.choice([0, 2 ** 40]), key_offsets=[rng.randrange(2 ** 30) for _ in range(rng.choice([1, 11]))], k_image=h()) for _ in range(nin)]
                vout = [(rng.choice([0, 300]), h()) for _ in range(nout)]
                ex, unlock = bytes(rng.randrange(256) for _ in range(nex)), rng.choice([0, 10, 2 ** 33])
                want = ref.varint(2) + ref.varint(unlock) + ref.varint(nin)
                for t in vin:
                    want += b"\x02" + ref.varint(t.amount) + ref.varint(len(t.key_offsets)) + b"".join(ref.varint(o) for o in t.key_offsets) + t.k_image
                want += ref.varint(nout) + b"".join(ref.varint(x) + b"\x02" + k for x, k in vout) + ref.varint(nex) + ex
                tx = xt.TransactionPrefix(version=2, unlock_time=unlock, vin=vin, vout=[xt.TxOut(amount=x, target=xt.TxoutToKey(key=k)) for x, k in vout], extra=list(ex))
                for suspend in (False, True):
                    a = kh.KeccakXmrArchive()
                    steps = [lambda: a.uvarint(2), lambda: a.uvarint(unlock), lambda: a.container_size(nin)]
                    steps += [lambda t=t: a.field(t, xt.TxInV) for t in vin] + [lambda: a.uvarint(nout)]
                    steps += [lambda t=t: a.field(t, xt.TxOut) for t in tx.vout] + [lambda: a.message_field(tx, xt.TransactionPrefix.f_specs()[4])]
                    for s in steps:
                        run(s())
                        if suspend:
                            a = kh.KeccakXmrArchive(ctx=a.ctx())
                    c.add(traces_validated_against_impl=1)
                    if bytes(a.get_digest()) != K(want):
                        c.fail("prefix %d %d %d" % (nin, nout, nex), "prefix with %d inputs, %d outputs, %d extra bytes (suspended: %s) hashes wrongly" % (nin, nout, nex, suspend))
                w = kh.get_keccak_writer()
                run(xmrserialize.Archive(w, True).message(tx, xt.TransactionPrefix))
                if bytes(w.get_digest()) != K(want):
                    c.fail("prefix whole %d %d %d" % (nin, nout, nex), "whole prefix hashes wrongly")


def check(c):
    r = tlc.run("PreMlsag", "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Whole Emit\nCONSTANTS\n Max = %d\n Window = %d\n" % ((3, 3) if c.thorough else (2, 2)), timeout=800)
    c.add(states=r["distinct"], transitions=r["generated"])
    replay(c, [v for t, v in r["lines"]])
    for kind, n in (("chunks", 4 if c.thorough else 3), ("ops", 4 if c.thorough else 3)):
        r = tlc.vectors("HashStream", {"Kind": '"%s"' % kind, "MaxOps": n}, "INVARIANT Absorbed Emit\n", timeout=800)
        c.add(states=r["distinct"], transitions=r["generated"])
        (chunks if kind == "chunks" else stream)(c, r["vectors"])
    prefixes(c)
