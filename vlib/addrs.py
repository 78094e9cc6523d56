"""A01: base58 blocks (spec/Base58.tla) and address texts (spec/Address.tla) replayed into the code."""
import random
from . import env, tlc, ref, txgen
from monero_glue.misc import b58_mnr
from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub import addr as xaddr, creds as xcreds, xmr_net

AL = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
NET = {"main": 0, "test": 1, "stage": 2}
SIZE = [0, 2, 3, 5, 6, 7, 9, 10, 11]


def b58(bs):
    """Reference encoder."""
    out = b""
    for i in range(0, len(bs), 8):
        b = bs[i:i + 8]
        n, t = int.from_bytes(b, "big"), bytearray()
        for _ in range(SIZE[len(b)]):
            n, r = divmod(n, 58)
            t.append(AL[r])
        out += bytes(reversed(t))
    return out


def outcome(f):
    try:
        r = f()
    except Exception as e:
        return None
    return bytes(r) if isinstance(r, (bytes, bytearray)) else None


def blocks(c, vecs):
    full = bytes(range(1, 9))
    for kind, a, b in vecs:
        if kind == "enc":
            raw, txt = bytes(a), bytes(AL[d] for d in b)
            for pre in (b"", full):
                got = outcome(lambda: b58_mnr.b58encode(data_bin=pre + raw))
                if got != b58(pre) + txt:
                    c.fail("b58 enc %s" % (pre + raw).hex(), "%s encodes to %r, not %r" % ((pre + raw).hex(), got, b58(pre) + txt), [kind, a, b])
                got = outcome(lambda: b58_mnr.b58encode((pre + raw).hex().encode()))
                if got != b58(pre) + txt:
                    c.fail("b58 enchex %s" % (pre + raw).hex(), "hex %s encodes to %r" % ((pre + raw).hex(), got), [kind, a, b])
        else:
            txt, raw = bytes(AL[d] for d in a), bytes(b) if b else None
            spots = [(b"", b""), (full, b"")] + ([(b"", full), (full, full[:3])] if len(txt) == 11 else [])
            if len(txt) == 11 and raw is None:
                spots.append((full, full))
            for pre, post in spots:
                t = b58(pre) + txt + b58(post)
                want = pre + raw + post if raw is not None else None
                if len(txt) > 11:     # not a block: two of them
                    continue
                got = outcome(lambda: b58_mnr.b58decode(data_bin=t))
                if got != want:
                    c.fail("b58 dec %s" % t.decode(), "%s decodes to %s, not %s" % (t.decode(), got and got.hex(), want and want.hex()), [kind, a, b])
        c.add(traces_validated_against_impl=1)


def payload(v, rng):
    n = v["len"]
    if v["fill"] == "zero":
        b = bytearray(n)
        if n >= 64:
            b[-1] = 1 + rng.randrange(200)
    elif v["fill"] == "ff":
        b = bytearray(b"\xff" * n)
    elif v["fill"] == "mix":
        b = bytearray(rng.randrange(256) if (i // 8) % 2 else 0 for i in range(n))
    else:
        b = bytearray(rng.randrange(256) for i in range(n))
    return bytes(b)


def edited(v, raw, rng):
    """The text of raw (version + payload) after the edit; None if the edit does not apply."""
    e, chk = v["edit"], ref.keccak(raw)[:4]
    t = b58(raw + chk)
    k = e[0]
    p = e[1] - 1 if len(e) > 1 else 0
    if k == "none":
        return t
    if k == "chk":
        c = bytearray(chk)
        c[rng.randrange(4)] ^= 1 << rng.randrange(8)
        return b58(raw + bytes(c))
    if k == "chkswap":
        return b58(chk + raw)
    if k == "nochk":
        return b58(raw)
    if k == "empty":
        return b""
    if k == "upper":
        return t.upper()
    if k == "space":
        return t + b" "
    if k == "nl":
        return t + b"\n"
    if k == "double":
        return t + t
    if k == "sub":
        return t[:p] + bytes([rng.choice([c for c in AL if c != t[p]])]) + t[p + 1:]
    if k == "bad":
        return t[:p] + bytes([rng.choice(b"0OIl -_\x00\xff")]) + t[p + 1:]
    if k == "del":
        return t[:p] + t[p + 1:]
    if k == "ins":
        return t[:p] + bytes([rng.choice(AL)]) + t[p:]
    if k == "swap":
        return t[:p] + t[p + 1:p + 2] + t[p:p + 1] + t[p + 2:]
    if k == "cut":
        return t[:e[1]]
    if k in ("over", "over0"):
        full = raw + chk
        i = e[1] - 1
        n = int.from_bytes(full[8 * i:8 * i + 8], "big")
        if 8 * i + 8 > len(full) or n + 2 ** 64 >= 58 ** 11 or (k == "over0" and n):
            return None
        n += 2 ** 64
        d = bytearray()
        for _ in range(11):
            n, r = divmod(n, 58)
            d.append(AL[r])
        return t[:11 * i] + bytes(reversed(d)) + t[11 * i + 11:]
    raise KeyError(k)


def texts(c, vecs):
    seen = set()
    for v in vecs:
        key = "%s" % ([v["ver"], v["len"], v["fill"], v["edit"]],)
        if key in seen:
            continue
        seen.add(key)
        rng = random.Random("%d/%s" % (c.seed, key))
        raw = bytes([v["ver"]]) + payload(v, rng)
        t = edited(v, raw, rng)
        if t is None:
            continue
        canon = b58(raw + ref.keccak(raw)[:4])
        same = t == canon and v["net"] != "-" and len(raw) == 1 + (72 if v["kind"] == "int" else 64)
        try:
            r = xaddr.decode_addr(t)
        except Exception as e:
            r = None
        c.add(traces_validated_against_impl=1)
        if not same:
            if r is not None:
                c.fail("decoded %s" % key, "%r is no address (%s) but decodes to spend key %s" % (t, v["edit"], bytes(r.spend_key or b"").hex()), v)
            continue
        if r is None:
            c.fail("refused %s" % key, "the address %r is refused" % t, v)
            continue
        pid = raw[65:] if v["kind"] == "int" else None
        got = (bytes(r.spend_key), bytes(r.view_key), r.net_type, bool(r.is_sub_address), bool(r.is_integrated),
               bytes(r.payment_id) if r.payment_id else None, bytes(r.addr))
        want = (raw[1:33], raw[33:65], NET[v["net"]], v["kind"] == "sub", v["kind"] == "int", pid, t)
        base = bytes([v["ver"] - (1 if v["kind"] == "int" else 0)]) + raw[1:65]
        if got != want:
            c.fail("content %s" % key, "%r decodes to %s, not %s" % (t, got, want), v)
        if bytes(r.base_addr) != b58(base + ref.keccak(base)[:4]):
            c.fail("base %s" % key, "%r: base address %r" % (t, r.base_addr), v)
        # and back, through each of the encoders
        pa = xaddr.build_address(raw[1:33], raw[33:65])
        for name, f in (("public_addr_encode", lambda: xaddr.public_addr_encode(pa, v["kind"] == "sub", NET[v["net"]], pid)),
                        ("encode_addr", lambda: xaddr.encode_addr(bytes([v["ver"]]), raw[1:33], raw[33:65], pid)),
                        ("net_version", lambda: xaddr.encode_addr(xmr_net.net_version(NET[v["net"]], v["kind"] == "sub", v["kind"] == "int"), raw[1:33], raw[33:65], pid)),
                        ("AddrInfo", lambda: xaddr.AddrInfo(v["ver"], raw[1:]).addr)):
            g = outcome(f)
            if g != t:
                c.fail("%s %s" % (name, key), "%s gives %r for %r" % (name, g, t), v)
        # what is no address cannot be written
        if v["kind"] != "sub":
            for p in (b"", b"1234567", b"123456789", bytes(32)):
                g = outcome(lambda: xaddr.public_addr_encode(pa, False, NET[v["net"]], p))
                if g is not None:
                    c.fail("pid%d %s" % (len(p), key), "an integrated address with a payment id of %d bytes: %r" % (len(p), g), v)
        else:
            g = outcome(lambda: xaddr.public_addr_encode(pa, True, NET[v["net"]], bytes(8)))
            if g is not None:
                c.fail("subint %s" % key, "an integrated subaddress %r" % g, v)


def wallets(c):
    """The address texts the tool itself derives for a wallet."""
    for i, net in enumerate(NET):
        for s in range(3 if not c.thorough else 12):
            rng = random.Random("%d/%s/%d" % (c.seed, net, s))
            a, b = rng.randrange(1, ref.L), rng.randrange(1, ref.L)
            cr = xcreds.AccountCreds.new_wallet(crypto.decodeint(ref.i2b(a)), crypto.decodeint(ref.i2b(b)), network_type=NET[net])
            A, B = ref.enc(ref.gmul(a)), ref.enc(ref.gmul(b))
            ver = {"main": 18, "test": 53, "stage": 24}[net]
            raw = bytes([ver]) + B + A
            want = b58(raw + ref.keccak(raw)[:4])
            if bytes(cr.address) != want:
                c.fail("new_wallet %s" % net, "new_wallet's address is %r, not %r" % (cr.address, want))
            for idx in (None, (0, 0), (0, 1), (1, 0), (1, 1), (2, 70000), (5, 5)):
                for pid in (None, bytes(range(8))):
                    sub = idx is not None and idx != (0, 0)
                    try:
                        ai = monero.build_address_info(cr, idx, pid, NET[net])
                    except Exception as e:
                        if not (sub and pid):
                            c.fail("build_address_info %s %s %s" % (net, idx, pid), "build_address_info refuses %s %s: %r" % (idx, pid, e))
                        continue
                    c.add(traces_validated_against_impl=1)
                    if sub and pid:
                        c.fail("build_address_info %s %s %s" % (net, idx, pid), "an integrated subaddress is written")
                        continue
                    D, C = ref.sub_keys(a, ref.gmul(b), *(idx or (0, 0)))
                    v = ver + 1 if pid else {"main": 42, "test": 63, "stage": 36}[net] if sub else ver
                    raw = bytes([v]) + ref.enc(D) + ref.enc(C) + (pid or b"")
                    want = b58(raw + ref.keccak(raw)[:4])
                    if bytes(ai.addr) != want:
                        c.fail("build_address_info %s %s %s" % (net, idx, pid), "the address of %s %s is %r, not %r" % (idx, pid, ai.addr, want))
                    if pid:
                        continue
                    r = xaddr.decode_addr(want)
                    m = idx or (0, 0)
                    r.recompute_sub(ref.enc(D), ref.enc(C), m[0], m[1])
                    if bytes(r.addr) != want:
                        c.fail("recompute_sub %s %s" % (net, idx), "recompute_sub writes %r for index %s, not %r" % (r.addr, idx, want))


def check(c):
    deep = {"Deep": "TRUE" if c.thorough else "FALSE"}
    r = tlc.vectors("Base58", deep, "INVARIANT Inverse Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    blocks(c, r["vectors"])
    r = tlc.vectors("Address", deep, "INVARIANT OnlyAddresses Emit\n")
    c.add(states=r["distinct"], transitions=r["generated"])
    texts(c, r["vectors"])
    wallets(c)
