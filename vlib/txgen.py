"""Synthetic, self-consistent Monero spending scenarios (no repository test data)."""
import copy, hashlib, random
from . import env
from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub.xmr_net import NetworkTypes
from monero_glue.xmr.sub import addr as xaddr
from monero_serialize import xmrtypes

enc, dec = crypto.encodepoint, crypto.decodepoint


class Rng(random.Random):
    def scalar(self):
        return crypto.decodeint_noreduce(self.sbytes()) if hasattr(crypto, "decodeint_noreduce_x") else crypto.decodeint(self.sbytes())
    def sbytes(self):
        L = 2**252 + 27742317777372353535851937790883648493
        return (self.randrange(1, L)).to_bytes(32, "little")
    def rbytes(self, n):
        return bytes(self.getrandbits(8) for _ in range(n))


def wallet(seed, net=NetworkTypes.TESTNET):
    r = Rng("wallet-%s" % seed)
    return monero.AccountCreds.new_wallet(r.scalar(), r.scalar(), net)


def addr_of(creds, major=0, minor=0):
    D, C = monero.generate_sub_address_keys(creds.view_key_private, creds.spend_key_public, major, minor)
    return xmrtypes.AccountPublicAddress(m_spend_public_key=enc(D), m_view_public_key=enc(C))


def dest(creds, amount, major=0, minor=0):
    return xmrtypes.TxDestinationEntry(amount=amount, addr=addr_of(creds, major, minor),
                                       is_subaddress=(major, minor) != (0, 0))


def owned_output(rng, creds, major, minor, out_idx, n_out, additional):
    """Simulate an earlier payment to (major, minor) of creds: tx keys, one-time key."""
    D, C = monero.generate_sub_address_keys(creds.view_key_private, creds.spend_key_public, major, minor)
    r = rng.scalar()
    sub = (major, minor) != (0, 0)
    add = []
    if additional:
        R = crypto.scalarmult_base(r)
        rs = [rng.scalar() for _ in range(n_out)]
        for i in range(n_out):
            if i == out_idx and sub:
                add.append(enc(crypto.scalarmult(D, rs[i])))
            else:
                add.append(enc(crypto.scalarmult_base(rs[i])))
        s = rs[out_idx] if sub else r
    else:
        R = crypto.scalarmult(D, r) if sub else crypto.scalarmult_base(r)
        s = r
    deriv = crypto.generate_key_derivation(C, s)
    P = crypto.derive_public_key(deriv, out_idx, D)
    return enc(R), add, enc(P)


def source(rng, creds, amount, major=0, minor=0, ring=3, real=None, out_idx=0, n_out=2, additional=False):
    real = rng.randrange(ring) if real is None else real
    R, add, P = owned_output(rng, creds, major, minor, out_idx, n_out, additional)
    mask = rng.scalar()
    outs, gi = [], 0
    for i in range(ring):
        gi += rng.randrange(1, 1000)
        if i == real:
            ck = xmrtypes.CtKey(dest=P, mask=enc(crypto.gen_c(mask, amount)))
        else:
            ck = xmrtypes.CtKey(dest=enc(crypto.scalarmult_base(rng.scalar())),
                                mask=enc(crypto.scalarmult_base(rng.scalar())))
        outs.append((gi, ck))
    return xmrtypes.TxSourceEntry(outputs=outs, real_output=real, real_out_tx_key=R,
                                  real_out_additional_tx_keys=add, real_output_in_tx_index=out_idx,
                                  amount=amount, rct=True, mask=crypto.encodeint(mask), multisig_kLRki=None)


def construction(sources, dsts, change, extra=b"", unlock=0, account=0, indices=(0,), bp=True):
    t = xmrtypes.TxConstructionData()
    t.sources = list(sources)
    t.splitted_dsts = list(dsts)
    t.change_dts = change
    t.dests = list(dsts)
    t.selected_transfers = list(range(len(sources)))
    t.extra = list(extra)
    t.unlock_time = unlock
    t.use_rct = False
    t.use_bulletproofs = bp
    t.subaddr_account = account
    t.subaddr_indices = list(indices)
    return t


def simple_tx(seed, n_in, n_out, fee=7, net=NetworkTypes.TESTNET):
    rng = Rng("simple-%s" % seed)
    me, bob = wallet("me", net), wallet("bob", net)
    srcs = [source(rng, me, 1000 + 10 * i) for i in range(n_in)]
    tot = sum(s.amount for s in srcs) - fee
    per = tot // n_out
    dsts = [dest(bob, per + i) for i in range(n_out - 1)]
    ch = dest(me, tot - sum(d.amount for d in dsts))
    dsts.append(ch)
    return me, bob, construction(srcs, dsts, ch)


def alike_sources(rng, creds, amounts, nbytes, ring=3, up=True):
    """Two sources whose key images agree in nbytes leading bytes; up: the first has the smaller key image."""
    from . import ref
    a, b = (ref.b2i(crypto.encodeint(x)) for x in (creds.view_key_private, creds.spend_key_private))
    seen = {}
    while True:
        sub = Rng("alike-%s" % rng.rbytes(16).hex())
        st = copy.deepcopy(sub)
        R, _, P = owned_output(sub, creds, 0, 0, 0, 1, False)
        der = crypto.generate_key_derivation(crypto.decodepoint(R), creds.view_key_private)
        x = crypto.sc_add(crypto.derivation_to_scalar(der, 0), creds.spend_key_private)
        ki = bytes(enc(crypto.scalarmult(crypto.hash_to_point(P), x)))
        if ki[:nbytes] in seen and seen[ki[:nbytes]][0] != ki:
            two = sorted([seen[ki[:nbytes]], (ki, st)], key=lambda t: t[0], reverse=not up)
            return [source(t[1], creds, amt, 0, 0, ring=ring, real=rng.randrange(ring), out_idx=0, n_out=1) for t, amt in zip(two, amounts)]
        seen[ki[:nbytes]] = (ki, st)
