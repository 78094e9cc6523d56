ID, PROP = "b14-second-pubkey", "C02"
EDITS = [("monero_glue/xmr/sub/tsx_helper.py", """    cur_idx = 0
    for x in extra_fields:
        if isinstance(x, msg):
            if cur_idx == idx:
                return x
            cur_idx += 1
    return None
""", """    for x in extra_fields[idx:]:
        if isinstance(x, msg):
            if idx == 0 or x is not extra_fields[idx - 1]:
                return x
    return None
""")]
NEEDS = "a transaction extra with several fields, where the wanted field is not the first of its kind and others stand between"
BREAKS = "the n-th field of a kind is confused with an earlier one, so a transaction with one public key counts as one with two"
DEMO = '''
from monero_glue.xmr.sub import tsx_helper as th
from monero_serialize import xmrtypes as xt
p1, p2 = ref.enc(ref.gmul(5)), ref.enc(ref.gmul(6))
nonce = b"\\x02\\x09\\x01" + bytes(8)
def find(extra, kind, i):
    x = th.find_tx_extra_field_by_type(run(th.parse_extra_fields(extra)), kind, i)
    return None if x is None else bytes(x.pub_key) if kind is xt.TxExtraPubKey else bytes(x.nonce)
K, N = xt.TxExtraPubKey, xt.TxExtraNonce
check(find(b"\\x01" + p1 + b"\\x01" + p2, K, 0) == p1 and find(b"\\x01" + p1 + b"\\x01" + p2, K, 1) == p2, "two keys in a row")
check(find(b"\\x01" + p1 + nonce, K, 1) is None, "no second key")
check(find(nonce + b"\\x01" + p1, K, 1) is None, "no second key when the first stands behind the nonce")
check(find(b"\\x01" + p1 + nonce + b"\\x01" + p2, K, 1) == p2, "second key behind the nonce")
'''
