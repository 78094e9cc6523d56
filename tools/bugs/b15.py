ID, PROP = "b15-scan-sum", "A02"
EDITS = [("monero_glue/xmr/monero.py", """    tx_money_got_in_outs[tx_scan_info.received[0]] += tx_scan_info.money_transfered
""", """    tx_money_got_in_outs[tx_scan_info.received[0]] = max(
        tx_money_got_in_outs[tx_scan_info.received[0]], tx_scan_info.money_transfered
    )
""")]
NEEDS = "a transaction with two outputs to the same subaddress"
BREAKS = "the amount received at an address is that of its largest output instead of the sum"
DEMO = '''
from collections import defaultdict
from types import SimpleNamespace as NS
def scan(amounts):
    r, got, outs = 77, defaultdict(int), []
    der = crypto.generate_key_derivation(crypto.scalarmult_base(crypto.decodeint(ref.i2b(r))), me.view_key_private)
    sub = {bytes(crypto.encodepoint(me.spend_key_public)): (0, 0)}
    vout = []
    for i, a in enumerate(amounts):
        vout.append(xmrtypes.TxOut(amount=a, target=xmrtypes.TxoutToKey(key=bytes(crypto.encodepoint(crypto.derive_public_key(der, i, me.spend_key_public))))))
    tx = NS(vout=vout)
    for i, o in enumerate(vout):
        info = monero.check_acc_out_precomp(o, sub, der, None, i)
        monero.scan_output(me, tx, i, info, got, outs, False)
    return got[(0, 0)]
check(scan([5]) == 5, "one output")
check(scan([5, 9]) == 14 and scan([9, 5, 5]) == 19, "several outputs to one address")
'''
