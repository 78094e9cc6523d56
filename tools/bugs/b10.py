ID, PROP = "b10-index-varint", "K01"
EDITS = [("monero_glue/xmr/key_image.py", """            internal_output_index=td.m_internal_output_index,
        )
        res.append(cres)""", """            internal_output_index=td.m_internal_output_index & 0x7F,
        )
        res.append(cres)""")]
NEEDS = "an output at position 128 or later of its transaction"
BREAKS = "such an output is exported with a wrong index: the exchange stops"
DEMO = '''
def go(idx):
    rng = txgen.Rng("b10")
    R, add, P = txgen.owned_output(rng, me, 0, 0, idx, idx + 1, False)
    td = xmrtypes.TransferDetails()
    td.m_tx = xmrtypes.TransactionPrefix(version=2, unlock_time=0, vin=[], vout=[xmrtypes.TxOut(amount=0, target=xmrtypes.TxoutToKey(key=P))
        for i in range(idx + 1)], extra=list(b"\\x01" + bytes(R)))
    td.m_internal_output_index = idx
    td.m_subaddr_index = xmrtypes.SubaddressIndex(major=0, minor=0)
    r = run(agent(device()).import_outputs([td]))
    x = (ref.d2s(ref.derivation(ref.dec(bytes(R)), ref.b2i(crypto.encodeint(me.view_key_private))), idx) + ref.b2i(crypto.encodeint(me.spend_key_private))) % ref.L
    check(bytes(r[0][0]) == ref.enc(ref.key_image(x)), "key image of output %d" % idx)
for i in (0, 5, 127, 128, 300):
    go(i)
'''
