ID, PROP = "b09-ki-hash-first-pub", "K02"
EDITS = [("monero_glue/xmr/key_image.py", """    kck.update(rr.out_key)
    kck.update(rr.tx_pub_key)
    if rr.additional_tx_pub_keys:
        for x in rr.additional_tx_pub_keys:
            kck.update(x)
""", """    kck.update(rr.out_key)
    if rr.additional_tx_pub_keys:
        for x in rr.additional_tx_pub_keys:
            kck.update(x)
    else:
        kck.update(rr.tx_pub_key)
""")]
NEEDS = "an output with additional keys whose main transaction key is replaced after the announcement"
BREAKS = "the digest the user's approval rests on no longer covers the transaction key when additional keys are present"
DEMO = '''
from monero_glue.xmr import key_image
rng = txgen.Rng("b09")
R, add, P = txgen.owned_output(rng, me, 0, 1, 1, 3, True)
td = lambda r: M.MoneroTransferDetails(out_key=P, tx_pub_key=r, additional_tx_pub_keys=list(add), internal_output_index=1)
h = ref.keccak(ref.keccak(bytes(P), bytes(R), *map(bytes, add), b"\\x01"))
def go(r):
    d = device()
    a = run(d.key_image_sync(M.MoneroKeyImageExportInitRequest(num=1, hash=h, network_type=me.network_type,
        subs=[M.MoneroSubAddressIndicesList(account=0, minor_indices=[0, 1])])))
    b = run(d.key_image_sync(M.MoneroKeyImageSyncStepRequest(tdis=[td(r)])))
    c = run(d.key_image_sync(M.MoneroKeyImageSyncFinalRequest()))
    return not isinstance(c, M.Failure)
other = ref.enc(ref.gmul(12345))
check(go(R), "the announced output is exported")
check(not go(other), "another transaction key is refused")
'''
