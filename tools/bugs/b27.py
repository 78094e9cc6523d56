ID, PROP = "b27-ki-before-yes", "P01"
EDITS = [("monero_glue/protocol/key_image_sync.py", """        confirmation = await self.iface.confirm_ki_sync(msg, ctx=ctx)
        if not confirmation:
            return Failure(code=FailureType.ActionCancelled, message="rejected")

        self.num = msg.num
        self.hash = msg.hash
        self.enc_key = crypto.random_bytes(32)

        # Sub address precomputation
        if msg.subs and len(msg.subs) > 0:
            for sub in msg.subs:
                monero.compute_subaddresses(
                    self.creds, sub.account, sub.minor_indices, self.subaddresses
                )
        return MoneroKeyImageExportInitAck()
""", """        self.num = msg.num
        self.hash = msg.hash
        self.enc_key = crypto.random_bytes(32)

        # Sub address precomputation
        if msg.subs and len(msg.subs) > 0:
            for sub in msg.subs:
                monero.compute_subaddresses(
                    self.creds, sub.account, sub.minor_indices, self.subaddresses
                )

        confirmation = await self.iface.confirm_ki_sync(msg, ctx=ctx)
        if not confirmation:
            return Failure(code=FailureType.ActionCancelled, message="rejected")
        return MoneroKeyImageExportInitAck()
""")]
CHECKS = ["P01", "K02"]
NEEDS = "a host that goes on with the key image exchange after its request was declined"
BREAKS = "a declined request leaves a session that gives out key images and the key to read them"
DEMO = '''
from monero_glue.xmr import key_image
rng = txgen.Rng("b27")
s = txgen.source(rng, me, 1000, 0, 0, ring=2)
td = M.MoneroTransferDetails(out_key=bytes(s.outputs[s.real_output][1].dest), tx_pub_key=bytes(s.real_out_tx_key),
                             additional_tx_pub_keys=[bytes(x) for x in s.real_out_additional_tx_keys or []],
                             internal_output_index=s.real_output_in_tx_index)
hw = crypto.get_keccak()
hw.update(key_image.compute_hash(td))
h = hw.digest()
def go(yes):
    d = device(yes)
    got = []
    for m in (M.MoneroKeyImageExportInitRequest(num=1, hash=h, address_n=[], network_type=me.network_type, subs=[M.MoneroSubAddressIndicesList(account=0, minor_indices=[0])]),
              M.MoneroKeyImageSyncStepRequest(tdis=[td]), M.MoneroKeyImageSyncFinalRequest()):
        try:
            got.append(type(run(d.key_image_sync(m))).__name__)
        except Exception as e:
            got.append("Failure")
            print(repr(e))
    print(got)
    return got
check("Failure" not in go(True), "an approved request is served")
check(go(False) == ["Failure"] * 3, "a declined request leaves no session")
'''
