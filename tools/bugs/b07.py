ID, PROP = "b07-host-hash-client1", "H03"
EDITS = [("monero_glue/agent/agent_lite.py", """        mlsag_hash = t_res.full_message_hash
        mlsag_hash_computed = await monero.get_pre_mlsag_hash(rv)
        if not common.ct_equal(mlsag_hash, mlsag_hash_computed):
            raise ValueError("Pre MLSAG hash has does not match")
""", """        if self.client_version > 0 and not self._is_offloading():
            mlsag_hash = t_res.full_message_hash
            mlsag_hash_computed = await monero.get_pre_mlsag_hash(rv)
            if not common.ct_equal(mlsag_hash, mlsag_hash_computed):
                raise ValueError("Pre MLSAG hash has does not match")
""")]
NEEDS = "a faulty device that alters an encrypted amount, in a transaction with offloaded range proofs"
BREAKS = "the host does not compare the hash of the whole transaction, and returns one that differs from what the device signed"
DEMO = '''
def go(bad):
    def back(m, r):
        if bad and isinstance(m, M.MoneroTransactionSetOutputRequest) and getattr(r, "ecdh_info", None) and not seen:
            seen.append(1)
            e = bytearray(r.ecdh_info); e[0] ^= 1
            r.ecdh_info = bytes(e)
    seen = []
    return refused(lambda: sign(Line(device(), back=back), request("b07", pay=((bob, 0, 0), (ann, 0, 0)))))
check(not go(False), "an honest device")
check(go(True), "an altered amount is noticed")
'''
