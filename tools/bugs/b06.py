ID, PROP = "b06-bp-only-last", "S08"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """        res = await ring_ct.verify_bp(bp_obj, self.output_amounts, self.output_masks)
        utils.ensure(res, "BP verification fail")
""", """        if self.out_idx + 1 >= self.output_count or len(bp_obj.L) <= 6:
            res = await ring_ct.verify_bp(
                bp_obj, self.output_amounts, self.output_masks
            )
            utils.ensure(res, "BP verification fail")
""")]
NEEDS = "more than one offloaded range proof, one of them invalid, not the last and of several outputs"
BREAKS = "an invalid range proof of an earlier batch is accepted"
DEMO = '''
def go(bad, n=17):
    seen = []
    def out(m):
        if isinstance(m, M.MoneroTransactionSetOutputRequest) and m.is_offloaded_bp:
            if bad and not seen:
                b = bytearray(m.rsig_data.rsig)
                b[32 * 5] ^= 1      # mu
                m.rsig_data.rsig = bytes(b)
            seen.append(1)
    line = Line(device(), out=out)
    r = refused(lambda: sign(line, request("b06", pay=((bob, 0, 0),) * n)))
    return any(isinstance(m, M.MoneroTransactionSetOutputRequest) and m.is_offloaded_bp and not isinstance(x, M.Failure) for m, x in line.log)
check(go(False), "18 outputs, honest")
check(not go(True), "18 outputs, the first range proof is invalid")
'''
