ID, PROP = "b02-dst-flag-unbound", "S04"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """        kwriter = get_keccak_writer()
        await protobuf.dump_message(kwriter, dst_entr)

        hmac_key = self.hmac_key_txdst(idx)""", """        kwriter = get_keccak_writer()
        await kwriter.awrite(b"%020d" % dst_entr.amount)
        await protobuf.dump_message(kwriter, dst_entr.addr)

        hmac_key = self.hmac_key_txdst(idx)""")]
NEEDS = "a host that flips the subaddress flag of one destination after the user approved, in a transaction with additional keys"
BREAKS = "the destination tag no longer covers the subaddress flag, so the output sent is one the approved recipient cannot find"
DEMO = '''
req = request("b02", pay=((bob, 0, 1), (ann, 0, 0)))
def out(m):
    if isinstance(m, M.MoneroTransactionSetOutputRequest) and m.dst_entr and m.dst_entr.is_subaddress:
        m.dst_entr.is_subaddress = False
def go(f):
    line = Line(device(), out=f)
    return refused(lambda: sign(line, request("b02", pay=((bob, 0, 1), (ann, 0, 0)))))
check(not go(None), "the honest exchange completes")
check(go(out), "a destination altered after approval is refused")
'''
