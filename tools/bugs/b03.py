ID, PROP = "b03-sum-wrap", "S06"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """        self.summary_inputs_money += src_entr.amount
""", """        self.summary_inputs_money = (self.summary_inputs_money + src_entr.amount) & 0xFFFFFFFFFFFFFFFF
"""), ("monero_glue/protocol/tsx_sign_builder.py", """            self.summary_outs_money += dst_entr.amount
""", """            self.summary_outs_money = (self.summary_outs_money + dst_entr.amount) & 0xFFFFFFFFFFFFFFFF
""")]
NEEDS = "output amounts whose sum exceeds 2^64, each in range"
BREAKS = "totals are 64-bit counters, so outputs worth 2^64 more than the inputs pass the balance check"
DEMO = '''
def fee(m):
    if isinstance(m, M.MoneroTransactionInitRequest):
        m.tsx_data.fee = 7
def closed(a, b):
    src = txgen.source(txgen.Rng("b03"), me, 10**12)
    d1, ch = txgen.dest(bob, a), txgen.dest(me, b)
    line = Line(device(), out=fee)
    refused(lambda: sign(line, txgen.construction([src], [d1, ch], ch)))
    return any(isinstance(m, M.MoneroTransactionAllOutSetRequest) and not isinstance(x, M.Failure) for m, x in line.log)
check(closed(5, 10**12 - 12), "a balanced transaction is closed")
check(not closed(2**63, 10**12 - 7 + 2**63), "outputs worth 2^64 more than the inputs are refused")
'''
