ID, PROP = "b01-hmac-index-byte", "S05"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """            shifted = True
            while shifted:
                shifted = index >> 7
                key_buff[offset] = (index & 0x7F) | (0x80 if shifted else 0x00)
                offset += 1
                index = shifted
""", """            # indices fit one byte
            key_buff[offset] = index & 0x7F
""")]
NEEDS = "more than 128 inputs, and a host that shows input 1's record in the place of input 129"
BREAKS = "keys that bind a record to its position repeat every 128 positions, so one input can be hashed and signed in the place of another"
DEMO = '''
# keys that authenticate a record at its position
from monero_glue.protocol.tsx_sign_builder import TTransactionBuilder
from monero_glue.protocol.tsx_sign import TsxSigner
b = TTransactionBuilder(TsxSigner(), creds=me)
b.key_hmac = b.key_enc = bytes(range(32))
for f in (b.hmac_key_txin, b.hmac_key_txin_comm, b.hmac_key_txdst, b.hmac_key_txout, b.enc_key_spend, b.enc_key_txin_alpha):
    ks = [bytes(f(i)) for i in range(300)]
    check(len(set(ks)) == 300, "300 positions have 300 keys (%s)" % f.__name__)
'''
