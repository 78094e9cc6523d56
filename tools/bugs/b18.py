ID, PROP = "b18-late-ecdh", "T01"
EDITS = [("monero_glue/xmr/sub/mlsag_hasher.py", """        if self.state != 2 and self.state != 3 and self.state != 4:
            raise ValueError("State error")
        self.state = 4
""", """        if self.state < 2 or self.state > 5:
            raise ValueError("State error")
        self.state = max(self.state, 4)
""")]
NEEDS = "an encrypted amount fed after an output commitment"
BREAKS = "pieces of the signature base are hashed in a wrong order instead of being refused"
DEMO = '''
from monero_glue.xmr.sub.mlsag_hasher import PreMlsagHasher
def feed(order):
    h = PreMlsagHasher()
    h.init(True)
    run(h.set_message(bytes(32)))
    run(h.set_type_fee(4, 10))
    for o in order:
        run(h.set_ecdh(b"e" * 8) if o == "e" else h.set_out_pk(b"p" * 32))
    run(h.rctsig_base_done())
    run(h.rsig_val([b"r" * 32], True, raw=True))
    return run(h.get_digest())
check(len(feed("eepp")) == 32, "the right order")
check(refused(lambda: feed("epep")), "amounts after commitments are refused")
'''
