ID, PROP = "b24-final-early", "S01"
EDITS = [("monero_glue/protocol/tsx_sign_state.py", """    def set_final(self):
        if self.s != self.SIGNATURE_DONE:
""", """    def set_final(self):
        if self.s < self.SIGNATURE or self.s > self.SIGNATURE_DONE:
""")]
NEEDS = "a transaction of two inputs and the final message after the first signature"
BREAKS = "the device closes the session and hands out the transaction keys before all inputs are signed"
DEMO = '''
req = request("b24", n_in=2)
class Cut(Exception):
    pass
def go(early):
    line = Line(device())
    n = [0]
    def back(msg, res):
        if isinstance(msg, M.MoneroTransactionSignInputRequest):
            n[0] += 1
            if early and n[0] == 1:
                r = run(line.dev.tsx_sign(M.MoneroTransactionFinalRequest()))
                raise Cut(type(r).__name__)
    line.back = back
    try:
        sign(line, request("b24", n_in=2))
    except Cut as e:
        return "%s" % e
    except Exception as e:
        return "Failure"
    return "signed"
check(go(False) == "signed", "the honest exchange")
check(go(True) == "Failure", "the final message after one of two signatures is refused")
'''
