ID, PROP = "b05-keep-state-on-error", "S03"
EDITS = [("monero_glue/hwtoken/token.py", """            await signer.wake_up(self, self.tsx_state, msg, iface=self.iface)
            self.tsx_state = None

            res = await signer.sign(msg)
            if not await signer.should_purge():
                self.tsx_state = await signer.state_save()
""", """            await signer.wake_up(self, self.tsx_state, msg, iface=self.iface)

            res = await signer.sign(msg)
            if not await signer.should_purge():
                self.tsx_state = await signer.state_save()
            else:
                self.tsx_state = None
""")]
NEEDS = "a message refused in the middle of a session, followed by the right message"
BREAKS = "the state before the refused message survives, so a host can try again and again within one approved session"
DEMO = '''
def out(m):
    if isinstance(m, M.MoneroTransactionSetOutputRequest) and not seen:
        seen.append(1)
        bad = copy.copy(m)
        bad.dst_entr_hmac = bytes(32)
        r = run(d.tsx_sign(bad))
        check(isinstance(r, M.Failure), "an altered tag is refused")
seen, d = [], device()
check(refused(lambda: sign(Line(d, out=out), request("b05"))), "nothing continues after a refusal")
seen = [1]
check(not refused(lambda: sign(Line(device(), out=out), request("b05"))), "the honest exchange completes")
'''
