ID, PROP = "b33-checked-before", "D01"
EDITS = [("monero_poc/agent.py", """        pres = self.token_cmd(self.agent.get_address(account=self.account_idx))
        if self.address != pres.address:
            self.perror(""", """        if getattr(self, "checked", None) == (self.address, self.trezor_proxy):
            return
        pres = self.token_cmd(self.agent.get_address(account=self.account_idx))
        self.checked = (pres.address, self.trezor_proxy)
        if self.address != pres.address:
            self.perror(""")]
NEEDS = "another device plugged in on the same connection after a command had found the right one"
BREAKS = "the commands that follow use the other device without noticing"
DEMO = '''
import io, contextlib
from monero_poc import agent as am
class Dev:
    adr = bytes(me.address)
    async def call(self, msg, *a, **k):
        return M.MoneroAddress(address=self.adr)
t = am.HostAgent.__new__(am.HostAgent)
t.account_idx, t.address = 0, bytes(me.address)
t.trezor_proxy = Dev()
t.agent = agent_lite.Agent(t.trezor_proxy, network_type=me.network_type)
t.wait_coro = run
t.trace_logger = type("T", (), {"log": staticmethod(lambda e: None)})()
t.poutput = t.perror = lambda *a, **k: None
def attached(x):
    Dev.adr = bytes(x.address)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            t.check_address()
            return True
        except Exception:
            return False
check(attached(me), "the own device")
check(not attached(bob), "another device")
check(attached(me), "the own device again")
check(attached(me), "and again")
check(not attached(bob), "another device afterwards")
'''
