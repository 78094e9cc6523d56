ID, PROP = "b34-part-signed", "D01"
EDITS = [("monero_poc/agent.py", """            res = await self.agent.sign_transaction_data(tx, aux_data=aux_data)
            cdata""", """            try:
                res = await self.agent.sign_transaction_data(tx, aux_data=aux_data)
            except agent_misc.TrezorReturnedError as e:
                if not pendings:
                    raise
                print("Trezor returned an error: %s" % e)
                break
            cdata""")]
NEEDS = "a sweep of several transactions of which the user refuses a later one on the device"
BREAKS = "the set is stored and submitted with the transactions signed up to there, as if it were complete"
DEMO = '''
import io, contextlib, os, tempfile, shutil
from monero_poc import agent as am
from monero_glue.xmr import wallet
from monero_serialize import xmrboost, xmrserialize
class Later(Yes):
    async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
        self.asked += 1
        return self.asked < self.no
def sign(no, n=2):
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    os.chdir(d)
    try:
        dev = device()
        dev.iface = Later()
        dev.iface.no = no
        txes = [request("p%d" % i) for i in range(n)]
        msg = xmrtypes.UnsignedTxSet(txes=txes, transfers=[])
        t = am.HostAgent.__new__(am.HostAgent)
        t.agent, t.priv_view = agent(Line(dev)), me.view_key_private
        t.trace_logger = type("T", (), {"log": staticmethod(lambda e: None)})()
        class P:
            async def ping(self):
                return True
        t.trezor_proxy = P()
        async def nothing(*a, **k):
            return None
        t.store_cdata = nothing
        async def load(k, data):
            return msg
        old, wallet.load_unsigned_tx = wallet.load_unsigned_tx, load
        made = []
        async def dump(k, s, hf=None):
            made.append(len(s.ptx))
            return b"set"
        old2, wallet.dump_signed_tx = wallet.dump_signed_tx, dump
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = run(t.sign_wrap(fdata=b"x"))
        except Exception as e:
            r = e
        finally:
            wallet.load_unsigned_tx, wallet.dump_signed_tx = old, old2
        return r, made
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
r, made = sign(9)
check(bytes(r) == b"set" and made == [2], "both confirmed: %r %r" % (r, made))
r, made = sign(1)
check(not isinstance(r, bytes) and made == [], "first refused")
r, made = sign(2)
check(not isinstance(r, bytes) and made == [], "second refused: nothing is made")
'''
