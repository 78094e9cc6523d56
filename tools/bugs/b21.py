ID, PROP = "b21-same-view-key", "W01"
EDITS = [("monero_poc/agent.py", """        match = spend_pub == crypto.encodepoint(
            self.pub_spend
        ) and view_pub == crypto.encodepoint(self.pub_view)
        net_ver""", """        match = view_pub == crypto.encodepoint(self.pub_view)
        net_ver""")]
NEEDS = "an existing keys file of another wallet with the same view key"
BREAKS = "the tool adopts the keys file of another wallet"
DEMO = '''
import tempfile, os
from monero_poc import agent as poc
from monero_glue.xmr import wallet
a = poc.HostAgent.__new__(poc.HostAgent)
a.wallet_password, a.network_type = b"pw", me.network_type
a.pub_spend, a.pub_view = me.spend_key_public, me.view_key_public
def write(f, spend):
    k = wallet.WalletKeyData()
    k.m_creation_timestamp = 5
    k.m_keys = xmrtypes.AccountKeys()
    k.m_keys.m_account_address = xmrtypes.AccountPublicAddress(m_spend_public_key=bytes(crypto.encodepoint(spend)), m_view_public_key=bytes(crypto.encodepoint(me.view_key_public)))
    k.m_keys.m_spend_secret_key = bytes(32)
    k.m_keys.m_view_secret_key = bytes(crypto.encodeint(me.view_key_private))
    w = wallet.WalletKeyFile()
    w.key_data = k
    run(wallet.save_keys_file(f, b"pw", w))
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "w.keys")
    write(f, me.spend_key_public)
    check(run(a.check_existing_wallet_file(f))[1], "the own keys file")
    write(f, bob.spend_key_public)
    check(not run(a.check_existing_wallet_file(f))[1], "another wallet's keys file")
'''
