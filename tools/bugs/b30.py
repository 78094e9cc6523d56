ID, PROP = "b30-torn-line", "V01"
EDITS = [("monero_poc/agent.py", """            dst_cur[0] += lines[0]
            nlines""", """            dst_cur[0] = lines[0]
            nlines""")]
NEEDS = "the announcement of the wallet RPC arrives in two pieces"
BREAKS = "the tool never takes the wallet RPC for ready and refuses every command"
DEMO = '''
import os, tempfile, time, types, shutil, contextlib, io
from monero_poc import agent
def ready(*pieces):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "monero-wallet-rpc")
    with open(p, "w") as fh:
        fh.write("#!/bin/sh\\n" + "".join("printf '%s'\\nsleep 0.5\\n" % x for x in pieces) + "sleep 8\\n")
    os.chmod(p, 0o755)
    try:
        a = agent.HostAgent()
        a.poutput = a.perror = lambda *x, **k: None
        a.args = types.SimpleNamespace(wallet_rpc_addr=None, wallet_rpc_creds=None, rpc_addr=None, testnet=False, debug_rpc=False)
        a.wallet_file, a.monero_bin, a.wallet_password, a.network_type = os.path.join(d, "w"), d, b"secret", 0
        env.run(a.wallet_rpc())
        t = time.time()
        while time.time() - t < 6 and not a.rpc_ready:
            time.sleep(0.05)
        return a.rpc_ready
    finally:
        shutil.rmtree(d, ignore_errors=True)
ok = [ready("Loading\\\\nStarting wallet RPC server\\\\n"), ready("Loading\\\\nStarting wal", "let RPC server\\\\n"), not ready("Loading\\\\n")]
check(ok[0], "announcement at once")
check(ok[1], "announcement in two pieces")
check(ok[2], "not announced")
sys.stdout.flush()
os._exit(0)
'''
