ID, PROP = "b29-subs-network", "G01"
EDITS = [("monero_poc/seed.py", """        if args.mainnet or (not args.testnet and not args.stagenet):
            print("Mainnet""", """        if args.mainnet or not args.testnet:
            print("Mainnet""")]
NEEDS = "the seed tool asked for subaddresses of the stage network only"
BREAKS = "the tool lists subaddresses of the main network along with those asked for"
DEMO = '''
import sys, io, contextlib, asyncio, re
from monero_poc import seed
def addresses(*args):
    out, old = io.StringIO(), sys.argv
    sys.argv = ["seed", "--monero-master"] + list(args) + ["11" * 32]
    try:
        with contextlib.redirect_stdout(out):
            asyncio.new_event_loop().run_until_complete(seed.amain())
    finally:
        sys.argv = old
    return re.findall(r"\\b[1-9A-HJ-NP-Za-km-z]{95}\\b", out.getvalue())
check(len(addresses()) == 3, "no subaddresses unless asked for")
check(len(addresses("--subs")) == 27, "one network")
check(len(addresses("--subs", "--testnet")) == 27, "test network only")
check(len(addresses("--subs", "--stagenet")) == 27, "stage network only")
check(len(addresses("--subs", "--stagenet", "--mainnet")) == 51, "two networks")
'''
