ID, PROP = "b23-change-spend-key", "S07"
EDITS = [("monero_glue/xmr/sub/addr.py", """    return (
        a.spend_public_key == b.spend_public_key
        and a.view_public_key == b.view_public_key
    )
""", """    return a.spend_public_key == b.spend_public_key
""")]
NEEDS = "a change address made of the wallet's spend key and somebody else's view key"
BREAKS = "an address that only shares the spend key with the wallet is accepted as its change address, and the wallet does not find the output"
DEMO = '''
from monero_glue.xmr import monero
mix = monero.AccountCreds.new_wallet(bob.view_key_private, me.spend_key_private, me.network_type)
def go(chg):
    rng = txgen.Rng("b23")
    src = [txgen.source(rng, me, 1000)]
    ch = txgen.dest(chg, 593)
    con = txgen.construction(src, [txgen.dest(bob, 400), ch], ch, b"", 0)
    return refused(lambda: sign(Line(device()), con))
check(not go(me), "own change address")
check(go(mix), "a change address with a foreign view key is refused")
'''
