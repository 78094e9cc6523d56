ID, PROP = "b28-stage-sub", "A01"
EDITS = [("monero_glue/xmr/sub/addr.py", """        MainNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
        TestNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
        StageNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
    ]


def get_addr_type(ver):
""", """        MainNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
        TestNet.PUBLIC_SUBADDRESS_BASE58_PREFIX,
        StageNet.PUBLIC_ADDRESS_BASE58_PREFIX,
    ]


def get_addr_type(ver):
""")]
NEEDS = "addresses of the stage network"
BREAKS = "on the stage network main addresses are taken for subaddresses and the other way round"
DEMO = '''
from monero_glue.xmr.sub import addr
from monero_glue.xmr.sub.xmr_net import NetworkTypes
for net in (NetworkTypes.MAINNET, NetworkTypes.TESTNET, NetworkTypes.STAGENET):
    for sub in (False, True):
        x = txgen.addr_of(me, 0, 1 if sub else 0)
        a = addr.build_address(bytes(x.m_spend_public_key), bytes(x.m_view_public_key))
        t = addr.public_addr_encode(a, sub, net)
        i = addr.decode_addr(t)
        check(bool(i.is_sub_address) == sub and i.net_type == net and bytes(i.addr) == bytes(t), "address of network %s, sub %s" % (net, sub))
'''
