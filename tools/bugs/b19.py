ID, PROP = "b19-stray-kept", "U01"
EDITS = [("monero_poc/utils/misc.py", """    while True:
        addr, amount, parts = cut_addr_amount(parts)
        if addr is None:
            break

        res.address_amounts.append((addr, amount))
""", """    paid = {}
    while True:
        addr, amount, parts = cut_addr_amount(parts)
        if addr is None:
            break

        paid[addr] = amount

    res.address_amounts = list(paid.items())
""")]
NEEDS = "a transfer command that names the same address twice"
BREAKS = "of several payments to one address only the last is sent"
DEMO = '''
from monero_poc.utils import misc
a, b = me.address.decode("ascii"), bob.address.decode("ascii")
def pays(t):
    return [(x, int(misc.amount_to_uint64(y)) if hasattr(misc, "amount_to_uint64") else str(y)) for x, y in misc.parse_transfer_cmd(t.split(" ")).address_amounts]
check(len(pays("%s 1 %s 2" % (a, b))) == 2, "two addresses")
check([x for x, _ in pays("%s 1 %s 2 %s 3" % (a, b, a))] == [a, b, a], "three payments, one address twice")
'''
