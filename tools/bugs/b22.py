ID, PROP = "b22-near-enough", "B01"
EDITS = [("monero_glue/xmr/wallet.py", """            if timestamp <= t_mid:
                height_max = height_mid
""", """            if abs(timestamp - t_mid) <= 12 * 60 * 60:
                return height_mid

            if timestamp <= t_mid:
                height_max = height_mid
""")]
NEEDS = "a date whose midnight comes up to twelve hours before a block the search happens to look at"
BREAKS = "the height returned is of a block after the date, so the transactions of that morning are missed"
DEMO = '''
from monero_glue.xmr import wallet
from datetime import datetime, timezone
class Rpc:
    def __init__(self, times):
        self.t = times
    async def get_info(self):
        return {"height": len(self.t)}
    async def get_blocks_by_height(self, hs):
        return {"blocks": [{"block": h} for h in hs]}
class W(wallet.Wallet):
    async def parse_block(self, h):
        return xmrtypes.Block(timestamp=self.daemon_rpc.t[h])
base = int(datetime(2018, 1, 1, 4, tzinfo=timezone.utc).timestamp())
def height(times, date):
    return run(W(Rpc(times)).get_blockchain_height_by_date(*date))
ch = [base + i * 1200 for i in range(20001)]
import datetime as d
for day in range(3, 270):
    x = d.datetime(2018, 1, 1, tzinfo=timezone.utc) + d.timedelta(days=day)
    h = height(ch, (x.year, x.month, x.day))
    check(ch[h] <= x.timestamp(), "%s: block %d is later" % (x, h))
'''
