ID, PROP = "b04-own-no-confirm", "S02"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """        confirmation = await self.trezor.iface.confirm_transaction(tsx_data, self.creds)
""", """        confirmation = True
        if self._leaves_wallet(tsx_data):
            confirmation = await self.trezor.iface.confirm_transaction(
                tsx_data, self.creds
            )
"""), ("monero_glue/protocol/tsx_sign_builder.py", """    def num_inputs(self):
        return self.input_count
""", """    def _leaves_wallet(self, tsx_data):
        change = tsx_data.change_dts
        return change is None or any(
            x.addr.view_public_key != change.addr.view_public_key
            or x.addr.spend_public_key != change.addr.spend_public_key
            for x in tsx_data.outputs
        )

    def num_inputs(self):
        return self.input_count
""")]
NEEDS = "a transaction whose every output goes to the change address"
BREAKS = "the user is not asked, so a host can burn any fee without confirmation"
DEMO = '''
for ask in (True, False):
    d = device(approve=ask)
    req = request("b04", pay=((me, 0, 0),), fee=5000000)
    r = refused(lambda: sign(d, req))
    check(d.iface.asked == 1, "the user was asked once")
    check(r != ask, "the exchange follows the answer %s" % ask)
'''
