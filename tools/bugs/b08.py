ID, PROP = "b08-pid-repeat-recipient", "H02"
EDITS = [("monero_glue/protocol/tsx_sign_builder.py", """            if addr_eq(dest.addr, addr):
                continue
            if count > 0 and tsx_data.payment_id:
                return crypto.NULL_KEY_ENC
            addr = dest.addr
            count += 1
""", """            if count == 0 or not tsx_data.payment_id:
                addr = dest.addr
            count += 1
"""),]
NEEDS = "a payment id and several recipients"
BREAKS = "a payment id meant for one recipient is sent along with payments to others instead of being refused"
CHECKS = ["H02", "S07", "H01"]
DEMO = '''
pid = bytes(range(8))
check(not refused(lambda: sign(device(), request("b08", pay=((bob, 0, 0),), pid=pid))), "one recipient with a payment id")
check(not refused(lambda: sign(device(), request("b08", pay=((bob, 0, 0), (bob, 0, 0)), pid=pid))), "one recipient twice with a payment id")
check(refused(lambda: sign(device(), request("b08", pay=((bob, 0, 0), (ann, 0, 0)), pid=pid))), "two recipients and one payment id are refused")
'''
