ID, PROP = "b31-zero-fields", "M01"
EDITS = [("monero_glue/protocol_base/messages.py", """                if hasattr(msg, field_name):
                    cval""", """                if getattr(msg, field_name, None):
                    cval""")]
NEEDS = "a message to or from a connected Trezor with a number that is 0 or a flag that is false"
BREAKS = "the device gets, and the agent gets back, the field as absent"
DEMO = '''
from monero_glue.protocol_base.messages import MessageConverter
from trezorlib import messages as TM
for fix in (True, False):
    c = MessageConverter(fix_bytes=fix)
    m = c.to_trezorlib(M.MoneroTransactionData(version=1, unlock_time=0, num_inputs=2, account=0, mixin=10))
    check(type(m) is TM.MoneroTransactionData and m.version == 1 and m.num_inputs == 2 and m.mixin == 10, "values arrive")
    check(m.unlock_time == 0 and m.account == 0, "zero values arrive")
    check(m.fee is None, "absent stays absent")
    r = c.to_phlib(TM.MoneroLiveRefreshStepAck(salt=b"s", key_image=b""))
    check(type(r) is M.MoneroLiveRefreshStepAck and r.salt == b"s" and r.key_image == b"", "answer arrives")
'''
