ID, PROP = "b16-checksum-prefix", "A03"
EDITS = [("monero_glue/xmr/core/mnemonic.py", """    return trimmed_checksum == trimmed_last_word
""", """    return trimmed_checksum.startswith(trimmed_last_word)
""")]
NEEDS = "a word list whose checksum word is cut to its first letters"
BREAKS = "a mistyped (cut off) checksum word is accepted"
DEMO = '''
from monero_glue.xmr.core import mnemonic
ws = mnemonic.mn_encode(bytes(range(32)), True)
check(bytes.fromhex(mnemonic.mn_decode(list(ws))) == bytes(range(32)), "the word list is read back")
bad = [w for w in mnemonic.mn_words() if w[:3] != ws[-1][:3]][0]
check(refused(lambda: mnemonic.mn_decode(ws[:-1] + [bad])), "another checksum word is refused")
check(refused(lambda: mnemonic.mn_decode(ws[:-1] + [ws[-1][:2]])), "a cut checksum word is refused")
'''
