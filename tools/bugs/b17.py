ID, PROP = "b17-byte-parts", "C01"
EDITS = [("monero_glue/protobuf.py", """    res = 0
    for x in svalue:
        res += len(x)
    return res
""", """    return len(svalue) * len(svalue[0]) if svalue else 0
""")]
NEEDS = "a bytes field given as a list of parts of different lengths"
BREAKS = "the length of a bytes field handed over in parts is computed from the first part; what follows is read as other fields"
DEMO = '''
from monero_glue import protobuf
from monero_serialize import xmrserialize
def wire(m):
    w = xmrserialize.MemoryReaderWriter()
    run(protobuf.dump_message(w, m))
    return bytes(w.get_buffer())
def same(parts):
    a = wire(M.MoneroTransactionInputViniRequest(vini=parts, vini_hmac=b"m" * 32))
    return a == wire(M.MoneroTransactionInputViniRequest(vini=b"".join(parts), vini_hmac=b"m" * 32))
check(same([b"ab", b"cd"]), "equal parts")
check(same([b"abc", b"d"]) and same([b"", b"xy"]), "different parts")
'''
