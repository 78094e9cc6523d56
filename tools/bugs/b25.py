ID, PROP = "b25-image-first-byte", "H01"
EDITS = [("monero_glue/agent/agent_lite.py", """            key=lambda x: self.ct.tx.vin[x].k_image, reverse=True
""", """            key=lambda x: self.ct.tx.vin[x].k_image[0], reverse=True
""")]
NEEDS = "two inputs whose key images begin with the same byte, given in the other order"
BREAKS = "the inputs of the transaction are not in the order every node demands, so the network refuses it"
DEMO = '''
def image(s):
    t = [1]
    a, b = ref.b2i(crypto.encodeint(me.view_key_private)), ref.b2i(crypto.encodeint(me.spend_key_private))
    P = bytes(s.outputs[s.real_output][1].dest)
    for R in [s.real_out_tx_key] + list(s.real_out_additional_tx_keys or []):
        x = (ref.d2s(ref.derivation(ref.dec(bytes(R)), a), s.real_output_in_tx_index) + b) % ref.L
        if ref.enc(ref.gmul(x)) == P:
            return ref.enc(ref.key_image(x))
rng = txgen.Rng("b25")
seen = {}
while True:
    s = txgen.source(rng, me, 10 ** 9, 0, 0, ring=2)
    i = image(s)
    if i[0] in seen:
        break
    seen[i[0]] = (i, s)
pair = sorted([seen[i[0]], (i, s)], key=lambda x: x[0])
for order in (pair[::-1], pair):
    srcs = [x for _, x in order]
    ch = txgen.dest(me, 2 * 10 ** 9 - 7 - 1000)
    con = txgen.construction(srcs, [txgen.dest(bob, 1000), ch], ch, b"", 0)
    a, blob = sign(device(), con)
    vin = [bytes(v["ki"]) for v in ref.parse_tx(blob, 2)["vin"]]
    check(vin == sorted(vin, reverse=True) and len(set(vin)) == 2, "key images in descending order")
'''
