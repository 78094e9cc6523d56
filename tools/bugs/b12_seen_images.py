ID, PROP = "b12-seen-images", "K03"
EDITS = [("monero_glue/agent/agent_lite.py", """        if not ring_ct.check_ring_singature(
            ki_bin, ki, [crypto.decodepoint(out_key)], sig
        ):
            raise ValueError("Invalid ring sig on KI")

        return ki
""", """        proved = self.__dict__.setdefault("proved_kis", set())
        if bytes(ki_bin) not in proved and not ring_ct.check_ring_singature(
            ki_bin, ki, [crypto.decodepoint(out_key)], sig
        ):
            raise ValueError("Invalid ring sig on KI")

        proved.add(bytes(ki_bin))
        return ki
""")]
NEEDS = "a faulty device that answers the query of one output with the key image it proved for an earlier one"
BREAKS = "the host remembers proved key images without their output, so a second output gets the first one's key image"
DEMO = '''
from monero_glue.xmr.enc import chacha_poly
xs = [123456789, 987654321]
P = [ref.enc(ref.gmul(x)) for x in xs]
def answer(x):
    ki, k = ref.enc(ref.key_image(x)), 5555
    Hp = ref.h2p(ref.enc(ref.gmul(x)))
    c = ref.Hs(ki, ref.enc(ref.gmul(k)), ref.enc(ref.pmul(Hp, k)))
    return ki + ref.i2b(c) + ref.i2b((k - c * x) % ref.L)
class Faulty:
    def __init__(self, xs):
        self.xs = list(xs)
    async def live_refresh(self, msg):
        salt = b"s" * 32
        key = agent_lite.Agent._compute_ki_enc_key_host(me.view_key_private, msg.out_key, salt)
        return M.MoneroLiveRefreshStepAck(salt=salt, key_image=bytes(chacha_poly.encrypt_pack(key, answer(self.xs.pop(0)))))
def go(answers, asked):
    ag = agent_lite.Agent(Faulty(answers), network_type=me.network_type)
    out = []
    for o in asked:
        try:
            out.append(bytes(crypto.encodepoint(run(ag.live_refresh(me.view_key_private, P[o], bytes(32), 0, 0, 0)))))
        except Exception:
            out.append(None)
    return out
KI = [ref.enc(ref.key_image(x)) for x in xs]
check(go(xs, (0, 1)) == KI, "proper answers are taken")
check(go([xs[0]] * 2, (1, 0)) == [None, KI[0]], "another output's image at once is refused")
check(go([xs[0]] * 3, (0, 1, 0)) == [KI[0], None, KI[0]], "the first output's image is refused for the second")
'''
