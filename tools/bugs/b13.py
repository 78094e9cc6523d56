ID, PROP = "b13-batch-weights", "R02"
EDITS = [("monero_glue/xmr/bulletproof.py", """        Hprec = self._hprec_aux(maxMN)

        for proof in proofs:
            M = 1
            logM = 0
            while M <= _BP_M and M < len(proof.V):
                logM += 1
                M = 1 << logM

            self.assrt(len(proof.L) == 6 + logM, "Proof is not the expected size")
            MN = M * N
            weight_y = crypto.encodeint(crypto.random_scalar())
            weight_z = crypto.encodeint(crypto.random_scalar())
""", """        Hprec = self._hprec_aux(maxMN)
        weight_y = crypto.encodeint(crypto.random_scalar())
        weight_z = crypto.encodeint(crypto.random_scalar())

        for proof in proofs:
            M = 1
            logM = 0
            while M <= _BP_M and M < len(proof.V):
                logM += 1
                M = 1 << logM

            self.assrt(len(proof.L) == 6 + logM, "Proof is not the expected size")
            MN = M * N
""")]
NEEDS = "two proofs of a dishonest prover whose errors cancel, verified in one batch"
BREAKS = "the proofs of a batch are added up with the same weights, so two wrong proofs are accepted together"
DEMO = '''
import random
from monero_glue.xmr import bulletproof as bpm
from monero_serialize.xmrtypes import Bulletproof
L, INV8 = ref.L, ref.INV8
def prove(v, gamma, rng, dtaux):
    N = 64
    Gi, Hi = ref.bp_gens(N)
    r = lambda: rng.randrange(1, L)
    dot = lambda a, b: sum(x * y for x, y in zip(a, b)) % L
    out = lambda P: ref.enc(ref.pmul(P, INV8))
    V = [out(ref.commit(gamma, v))]
    aL = [(v >> k) & 1 for k in range(N)]
    aR = [x - 1 for x in aL]
    sL, sR = [r() for _ in range(N)], [r() for _ in range(N)]
    alpha, rho, tau1, tau2 = r(), r(), r(), r()
    A = out(ref.msm([(alpha, ref.G)] + [(x % L, g) for x, g in zip(aL, Gi)] + [(x % L, h) for x, h in zip(aR, Hi)]))
    S = out(ref.msm([(rho, ref.G)] + list(zip(sL, Gi)) + list(zip(sR, Hi))))
    y = ref.Hs(ref.i2b(ref.Hs(*V)), A, S)
    z = ref.Hs(ref.i2b(y))
    yp = [pow(y, k, L) for k in range(N)]
    l0 = [(x - z) % L for x in aL]
    r0 = [(yp[k] * (aR[k] + z) + z * z * 2 ** k) % L for k in range(N)]
    r1 = [sR[k] * yp[k] % L for k in range(N)]
    t1, t2 = (dot(l0, r1) + dot(sL, r0)) % L, dot(sL, r1)
    T1, T2 = out(ref.commit(tau1, t1)), out(ref.commit(tau2, t2))
    x = ref.Hs(ref.i2b(z), ref.i2b(z), T1, T2)
    l = [(p + x * q) % L for p, q in zip(l0, sL)]
    rr = [(p + x * q) % L for p, q in zip(r0, r1)]
    t, taux, mu = dot(l, rr), (tau1 * x + tau2 * x * x + z * z * gamma + dtaux) % L, (alpha + x * rho) % L
    hc = ref.i2b(ref.Hs(ref.i2b(x), ref.i2b(x), ref.i2b(taux), ref.i2b(mu), ref.i2b(t)))
    xip = ref.b2i(hc)
    g, h = list(Gi), [ref.pmul(Hi[k], pow(yp[k], L - 2, L)) for k in range(N)]
    Ls, Rs, n = [], [], N
    while n > 1:
        n //= 2
        side = lambda a, b, gg, hh: out(ref.msm(list(zip(a, gg)) + list(zip(b, hh)) + [(dot(a, b) * xip % L, ref.H)]))
        Lp, Rp = side(l[:n], rr[n:], g[n:], h[:n]), side(l[n:], rr[:n], g[:n], h[n:])
        Ls.append(Lp); Rs.append(Rp)
        w = ref.Hs(hc, Lp, Rp); hc = ref.i2b(w); wi = pow(w, L - 2, L)
        g = [ref.padd(ref.pmul(g[k], wi), ref.pmul(g[k + n], w)) for k in range(n)]
        h = [ref.padd(ref.pmul(h[k], w), ref.pmul(h[k + n], wi)) for k in range(n)]
        l = [(l[k] * w + l[k + n] * wi) % L for k in range(n)]
        rr = [(rr[k] * wi + rr[k + n] * w) % L for k in range(n)]
    i = lambda s: bytearray(ref.i2b(s))
    b = bytearray
    return Bulletproof(V=[b(q) for q in V], A=b(A), S=b(S), T1=b(T1), T2=b(T2), taux=i(taux), mu=i(mu), t=i(t), a=i(l[0]), b=i(rr[0]),
                       L=[b(q) for q in Ls], R=[b(q) for q in Rs])
def ok(*ps):
    try:
        return bool(bpm.BulletProofBuilder().verify_batch(list(ps)))
    except Exception as e:
        return False
rng = random.Random(7)
good, up, down = prove(5, 11, rng, 0), prove(6, 12, rng, 99), prove(7, 13, rng, L - 99)
check(ok(good) and ok(good, good), "honest proofs verify")
check(not ok(up) and not ok(down), "a wrong proof is refused alone")
check(not ok(up, down), "two wrong proofs are refused together")
'''
