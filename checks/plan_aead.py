from .plan_cipher import q, TF, rng

MGM_CFG = "INIT Init\nNEXT Next\nINVARIANTS Tagged NonceOk OrderOk\nCHECK_DEADLOCK FALSE\n"
SW = ("Z1AtNonce", "ZeroKeeps", "NonceKept", "CopyRepoints")


def mgm(B=2, A=3, M=3, S=1, K=1, V=1, off=None):
    d = dict(B=B, MaxA=A, MaxM=M, Slots=rng(S), Keys=rng(K), Ivs=rng(V))
    d.update({s: TF(s != off) for s in SW})
    return d


def mgm_models(ctx, which):
    g = dict(cut=[("B=2 5+5", mgm(A=5, M=5)), ("B=3 7+7", mgm(B=3, A=7, M=7))] + ([] if ctx.quick else [("B=4 13+13", mgm(B=4, A=13, M=13))]),
             reinit=[("2 keys 2 nonces", mgm(K=2, V=2))],
             copy=[("2 contexts", mgm(S=2, A=2, M=2)), ("2 contexts 2 keys", mgm(S=2, A=1, M=1, K=2))])
    ctx.model("MgmImpl", [x for w in which for x in g[w]], MGM_CFG)
    n = dict(cut=[("Z1AtNonce", mgm(off="Z1AtNonce")), ("ZeroKeeps", mgm(off="ZeroKeeps"))], reinit=[("NonceKept", mgm(K=2, V=2, off="NonceKept"))],
             copy=[("CopyRepoints", mgm(S=2, A=1, M=1, K=2, off="CopyRepoints"))])
    ctx.model_neg("MgmImpl", [x for w in which for x in n[w]], MGM_CFG)


def mgm_api(ctx, ops, num, depth=30, slots=2, maxlen=300, label="mgm", what="engine"):
    hs = ctx.generate_many([dict(module="MgmApi", cfg="INIT Init\nNEXT Next\nINVARIANTS Emit Spent\nCHECK_DEADLOCK FALSE\n",
                                 consts=dict(Depth=depth, NSlots=slots, Alg='"%s"' % a, Ops=q(ops), MaxLen=maxlen), num=num, depth=3 * depth,
                                 shards=4, label="%s %s" % (label, a)) for a in ("mmgm", "kmgm")], par=2)
    jobs = [dict(id="%s%d.%d" % (label, i, j), ops=h) for i, hh in enumerate(hs) for j, h in enumerate(hh)]
    ctx.replay("checks.mgm", jobs, label=label, what=what)


def A01(ctx):
    mgm_models(ctx, ["cut"])
    mgm_api(ctx, [], ctx.scale(1500, 30000), label="seal/open")
    mgm_api(ctx, [], ctx.scale(200, 3000), maxlen=ctx.scale(9000, 70000), label="long")


def A02(ctx):
    def sizes(b):
        return ctx.scale({0, 1, b, b + 3, 3 * b}, {0, 1, 2, b - 1, b, b + 1, 2 * b, 3 * b - 1, 4 * b + 5})
    S = lambda x: "{%s}" % ",".join(map(str, sorted(x)))
    jobs = []
    for b in (8, 16):
        jobs += ctx.enumerate("MgmTamper", "INIT Init\nNEXT Next\nINVARIANTS Emit Only\nCHECK_DEADLOCK FALSE\n",
                              dict(B=b, ASizes=S(sizes(b)), MSizes=S(sizes(b)), Cuts="{0,5}" if ctx.quick else "{0,1,5,8,16}"), label="alterations B=%d" % b)
    ctx.replay("checks.mgmtamper", jobs, label="every alteration")
    mgm_api(ctx, ["reinit"], ctx.scale(400, 8000), label="alterations in histories")


def A03(ctx):
    mgm_models(ctx, ["cut", "reinit"])
    mgm_api(ctx, ["reinit"], ctx.scale(1200, 20000), slots=1, label="call orders")
    mgm_api(ctx, ["reinit", "copy", "ivlen"], ctx.scale(400, 8000), label="mixed")


def omac_api(ctx, ops, num, maxlen, label, algs="mk", depth=36, what="engine"):
    hs = ctx.generate_many([dict(module="OmacApi", cfg="INIT Init\nNEXT Next\nINVARIANTS Emit Sealed\nCHECK_DEADLOCK FALSE\n",
                                 consts=dict(Depth=depth, NSlots=2, Alg='"%s"' % a, Ops=q(ops), MaxLen=n), num=k, depth=3 * depth,
                                 shards=4, label="%s %s" % (label, a)) for a, k, n in zip(algs, num, maxlen)], par=2)
    jobs = [dict(id="%s%s%d" % (label, a, j), ops=h, alg=a) for a, hh in zip(algs, hs) for j, h in enumerate(hh)]
    ctx.replay("checks.omac", jobs, label=label, what=what)


def A04(ctx):
    n = ctx.scale(600, 12000)
    omac_api(ctx, ["order"], (n, n), (3000, 9000), "messages")
    omac_api(ctx, ["order", "copy", "reinit"], (n, n), (3000, 9000), "histories")
    n = ctx.scale(100, 1500)
    omac_api(ctx, ["order", "reinit"], (n, n), (20000, 600000), "long")


PLANS = dict(A01=A01, A02=A02, A03=A03, A04=A04)
