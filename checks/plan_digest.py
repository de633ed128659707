from .plan_cipher import q, TF, rng

CFG = "INIT Init\nNEXT Next\nINVARIANTS Standard Room\nCHECK_DEADLOCK FALSE\n"
API = "INIT Init\nNEXT Next\nINVARIANTS Emit Counted\nCHECK_DEADLOCK FALSE\n"


def con(m, B=3, mx=8, S=1, G=1, off=None):
    d = dict(Machine='"%s"' % m, B=B, Max=mx, Slots=rng(S), Msgs=rng(G))
    d.update({s: TF(s != off) for s in ("FillFirst", "ClearOnInit", "TakeDigest")})
    return d


def api(ctx, algs, ops, num, depth=24, slots=1, maxlen=400, label="", what="engine"):
    hs = ctx.generate_many([dict(module="HashApi", cfg=API, consts=dict(Depth=depth, NSlots=slots, Algs=q(a), Ops=q(ops), MaxLen=maxlen, Blk=32 if a == ["94"] else 64),
                                 num=num, depth=3 * depth, shards=3, label="%s %s" % (label, "+".join(a))) for a in algs], par=3)
    jobs = [dict(id="%s%d.%d" % (label, i, j), ops=h) for i, hh in enumerate(hs) for j, h in enumerate(hh)]
    ctx.replay("checks.digests", jobs, label=label, what=what)


def D01(ctx):
    ctx.model("HashImpl", [("%s B=%d max=%d" % (m, b, mx), con(m, b, mx)) for m in ("h94", "h2012") for b, mx in ctx.scale(((3, 8), (4, 13)), ((3, 11), (4, 17), (5, 21)))], CFG)
    ctx.model_neg("HashImpl", [(m + " FillFirst", con(m, off="FillFirst")) for m in ("h94", "h2012")], CFG)
    api(ctx, [["94"], ["256"], ["512"]], [], ctx.scale(900, 20000), label="cutting")
    api(ctx, [["94"], ["256"], ["512"]], [], ctx.scale(30, 600), maxlen=ctx.scale(60000, 300000), label="long")
    n = 0x20000000
    # message lengths whose bit count passes 2^16, 2^24 and 2^32
    jobs = [dict(alg=a, n=k + d, pat=p, cuts=[1, 70, 4096, k // 2 + 3]) for a in MDS for k in (1 << 13, 1 << 21) for d in (-1, 0, 33) for p in ("ff", "rand")]
    # (the quick tier takes the 512 MiB GOST R 34.11-94 value from an earlier run of the reference)
    jobs += [dict(alg=a, n=(1 << 29) + 5, pat="ff", cuts=[3], want=BIG94 if a == "94" and ctx.quick else None) for a in (("94", "512") if ctx.quick else MDS)]
    jobs.sort(key=lambda j: -j["n"])
    ctx.replay("checks.bigdigest", jobs, label="length counters")


BIG94 = "237e603910c503f3a3ecfe9fa28d7d45a56fc707300da85b0ffccba9f72ad5ce"
MDS = ("94", "256", "512")


def D02(ctx):
    ctx.model("HashImpl", [(m + " 2 contexts 2 messages", con(m, 3, ctx.scale(7, 10), 2, 2)) for m in ("h94", "h2012")], CFG)
    ctx.model_neg("HashImpl", [(m + " ClearOnInit", con(m, G=2, off="ClearOnInit")) for m in ("h94", "h2012")] + [("h2012 TakeDigest", con("h2012", off="TakeDigest"))], CFG)
    api(ctx, [["94"], ["256", "512"], ["94", "256", "512"]], ["reinit", "copy", "reset"], ctx.scale(900, 20000), depth=34, slots=3, maxlen=200, label="reuse")


PLANS = dict(D01=D01, D02=D02)
