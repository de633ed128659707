from .plan_cipher import q, TF, rng

CFG = "INIT Init\nNEXT Next\nINVARIANTS Standard Held\nCHECK_DEADLOCK FALSE\n"
NEG = "INIT Init\nNEXT Next\nINVARIANTS Standard\nCHECK_DEADLOCK FALSE\n"
API = "INIT Init\nNEXT Next\nINVARIANTS Emit KeyFirst\nCHECK_DEADLOCK FALSE\n"
ALL = ["gmac", "gmac12", "mmac", "kmac", "kacpkm"]


def con(m, B=2, sec=4, mx=11, S=1, G=1, off=None):
    d = dict(Machine='"%s"' % m, B=B, S=sec, Max=mx, Slots=rng(S), Msgs=rng(G))
    d.update({s: TF(s != off) for s in ("HoldBack", "ClearOnInit", "MeshAtFinal")})
    return d


def api(ctx, algs, ops, num, depth=24, slots=1, maxlen=400, label=""):
    hs = ctx.generate_many([dict(module="MacApi", cfg=API, consts=dict(Depth=depth, NSlots=slots, Algs=q(a), Ops=q(ops), MaxLen=maxlen),
                                 num=num, depth=3 * depth, shards=2, label="%s %s" % (label, "+".join(a))) for a in algs], par=4)
    ctx.replay("checks.macs", [dict(id="%s%d.%d" % (label, i, j), ops=h) for i, hh in enumerate(hs) for j, h in enumerate(hh)], label=label)


def M01(ctx):
    ctx.model("MacImpl", [("%s B=%d section=%d max=%d" % (m, b, s, mx), con(m, b, s, mx)) for m in ("imit", "acpkm")
                          for b, s, mx in ctx.scale(((2, 4, 11), (3, 9, 20)), ((2, 4, 15), (3, 9, 28), (4, 8, 25), (2, 2, 12)))], CFG)
    ctx.model_neg("MacImpl", [(m + " HoldBack", con(m, off="HoldBack")) for m in ("imit", "acpkm")] + [("acpkm MeshAtFinal", con("acpkm", off="MeshAtFinal"))], NEG)
    api(ctx, [[a] for a in ALL], ["md", "pkey", "mesh"], ctx.scale(700, 15000), label="feeding")
    api(ctx, [["gmac", "gmac12"], ["kacpkm"], ["mmac", "kmac"]], ["md", "mesh"], ctx.scale(60, 1500), maxlen=ctx.scale(20000, 150000), label="long")


def M02(ctx):
    ctx.model("MacImpl", [("%s 2 contexts 2 messages" % m, con(m, 2, 4, ctx.scale(7, 9), 2, 2)) for m in ("imit", "acpkm")], CFG)
    ctx.model_neg("MacImpl", [(m + " ClearOnInit", con(m, G=2, off="ClearOnInit")) for m in ("imit", "acpkm")], NEG)
    api(ctx, [[a] for a in ALL], ["md", "pkey", "reinit", "size", "mesh"], ctx.scale(700, 15000), depth=28, slots=2, maxlen=120, label="orders and sizes")
    api(ctx, [ALL], ["md", "pkey", "reinit", "size", "mesh", "copy"], ctx.scale(900, 20000), depth=40, slots=3, maxlen=120, label="mixed")


PLANS = dict(M01=M01, M02=M02)
