from concurrent.futures import ThreadPoolExecutor
from .plan_cipher import q, TF, rng
from . import plan_cipher, plan_aead, plan_digest, plan_mac, plan_key, plan_enc, plan_life, plan_prov, plan_app

MEM = "SPECIFICATION Spec\nINVARIANTS Owned OneOwner NeverTwice Balanced\nCHECK_DEADLOCK FALSE\n"


def mem(n, b, *off):
    d = dict(Objs=rng(n), Blocks=rng(b))
    for k in ("StartReleases", "StartUnmarks", "CopyOwns", "CopyReleases", "RefuseReleases"):
        d[k] = TF(k not in off)
    return d


def plans():
    P = {}
    for m in (plan_cipher, plan_aead, plan_digest, plan_mac, plan_key, plan_enc, plan_life, plan_prov, plan_app):
        P.update(m.PLANS)
    return P


def F02(ctx):
    ctx.model("Memory", [("3 objects", mem(3, 4))] + ctx.scale([], [("4 objects", mem(4, 5))]), MEM)
    ctx.model_neg("Memory", [(k + " off", mem(3, 4, k)) for k in ("StartReleases", "StartUnmarks", "CopyOwns", "CopyReleases", "RefuseReleases")], MEM)
    P = plans()
    which = ctx.scale("C05 P01 X01 K01 L02 A03 M02 K02 K03 K05 S01 E01 L01".split(),
                      "P01 X03 X02 X01 L02 C01 C04 C05 A01 A03 A04 D02 M01 M02 K01 K02 K03 K04 K05 S01 S02 S03 E01 E02 E03 L01 L03".split())
    for w in ("engine", "prov") + (() if ctx.quick else ("wrap",)):
        ctx.paths(w)
    with ThreadPoolExecutor(ctx.scale(4, 2)) as ex:
        for f in [ex.submit(ctx.weigh, P[p], ctx.scale(48, 400), ctx.scale(8, 2)) for p in which]:
            f.result()


PLANS = dict(F02=F02)
