"""E: encodings of keys and cipher parameters, names of parameter sets."""
from .plan_key import EN, q, C256, C512

FORMS = dict(N=3, Base=7, Q=337, MaxMasks=1, Little="TRUE", KeepZeros="TRUE", RangeCheck="TRUE", LenCheck="TRUE")


def E01(ctx):
    inv = "INIT Init\nNEXT Next\nINVARIANTS RoundTrip Never Refused Lost InRange\nCHECK_DEADLOCK FALSE\n"
    ctx.model("KeyForms", [("3 bytes of base 7, order 337", FORMS), ("order 31, two masks", dict(FORMS, Q=31, MaxMasks=2))]
              + ([] if ctx.quick else [("4 bytes of base 6, order 1283", dict(FORMS, N=4, Base=6, Q=1283)), ("order 23, three masks", dict(FORMS, Q=23, MaxMasks=3))]), inv, timeout=700)
    ctx.model_neg("KeyForms", [(k, dict(FORMS, **{k: "FALSE"})) for k in ("Little", "KeepZeros", "RangeCheck", "LenCheck")], inv)
    n = ctx.scale(1, 12)
    gens = []
    for foc, k in (("alter", 160), ("use", 90)):
        for small, big in ((C256, []), ([], C512)):
            gens.append(dict(module="KeyApi", cfg=EN % "", consts=dict(Depth=36, NSlots=4, Small=q(small), Big=q(big), Focus='"%s"' % foc), num=k * n // (1 if small else 2), depth=110, shards=3,
                             label="%s, %s keys" % (foc, "256-bit" if small else "512-bit")))
        gens.append(dict(module="KeyApi", cfg=EN % "", consts=dict(Depth=36, NSlots=4, Small=q(C256), Big=q(C512), Focus='"%s"' % foc), num=k * n // 3, depth=110, shards=2, label="%s, all" % foc))
    jobs = []
    for g, hs in zip(gens, ctx.generate_many(gens, 3)):
        jobs += [dict(id=g["label"] + str(i), hist=h) for i, h in enumerate(hs)]
    ctx.replay("checks.keys", jobs, label="keys and their encodings", timeout=800)


SUP = ["g28cfb", "g28cbc", "g28cnt", "g28cn12", "mcbc", "mctr", "mctra", "mctro", "kctr", "kctra", "kctro"]
UNSUP = ["mecb", "kecb", "kcbc", "kcfb", "kofb", "mmgm", "kmgm"]
PIMPL = dict(Slots="{1, 2}", Keys="{1}", Ivs="{1, 2}", Boxes="{1, 2}", Steps=6, BothIvs="TRUE", RefuseBox="TRUE", MeshOnly="TRUE", NewIvDefault="TRUE", KeepBig="TRUE")


def E02(ctx):
    inv = "INIT Init\nNEXT Next\nINVARIANTS Told Says\nCHECK_DEADLOCK FALSE\n"
    ctx.model("ParamsImpl", [(k, dict(PIMPL, Kind='"%s"' % k, Steps=ctx.scale(5, 7))) for k in ("free", "fixed", "mesh", "plain")], inv)
    ctx.model_neg("ParamsImpl", [(k + " " + off, dict(PIMPL, Kind='"%s"' % k, **{off: "FALSE"})) for k, off in
                                 (("free", "BothIvs"), ("fixed", "RefuseBox"), ("plain", "MeshOnly"), ("mesh", "NewIvDefault"), ("mesh", "KeepBig"))], inv)
    cfg = EN % "SelfRead"
    n = ctx.scale(1, 15)
    gens = [dict(module="CipherParams", cfg=cfg, consts=dict(Depth=30, NSlots=3, Algs=q(a), MaxLen=mx), num=k * n, depth=90, shards=3, label=l)
            for l, a, mx, k in (("gost89", SUP[:4], 3000, 200), ("magma", ["mcbc", "mctr", "mctra", "mctro"], 20000, 200), ("kuznyechik", ["kctr", "kctra", "kctro"], 3000, 150),
                                ("long", ["kctra", "mctra", "kctr", "mctr"], 600000, 24), ("none", UNSUP + ["mctra", "kctra"], 500, 200), ("all", SUP + UNSUP, 9000, 120))]
    jobs = []
    for g, hs in zip(gens, ctx.generate_many(gens, 3)):
        jobs += [dict(id=g["label"] + str(i), ops=h) for i, h in enumerate(hs)]
    ctx.replay("checks.cparams", jobs, label="parameters taken, altered, given", timeout=800)


def E03(ctx):
    cfg = EN % "FitsOnly OneSet"
    hs = ctx.enumerate("ParamNames", cfg, dict(Depth=9, NSlots=1, Mode='"sweep"'), label="every name on every kind of context", workers=4)
    ctx.replay("checks.names", [dict(id="sweep%d" % i, hist=h) for i, h in enumerate(hs)], label="every name")
    hs = ctx.generate("ParamNames", cfg, dict(Depth=24, NSlots=3, Mode='"walk"'), num=ctx.scale(500, 8000), depth=70, shards=4, label="histories")
    ctx.replay("checks.names", [dict(id="walk%d" % i, hist=h) for i, h in enumerate(hs)], label="histories", timeout=800)


PLANS = dict(E01=E01, E02=E02, E03=E03)
