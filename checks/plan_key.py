from .plan_cipher import q

EN = "INIT Init\nNEXT Next\nINVARIANTS Emit %s\nCHECK_DEADLOCK FALSE\n"


def S(x):
    return "{%s}" % ",".join(map(str, x))


def kexp(ctx, algs, label):
    vals = list(range(ctx.scale(3, 14)))
    jobs = ctx.enumerate("KExp", EN % "Only", dict(Algs=q(algs), Vals=S(vals), Pairs=ctx.scale(9, 4)), label=label)
    ctx.replay("checks.kexp", jobs, label=label)


def K01(ctx):
    kexp(ctx, ["m", "k"], "alterations of exports")
    n = ctx.scale(200, 4000)
    ctx.replay("checks.kexp", [dict(k="defs", alg=a, num=n // 10, **{"from": f * n // 10}) for a in "mk" for f in range(10)], label="definition")
    jobs = []
    for a in "mk":
        hs = ctx.generate("KWrapApi", EN % "Sound", dict(Depth=24, Alg='"%s"' % a), ctx.scale(800, 20000), 72, shards=4, label="wrap cipher " + a)
        jobs += [dict(id="w%s%d" % (a, i), hist=h, alg=a) for i, h in enumerate(hs)]
    ctx.replay("checks.kexp", jobs, label="wrap ciphers")


def K02(ctx):
    kexp(ctx, ["cp"], "alterations of wrapped keys")
    n = ctx.scale(400, 8000)
    ctx.replay("checks.kexp", [dict(k="defs", alg="cp", num=n // 10, **{"from": f * n // 10}) for f in range(10)], label="definition")


def K03(ctx):
    jobs = ctx.enumerate("KdfTree", EN % "Leaf", dict(Labels=S([0, 1, 4, 8, 40]), Seeds=S([0, 1, 8, 16, 70]), Outs=S([0, 1, 31, 32, 33, 64, 96, 256, 2048, 8160, 8192, 8224] if ctx.quick else [0, 1, 31, 32, 33, 64, 96, 128, 256, 1024, 2048, 4096, 8160, 8192, 8224, 16416]),
                                                      Reps=S([0, 1, 2, 3, 4, 5]), Ivs=S(range(ctx.scale(6, 40)))), label="parameters and sequence numbers")
    ctx.replay("checks.kdf", jobs, label="KDF_TREE and TLSTREE")
    A = ["mctr", "mctra", "kctr", "kctra", "mmac", "kmac"]
    for algs, ops, n, lab in ((A, ["reinit", "copy"], ctx.scale(1200, 30000), "records"), (A + ["kofb", "kcfb", "g28cnt", "g28cfb"], ["reinit"], ctx.scale(400, 6000), "other modes")):
        hs = ctx.generate("TlsApi", EN % "Fresh", dict(Depth=26, NSlots=2, Algs=q(algs), Ops=q(ops), MaxLen=ctx.scale(2600, 9000)), n, 78, shards=8, label=lab)
        ctx.replay("checks.kdf", [dict(id=lab + str(i), hist=h) for i, h in enumerate(hs)], label=lab)


C01 = ["test", "A", "B", "C", "XA", "XB"]
C512 = ["512test", "512A", "512B", "512C"]


def fams(g01=(), g01dh=(), g256=(), g512=()):
    return dict(G01=q(g01), G01dh=q(g01dh), G256=q(g256), G512=q(g512))


ALLF = [("256-bit keys", fams(C01, ["A", "XA", "XB"], C01 + ["TCA", "TCB", "TCC", "TCD"])), ("512-bit keys", fams(g512=C512)),
        ("cofactor 4", fams(g256=["TCA"], g512=["512C"])), ("key types", fams(["A"], ["A"], ["A", "C"], ["512A"]))]


def K04(ctx):
    ok = dict(U=30, Cofactor="TRUE", Place='"point"', Refuse="TRUE", Adjust="TRUE")
    inv = "INIT Init\nNEXT Next\nINVARIANTS Same Works Zero Apart Confined Hidden LowOrder\nCHECK_DEADLOCK FALSE\n"
    ctx.model("Agree", [("Z_%d x Z_%d" % (h, q_), dict(ok, Q=q_, H=h)) for q_, h in ((7, 1), (7, 4), (11, 4), (13, 2))], inv, timeout=300)
    ctx.model_neg("Agree", [("no cofactor", dict(ok, Q=7, H=4, Cofactor="FALSE")), ("cofactor reduced with the scalar", dict(ok, Q=7, H=4, Place='"scalar"')),
                            ("infinity not refused", dict(ok, Q=7, H=4, Refuse="FALSE"))], inv)
    kw = dict(NSlots=2, Cof='{"TCA","512C"}', Ops=q(["dup"]))
    n = ctx.scale(1, 12)
    gens = []
    for (lab, f), m, sh in zip(ALLF, (260, 100, 100, 80), (3, 2, 2, 1)):
        gens.append(dict(module="AgreeApi", cfg=EN % "Sound", consts=dict(kw, Depth=26, **f), num=m * n, depth=80, shards=sh, label=lab))
    for g, hs in zip(gens, ctx.generate_many(gens, 4)):
        ctx.replay("checks.agree", [dict(id=g["label"] + str(i), hist=h) for i, h in enumerate(hs)], label=g["label"], timeout=500)


def K05(ctx):
    kw = dict(NSlots=3, Cof='{"TCA","512C"}', Ops=q(["dup"]))
    n = ctx.scale(1, 14)
    gens = []
    for (lab, f), m, sh in zip(ALLF, (500, 200, 150, 200), (3, 1, 1, 1)):
        for fm in (["cp"], ["m", "k"], ["cp", "m", "k"]):
            gens.append(dict(module="TransApi", cfg=EN % "Only", consts=dict(kw, Depth=30, Fmts=q(fm), **f), num=m * n // 3 + 1, depth=90, shards=sh, label=lab + " " + "/".join(fm)))
    jobs = []
    for g, hs in zip(gens, ctx.generate_many(gens, 4)):
        jobs += [dict(id=g["label"] + str(i), hist=h) for i, h in enumerate(hs)]
    ctx.replay("checks.trans", jobs, label="key transport", timeout=700)


def signatures(ctx, focus, weights):
    n = ctx.scale(1, 14)
    gens = []
    FF = [("256-bit keys", fams(["A", "C", "XA", "XB"], ["A"], C01 + ["TCA", "TCB", "TCC", "TCD"]), weights[0]), ("2001 keys", fams(C01, C01), weights[1]), ("512-bit keys", fams(g512=C512), weights[2])]
    for lab, f, m in FF:
        gens.append(dict(module="SignApi", cfg=EN % "Only", consts=dict(f, Depth=30, NSlots=3, Focus='"%s"' % focus, MaxMsg=300), num=m * n, depth=90, shards=3, label=lab))
    jobs = []
    for g, hs in zip(gens, ctx.generate_many(gens, 3)):
        jobs += [dict(id=g["label"] + str(i), hist=h) for i, h in enumerate(hs)]
    ctx.replay("checks.sign", jobs, label="signatures", timeout=700)


SIGN = dict(RangeR="TRUE", RangeS="TRUE", Redraw="TRUE", FixSign="TRUE", FixVerify="TRUE", Keys="{1,2,5}")
TINY = [(17, 2, 2, 19, 0, 6), (17, 6, 8, 13, 0, 5), (31, 2, 14, 23, 0, 13), (23, 1, 4, 29, 0, 2)]
INV = "INIT Init\nNEXT Next\nINVARIANTS Complete InRange NotBare Congruent Strict Made OneDigest\nCHECK_DEADLOCK FALSE\n"


def tiny(i, part, **kw):
    p, a, b, q_, x, y = TINY[i]
    return dict(SIGN, P=p, A=a, B=b, Q=q_, GX=x, GY=y, Part='"%s"' % part, **kw)


def S01(ctx):
    which = [1, 3] if ctx.quick else range(len(TINY))
    ctx.model("Sign", [("y^2=x^3+%dx+%d mod %d, order %d" % (TINY[i][1], TINY[i][2], TINY[i][0], TINY[i][3]), tiny(i, "sign")) for i in which], INV, timeout=600)
    ctx.model_neg("Sign", [("no redrawing", dict(tiny(1, "sign"), Redraw="FALSE")), ("zero digest signed as zero", dict(tiny(1, "sign"), FixSign="FALSE")),
                           ("zero digest verified as zero", dict(tiny(1, "sign"), FixVerify="FALSE"))], INV)
    signatures(ctx, "sign", (300, 130, 130))


def S02(ctx):
    which = [1, 3] if ctx.quick else range(len(TINY))
    ctx.model("Sign", [("y^2=x^3+%dx+%d mod %d, order %d" % (TINY[i][1], TINY[i][2], TINY[i][0], TINY[i][3]), tiny(i, "verify")) for i in which], INV, timeout=600)
    ctx.model_neg("Sign", [("r not checked", dict(tiny(1, "verify"), RangeR="FALSE")), ("s not checked", dict(tiny(1, "verify"), RangeS="FALSE"))], INV)
    signatures(ctx, "verify", (300, 130, 130))


C256 = C01 + ["TCA", "TCB", "TCC", "TCD"]


def S03(ctx):
    ok = dict(FixEven="TRUE", FixSign="TRUE", FullTop="TRUE")
    inv = "INIT Init\nNEXT Next\nINVARIANTS Right Lookups TopPositive Fits Sparse\nCHECK_DEADLOCK FALSE\n"
    cases = [("window", 5, 11, 1), ("window", 3, 7, 1), ("comb", 5, 11, 3), ("comb", 2, 9, 3), ("two", 5, 6, 1), ("two", 2, 6, 1)]
    if not ctx.quick:
        cases += [("window", 5, 16, 1), ("comb", 5, 16, 3), ("comb", 2, 13, 4), ("two", 5, 8, 1), ("two", 3, 8, 1), ("two", 2, 8, 1)]
    ctx.model("ScalarMul", [("%s, %d-bit windows, %d-bit scalars" % (p, w, n), dict(ok, W=w, N=n, Teeth=t, Part='"%s"' % p)) for p, w, n, t in cases], inv, timeout=600)
    ctx.model_neg("ScalarMul", [("even scalars not corrected", dict(ok, W=5, N=7, Teeth=3, Part='"comb"', FixEven="FALSE")), ("sign not corrected", dict(ok, W=2, N=5, Teeth=1, Part='"two"', FixSign="FALSE")),
                                ("a digit too few", dict(ok, W=5, N=10, Teeth=3, Part='"window"', FullTop="FALSE"))], inv)
    gens, jobs = [], []
    n = ctx.scale(1, 10)
    for cs, bits, num, st in ((C256, 256, 260, 5), (C512, 512, 80, 13)):
        gens.append(dict(module="ScalarCases", cfg=EN % "Emit", consts=dict(Depth=24, Curves=q(cs), Part='"mixed"', Bits=bits, Stride=1), num=num * n, depth=72, shards=3, label="%d-bit curves" % bits))
        if not ctx.quick:
            st = 1
        for part in ("g", "var"):
            lab = "every bit, %s, %d" % (part, bits)
            for k, h in enumerate(ctx.enumerate("ScalarCases", EN % "Emit", dict(Depth=bits * 8 // st, Curves=q(cs), Part='"%s"' % part, Bits=bits, Stride=st), label=lab)):
                jobs += [dict(id="%s%d.%d" % (lab, k, x), curve=h[0], hist=h[1][x:x + 40]) for x in range(0, len(h[1]), 40)]
    for g, hs in zip(gens, ctx.generate_many(gens, 6)):
        jobs += [dict(id=g["label"] + str(i), curve=h[0], hist=h[1]) for i, h in enumerate(hs)]
    ctx.replay("checks.points", jobs, label="point multiplication", timeout=800)


PLANS = dict(S03=S03, S01=S01, S02=S02, K01=K01, K02=K02, K03=K03, K04=K04, K05=K05)
