"""L: settings, life cycle and threads of the engine."""
from .plan_key import EN, q

KINDS = ["md94", "md256", "md512", "cfb", "kcbc", "kctr", "mctr", "kmgm", "kofb"]

LIMPL = dict(Lives=4, Mapped="TRUE", RemoveNames="TRUE", RemoveAliases="TRUE", UnregFirst="TRUE", ClearMethods="TRUE", ClearGroups="TRUE")


def L01(ctx):
    hs = ctx.generate("Settings", EN % "Good", dict(Depth=40, NCtx=2), num=ctx.scale(900, 12000), depth=120, shards=4, label="settings")
    ctx.replay("checks.life", [dict(id="set%d" % i, hist=h, mapped=i % 2) for i, h in enumerate(hs)], label="settings", timeout=800)


def L02(ctx):
    inv = "INIT Init\nNEXT Next\nINVARIANTS NoDangling NothingLeft\nCHECK_DEADLOCK FALSE\n"
    ctx.model("LifeImpl", [("mapped", LIMPL), ("unmapped", dict(LIMPL, Mapped="FALSE"))], inv)
    ctx.model_neg("LifeImpl", [(k, dict(LIMPL, **{k: "FALSE"})) for k in ("RemoveNames", "RemoveAliases", "UnregFirst", "ClearMethods", "ClearGroups")], inv)
    n = ctx.scale(1, 12)
    cfg = EN % "Alive Clean"
    gens = [dict(module="Life", cfg=cfg, consts=dict(Depth=d, NCtx=c, NKeys=k, Kinds=q(KINDS)), num=m * n, depth=3 * d, shards=3, label=l)
            for l, d, c, k, m in (("short", 14, 1, 1, 400), ("long", 60, 3, 3, 500), ("contexts", 40, 3, 1, 300), ("keys", 60, 1, 3, 300))]
    jobs = []
    for g, hs in zip(gens, ctx.generate_many(gens, 3)):
        jobs += [dict(id=g["label"] + str(i), hist=h) for i, h in enumerate(hs)]
    # the program keeps the image mapped in one half of the histories
    for k, j in enumerate(jobs):
        j["mapped"] = k % 2
    ctx.replay("checks.life", jobs, label="lives of the engine", timeout=800)
    h = [dict(op="load", ok=1), dict(op="remove", gone=0), dict(op="free", gone=1), dict(op="lookup")]
    ctx.replay("checks.life", [dict(id="stale", hist=h, key="stale-tables")], label="no unregistering before the last release")


TIMPL = dict(NT=3, UseLock="TRUE", RenameShared="FALSE", PublishEarly="FALSE", FreeOld="TRUE", UseString="TRUE")


def L03(ctx):
    inv = "SPECIFICATION Spec\nINVARIANTS Right Once Valid\nPROPERTIES AllDone\nCHECK_DEADLOCK FALSE\n"
    ctx.model("ThreadsImpl", [("three threads", TIMPL)], inv)
    ctx.model_neg("ThreadsImpl", [("no lock", dict(TIMPL, UseLock="FALSE")), ("renamed", dict(TIMPL, RenameShared="TRUE")),
                                  ("published early", dict(TIMPL, UseLock="FALSE", PublishEarly="TRUE", FreeOld="FALSE"))], inv)
    base = dict(Depth=30, MaxOps=2, MaxSteps=14, Fraction=ctx.scale(9, 20))
    pairs = ctx.enumerate("Threads", "INIT PairInit\nNEXT PairNext\nINVARIANTS Emit Whole\nCHECK_DEADLOCK FALSE\n", dict(base, NT=2), label="all pairs")
    gens = [dict(module="Threads", cfg=EN % "Whole", consts=dict(base, NT=n, MaxOps=o, Depth=d), num=ctx.scale(300, 6000), depth=3 * d, shards=4, label="%d threads" % n)
            for n, o, d in ((2, 2, 24), (3, 2, 30))]
    # level 2: library calls that write into the caller's memory are scheduling points, too
    jobs = [dict(id="p%d.%d" % (i, lv), hist=h, level=lv) for i, h in enumerate(pairs) for lv in (1, 2) if lv == 1 or h[1]["do"]["kind"] in ("trans", "mac", "stream", "derive", "crypt", "ssign", "strans") or not ctx.quick]
    for g, hs in zip(gens, ctx.generate_many(gens, 2)):
        jobs += [dict(id=g["label"] + str(i), hist=h, level=1 + i % 2) for i, h in enumerate(hs)]
    ctx.replay("checks.threads", jobs, what="wrap", label="schedules", timeout=800)


PLANS = dict(L01=L01, L02=L02, L03=L03)
