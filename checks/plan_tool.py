"""T: the programs of the distribution."""
from .plan_key import EN


def T01(ctx):
    base = dict(NFiles=10, NSizes=16, MaxLines=9, ShortLists=ctx.scale(2, 3))
    ls = ctx.enumerate("SumTool", "INIT ListInit\nNEXT ListNext\nINVARIANTS ListEmit Sound Orderless\nCHECK_DEADLOCK FALSE\n", dict(base, Depth=20), label="every short list")
    hs = ctx.generate("SumTool", EN % "Sound Orderless", dict(base, Depth=40), num=ctx.scale(500, 8000), depth=120, shards=4, label="a changing directory")
    jobs = [dict(id="l%d" % i, hist=h) for i, h in enumerate(ls)] + [dict(id="h%d" % i, hist=h) for i, h in enumerate(hs)]
    ctx.replay("checks.sumtool", jobs, what="tools", label="gostsum and gost12sum", timeout=800)


PLANS = dict(T01=T01)
