from lib import modes
ALGS = list(modes.ALG)
q = lambda xs: "{%s}" % ",".join('"%s"' % x for x in xs)
TF = lambda b: "TRUE" if b else "FALSE"
rng = lambda n: "{%s}" % ",".join(map(str, range(1, n + 1)))

STREAM_CFG = "INIT Init\nNEXT Next\nINVARIANTS Meaning NumInRange CountOk\nCHECK_DEADLOCK FALSE\n"


def stream(machine, lazy, cnt, B, S, mx, slots=1, keys=1, ivs=1, rn=True, rc=True, rk=True):
    return dict(Machine='"%s"' % machine, Lazy=TF(lazy), CntMode='"%s"' % cnt, B=B, S=S, MaxPos=mx, Slots=rng(slots),
                Keys=rng(keys), Ivs=rng(ivs), ResetNum=TF(rn), ResetCtr=TF(rc), ResetKey=TF(rk))


M = {"numctr+S": ("numctr", False, "x", 2, 4), "numctr": ("numctr", False, "x", 2, 0), "blkctr": ("blkctr", False, "x", 4, 0),
     "cnt": ("regofb", False, "cnt", 2, 4), "ofb": ("regofb", True, "ofb", 4, 0), "cfb+S": ("regcfb", False, "x", 2, 4),
     "cfb": ("regcfb", True, "x", 4, 0)}


def models(ctx, mx, slots=1, keys=1, ivs=1, only=None, scale=2):
    cf = [("%s max=%d slots=%d keys=%d" % (k, mx * (1 if ctx.quick else scale), slots, keys),
           stream(*M[k], mx=mx * (1 if ctx.quick else scale), slots=slots, keys=keys, ivs=ivs)) for k in (only or M)]
    ctx.model("StreamImpl", cf, STREAM_CFG)


def neg(ctx, which):
    ctx.model_neg("StreamImpl", [(w, stream(*M["numctr+S"], mx=9, keys=2, **{w: False})) for w in which], STREAM_CFG)


def terms(ctx):
    """the replay oracle is compared with the specification's own terms"""
    out = ctx.enumerate("ModesEval", "INIT Init\nNEXT Next\nINVARIANTS Show EpochRule\nCHECK_DEADLOCK FALSE\n",
                        dict(BSet="{8,16}", NBlk=ctx.scale(7, 20)), label="keystream terms")
    ctx.replay("checks.terms", out, label="oracle against Modes.tla terms", sample=0)


API_CFG = "INIT Init\nNEXT Next\nINVARIANTS Emit TypeOK\nCHECK_DEADLOCK FALSE\n"


def api(ctx, ops, num, focus=None, depth=24, slots=2, maxtot=12000, maxlen=2000, label=""):
    """one TLC simulation per algorithm (so that each gets the same share), side by side"""
    focus = focus or ALGS
    specs = [dict(module="CipherApi", cfg=API_CFG, num=num, depth=depth + 1, shards=1, label="%s %s" % (label, a),
                  consts=dict(Depth=depth, NSlots=slots, MaxTotal=maxtot, Focus=q([a]), Ops=q(ops), MaxLen=maxlen)) for a in focus]
    hs = ctx.generate_many(specs)
    jobs, k = [], 0
    for h in hs:
        for b in h:
            jobs.append(dict(id=k, ops=b)); k += 1
    return jobs


def C01(ctx):
    models(ctx, 11)
    terms(ctx)
    ctx.replay("checks.ciphers", api(ctx, ["new", "pad", "sbox"], ctx.scale(150, 3000), label="cutting"), label="any cutting")
    ctx.replay("checks.ciphers", api(ctx, ["new"], ctx.scale(6, 60), depth=12, slots=1, maxtot=2200000, maxlen=300000, label="long"), label="long messages")
    ctx.replay("checks.bulk", [dict(alg=a, blocks=(1 << 24) + 5) for a in ("kctr", "mctr")] +
               [dict(alg=a, blocks=(1 << 16) + 5) for a in ("kctr", "mctr", "g28cnt", "kctra", "mctra")], label="counter carries far into a message")


def C02(ctx):
    models(ctx, 11)
    hs = ctx.generate_many([dict(module="RoundTrip", cfg="INIT Init\nNEXT Next\nINVARIANTS Emit Flow\nCHECK_DEADLOCK FALSE\n",
                                 consts=dict(Depth=30, Focus=q([a]), MaxTot=ctx.scale(5000, 40000)), num=ctx.scale(180, 4000), depth=31, shards=1, label=a)
                            for a in ALGS])
    jobs = [dict(id="%d.%d" % (i, j), ops=h) for i, hh in enumerate(hs) for j, h in enumerate(hh)]
    ctx.replay("checks.roundtrip", jobs, label="sender/receiver")


MESH = ["g28cfb", "g28cnt", "g28cn12", "mctr", "mctra", "kctra"]


def C03(ctx):
    models(ctx, 17, only=["numctr+S", "cnt", "cfb+S"])
    ctx.model("StreamImpl", [("numctr S=%d B=%d" % (s, b), stream("numctr", False, "x", b, s, 3 * s + 1)) for b, s in ((1, 1), (1, 3), (2, 2), (2, 6), (4, 8))]
              + [("cfb S=%d" % s, stream("regcfb", False, "x", 2, s, 3 * s + 1)) for s in (2, 6)], STREAM_CFG)
    terms(ctx)
    ctx.replay("checks.ciphers", api(ctx, ["new", "mesh"], ctx.scale(350, 6000), focus=MESH, maxtot=20000, maxlen=5000, label="sections"), label="section boundaries")
    rest = [a for a in ALGS if a not in MESH]
    ctx.replay("checks.ciphers", api(ctx, ["new", "mesh"], ctx.scale(40, 500), focus=rest, maxtot=9000, maxlen=5000, label="no meshing"), label="ciphers without meshing")


def C04(ctx):
    models(ctx, 7, keys=2, ivs=2)
    neg(ctx, ["rn", "rc", "rk"])
    ctx.replay("checks.ciphers", api(ctx, ["new", "reinit", "mesh"], ctx.scale(200, 4000), depth=28, maxtot=6000, label="reinit"), label="re-initialisation anywhere")


def C05(ctx):
    models(ctx, 7, slots=2)
    ctx.replay("checks.ciphers", api(ctx, ["new", "copy", "reinit", "mesh", "sbox"], ctx.scale(200, 4000), depth=30, slots=3, maxtot=6000, label="copies"), label="cipher context copies")
    from . import plan_aead, plan_digest, plan_mac
    plan_aead.mgm_models(ctx, ["copy"])
    plan_aead.mgm_api(ctx, ["reinit", "copy"], ctx.scale(200, 6000), slots=3, maxlen=120, label="mgm copies")
    plan_digest.api(ctx, [["94", "256", "512"]], ["copy"], ctx.scale(300, 9000), depth=34, slots=3, maxlen=200, label="digest copies")
    plan_mac.api(ctx, [[a] for a in plan_mac.ALL], ["md", "pkey", "mesh", "copy"], ctx.scale(200, 6000), depth=34, slots=3, maxlen=120, label="mac copies")
    plan_mac.api(ctx, [["kacpkm"], ["gmac", "gmac12"], ["kacpkm", "mmac", "kmac"]], ["md", "mesh", "copy", "calm"], ctx.scale(400, 6000), depth=26, slots=2, maxlen=1300, label="mac copies across sections")
    from .plan_aead import omac_api
    omac_api(ctx, ["order", "copy"], (ctx.scale(150, 2500),) * 2, (3000, 9000), "CTR-ACPKM-OMAC copies")


PLANS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05)
