from .plan_cipher import q, TF, rng
from .plan_key import EN
from lib import build as B

IMP = "SPECIFICATION Spec\nINVARIANTS NoCrash NeverWrong FailedIsRefused NothingLeft Untorn\nCHECK_DEADLOCK FALSE\n"
SW = "INIT Init\nNEXT NextS\nINVARIANTS EmitS WholeObjects\nCHECK_DEADLOCK FALSE\n"
DIG = ["md_gost94", "md_gost12_256", "md_gost12_512"]
MACS = ["gost-mac", "gost-mac-12", "magma-mac", "kuznyechik-mac", "kuznyechik-ctr-acpkm-omac"]
CIPH = ["gost89", "gost89-cbc", "gost89-cnt", "gost89-cnt-12", "magma-cbc", "magma-ctr", "magma-ctr-acpkm", "magma-ctr-acpkm-omac", "magma-mgm",
        "kuznyechik-ecb", "kuznyechik-cbc", "kuznyechik-cfb", "kuznyechik-ofb", "kuznyechik-ctr", "kuznyechik-ctr-acpkm", "kuznyechik-ctr-acpkm-omac", "kuznyechik-mgm"]
PCIPH = [c for c in CIPH if not c.endswith("-omac")]    # which the provider does not get to work without the engine
WRAPS = ["magma-kexp15", "kuznyechik-kexp15"]


def imp(n, *off):
    d = dict(Parts=n, Random="{2}", MaxTries=3)
    for k in ("Checked", "Propagated", "OldKept", "CleansUp"):
        d[k] = TF(k not in off)
    return d


def F01(ctx):
    ctx.model("FaultsImpl", [("%d parts" % n, imp(n)) for n in (3, 4)], IMP)
    ctx.model_neg("FaultsImpl", [(k + " off", imp(3, k)) for k in ("Checked", "Propagated", "OldKept", "CleansUp")], IMP)
    env = dict(LD_PRELOAD=B.faults())
    few = dict(G01='{"A"}', G256='{"TCA"}', G512='{"512A"}')
    all_ = dict(G01='{"A","B","C"}', G256='{"A","B","C","TCA","TCB","TCC","TCD"}', G512='{"512A","512B","512C"}')
    K = dict(few if ctx.quick else all_, Depth=1, What='"sweep"', MaxAt=1, Slots="{1}", Ctxs="{1}")
    eng = ctx.enumerate("FaultsApi", SW, dict(K, Digests=q(DIG), Macs=q(MACS), Ciphers=q(CIPH), Wraps=q(WRAPS), Interfaces='{"keys","load"}'), label="engine: every operation, every position")
    eng = [dict(j, part=i, of=4) for j in eng if j["on"] == "key" for i in range(4)] + [j for j in eng if j["on"] != "key"]      # the long ones in pieces
    ctx.replay("checks.faults", eng, label="engine: every operation, every position", env=env, timeout=800)
    prov = ctx.enumerate("FaultsApi", SW, dict(K, Digests=q(DIG), Macs=q(MACS), Ciphers=q(PCIPH), Wraps="{}", Interfaces="{}"), label="provider: every operation, every position")
    ctx.replay("checks.faults", prov, what="prov", label="provider: every operation, every position", env=env, timeout=800)
    H = dict(all_, Digests=q(DIG), Macs=q(MACS), Ciphers=q(CIPH), Wraps=q(WRAPS), Interfaces="{}", Slots="{1,2,3}", Ctxs="{1,2,3}")
    gens = [dict(module="FaultsApi", cfg=EN % "WholeObjects", consts=dict(H, Depth=d, What='"%s"' % w, MaxAt=m, **x), num=ctx.scale(n, 20 * n), depth=3 * d, shards=2, label=l)
            for l, w, d, m, n, x in (("keys", "keys", 24, 60, 160, {}), ("contexts", "ctxs", 40, 12, 240, {}), ("provider contexts", "ctxs", 40, 12, 240, dict(Wraps="{}", Ciphers=q(PCIPH))))]
    for g, hs in zip(gens, ctx.generate_many(gens, 3)):
        ctx.replay("checks.faults", [dict(id=g["label"] + str(i), hist=h) for i, h in enumerate(hs)], what="prov" if g["label"][0] == "p" else "engine",
                   label="histories: " + g["label"], env=env, timeout=800)


PLANS = dict(F01=F01)
