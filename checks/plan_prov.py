"""P: the provider gives what the engine gives - the same specifications, replayed through the other interface."""
from lib import modes
from .plan_cipher import api as cipher_api, q
from .plan_key import EN
from . import plan_digest, plan_aead

CIPHERS = [a for a in modes.ALG if a != "mecb"]


def P01(ctx):
    ctx.replay("checks.ciphers", cipher_api(ctx, ["new", "reinit", "copy", "pad", "mesh", "askiv"], ctx.scale(150, 3000), focus=CIPHERS, depth=28, slots=3, maxtot=6000, label="provider"),
               what="prov", label="provider ciphers")
    plan_digest.api(ctx, [["94"], ["256", "512"], ["94", "256", "512"]], ["reinit", "copy", "reset"], ctx.scale(300, 9000), depth=34, slots=3, maxlen=200, label="provider digests", what="prov")
    plan_aead.mgm_api(ctx, ["reinit", "copy", "ivlen"], ctx.scale(400, 9000), slots=3, label="provider mgm", what="prov")
    cparams(ctx)
    macs(ctx)
    life(ctx)


def cparams(ctx):
    n = ctx.scale(1, 15)
    gens = [dict(module="CipherParams", cfg=EN % "SelfRead", consts=dict(Depth=30, NSlots=3, Algs=q(a), MaxLen=mx), num=k * n, depth=90, shards=3, label=l)
            for l, a, mx, k in (("gost89", ["g28cfb", "g28cbc"], 3000, 200), ("fixed", ["g28cnt", "g28cn12", "mcbc"], 3000, 100), ("ctr", ["mctr", "kctr", "mctra", "kctra"], 20000, 200),
                                ("none", ["kecb", "kcbc", "kcfb", "kofb", "mmgm", "kmgm"], 300, 60))]
    jobs = []
    for g, hs in zip(gens, ctx.generate_many(gens, 3)):
        jobs += [dict(id=g["label"] + str(i), ops=h) for i, h in enumerate(hs) if not any(o["op"] == "sbox" for o in h)]
    ctx.replay("checks.cparams", jobs, what="prov", label="parameters through the provider", timeout=800)


def macs(ctx):
    n = ctx.scale(1, 20)
    gens = [dict(module="ProvMac", cfg=EN % "Sane", consts=dict(Depth=d, NSlots=3, Algs=q(a), MaxLen=mx), num=k * n, depth=3 * d, shards=3, label="provider " + l)
            for l, a, mx, k, d in (("imit", ["gmac", "gmac12"], 2500, 200, 30), ("omac", ["mmac", "kmac"], 300, 200, 30), ("acpkm", ["kacpkm"], 5000, 250, 30),
                                   ("all", ["gmac", "gmac12", "mmac", "kmac", "kacpkm"], 600, 150, 60))]
    jobs = [dict(id=g["label"] + str(i), ops=h) for g, hs in zip(gens, ctx.generate_many(gens, 3)) for i, h in enumerate(hs)]
    ctx.replay("checks.provmac", jobs, what="prov", label="EVP_MAC", timeout=800)


def life(ctx):
    from .provlife import LOOK, CIPH, MACS, MD
    algs = list(CIPH) + list(MACS) + list(MD)
    n = ctx.scale(1, 20)
    gens = [dict(module="ProvLife", cfg=EN % "Alive", consts=dict(Depth=d, Libs="{0,1,2}", NSlots=4, Algs=q(a), Names=q(LOOK)), num=k * n, depth=3 * d, shards=3, label="loading " + l)
            for l, a, k, d in (("all", algs, 150, 40), ("mac", list(MACS), 60, 40), ("long", algs, 40, 120))]
    jobs = [dict(id=g["label"] + str(i), ops=h) for g, hs in zip(gens, ctx.generate_many(gens, 3)) for i, h in enumerate(hs)]
    ctx.replay("checks.provlife", jobs, what="prov", label="several library contexts", timeout=800)


PLANS = dict(P01=P01)
