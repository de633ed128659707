"""X: what applications do with the algorithms - encrypted and signed messages, certificates, sessions."""
from .plan_key import EN, fams
from .plan_cipher import q

F256 = fams(["A"], ["XA"], ["A", "TCA", "TCB", "XB"])
F512 = fams(g512=["512A", "512B", "512C"])
BOTH = dict(F256, G512=F512["G512"])


def X01(ctx):
    S1 = "{0,1,7,15,16,17,100,1023,1024,1025,4096,8191,8192,8193,20000}"
    gens = []
    for l, fs, cs, fm, sz, n, d in (("mixed", BOTH, ["g89", "macp", "maco", "kacp", "kaco"], ["cp", "m", "k", "am", "ak"], S1, 110, 30),
                                    ("transport", F256, ["g89"], ["cp"], S1, 30, 30),
                                    ("agreement", BOTH, ["macp", "maco", "kacp", "kaco"], ["am", "ak"], "{1,40}", 60, 30),
                                    ("authenticated", BOTH, ["maco", "kaco"], ["cp", "m", "k", "am", "ak"], "{0,1,15,16,17,40}", 70, 40),
                                    ("long", BOTH, ["macp", "maco", "kacp", "kaco"], ["m", "k", "am", "ak"], "{262143,262144,262145,300001}", 4, 14)):
        gens.append(dict(module="Envelope", cfg=EN % "Confined Authentic", consts=dict(fs, Depth=d, Ciphers=q(cs), Sizes=sz, Forms=q(fm), MaxMsgs=12),
                         num=ctx.scale(n, 12 * n), depth=3 * d, shards=4, label="envelopes " + l))
    jobs = [dict(id=g["label"] + str(i), hist=h) for g, hs in zip(gens, ctx.generate_many(gens, 2)) for i, h in enumerate(hs)]
    ctx.replay("checks.envelope", jobs, label="encrypted messages", timeout=800)


def X02(ctx):
    SZ = "{0,1,31,32,33,63,64,65,1000,4096,20000}"
    F = dict(fams(["A", "B", "C"], ["XA"], ["A", "TCA", "B", "C"], ["512A", "512B", "512C"]))
    gens = []
    for l, w, n, d in (("all", ["certs", "msgs"], 60, 40), ("certificates", ["certs"], 60, 40), ("messages", ["msgs"], 100, 40)):
        gens.append(dict(module="Signed", cfg=EN % "Unforged", consts=dict(F, Depth=d, Sizes=SZ, MaxObjs=14, MaxMsgs=12, What=q(w)),
                         num=ctx.scale(n, 12 * n), depth=3 * d, shards=4, label="signed " + l))
    jobs = [dict(id=g["label"] + str(i), hist=h) for g, hs in zip(gens, ctx.generate_many(gens, 2)) for i, h in enumerate(hs)]
    ctx.replay("checks.signed", jobs, label="signed things", timeout=800)


def X03(ctx):
    F = dict(fams(["A", "B", "C"], ["XA"], ["A", "TCA", "B", "XB"], ["512A", "512B", "512C"]))
    F = {k: v for k, v in F.items() if k != "G01dh"}
    ALL = ["kuz", "magma", "iana", "legacy", "null12", "gost01", "null01"]
    SZ = "{1,2,15,16,17,100,1000,1023,1024,1025,4000,16383,16384,16385,40000}"
    gens = []
    for l, su, ve, w, bu, n, d in (("mixed", ALL, ["t10", "t11", "t12", "t12", "t12"], ["all"], "{2,5,70}", 48, 40),
                                   ("attacked", ALL, ["t10", "t12"], ["wire", "renew"], "{1}", 48, 50),
                                   ("modern", ["kuz", "magma"], ["t12"], ["all"], "{64,65,130,300}", 16, 40),
                                   ("long", ["magma"], ["t12"], ["burst"], "{4095,4097,5000}", 8, 16)):
        gens.append(dict(module="Tls", cfg=EN % "Faithful Genuine", consts=dict(F, Depth=d, Suites=q(su), Versions=q(ve), Sizes=SZ, Bursts=bu, MaxConns=8, What=q(w)),
                         num=ctx.scale(n, 12 * n), depth=3 * d, shards=4, label="sessions " + l))
    jobs = [dict(id=g["label"] + str(i), hist=h) for g, hs in zip(gens, ctx.generate_many(gens, 2)) for i, h in enumerate(hs)]
    ctx.replay("checks.tls", jobs, label="TLS sessions", timeout=800)


PLANS = dict(X01=X01, X02=X02, X03=X03)
