"""Replay of HashApi.tla into the engine's digests (and HMAC over them)."""
import ctypes
from lib import evp, ref
from lib.evp import data, buf
from ctypes import c_uint, byref

MD = {"94": ("md_gost94", 32, 32), "256": ("md_gost12_256", 32, 64), "512": ("md_gost12_512", 64, 64)}


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.load(paths); e.C = e.eng.C
    e.md = {k: e.eng.digest(v[0]) for k, v in MD.items()}
    e.calls = e.bytes = e.digests = 0
    return e


def stats(e):
    return dict(calls=e.calls, bytes=e.bytes, digests=e.digests)


def content(e, jid, step, pat, pos, n):
    """bytes pos..pos+n of the message: patterns that make the checksum and counters carry"""
    if pat == "ff":
        return b"\xff" * n
    if pat == "zero":
        return bytes(n)
    if pat in ("carry", "one"):
        # block of ff.. then a block of 01 00.. (little-endian sums overflow); period 128
        per = b"\xff" * 64 + (b"\x01" + bytes(63) if pat == "carry" else b"\x01" * 64)
        o = pos % 128
        return (per * (n // 128 + 2))[o:o + n]
    if pat == "mix":
        per = b"\xff" * 24 + bytes(8) + b"\xff" * 8 + b"\x80" * 8 + bytes(7) + b"\x80" + b"\xfe" * 8 + b"\xff" * 64 + b"\x01" + bytes(63)
        o = pos % 192
        return (per * (n // 192 + 2))[o:o + n]
    return data(e.seed, "d", jid, step, n)


def _d(e, alg, m):
    if alg == "94":
        return e.R.h94(H94_SBOX, m)
    return e.R.streebog(int(alg), m)


H94_SBOX = 1   # id-GostR3411-94-CryptoProParamSet in ref.c


def run_job(e, job):
    ctx = {}
    try:
        return _run(e, job, ctx)
    finally:
        for x in ctx.values():
            e.C.EVP_MD_CTX_free(x)
        e.C.ERR_clear_error()


def _run(e, job, ctx):
    C, jid = e.C, job["id"]
    inp = {}
    for i, o in enumerate(job["ops"]):
        s, op = o["s"], o["op"]
        e.calls += 1

        def bad(why, **kw):
            d = {"step": i, "op": {k: v for k, v in o.items() if k != "seg"}, "why": why, "errors": C.errs()[:3]}
            d.update({k: v.hex() for k, v in kw.items()})
            return d
        if s not in ctx:
            ctx[s] = C.EVP_MD_CTX_new()
        x = ctx[s]
        if op == "init":
            if C.EVP_DigestInit_ex(x, None if o["again"] else e.md[o["alg"]], e.eng.e if o["s"] == 1 and not o["again"] else None) != 1:
                return bad("init failed")
        elif op == "upd":
            d = content(e, jid, i + 1, o["pat"], o["pos"], o["n"])
            inp[i + 1] = d
            al = o["align"]
            b = buf(b"\x33" * al + d + b"\x77" * 64, al + len(d) + 64)
            if C.EVP_DigestUpdate(x, ctypes.cast(ctypes.addressof(b) + al, ctypes.c_char_p), len(d)) != 1:
                return bad("update failed")
            e.bytes += len(d)
        elif op == "fin":
            n = MD[o["alg"]][1]
            ob = buf(b"\x5a" * (n + 16), n + 16); ol = c_uint(0)
            if C.EVP_DigestFinal_ex(x, ctypes.addressof(ob), byref(ol)) != 1:
                return bad("final failed")
            m = b"".join(inp[k] for k, _ in o["seg"])
            w = _d(e, o["alg"], m)
            e.digests += 1
            if ol.value != n or ob.raw[:n] != w:
                return bad("wrong digest of %d bytes" % len(m), got=ob.raw[:n], expected=w)
            if ob.raw[n:] != b"\x5a" * 16:
                return bad("wrote past the digest")
        elif op == "copy":
            if o["t"] not in ctx:
                ctx[o["t"]] = C.EVP_MD_CTX_new()
            if C.EVP_MD_CTX_copy_ex(ctx[o["t"]], x) != 1:
                return bad("copy failed")
        elif op == "reset":
            if o["free"]:
                C.EVP_MD_CTX_free(x); del ctx[s]
            else:
                C.EVP_MD_CTX_reset(x)
    return None
