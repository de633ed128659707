"""Digests of messages long enough for the length counters to carry; repeated content fed in big pieces."""
import ctypes
from lib import evp, ref
from lib.evp import data, buf
from ctypes import c_uint, byref
from .digests import setup, stats, MD, _d, Env


def run_job(e, job):
    C = e.C; n = job["n"]; alg = job["alg"]
    unit = (b"\xff" * (1 << 20)) if job["pat"] == "ff" else data(e.seed, "big", alg, 1 << 20)
    m = (unit * (n // len(unit) + 1))[:n]
    x = C.EVP_MD_CTX_new()
    C.EVP_DigestInit_ex(x, e.md[alg], e.eng.e)
    p = 0
    for k in job["cuts"] + [n]:
        k = min(k, n)
        if k > p:
            C.EVP_DigestUpdate(x, m[p:k], k - p); p = k
    L = MD[alg][1]
    ob = buf(L)
    C.EVP_DigestFinal_ex(x, ctypes.addressof(ob), None)
    C.EVP_MD_CTX_free(x)
    e.digests += 1; e.bytes += n; e.calls += 1
    w = bytes.fromhex(job["want"]) if job.get("want") else _d(e, alg, m)
    if ob.raw != w:
        return {"why": "wrong digest of a long message", "job": job, "got": ob.raw.hex(), "expected": w.hex()}
