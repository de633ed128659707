"""Replay of MgmTamper.tla: seal with the engine, alter, open with the engine."""
import ctypes
from lib import evp
from lib.evp import data, buf
from ctypes import c_int, byref
from .mgm import Env, NAME, keyb, nonce, GET_TAG, SET_TAG, setup, stats


def call(C, x, d, out, cut):
    """feed d in pieces; cut 0: one call, else pieces of growing size starting with cut"""
    i, res, k = 0, b"", cut or len(d)
    while i < len(d):
        p = d[i:i + k]
        ob = buf(len(p) + 32) if out else None
        ol = c_int(0)
        ib = buf(p, len(p) + 1)
        if C.EVP_CipherUpdate(x, ctypes.addressof(ob) if out else None, byref(ol), ctypes.cast(ib, ctypes.c_char_p), len(p)) != 1:
            return None
        if out:
            res += ob.raw[:len(p)]
        i += k; k += cut and 3
    return res


def seal(e, alg, key, n, A, P, B):
    C = e.C; x = C.EVP_CIPHER_CTX_new()
    try:
        assert C.EVP_CipherInit_ex(x, e.ci[alg], e.eng.e, key, n, 1) == 1
        call(C, x, A, False, 0)
        ct = call(C, x, P, True, 0)
        ob = buf(32); ol = c_int(0)
        if ct is None or C.EVP_CipherFinal_ex(x, ob, byref(ol)) != 1:
            return None
        tb = buf(B)
        C.EVP_CIPHER_CTX_ctrl(x, GET_TAG, B, ctypes.addressof(tb))
        return ct, tb.raw
    finally:
        C.EVP_CIPHER_CTX_free(x)


def flip(d, b):
    return d[:b // 8] + bytes([d[b // 8] ^ (0x80 >> (b % 8))]) + d[b // 8 + 1:]


def swap(d, i, j, B):
    L = [d[k:k + B] for k in range(0, len(d), B)]
    L[i], L[j] = L[j], L[i]
    return b"".join(L)


def run_job(e, o):
    B = o["b"]; alg = "mmgm" if B == 8 else "kmgm"
    C = e.C
    k0, n0 = keyb(e, 1), nonce(e, alg, 1, o["sa"] % 6 + 1)
    A = data(e.seed, "tA", o["sa"], o["sa"]); P = data(e.seed, "tP", o["sm"], o["sm"])
    ck = (alg, o["sa"], o["sm"])
    if ck not in e.cache:
        e.cache[ck] = seal(e, alg, k0, n0, A, P, B)
    if e.cache[ck] is None:
        return {"why": "sealing failed", "case": o}
    ct, tag = e.cache[ck]
    k, n, a, c, t = k0, n0, A, ct, tag
    w, p, q = o["x"]
    if w == "nonce": n = flip(n, p)
    elif w == "tag": t = flip(t, p)
    elif w == "aad": a = flip(a, p)
    elif w == "ct": c = flip(c, p)
    elif w == "key": k = flip(k, p)
    elif w == "adrop": a = a[:-p]
    elif w == "cdrop": c = c[:-p]
    elif w == "aext": a += bytes(p)
    elif w == "cext": c += bytes(p)
    elif w == "a2c": a, c = a[:-p], a[-p:] + c
    elif w == "c2a": a, c = a + c[:p], c[p:]
    elif w == "aswap": a = swap(a, p, q, B)
    elif w == "cswap": c = swap(c, p, q, B)
    elif w == "tagzero": t = bytes(B)
    elif w == "tagone": t = b"\xff" * B
    elif w == "taghalf": t = t[:p] + bytes(B - p)
    elif w == "pair": c = flip(flip(c, p), p + q)
    assert len(a) == o["la"] and len(c) == o["lm"]
    same = (k, n, a, c, t) == (k0, n0, A, ct, tag)
    if same != (o["v"] == "open") or len(a) + len(c) == 0:
        return None                      # the alteration happens not to change these bytes (or leaves nothing)
    x = C.EVP_CIPHER_CTX_new()
    try:
        tb = buf(t, B)
        if C.EVP_CipherInit_ex(x, e.ci[alg], e.eng.e, k, n, 0) != 1:
            return {"why": "init failed", "case": o}
        if o["cut"] % 2 and C.EVP_CIPHER_CTX_ctrl(x, SET_TAG, B, ctypes.addressof(tb)) <= 0:
            return {"why": "tag refused", "case": o}
        call(C, x, a, False, o["cut"])
        pt = call(C, x, c, True, o["cut"])
        if not o["cut"] % 2 and C.EVP_CIPHER_CTX_ctrl(x, SET_TAG, B, ctypes.addressof(tb)) <= 0:
            return {"why": "tag refused", "case": o}
        ob = buf(32); ol = c_int(0)
        r = C.EVP_CipherFinal_ex(x, ob, byref(ol))
        e.calls += 1
        C.ERR_clear_error()
        if (r == 1) != (o["v"] == "open"):
            return {"why": "opening %s" % ("accepted an altered message" if r == 1 else "refused an untouched message"), "case": o}
        if r == 1 and pt != P:
            return {"why": "opened to another text", "case": o}
    finally:
        C.EVP_CIPHER_CTX_free(x)
    return None
