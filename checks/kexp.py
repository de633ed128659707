"""Replay of KExp.tla (KExp15/KImp15, CryptoPro wrap) and KWrapApi.tla (kexp15 wrap ciphers)."""
import ctypes
from lib import evp, ref, modes
from lib.evp import data, buf
from ctypes import c_int, byref, c_char_p, c_size_t, c_void_p
from .omac import Env

NID = {"m": ("magma-ctr", "magma-mac", 8, 4, 8), "k": ("kuznyechik-ctr", "kuznyechik-mac", 16, 8, 9)}
WRAP = {"m": "magma-kexp15", "k": "kuznyechik-kexp15"}
SB = {"A": ("Gost28147_CryptoProParamSetA", 3), "B": ("Gost28147_CryptoProParamSetB", 4), "C": ("Gost28147_CryptoProParamSetC", 5),
      "D": ("Gost28147_CryptoProParamSetD", 6), "Z": ("Gost28147_TC26ParamSetZ", 7)}


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.Engine(paths["engine"]); e.C = e.eng.C
    e.kexp = e.eng.fn("gost_kexp15", "i", "siisisszpp")
    e.kimp = e.eng.fn("gost_kimp15", "i", "szisisszp")
    e.nid = {k: (e.C.OBJ_txt2nid(v[0].encode()), e.C.OBJ_txt2nid(v[1].encode())) for k, v in NID.items()}
    e.ci = {k: e.eng.cipher(v) for k, v in WRAP.items()}
    e.calls = 0; e.cache = {}
    return e


def stats(e):
    return dict(calls=e.calls)


def kexp_def(R, alg, key, iv, kc, km):
    mac = R.cmac(NID[alg][4], km, iv + key)
    return modes.process(R, "ctr", NID[alg][4], kc, iv, 0, key + mac, 1)


def export(e, alg, key, iv, kc, km):
    m = NID[alg][2]
    out = buf(b"\x5a" * (len(key) + m + 16), len(key) + m + 16); ol = c_int(len(key) + m)
    r = e.kexp(key, len(key), e.nid[alg][0], kc, e.nid[alg][1], km, iv, len(iv), ctypes.addressof(out), ctypes.addressof(ol))
    if r != 1 or ol.value != len(key) + m or out.raw[len(key) + m:] != b"\x5a" * 16:
        return None
    return out.raw[:len(key) + m]


def imp(e, alg, blob, iv, kc, km):
    out = buf(b"\x5a" * 64, 64)
    b = buf(blob, max(1, len(blob)))
    r = e.kimp(ctypes.cast(b, c_char_p), len(blob), e.nid[alg][0], kc, e.nid[alg][1], km, iv, len(iv), ctypes.addressof(out))
    e.C.ERR_clear_error()
    return out.raw[:32] if r == 1 else None


# ---- CryptoPro wrap: RFC 4357 6.5, 6.3
def diversify(R, a, kek, ukm):
    k = kek
    for i in range(8):
        s = [0, 0]
        for j in range(8):
            s[0 if ukm[i] >> j & 1 else 1] += int.from_bytes(k[4 * j:4 * j + 4], "little")
        iv = b"".join((x % (1 << 32)).to_bytes(4, "little") for x in s)
        k = R.cfb(a, k, iv, k, 1)[0]
    return k


def cpwrap_def(R, a, kek, ukm, cek):
    k = diversify(R, a, kek, ukm)
    return R.ecb(a, k, cek), R.imit(a, k, ukm, cek)[:4]


def cpctx(e, sb):
    x = buf(16384)
    e.eng.so.gost_init(x, ctypes.byref(ctypes.c_char.in_dll(e.eng.so, SB[sb][0])))
    return x


def cpwrap(e, sb, kek, ukm, cek):
    x = cpctx(e, sb); out = buf(b"\x5a" * 64, 64)
    r = e.eng.so.keyWrapCryptoPro(x, c_char_p(kek), c_char_p(ukm), c_char_p(cek), out)
    return out.raw[:44] if r == 1 and out.raw[44:] == b"\x5a" * 20 else None


def cpunwrap(e, sb, kek, w):
    x = cpctx(e, sb); out = buf(64)
    r = e.eng.so.keyUnwrapCryptoPro(x, c_char_p(kek), c_char_p(w), out)
    return out.raw[:32] if r == 1 else None


def flip(d, b):
    return d[:b // 8] + bytes([d[b // 8] ^ (0x80 >> (b % 8))]) + d[b // 8 + 1:]


def special(e, what, v, n):
    if v % 7 == 5:
        return bytes(n)
    if v % 7 == 6:
        return b"\xff" * n
    return data(e.seed, what, v, n)


def zeromac(e, alg, v, sb, cek, ks):
    """an IV or UKM under which the check value starts with a zero byte"""
    z = ("z", alg, v)
    if z not in e.cache:
        for i in range(10000):
            iv = data(e.seed, "ziv", v, i, 8 if alg == "cp" else NID[alg][3])
            m = cpwrap_def(e.R, SB[sb][1], ks[0], iv, cek)[1] if alg == "cp" else e.R.cmac(NID[alg][4], ks[1], iv + cek)
            if m[0] == 0:
                break
        e.cache[z] = iv
    return e.cache[z]


def run_job(e, o):
    if isinstance(o, dict) and o.get("k") == "defs":
        return defs(e, o)
    if "hist" in o:
        return hist(e, o)
    alg, v = o["alg"], o["val"]
    cp = alg == "cp"
    ivn = 8 if cp else NID[alg][3]
    cek = special(e, "cek", v * 3 + 1, 32)
    iv = special(e, "iv", v * 5 + 2, ivn)
    ks = [special(e, "kk1", v, 32), special(e, "kk2", v + 3, 32)]
    sb = "ABCDZ"[v % 5]
    q = (alg, v)
    if v % 7 == 1:
        iv = zeromac(e, alg, v, sb, cek, ks)
    if q not in e.cache:
        e.cache[q] = (cpwrap(e, sb, ks[0], iv, cek) if cp else export(e, alg, cek, iv, ks[0], ks[1])) or b""
        if cp:
            e.cache[q] = e.cache[q][8:]
    blob = e.cache[q]
    want = b"".join(cpwrap_def(e.R, SB[sb][1], ks[0], iv, cek)) if cp else kexp_def(e.R, alg, cek, iv, ks[0], ks[1])
    if blob != want:
        return {"why": "wrong export", "case": o, "got": blob.hex(), "expected": want.hex()}
    b, i, k, a = blob, iv, list(ks), alg
    w, p, r = o["x"]
    if w == "blob": b = flip(b, p)
    elif w == "iv": i = flip(i, p)
    elif w == "key": k[p - 1] = flip(k[p - 1], r)
    elif w == "pair": b = flip(flip(b, p), r)
    elif w == "bytes":
        m = bytearray(b); m[p], m[r] = m[r], m[p]; b = bytes(m)
    elif w == "rot": b = b[p:] + b[:p]
    elif w == "zero": b = b[:len(b) - p] + bytes(p)
    elif w == "short": b = b[:len(b) - p]
    elif w == "long": b = b + bytes(p)
    elif w == "swapkeys": k.reverse()
    elif w == "samekey": k = [k[p - 1]] * 2
    elif w == "other":
        a = "k" if a == "m" else "m"
    if ((b, i, k, a) == (blob, iv, ks, alg)) != (o["v"] == "key"):
        return None
    e.calls += 1
    got = cpunwrap(e, sb, k[0], i + b) if cp else imp(e, a, b, i, k[0], k[1])
    if (got is not None) != (o["v"] == "key"):
        return {"why": "import %s" % ("accepted an altered export" if got else "refused an untouched export"), "case": o}
    if got is not None and got != cek:
        return {"why": "another key came out", "case": o}
    return None


def defs(e, o):
    """exports of `n` bytes and CryptoPro wraps of arbitrary values equal the definition"""
    for v in range(o["from"], o["from"] + o["num"]):
        e.calls += 1
        if o["alg"] == "cp":
            for sb in SB:
                kek, ukm, cek = data(e.seed, "d1", v, 32), data(e.seed, "d2", v, 8), data(e.seed, "d3", v, 32)
                w = cpwrap(e, sb, kek, ukm, cek)
                a, b = cpwrap_def(e.R, SB[sb][1], kek, ukm, cek)
                if w != ukm + a + b or cpunwrap(e, sb, kek, w) != cek:
                    return {"why": "CryptoPro wrap differs from its definition", "val": v, "sbox": sb}
        else:
            n = (1, 8, 16, 31, 32, 33, 64, 100)[v % 8]
            k, iv, kc, km = data(e.seed, "d4", v, n), data(e.seed, "d5", v, NID[o["alg"]][3]), data(e.seed, "d6", v, 32), data(e.seed, "d7", v, 32)
            w = export(e, o["alg"], k, iv, kc, km)
            if w != kexp_def(e.R, o["alg"], k, iv, kc, km):
                return {"why": "KExp15 differs from its definition", "val": v, "alg": o["alg"]}
            if n == 32 and imp(e, o["alg"], w, iv, kc, km) != k:
                return {"why": "KImp15 does not give the key back", "val": v, "alg": o["alg"]}
            # lengths it cannot serve
            out = buf(256)
            for ol_, ivl in ((n + NID[o["alg"]][2] - 1, len(iv)), (256, 17), (256, 24)):
                ol = c_int(ol_)
                if e.kexp(k, n, e.nid[o["alg"]][0], kc, e.nid[o["alg"]][1], km, iv + bytes(24), ivl, ctypes.addressof(out), ctypes.addressof(ol)) > 0:
                    return {"why": "unusable lengths accepted", "out": ol_, "ivlen": ivl}
            for cn in ("magma-cbc", "gost89"):
                ol = c_int(256)
                if e.kexp(k, n, e.C.OBJ_txt2nid(cn.encode()), kc, e.nid[o["alg"]][1], km, iv, len(iv), ctypes.addressof(out), ctypes.addressof(ol)) > 0:
                    return {"why": "unusable cipher accepted"}
            e.C.ERR_clear_error()
    return None


def hist(e, job):
    C, alg = e.C, job["alg"]
    N = NID[alg][2] + 32
    keyb = lambda k: data(e.seed, "wk", k, 64)
    ivb = lambda v: data(e.seed, "wiv", v, NID[alg][3])
    cek = lambda b: data(e.seed, "wcek", b, 32)
    blob = lambda b: kexp_def(e.R, alg, cek(b), ivb(b % 10), keyb(b // 10)[32:], keyb(b // 10)[:32])
    x = C.EVP_CIPHER_CTX_new()
    try:
        for i, o in enumerate(job["hist"]):
            e.calls += 1
            def bad(w, **kw):
                return dict(step=i, op=o, why=w, **kw)
            if o["op"] == "init":
                if o["new"]:
                    C.EVP_CIPHER_CTX_reset(x)
                    C.EVP_CIPHER_CTX_set_flags(x, 1) if hasattr(C, "EVP_CIPHER_CTX_set_flags") else C.L.EVP_CIPHER_CTX_set_flags(c_void_p(x), c_int(1))
                if C.EVP_CipherInit_ex(x, e.ci[alg] if o["new"] else None, e.eng.e if o["new"] else None, keyb(o["key"]) if o["key"] else None,
                                       ivb(o["iv"]) if o["iv"] else None, 0 if not o["enc"] else 1) != 1:
                    return bad("init failed", errs=C.errs())
            elif o["op"] == "piece":
                d = (blob(o["blob"]) + bytes(8))
                d = (d[o["off"]:] + bytes(64))[:o["n"]]
                if o["flip"] and d:
                    d = flip(d, data(e.seed, job["id"], i, 1)[0] * 7 % (8 * len(d)))
                ob = buf(b"\x5a" * 64, 64); ol = c_int(-9); ib = buf(d, max(1, len(d)))
                r = C.EVP_CipherUpdate(x, ctypes.addressof(ob), byref(ol), ctypes.cast(ib, c_char_p), len(d))
                if (r != 1) != (o["out"] < 0):
                    return bad("piece %s" % ("taken" if r == 1 else "refused"))
                if o["out"] >= 0 and (ol.value != o["out"] or ob.raw[:o["out"]] != cek(o["blob"])[:o["out"]] or ob.raw[o["out"]:] != b"\x5a" * (64 - o["out"])):
                    return bad("wrong output", n=ol.value)
            elif o["op"] == "size":
                ol = c_int(-9)
                if C.EVP_CipherUpdate(x, None, byref(ol), b"x" * N, N) != 1 or ol.value != 32:
                    return bad("wrong size", n=ol.value)
            elif o["op"] == "fin":
                ob = buf(b"\x5a" * 64, 64); ol = c_int(-9)
                r = C.EVP_CipherFinal_ex(x, ob, byref(ol))
                if (r == 1) != bool(o["ok"]) or ob.raw != b"\x5a" * 64 or (r == 1 and ol.value != 0):
                    return bad("final: %d, %d bytes" % (r, ol.value))
            elif o["op"] == "enc":
                ob = buf(128); ol = c_int(-9)
                if C.EVP_CipherUpdate(x, ctypes.addressof(ob), byref(ol), bytes(64), o["n"]) == 1:
                    return bad("encryption pretended to work", n=ol.value)
            C.ERR_clear_error()
    finally:
        C.EVP_CIPHER_CTX_free(x)
    return None
