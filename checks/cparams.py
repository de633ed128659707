"""Replay of CipherParams.tla: ASN.1 parameters of ciphers, EVP_CIPHER_param_to_asn1 / _asn1_to_param."""
import ctypes
from lib import evp, ref, modes
from lib.evp import data, buf
from checks import mgm
from checks.ciphers import header_const
from ctypes import c_int, byref, c_void_p

NAMES = {k: v for k, v in modes.ALG.items()}
NAMES.update(mctro=("magma-ctr-acpkm-omac", 8), kctro=("kuznyechik-ctr-acpkm-omac", 9), mmgm=("magma-mgm", 8), kmgm=("kuznyechik-mgm", 9))
IVL = dict(modes.IVLEN, mctro=4, kctro=8, mmgm=8, kmgm=16)
OID = {"A": "1.2.643.2.2.31.1", "B": "1.2.643.2.2.31.2", "C": "1.2.643.2.2.31.3", "D": "1.2.643.2.2.31.4", "T": "1.2.643.2.2.31.0",
       "Z": "1.2.643.7.1.2.5.1.1"}
TAG = {"os": 4, "null": 5, "int": 2, "set": 0x31, "oid": 6, "utf8": 12, "seq": 0x30, "bits": 3, "ctx": 0x80}


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.load(paths); e.C = e.eng.C
    e.ci = {k: e.eng.cipher(v[0]) for k, v in NAMES.items()}
    e.SET_SBOX = header_const("EVP_CTRL_SET_SBOX")
    e.calls = e.taken = e.given = e.refused = e.bytes = 0
    return e


def stats(e):
    return dict(calls=e.calls, taken=e.taken, given=e.given, refused=e.refused, bytes=e.bytes)


def tlv(t, c):
    n = len(c)
    return bytes([t]) + (bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])) + c


def oid(s):
    p = [int(x) for x in OID.get(s, s).split(".")]
    out = bytes([p[0] * 40 + p[1]])
    for v in p[2:]:
        b = [v & 127]
        while v > 127:
            v >>= 7
            b.insert(0, v & 127 | 128)
        out += bytes(b)
    return tlv(6, out)


def flip(e, jid, b, steps):
    b = bytearray(b)
    for f in steps:
        h = int.from_bytes(data(e.seed, "flip", jid, f, 4), "big") % (8 * len(b))
        b[h // 8] ^= 1 << (h % 8)
    return bytes(b)


def ivb(e, alg, jid, iv):
    n = IVL[alg]
    if not n:
        return b""
    v = iv[0]
    b = b"\xff" * n if v == 3 else bytes(n - 1) + b"\x01" if v == 4 else data(e.seed, "cpiv", v, n)
    if alg in ("mmgm", "kmgm"):
        b = bytes([b[0] & 127]) + b[1:]
    return flip(e, jid, b, iv[1:])


def run_job(e, job):
    ctxs = {}
    try:
        return _run(e, job, ctxs)
    finally:
        for c in ctxs.values():
            e.C.EVP_CIPHER_CTX_free(c)
        e.C.ERR_clear_error()


def _run(e, job, ctxs):
    C, R, jid = e.C, e.R, job["id"]
    seeds = {}          # name -> bytes seen
    keyb = lambda k: data(e.seed, "cpkey", k, 32)

    def part(p, alg):
        what, org, n = p
        if what == "zero":
            return bytes(n)
        if what == "iv":
            return (ivb(e, ivalg(alg, n), jid, org) + bytes(16))[:n]
        b = seeds[org[0]] if org[0] in seeds else data(e.seed, "cpseed", jid, org[0], 8) if org[0] < 0 else None
        return flip(e, jid, b, org[1:])[:n]

    def ivalg(alg, n):      # an IV of another cipher keeps that cipher's length
        for a in (alg, "kcbc", "g28cfb", "mctr"):
            if IVL[a] in (n, n + 1):
                return a
        raise ValueError(n)

    def elem(x, alg):
        c = b"".join(part(p, alg) for p in x["parts"])
        k = x["k"]
        if k == "oid":
            return oid(x["o"])
        if k == "int":
            c = b"\x01" + c
        elif k == "bits":
            c = b"\0" + c
        elif k == "seq":
            c = tlv(4, c)
        elif k == "null":
            c = b""
        elif k == "utf8":
            c = b"x" * len(c)
        return tlv(TAG[k], c)

    for i, o in enumerate(job["ops"]):
        s, op, alg = o["s"], o["op"], o["alg"]
        e.calls += 1
        if s not in ctxs:
            ctxs[s] = C.EVP_CIPHER_CTX_new()
        x = ctxs[s]

        def bad(why, **kw):
            d = {"step": i, "op": o, "why": why, "alg": NAMES[alg][0], "errors": C.errs()[:3]}
            d.update({k: (v[:80].hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
            return d
        if op == "new":
            C.EVP_CIPHER_CTX_reset(x)
            if C.EVP_CipherInit_ex(x, e.ci[alg], e.eng.e, None, None, o["enc"]) != 1:
                return bad("init failed")
            C.EVP_CIPHER_CTX_set_padding(x, 0)
        elif op == "start":
            v = ivb(e, alg, jid, [o["iv"]]) if o["iv"] and IVL[alg] else None
            if C.EVP_CipherInit_ex(x, None, None, keyb(o["key"]) if o["key"] else None, v, o["enc"]) != 1:
                return bad("init failed")
        elif op == "sbox":
            nm = buf(modes.NAMES[o["v"]])
            if C.EVP_CIPHER_CTX_ctrl(x, e.SET_SBOX, 0, ctypes.addressof(nm)) <= 0:
                return bad("S-box control failed")
        elif op == "take":
            t = C.ASN1_TYPE_new()
            r = C.EVP_CIPHER_param_to_asn1(x, t)
            der = b""
            if r > 0:
                p = c_void_p(None)
                n = C.i2d_ASN1_TYPE(t, byref(p))
                der = ctypes.string_at(p.value, n) if n > 0 else b""
                C.free(p)
            C.ASN1_TYPE_free(t)
            if (r > 0) != bool(o["ok"]):
                return bad("parameters %s (%d)" % ("not given" if o["ok"] else "given by a cipher that has none", r))
            if o["ok"]:
                e.taken += 1
                if o["fresh"]:
                    sd = der[-8:]
                    if alg in ("mctra", "kctra", "mctro", "kctro"):
                        if sd in seeds.values() or sd == bytes(8):
                            return bad("the seed of another context was used again", got=der)
                    seeds[i + 1] = sd
                want = tlv(0x30, b"".join(elem(y, alg) for y in o["e"]))
                if der != want:
                    return bad("wrong parameters", got=der, expected=want)
        elif op == "give":
            body = b"".join(elem(y, alg) for y in o["e"])
            k = o["t"]
            if k == "cut":
                body = body[:len(body) - 1 - o["x"] % max(1, len(body))]
            elif k == "inner":
                body = tlv(0x30, body)
            elif k == "null":
                body = b""
            elif k == "oid":
                body = oid("Z")[2:]
            elif k == "utf8":
                body = b"x" * len(body)
            der = tlv(TAG.get(k, 0x30), body)
            if k == "undef":
                if e.eng.e is None:     # libcrypto itself fails to encode an undefined ASN1_TYPE for a provider
                    continue
                t = C.ASN1_TYPE_new()
            else:
                b = buf(der, len(der)); p = c_void_p(ctypes.addressof(b))
                t = C.d2i_ASN1_TYPE(None, byref(p), len(der))
            r = C.EVP_CIPHER_asn1_to_param(x, t)
            C.ASN1_TYPE_free(t)
            if (r > 0) != bool(o["ok"]):
                return bad("parameters %s (%d)" % ("refused" if o["ok"] else "accepted", r), der=der)
            if r > 0:
                e.given += 1
            else:
                e.refused += 1
        elif op == "upd":
            seg = b"".join(data(e.seed, "cpin", jid, k, n) for k, n in o["seg"])
            n = o["n"]
            a = modes.SBOX[o["sbox"]] if o["sbox"] else NAMES[alg][1]
            e.bytes += n
            iv, key = ivb(e, alg, jid, o["iv"]) if IVL[alg] else b"", keyb(o["key"])
            if o["mode"] == "mgm":
                want = modes.xor(mgm.keystream(R, a, key, iv, len(seg)), seg)
            else:
                want = modes.process(R, o["mode"], a, key, iv, o["sec"], seg, o["enc"])
            want = want[o["pos"]:]
            ob = buf(b"\x5a" * (n + 32), n + 32)
            ol = c_int(-1)
            r = C.EVP_CipherUpdate(x, ob, byref(ol), seg[o["pos"]:], n)
            if r != 1 or ol.value != n or ob.raw[n:] != b"\x5a" * 32:
                return bad("update: %d, %d bytes" % (r, ol.value))
            if ob.raw[:n] != want:
                k = next(j for j in range(n) if ob.raw[j] != want[j])
                return bad("wrong output from byte %d of the message" % (o["pos"] + k), got=ob.raw[k:n], expected=want[k:])
        C.ERR_clear_error()
    return None
