"""Replay of OmacApi.tla into magma-ctr-acpkm-omac / kuznyechik-ctr-acpkm-omac."""
import ctypes
from lib import evp, ref, modes
from lib.evp import data, buf
from ctypes import c_int, byref, c_void_p, c_char_p

NAME = {"m": ("magma-ctr-acpkm-omac", 8, 4), "k": ("kuznyechik-ctr-acpkm-omac", 9, 8)}
UNPROT = 0x28
OID = b"1.2.643.7.1.0.6.1.1"


class Env:
    pass


def setup(paths, seed):
    e = Env(); e.seed = seed
    e.R = ref.get(paths["ref"]); e.eng = evp.load(paths); e.C = e.eng.C
    e.ci = {k: e.eng.cipher(v[0]) for k, v in NAME.items()}
    e.obj = e.C.OBJ_txt2obj(OID, 1)
    e.calls = e.sealed = e.opened = 0
    e.kdf = {}
    return e


def stats(e):
    return dict(calls=e.calls, sealed=e.sealed, opened=e.opened)


def kdf_tree(R, key, label, seed, n, rep=1):
    out = b""; i = 1
    while len(out) < n:
        out += R.hmac(256, key, i.to_bytes(rep, "big") + label + b"\0" + seed + (n * 8).to_bytes(max(1, ((n * 8).bit_length() + 7) // 8), "big"))
        i += 1
    return out[:n]


def run_job(e, job):
    ctxs, st = {}, {"sk": [], "obj": []}
    try:
        return _run(e, job, ctxs, st)
    finally:
        for c in ctxs.values():
            e.C.EVP_CIPHER_CTX_free(c)
        e.C.ERR_clear_error()


def der_os(b):
    return b"\x04" + bytes([len(b)]) + b


def attr_stack(e, mac):
    sk = c_void_p(e.C.OPENSSL_sk_new_null())
    if mac is not None:
        m = buf(mac, max(1, len(mac)))
        assert e.C.X509at_add1_attr_by_OBJ(byref(sk), e.obj, 4, ctypes.addressof(m), len(mac))
    return sk


def free_stack(e, sk):
    for i in range(e.C.OPENSSL_sk_num(sk)):
        e.C.X509_ATTRIBUTE_free(e.C.OPENSSL_sk_value(sk, i))
    e.C.OPENSSL_sk_free(sk)


def _run(e, job, ctxs, st):
    C, R, jid, alg = e.C, e.R, job["id"], job["alg"]
    name, a, ivl = NAME[alg]
    B = R.bs(a)
    par, macs, cts, inp = {}, {}, {}, {}
    keyb = lambda k: data(e.seed, "okey", k, 32)
    ivb = lambda v: (b"\xff" * ivl if v == 3 else data(e.seed, "oiv", v, ivl))

    def keys(k, seed):
        q = (k, seed)
        if q not in e.kdf:
            e.kdf[q] = kdf_tree(R, keyb(k), b"kdf tree", seed, 64)
        return e.kdf[q][:32], e.kdf[q][32:]

    def crypt(k, p, v, sec, d):
        return modes.process(R, "ctr", a, keys(k, par[p][ivl:])[0], ivb(v), sec, d, 1)
    for i, o in enumerate(job["ops"]):
        s, op = o["s"], o["op"]
        e.calls += 1
        if s not in ctxs:
            ctxs[s] = C.EVP_CIPHER_CTX_new()
        x = ctxs[s]

        def bad(why, **kw):
            d = {"step": i, "op": o, "why": why, "alg": name, "errors": C.errs()[:3]}
            d.update({k: (v[:64].hex() if isinstance(v, bytes) else v) for k, v in kw.items()})
            return d

        def upd(d, ip):
            n = len(d)
            ib = buf(d + b"\xa5" * 32, n + 32)
            ob = ib if ip else buf(b"\x5a" * (n + 32), n + 32)
            ol = c_int(-1)
            r = C.EVP_CipherUpdate(x, ctypes.addressof(ob), byref(ol), ctypes.cast(ib, c_char_p), n)
            if r == 1 and (ol.value != n or ob.raw[n:] != (b"\xa5" if ip else b"\x5a") * 32):
                return r, None
            return r, ob.raw[:n]
        if op == "sinit":
            if o["new"]:
                C.EVP_CIPHER_CTX_reset(x)
            if C.EVP_CipherInit_ex(x, e.ci[alg] if o["new"] else None, e.eng.e if o["new"] else None, keyb(o["key"]) if o["key"] else None,
                                   ivb(o["iv"]) if o["iv"] else None, 1) != 1:
                return bad("init failed")
        elif op == "sexp":
            t = C.ASN1_TYPE_new()
            r = C.EVP_CIPHER_param_to_asn1(x, t)
            if r <= 0:
                C.ASN1_TYPE_free(t)
                return bad("parameters not given: %d" % r)
            p = c_void_p(None)
            n = C.i2d_ASN1_TYPE(t, byref(p))
            der = ctypes.string_at(p.value, n); C.free(p); C.ASN1_TYPE_free(t)
            ukm = der[4:]
            if der != b"\x30" + bytes([len(ukm) + 2]) + der_os(ukm) or len(ukm) != ivl + 8 or ukm[:ivl] != ivb(o["iv"]):
                return bad("wrong parameters", got=der)
            if o["par"]:
                if par[o["par"]][ivl:] != ukm[ivl:]:
                    return bad("the seed changed without a new key")
            else:
                if any(ukm[ivl:] == u[ivl:] for u in par.values()) or ukm[ivl:] == bytes(8):
                    return bad("the seed of another key was used again", got=ukm)
                par[i + 1] = ukm
        elif op == "supd":
            d = data(e.seed, "in", jid, i + 1, o["n"])
            inp[i + 1] = d
            r, got = upd(d, o["ip"])
            want = crypt(o["key"], o["par"], o["iv"], o["sec"], bytes(o["pos"]) + d)[o["pos"]:]
            if r != 1 or got != want:
                return bad("wrong ciphertext (%d)" % r, got=got, expected=want)
        elif op == "sfin":
            ob = buf(64); ol = c_int(-1)
            if C.EVP_CipherFinal_ex(x, ob, byref(ol)) != 1 or ol.value != 0:
                return bad("final failed")
            m = o["m"]
            d = b"".join(inp[k] for k, _ in m["seg"])
            mac = R.cmac(a, keys(m["key"], par[m["par"]][ivl:])[1], d)
            full = crypt(m["key"], m["par"], m["iv"], m["sec"], d + mac)
            cts[m["id"]], macs[m["id"]] = full[:len(d)], full[len(d):]
            sk = c_void_p(C.OPENSSL_sk_new_null())
            r = C.EVP_CIPHER_CTX_ctrl(x, UNPROT, 1, sk)
            v = C.X509at_get0_data_by_OBJ(sk, e.obj, -3, 4) if r > 0 else None
            got = None
            if v:
                # struct asn1_string_st {int length; int type; unsigned char *data; ...}
                got = ctypes.string_at(ctypes.cast(v + 8, ctypes.POINTER(c_void_p))[0], ctypes.cast(v, ctypes.POINTER(c_int))[0])
            free_stack(e, sk)
            e.sealed += 1
            if got != macs[m["id"]]:
                return bad("wrong MAC (%d) of %d bytes" % (r, len(d)), got=got, expected=macs[m["id"]])
        elif op == "rpar":
            if o["new"]:
                C.EVP_CIPHER_CTX_reset(x)
                if C.EVP_CipherInit_ex(x, e.ci[alg], e.eng.e, None, None, 0) != 1:
                    return bad("init failed")
            m = o["m"]
            u = bytearray(ivb(m["iv"]) + par[m["par"]][ivl:])
            h = data(e.seed, "flip", jid, i, 1)[0]
            if o["alt"] == "iv":
                u[h % ivl] ^= 1 << (h >> 5)
            elif o["alt"] == "seed":
                u[ivl + h % 8] ^= 1 << (h >> 5)
            der = b"\x30" + bytes([len(u) + 2]) + der_os(bytes(u))
            b = buf(der, len(der)); p = c_void_p(ctypes.addressof(b))
            t = C.d2i_ASN1_TYPE(None, byref(p), len(der))
            r = C.EVP_CIPHER_asn1_to_param(x, t)
            C.ASN1_TYPE_free(t)
            if r <= 0:
                return bad("parameters refused: %d" % r)
        elif op == "rkey":
            if C.EVP_CipherInit_ex(x, None, None, keyb(o["key"]) if o["key"] else None, ivb(o["iv"]) if o["iv"] else None, 0) != 1:
                return bad("init failed")
        elif op == "rtag":
            mac = macs[o["id"]]
            h = data(e.seed, "flip", jid, i, 1)[0]
            if o["alt"] == "flip":
                mac = bytearray(mac); mac[h % B] ^= 1 << (h >> 5); mac = bytes(mac)
            elif o["alt"] == "short":
                mac = mac[:-1]
            elif o["alt"] == "long":
                mac += b"\0"
            elif o["alt"] == "none":
                mac = None
            sk = attr_stack(e, mac)
            r = C.EVP_CIPHER_CTX_ctrl(x, UNPROT, 0, sk)
            free_stack(e, sk)
            if (r > 0) != bool(o["ok"]):
                return bad("MAC attribute: %d" % r)
        elif op == "rupd":
            m = o["m"]
            ct = cts[m["id"]]
            h = int.from_bytes(data(e.seed, "flip", jid, s, m["id"], 4), "big")
            if o["ctalt"] == "flip":
                ct = bytearray(ct); ct[h % len(ct)] ^= 1 << (h >> 29); ct = bytes(ct)
            elif o["ctalt"] == "last":
                ct = ct[:-1] + bytes([ct[-1] ^ 1])
            elif o["ctalt"] == "cut":
                ct = ct[:-1]
            elif o["ctalt"] == "ext":
                ct += b"\0"
            r, got = upd(ct[o["pos"]:o["pos"] + o["n"]], o["ip"])
            if r != 1 or got is None:
                return bad("decryption failed (%d)" % r)
            if o["same"]:
                d = b"".join(inp[k] for k, _ in m["seg"])
                if got != d[o["pos"]:o["pos"] + o["n"]]:
                    return bad("wrong plaintext", got=got, expected=d[o["pos"]:o["pos"] + o["n"]])
        elif op == "rfin":
            ob = buf(64); ol = c_int(-1)
            r = C.EVP_CipherFinal_ex(x, ob, byref(ol))
            if (r == 1) != bool(o["ok"]):
                return bad("final %s" % ("accepted an altered message" if r == 1 else "rejected a message nobody altered"))
            e.opened += r == 1
        elif op == "nokey":
            if o["n"]:
                r, _ = upd(bytes(o["n"]), 0)
            else:
                ob = buf(64); ol = c_int(-1)
                r = C.EVP_CipherFinal_ex(x, ob, byref(ol))
            if r == 1:
                return bad("worked without a key")
        elif op == "copy":
            if o["t"] not in ctxs:
                ctxs[o["t"]] = C.EVP_CIPHER_CTX_new()
            if C.EVP_CIPHER_CTX_copy(ctxs[o["t"]], x) != 1:
                return bad("copy failed")
        elif op == "free":
            C.EVP_CIPHER_CTX_free(x)
            del ctxs[s]
        C.ERR_clear_error()
    return None
